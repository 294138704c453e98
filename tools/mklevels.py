"""texts of MANIFEST.json, per property"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "tools/levels.json")
L = json.load(open(p))
COMMON = "The real library, pyomo's presolve, NL writer and solution reader run in a forked process; solver, disk, clock, network, interruptions and thread switches are simulated and seeded. "
END = " Seeded sampling: a clean batch is evidence, not proof."
T = {
 "P01": ("seeded interleavings of the lives of several models and of disturbing activity in one process, compared operation by operation with each life alone in a fresh process", "Refinement against the same code run alone: problem digests, values and files must be equal, bit for bit."),
 "P02": ("Ctrl-C at every library line in turn (walked through, seeded occurrence), failing and short reads, vanishing files; the retry is compared with a process where nothing went wrong", "Interruption points are enumerated over the lines of the modules with process-wide state and sampled elsewhere."),
 "P03": ("controlled thread scheduler (one runnable thread, seeded switch at line events, threads parked at walked-through lines); every built problem and every saved file is compared with a lone build or save", "Scheduling points are line events of the library's shared-state modules, of all library code, or of pyomo's too; switches inside one line are not explored."),
 "P04": ("seeded sequences of solver outcomes (solved, infeasible, unbounded, limits, errors, crashes, no or unreadable answers, Ctrl-C) on one model; status, exception, loaded values and options are judged after every call, the last answer against a fresh process", "One known finding is listed: an answer file cut right before its status line."),
 "P05": ("simulated NEOS service and network: lost, refused, repeated, reset and delayed calls, outages, queues, rejections and bad answers by seed; loaded values are compared with what the service sent", "pyomo's NEOS client is real, its XML-RPC proxy is simulated. One known finding is listed: an answer with too few variables."),
 "P06": ("adversarial solver answers after failed solves and process histories; all reported values are inserted into the model rebuilt without simplification and every equation and bound is evaluated", "Oracle: the library's own model before simplification (its correctness is the matter of M01-M12)."),
 "P07": ("tables saved at seeded points of process histories are compared, entry by entry, with the values of the solved model, units with a table, settings files with the caller's settings", "Oracle: values read from the model through pyomo, printed independently; unit table in mimsim/props/saving.py."),
 "P08": ("the disk after a process stop at every disk operation of a save, after machine stops with seeded loss of unsynced data, after Ctrl-C at walked-through lines and after I/O errors; some disks are continued by a new process", "Every stop point of each sampled save is judged; losses after machine stops are sampled. Trusted: the crash model of mimsim/fs.py."),
 "P09": ("every disk operation of a save fails in turn (errors, part written, short writes, lasting full disk, blocked folder), followed by a retry on a healthy disk", "Every operation of a save is hit, with sampled error kinds."),
 "P10": ("results of runs with a seeded history are rebuilt in another process from the stored settings file alone; problem, answer and saved table must be equal", "Refinement against the original run, bit for bit."),
 "P11": ("seeded corruptions and edge values of every documented setting (unknown keys, wrong types, ranges, choices, dimensions, unreadable and non-finite numbers) and combinations of up to 30 unusual valid values, at seeded moments of a process's history, and with failing reads of the settings and data files; refusals must leave no file and no solver call, and a later valid run must equal one in a fresh process", "Oracle: a snapshot of the documented schema (mimsim/schema.json) with independent type, range and dimension rules; later runs are compared bit for bit."),
 "M12": ("a first run is solved and saved, then prescribed (table, pattern, dictionary) with one value moved to either side of the tolerance, after failed solves, damaged tables and failing reads; the simulated solver answers the second run with the path of the first", "Judged by evaluating the submitted problem at the first run's path and by the independent reference model."),
 "M13": ("each setting written in other units and each regional override on its own, in processes with a history and with failing reads; the problems submitted to the solver are compared number by number", "Refinement between equivalent settings, bit-tight tolerance for rewritten units; quantities that must not change are compared region by region."),
 "M14": ("own baseline tables (units, years, column case, decoy rows), regional and conversion tables, other region types, settings files and references, after process histories, interrupted builds and failing reads; or one seeded damage to the inputs, which has to fail loudly", "Judged by the independent reference model reading the same tables; settings files are also compared with the dictionary, number by number."),
 "P13": ("the same seeded run in three surroundings - plain, same interpreter with another clock, folders, buffer sizes, short reads, order of directory listings and foreign files of the library's names, and a newly started interpreter with another hash seed, locale and time zone; problems, values and files must be equal", "Refinement between surroundings, bit for bit."),
 "P14": ("each run script executed as the main program with a seeded solver outcome per scenario, disk faults, Ctrl-C and prior states of the output folder, then started again in a new process on what was left behind", "Oracle: an independent statement of every scenario and of the printed costs; solver answers are followed into the saved tables. Most episodes use two or three regions, some of run.py all 26."),
 "P12": ("the owner edits the settings dictionary at seeded moments of the model's life; compared with the life without edits", "Refinement against the same run without edits, bit for bit."),
}
for k, (t, n) in T.items():
    L[k] = {"technique": t, "note": COMMON + n + END}
    if k in ("P08", "P09"):
        L[k]["level"] = "fault_enumeration"
json.dump(L, open(p, "w"), indent=1)
