"""P07, P08, P09: what saving leaves on the disk - in good times, at a stop at
any point, and when operations of the disk fail."""
import copy
import csv
import io
import json
import random
import re

from .. import fs, runner, workload
from .base import Outcome, Prop, harness_guard, key
from .model import count_faults, noise
from .process import SOLVE_FAULTS, honest, json_diff, neighbour

UNITS = {
    "regional_emissions": "GtCO2/yr", "baseline": "GtCO2/yr", "relative_abatement": "fraction_of_baseline_emissions",
    "regional_emission_reduction": "GtCO2/yr", "cumulative_emissions": "GtCO2", "global_emissions": "GtCO2/yr",
    "emission_relative_cumulative": "dimensionless", "temperature": "degC_above_PI", "slr_thermal": "m", "slr_cumgsic": "m",
    "slr_cumgis": "m", "total_SLR": "m", "damage_costs_non_slr": "fraction_of_GDP", "damage_costs_slr": "fraction_of_GDP",
    "carbonprice": "usd*trillion/GtCO2/yr", "mitigation_costs": "usd*trillion/yr", "area_under_MAC": "usd*trillion/yr",
    "rel_mitigation_costs": "fraction_of_GDP", "global_emission_reduction_per_cost_unit": "GtCO2/usd/trillion",
    "global_cost_per_emission_reduction_unit": "usd*trillion/GtCO2", "LBD_factor": "dimensionless", "LOT_factor": "dimensionless",
    "learning_factor": "dimensionless", "effort_sharing_common_level": "fraction_of_GDP", "capital_stock": "usd*trillion/yr",
    "GDP_gross": "usd*trillion/yr", "GDP_net": "usd*trillion/yr", "investments": "usd*trillion/yr", "consumption": "usd*trillion/yr",
    "utility": "dimensionless", "yearly_welfare": "dimensionless", "NPV": "dimensionless", "population": "billion*people",
    "baseline_GDP": "usd*trillion/yr", "baseline_emissions": "GtCO2/yr", "baseline_carbon_intensity": "GtCO2/usd/trillion",
    "import_export_emission_reduction_balance": "GtCO2/yr", "import_export_mitigation_cost_balance": "usd*trillion/yr",
    "paid_for_emission_reductions": "GtCO2/yr", "regional_emission_allowances": "GtCO2/yr",
}
SAVE_KW = [{}, {}, {}, {"folder": "results"}, {"folder": "output/deep/er"}, {"hash_suffix": True}, {"hash_suffix": True, "folder": "elsewhere"}, {"hash_suffix": False}]


def tables(files, name, kw):
    """the result files a save call announced: [(path of the table, its text, its settings)]"""
    folder = kw.get("folder", "output")
    pat = re.escape(f"{folder}/{name}") + (r"_[0-9a-f]{6,40}" if kw.get("hash_suffix") else "") + r"\.csv"
    return [(p, files[p], files.get(p + ".params.json")) for p in sorted(files) if re.fullmatch(pat, p)]


def check_table(out, text, vals):
    """the table, entry by entry, against the values of the model"""
    rows = list(csv.reader(io.StringIO(text)))
    years = ["{:g}".format(y) for y in vals["years"]]
    out.evals += 2
    if not rows or rows[0] != ["Variable", "Region", "Unit"] + years:
        out.bad("wrong-header", f"the header is {rows[0] if rows else None}, expected the years {years}")
        return
    if not text.endswith("\n"):
        out.bad("truncated-table", "the last line has no end")
        return
    want = {}
    n = {"R": len(vals["regions"])}
    for name, v in vals["v"].items():
        if name.startswith("_"):
            continue
        if v and isinstance(v[0], list):
            for i, r in enumerate(vals["regions"]):
                want[name, r] = [row[i] for row in v]
        elif vals["kind"].get(name) == "Var":
            want[name, "Global"] = v
    got = {}
    for row in rows[1:]:
        k = (row[0], row[1])
        out.evals += 1
        if k in got:
            out.bad("duplicate-row", f"{k} twice")
            return
        if len(row) != len(rows[0]):
            out.bad("wrong-row-length", f"{k}: {len(row)} columns instead of {len(rows[0])}")
            return
        got[k] = row
        if k not in want:
            out.bad("unknown-row", f"{k} is no quantity of the model")
            return
        exp = ["" if x is None else "%.6g" % x for x in want[k]]
        out.evals += len(exp)
        if row[3:] != exp:
            for y, a, b in zip(years, row[3:], exp):
                if a != b and not same(a, b):
                    out.bad("wrong-entry", f"{k} in {y}: the table says {a}, the model {b}")
                    return
        if row[0] in UNITS and row[2] != UNITS[row[0]]:
            out.bad("wrong-unit", f"{row[0]} has unit {row[2]} instead of {UNITS[row[0]]}")
            return
    lost = [k for k in want if k not in got]
    out.evals += len(want)
    if lost:
        out.bad("missing-row", f"{len(lost)} rows are missing, e.g. {lost[:3]}")


def same(a, b):
    """two ways to print one number"""
    try:
        return float(a) == float(b)
    except ValueError:
        return False


TRUE, FALSE = {"true", "yes", "on", "1", "y"}, {"false", "no", "off", "0", "n"}


def check_settings(out, text, user):
    try:
        got = json.loads(text)
    except ValueError as e:
        out.bad("unreadable-settings", str(e))
        return

    def walk(a, b, path):
        if isinstance(a, dict) and isinstance(b, dict):
            for k in list(a) + [k for k in b if k not in a]:
                if k not in b:
                    return f"{path + [k]} is missing"
                if k not in a:
                    return f"{path + [k]} was not asked for"
                r = walk(a[k], b[k], path + [k])
                if r:
                    return r
            return None
        out.evals += 1
        if isinstance(b, bool) and not isinstance(a, bool):
            if str(a).lower() in (TRUE if b else FALSE):
                return None
        elif isinstance(a, str) and isinstance(b, (int, float)) and not isinstance(b, bool):
            try:  # a number written as a string means that number
                if float(a) == b:
                    return None
            except ValueError:
                pass
        elif isinstance(a, str) and "{" in a:
            exp = re.sub(r"\{([^{}]*)\}", lambda m: str(user.get(m.group(1), m.group(0))), a)
            if b == exp:
                return None
        elif a == b and type(a) == type(b) or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b):
            return None
        return f"{path} is {json.dumps(b)[:80]} instead of {json.dumps(a)[:80]}"

    r = walk(user, got, [])
    if r:
        out.bad("wrong-settings-file", r)


class P07(Prop):
    id = "P07"
    quick = 240
    rule = "an episode = one configuration built and solved in a process with a history, then saved up to three times (other names, folders, hash suffix; between further solves, edits of the settings and other models); every entry of every table is compared; distinct = different (configuration, history)"

    def generate(self, rng, ctx):
        o = workload.gen_settings(rng, rng.choice([set(), {"trade"}, {"pool"}, {"effort"}, {"damages"}]), max_regions=5)
        p = ctx.settings(o)
        steps = []
        for k in range(rng.randint(1, 3)):
            steps.append({
                "before": [dict(rng.choice(SOLVE_FAULTS), seed=rng.randrange(99)) for _ in range(rng.choice([0, 0, 1]))],
                "response": honest(rng, p),
                "edit": rng.random() < 0.3,
                "other": workload.gen_settings(rng, max_regions=2) if rng.random() < 0.25 else None,
                "name": rng.choice(["run", "run", f"run{k}", "a b.c", "x-y_z"]),
                "kw": rng.choice(SAVE_KW),
            })
        return {"settings": o, "prelude": noise(rng, ctx), "steps": steps, "env": {"seed": rng.randrange(10**6), "bufsize": rng.choice([None, 128, 512, 65536])}}

    def shrinks(self, case):
        n = len(case["steps"])
        for i in range(n):
            if n > 1:
                yield dict(case, steps=case["steps"][:i] + case["steps"][i + 1 :])
        for i, s in enumerate(case["steps"]):
            for k, v in (("before", []), ("other", None), ("edit", False)):
                if s[k]:
                    c = copy.deepcopy(case)
                    c["steps"][i][k] = v
                    yield c
        if case["prelude"]:
            yield dict(case, prelude=[])
        if len(case["settings"]) > 1:
            for i in range(len(case["settings"])):
                yield dict(case, settings=case["settings"][:i] + case["settings"][i + 1 :])

    def decide(self, case, ctx):
        out = Outcome()
        npre = len(case["prelude"])
        ops = list(case["prelude"]) + [{"op": "params", "slot": "p", "set": case["settings"], "show": True}, {"op": "build", "slot": "p", "model": "P"}]
        at = []
        for s in case["steps"]:
            for b in s["before"]:
                ops.append({"op": "solve", "model": "P", "response": b})
            ops.append({"op": "solve", "model": "P", "response": s["response"]})
            solve = len(ops) - 1
            if s["edit"]:
                ops.append({"op": "edit", "slot": "p", "set": [[["economics", "PRTP"], 0.0777], [["SSP"], "SSP4"]]})
            if s["other"] is not None:
                ops += [{"op": "params", "slot": "q", "set": s["other"]}, {"op": "build", "slot": "q", "model": "Q"}]
            ops.append({"op": "save", "model": "P", "args": [s["name"]], "kwargs": s["kw"]})
            ops.append({"op": "values", "model": "P"})
            ops.append({"op": "files", "content": True})
            at.append((solve, len(ops) - 3, s))
        log = ctx.simulate({"ops": ops, "env": case["env"]})
        out.seen(log)
        for op, rec in zip(ops, log):
            harness_guard(rec)
            count_faults(out, op, rec)
        b = log[npre + 1]
        if not b["ok"]:
            out.bad("unexpected-exception", f"building: {b['error']}: {b['message']}")
            return out
        out.keys.add(key([case["settings"], case["prelude"]]))
        user = log[npre]["params"]
        for solve, i, s in at:
            if not log[solve]["ok"]:
                continue
            save, vals, files = log[i], log[i + 1], log[i + 2]
            out.evals += 1
            if not save["ok"]:
                out.bad("save-raises", f"{save['error']}: {save['message']}")
                return out
            found = tables(files["files"], s["name"], s["kw"])
            if not found:
                out.bad("no-table", f"save({s['name']!r}, {s['kw']}) left {sorted(files['files'])}")
                return out
            out.stat("tables")
            # the newest one: with a suffix there may be an older one of other settings
            ok = None
            for path, text, side in found:
                o2 = Outcome()
                check_table(o2, text, vals["values"])
                if side is None:
                    o2.bad("no-settings-file", f"next to {path}: {sorted(files['files'])}")
                else:
                    check_settings(o2, side, user)
                out.evals += o2.evals
                if ok is None or not o2.violations:
                    ok = o2
            if ok.violations:
                out.violations += ok.violations
                return out
        return out

    def vacuous(self, tally):
        if not tally.stats.get("tables"):
            return "no table was saved"


# ------------------------------------------------------------------ P08


def pair_class(state, path, old, new):
    """what the next reader finds: None if that is fine"""
    t, s = state.get(path), state.get(path + ".params.json")
    if t is None:
        if old[0] is not None:
            return "result-lost", "the previous table is gone and the new one is not there"
        if s is not None and s not in (old[1], new[1]):
            return "settings-file-truncated", f"{len(s)} bytes of {len(new[1])}"
        return None
    if t not in (old[0], new[0]):
        n = len(new[0])
        return "table-truncated", f"the table has {len(t)} bytes; the new one has {n}" + (f", the old one {len(old[0])}" if old[0] is not None else "")
    if s is None:
        return None
    if s not in (old[1], new[1]):
        return "settings-file-truncated", f"{len(s)} bytes; the new one has {len(new[1])}" + (f", the old one {len(old[1])}" if old[1] is not None else "")
    # old and new may agree in one of the two files
    good = {(old[0], old[1]), (new[0], new[1])}
    if (t, s) not in good:
        return "mixed-pair", f"the {'new' if t == new[0] else 'old'} table is next to the {'new' if s == new[1] else 'old'} settings"
    return None


class P08(Prop):
    id = "P08"
    level = "fault_enumeration"
    quick = 240
    rule = "an episode = a save over an earlier result of other settings (or into an empty folder); the process is stopped after each single disk operation of the save, the machine is stopped there with seeded losses of unsynced data and folder entries, Ctrl-C arrives at walked-through lines of the export code, and an I/O error ends the save; each resulting disk is judged, and some are continued by a new process; distinct = different disks judged"
    assumptions = Prop.assumptions + ["after a machine stop, data that were not fsynced may be lost from some point on (last write possibly torn) and of the folder operations a prefix survives; what was fsynced survives"]

    def generate(self, rng, ctx):
        a = workload.gen_settings(rng, max_regions=2)
        b = neighbour(rng, a, ctx) if rng.random() < 0.5 else workload.gen_settings(rng, max_regions=2)
        if rng.random() < 0.2:
            b = a + [[["economics", "PRTP"], rng.choice([0.011, 0.0123])]]
        pa, pb = ctx.settings(a), ctx.settings(b)
        return {
            "old": None if rng.random() < 0.2 else {"settings": a, "response": honest(rng, pa)},
            "new": {"settings": b, "response": honest(rng, pb)},
            "same_process": rng.random() < 0.5,
            "kw": rng.choice([{}, {}, {"folder": "results"}, {"folder": "out/put"}]),
            "line": self.turn % self.LINES + 1,
            "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]),
            "occ": rng.choice([1, 1, 1, 2, 5]),
            "io": {"n": rng.randint(1, 14), "err": rng.choice(["EIO", "ENOSPC", "EDQUOT"]), "part": rng.choice([0, 0.5]), "sticky": rng.random() < 0.5},
            "power": rng.randrange(10**9),
            "go_on": rng.randrange(10**9),
            "only": None,
            "env": {"seed": rng.randrange(10**6), "bufsize": rng.choice([None, 256, 4096])},
        }

    LINES = 60  # distinct lines of the export code that run during a save

    def shrinks(self, case):
        for k in ("crash", "power", "interrupt", "io", "continue"):
            if case["only"] is None:
                yield dict(case, only=k)

    def decide(self, case, ctx):
        out = Outcome()
        kw = case["kw"]
        path = f"{kw.get('folder', 'output')}/same.csv"
        side = path + ".params.json"
        modes = [case["only"]] if case["only"] else ["crash", "power", "interrupt", "io", "continue"]

        def life(slot, d, save=True):
            ops = [{"op": "params", "slot": slot, "set": d["settings"]}, {"op": "build", "slot": slot, "model": slot.upper()}, {"op": "solve", "model": slot.upper(), "response": d["response"]}]
            if save:
                ops.append({"op": "save", "model": slot.upper(), "args": ["same"], "kwargs": kw})
            return ops

        # the two results, each on a disk of its own
        old = (None, None)
        new = None
        for who in ("old", "new"):
            d = case[who]
            if d is None:
                continue
            ops = life("a", d) + [{"op": "files", "content": True}]
            log = ctx.simulate({"ops": ops, "env": case["env"]})
            for rec in log:
                harness_guard(rec)
            if not log[1]["ok"]:
                out.bad("unexpected-exception", f"building: {log[1]['error']}: {log[1]['message']}")
                return out
            if not log[2]["ok"]:
                out.stat("unsolved")
                return out
            f = log[4]["files"]
            if not log[3]["ok"] or path not in f or side not in f:
                out.bad("save-incomplete", f"a save on a healthy disk {'raised ' + log[3]['error'] if not log[3]['ok'] else 'returned'} and left {sorted(f)}")
                return out
            if who == "old":
                old = (f[path], f[side])
            else:
                new = (f[path], f[side])
        pre = []
        if old[0] is not None:
            if case["same_process"]:
                pre = life("a", case["old"])
            else:
                pre = [{"op": "write", "path": path, "text": old[0]}, {"op": "write", "path": side, "text": old[1]}]
        # someone else's results in the same folder
        bystander = {f"{kw.get('folder', 'output')}/other.csv": "Variable,Region,Unit,2020\nx,USA,m,1\n", f"{kw.get('folder', 'output')}/other.csv.params.json": "{}"}
        pre = pre + [{"op": "write", "path": k, "text": v} for k, v in bystander.items()] if old[0] is not None else pre
        head = pre + life("b", case["new"], save=False)
        m = len(head)

        def judge(state, what, how):
            out.evals += 1
            out.keys.add(key([how, sorted((k, key(v)) for k, v in state.items() if v is not None)]))
            r = pair_class(state, path, old, new)
            if r:
                out.bad(r[0], f"{r[1]} - {what}")
                return False
            if old[0] is not None:
                for k, v in bystander.items():
                    if state.get(k) != v:
                        out.bad("other-result-damaged", f"{k} - {what}")
                        return False
            return True

        if set(modes) & {"crash", "power", "continue"}:
            ops = head + [{"op": "mark"}, {"op": "save", "model": "B", "args": ["same"], "kwargs": kw}, {"op": "mark"}, {"op": "disklog"}]
            log = ctx.simulate({"ops": ops, "env": case["env"]})
            for rec in log:
                harness_guard(rec)
            out.seen([{k: v for k, v in r.items() if not k.startswith("_") and k != "disk"} for r in log])
            a, b = log[m]["pos"], log[m + 2]["pos"]
            disk = log[m + 3]["disk"][a:b]
            cwd = log[m + 3]["cwd"]
            init, ids = log[m]["_files"], log[m]["_ids"]

            def rel(st):
                return {k[len(cwd) + 1 :]: v.decode("utf-8", "replace") for k, v in st.items() if v is not None}

            states = []
            for k in range(len(disk) + 1):
                st = rel(fs.state_after(init, ids, disk, k))
                states.append(st)
                if "crash" in modes:
                    out.fault("process_stop")
                    if not judge(st, f"process stopped after disk operation {k} of {len(disk)} ({describe(disk, k)})", "crash"):
                        return out
            if log[m + 1]["ok"] and "crash" in modes and (states[-1].get(path), states[-1].get(side)) != new:
                out.bad("save-incomplete", "save returned, but the new result is not there")
                return out
            if "power" in modes:
                r = random.Random(case["power"])
                for k in range(1, len(disk) + 1):
                    for _ in range(4):
                        st = rel(fs.state_after(init, ids, disk, k, r))
                        out.fault("machine_stop")
                        if not judge(st, f"machine stopped after disk operation {k} of {len(disk)} ({describe(disk, k)}), unsynced data lost", "power"):
                            return out
            if "continue" in modes:
                # a new process finds one of these disks and saves its result there
                r = random.Random(case["go_on"])
                st = r.choice(states)
                if r.random() < 0.5:
                    st = rel(fs.state_after(init, ids, disk, r.randint(0, len(disk)), r))
                ops = [{"op": "write", "path": k, "text": v} for k, v in sorted(st.items())] + life("b", case["new"]) + [{"op": "files", "content": True}]
                log = ctx.simulate({"ops": ops, "env": case["env"]})
                out.fault("restart_after_stop")
                out.evals += 2
                save, files = log[-2], log[-1]["files"]
                if not save["ok"]:
                    out.bad("save-after-stop-fails", f"{save['error']}: {save['message']}")
                    return out
                if (files.get(path), files.get(side)) != new:
                    out.bad("save-after-stop-differs", f"after a stop and a restart the saved files differ from those of a clean run; files {sorted(files)}")
                    return out
        for mode in ("interrupt", "io"):
            if mode not in modes:
                continue
            save = {"op": "save", "model": "B", "args": ["same"], "kwargs": kw}
            if mode == "interrupt":
                save["fault"] = [{"kind": "interrupt", "sub": "export/", "line": case["line"], "occ": case["occ"], "exc": case["exc"]}]
            else:
                save["fault"] = [dict(case["io"], kind="io", side="w")]
            ops = head + [save, {"op": "files", "content": True}]
            log = ctx.simulate({"ops": ops, "env": case["env"]})
            for op, rec in zip(ops, log):
                harness_guard(rec)
                count_faults(out, op, rec)
            out.seen(log)
            rec = log[m]
            if not judge(log[m + 1]["files"], f"save ended by {rec.get('interrupted') or rec.get('fired')}", mode):
                return out
            if (rec.get("interrupted")) and rec["ok"] and case["exc"] == "KeyboardInterrupt":
                out.bad("interrupt-swallowed", f"Ctrl-C at {rec['interrupted']} was swallowed by save")
                return out
        return out

    def vacuous(self, tally):
        if not tally.faults.get("process_stop") or not tally.faults.get("machine_stop"):
            return "no disk was judged"


def describe(disk, k):
    if k == 0:
        return "none yet"
    o = disk[k - 1]
    return o[0] + " " + " -> ".join(str(x).rsplit("/", 1)[-1] for x in o[1:] if isinstance(x, str))[:80]


# ------------------------------------------------------------------ P09


class P09(Prop):
    id = "P09"
    level = "fault_enumeration"
    quick = 200
    rule = "an episode = one solved model saved again and again, each time with one disk operation failing (every operation of a save in turn; error, part written, short write, lasting full disk or read-only folder), each failure followed by a retry on a healthy disk; distinct = different (fault, earlier content) pairs"

    def generate(self, rng, ctx):
        o = workload.gen_settings(rng, max_regions=2)
        p = ctx.settings(o)
        tries = []
        for k in range(30):
            f = {"kind": "io", "side": "w", "n": k % 15 + 1, "err": rng.choice(["EIO", "ENOSPC", "EDQUOT", "EROFS", "EACCES", "EMFILE", "ESTALE"])}
            j = rng.random()
            if j < 0.25:
                f["part"] = rng.choice([0.1, 0.5, 0.95])
            elif j < 0.45:
                f["sticky"] = True
            elif j < 0.6:
                f.update(part=rng.choice([0.1, 0.5]), short=True)
            kw = rng.choice([{}, {}, {}, {"folder": f"new{k}"}, {"folder": f"output/sub{k}"}, {"hash_suffix": True}])
            if rng.random() < 0.1:
                kw = {"folder": "blocked"}
                f = None
            tries.append({"fault": f, "kw": kw, "name": f"r{k}" if rng.random() < 0.8 else "again", "old": rng.random() < 0.3})
        rng.shuffle(tries)
        return {"settings": o, "response": honest(rng, p), "tries": tries, "env": {"seed": rng.randrange(10**6), "bufsize": rng.choice([None, 512, 4096, 1 << 20])}}

    def shrinks(self, case):
        n = len(case["tries"])
        if n > 1:
            for i in range(n):
                yield dict(case, tries=[case["tries"][i]])

    def decide(self, case, ctx):
        out = Outcome()
        ops = [{"op": "params", "slot": "p", "set": case["settings"]}, {"op": "build", "slot": "p", "model": "P"}, {"op": "solve", "model": "P", "response": case["response"]},
               {"op": "save", "model": "P", "args": ["clean"], "kwargs": {}}, {"op": "files", "content": True}, {"op": "write", "path": "blocked", "text": "a file, not a folder"}]
        at = []
        for t in case["tries"]:
            folder = t["kw"].get("folder", "output")
            if t["old"] and not t["kw"].get("hash_suffix") and folder != "blocked":
                ops += [{"op": "write", "path": f"{folder}/{t['name']}.csv", "text": "old table\n"}, {"op": "write", "path": f"{folder}/{t['name']}.csv.params.json", "text": '{"old": 1}'}]
            s = {"op": "save", "model": "P", "args": [t["name"]], "kwargs": t["kw"]}
            ops.append(dict(s, fault=[t["fault"]] if t["fault"] else []))
            at.append(len(ops) - 1)
            ops += [{"op": "files", "content": True}, {"op": "probe", "model": "P"}]
            if folder == "blocked":
                ops.append({"op": "rm", "path": "blocked"})
            else:
                ops.append({"op": "noop"})
            ops += [s, {"op": "files", "content": True}, {"op": "probe", "model": "P"}]
            if folder == "blocked":
                ops += [{"op": "cleanup", "path": "blocked"}, {"op": "write", "path": "blocked", "text": "a file, not a folder"}]
        log = ctx.simulate({"ops": ops, "env": case["env"]})
        out.seen(log)
        for op, rec in zip(ops, log):
            harness_guard(rec)
            count_faults(out, op, rec)
        if not log[1]["ok"]:
            out.bad("unexpected-exception", f"building: {log[1]['error']}: {log[1]['message']}")
            return out
        if not log[2]["ok"]:
            out.stat("unsolved")
            return out
        f = log[4]["files"]
        clean = (f.get("output/clean.csv"), f.get("output/clean.csv.params.json"))
        if not log[3]["ok"] or None in clean:
            out.bad("save-incomplete", f"a save on a healthy disk {'raised ' + log[3]['error'] if not log[3]['ok'] else 'returned'} and left {sorted(f)}")
            return out
        if log[3]["last"] != "clean":
            out.bad("not-recorded", f"after save('clean') the model says it was last saved as {log[3]['last']}")
            return out
        saved = {"clean"}
        for t, i in zip(case["tries"], at):
            rec, files, probe = log[i], log[i + 1]["files"], log[i + 2]
            fired = [x for x in rec.get("fired", [])]
            what = f"save({t['name']!r}, {t['kw']}) with " + (", ".join(f"{a} at {b}" for a, b in fired) if fired else "a file in place of the folder" if t["fault"] is None else "no fault reached")
            full = [(a, b) == clean for _, a, b in tables(files, t["name"], t["kw"])]
            complete = bool(full) and all(full)
            hard = t["fault"] is None or (fired and not (t["fault"].get("short") and all(b == "write" for _, b in fired)))
            out.evals += 3
            out.keys.add(key([t["fault"], t["kw"], t["old"], fired]))
            if rec["ok"]:
                saved.add(t["name"])
                if not complete:
                    out.bad("incomplete-but-returned", f"{what} returned, but the files are not complete")
                    return out
                if hard and any(b in ("create", "write", "flush", "close", "rename") for _, b in fired):
                    out.bad("error-swallowed", f"{what} returned")
                    return out
                if rec["last"] != t["name"]:
                    out.bad("not-recorded", f"{what} returned, but the model says it was last saved as {rec['last']}")
                    return out
            else:
                out.stat("failed_saves")
                if not hard:
                    out.bad("raises-without-error", f"{what} raised {rec['error']}: {rec['message']}")
                    return out
                if probe["last"] == t["name"] and t["name"] not in saved:
                    out.bad("claims-saved", f"{what} raised {rec['error']}, but the model says it was last saved as {probe['last']}")
                    return out
                if str(probe["status"]) != "ok":
                    out.bad("wrong-status", f"status {probe['status']} after a failed save")
                    return out
            again, files2 = log[i + 4], log[i + 5]["files"]
            out.evals += 2
            if not again["ok"]:
                out.bad("retry-fails", f"retry after {what}: {again['error']}: {again['message']}")
                return out
            saved.add(t["name"])
            full = [(a, b) == clean for _, a, b in tables(files2, t["name"], t["kw"])]
            if not full or not all(full):
                out.bad("retry-differs", f"the retry after {what} wrote other files than a save that never failed")
                return out
            if again["last"] != t["name"]:
                out.bad("not-recorded", f"retry after {what}: the model says it was last saved as {again['last']}")
                return out
        return out

    def vacuous(self, tally):
        if not tally.stats.get("failed_saves"):
            return "no save failed"
