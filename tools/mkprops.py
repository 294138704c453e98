"""writes /verif/properties.jsonl (the readable source of the property texts)"""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

EQ = "The unit tests cover the parsers, nested dictionaries, soft min/max and the MAC formula at sample points; the model tests need an ipopt executable, compare one stored trajectory per scenario and are not in the reliable baseline."
DATA = "mimosa/common/data/datastore.py"

# ---------------------------------------------------------------- process level
add("P01", "A run depends only on its own settings, never on what ran before",
    "The optimisation problem built for a settings dictionary, and the files saved from it, are the same whether it is the first thing a process does or comes after any other runs, failed runs, edits of settings or repeated solves in that process, also when input files or settings files were rewritten in between (each run uses what the files contain when it is created). Building or solving one model never changes another model object that is still alive.",
    ["histories", "configurations"], "every sequence of load/edit/build/solve/save/fail operations before the run under test, over all scenario settings",
    "Only one test builds two models in one process, with the solver, with the same data files and it compares one number; the quantifier is over all histories.",
    ["mimosa/mimosa.py", DATA, "mimosa/common/regional_params/main.py", "mimosa/common/units.py", "mimosa/abstract_model.py"],
    [("class-level caches keyed by file name and by (SSP, ...) data request", "mimosa/common/data/datastore.py"), ("fresh abstract model per instance", "mimosa/abstract_model.py:create_abstract_model")],
    [("DataStore.databases/cached_data", "process-wide cache of parsed tables and interpolations", DATA)])
add("P02", "After an interrupted or failed build, a retry gives the clean result",
    "If building, solving or saving is cut short at any point - Ctrl-C, a failing or short read, an open that fails, a missing file that comes back - a later attempt in the same process with the same settings behaves exactly as in a process where nothing had gone wrong. The failure itself is reported and no half-loaded data is ever used silently.",
    ["crash_points", "fault_sequences", "histories"], "every interruption point in the library's own code and every failing I/O call, then any retry",
    "No test injects a failure; the quantifier is over interruption points.",
    [DATA, "mimosa/common/regional_params/main.py", "mimosa/mimosa.py"],
    [("order in which a table is parsed and its cache entries are published", "mimosa/common/data/datastore.py:_select_database")],
    [("DataStore.databases/cached_data", "process-wide caches that survive an exception", DATA)])
add("P03", "Models built and saved concurrently in threads equal ones handled one by one",
    "Building several models at the same time in different threads of one process yields, for every thread interleaving, the same problems as building each alone, and never fails where the lone build succeeds. Saving results of different models under different names in different threads, also into the same folder or while another model is built, writes the same files as saving each alone.",
    ["schedules", "configurations"], "every interleaving of the threads' steps inside the library's configuration, data, regional-parameter and export code",
    "Nothing in the test suite uses threads.",
    [DATA, "mimosa/common/regional_params/main.py", "mimosa/common/config/parseconfig.py"],
    [("check-then-fill of the shared caches", "mimosa/common/data/datastore.py")],
    [("DataStore.databases/cached_data", "shared between threads", DATA)])
add("P04", "A solve ends in success only if the solver reported success",
    "Solving returns normally and reports an OK status if and only if the external solver reported a solution; an infeasible, unbounded, limit-hit, crashed, missing or unreadable solver outcome always surfaces as an exception. After such a failure the status is never OK, a later solve of the same model starts afresh, and it succeeds with the answer of that later solve.",
    ["fault_sequences", "histories"], "every sequence of solver outcomes (return code, solution file content, log) over repeated solves of one model",
    "No solver is available to the reliable tests, and the model tests only take the happy path.",
    ["mimosa/mimosa.py"],
    [("status check after the solve", "mimosa/mimosa.py:MIMOSA.solve"), ("status reset at the start of a solve", "mimosa/mimosa.py:MIMOSA.solve")],
    [("MIMOSA.status", "outcome of the last solve", "mimosa/mimosa.py")])
add("P05", "A remote (NEOS) solve survives a bad network or fails loudly",
    "When the solve is sent to the remote service, then for every pattern of lost, delayed, repeated or refused calls, slow queues and server-side failures the call ends within bounded service time either with the service's solution loaded for exactly the submitted problem, or with an exception. It never returns OK without a solution from the service, never submits a different problem from the local one, and leaves the model usable for a later local solve.",
    ["fault_sequences", "schedules"], "every sequence of network faults and remote job outcomes",
    "No network and no service in tests; the quantifier is over fault sequences.",
    ["mimosa/mimosa.py"], [("solver manager path and the shared status check", "mimosa/mimosa.py:MIMOSA.solve")])
add("P06", "Reported results satisfy the full, unsimplified problem",
    "Whatever feasible point the solver returns, every variable of the model that is read or saved afterwards has a value, and together these values satisfy all equations, limits and bounds of the model as it was defined before automatic simplification. Variables that were merged, fixed or dropped before the solver saw the problem are no exception.",
    ["configurations", "inputs", "histories"], "every module combination, region set, horizon and step, for every feasible answer of the solver, also after earlier failed solves",
    EQ, ["mimosa/mimosa.py", "mimosa/common/pyomo_utils.py", "mimosa/concrete_model/instantiate_params.py"],
    [("pre-processing that aggregates and fixes variables, and its reversal after the solve", "mimosa/mimosa.py:preprocessing/postprocessing")])
add("P07", "The saved table states every quantity, year and region of the result",
    "The saved CSV has exactly one row per reported variable and region (or Global), one column per model year, and every entry equals the value of the solved model to the printed precision, with the unit of that variable. Nothing is missing, duplicated, shifted between years or swapped between regions, and the companion settings file equals the settings the model was built with.",
    ["configurations", "inputs", "histories"], "all configurations, results and save calls (names, folders, hash suffix), repeated saves included",
    EQ, ["mimosa/export/save.py", "mimosa/common/pyomo_utils.py"],
    [("row builder and column headers", "mimosa/export/save.py:var_to_row/rows_to_dataframe"), ("list of reported variables", "mimosa/common/pyomo_utils.py:get_all_variables")])
add("P08", "A crash during save never leaves a result paired with other settings",
    "If the process or machine stops at any point while results are being saved, the next reader finds for that name either the previous result with its own settings, or the new result with its own settings, or a result that has visibly no settings file; never a truncated table or settings file and never a table next to the settings of a different run.",
    ["crash_points", "histories"], "every crash point within a save, over fresh and overwritten names, and every torn or reordered write",
    "No test stops a save half-way; the quantifier is over crash points.",
    ["mimosa/export/save.py"], [("order of writing the table and the settings file", "mimosa/export/save.py:save_output")],
    [("<name>.csv and <name>.csv.params.json", "durable pair", "mimosa/export/save.py")])
add("P09", "Save reports success exactly when the files are completely written",
    "A save call that returns has completely written both files; if any of its file operations fails (full disk, I/O error, failed close, unwritable folder) the call raises, and the model does not claim to have been saved under that name. A later retry on a healthy disk writes the same files as a save that never failed.",
    ["fault_sequences", "crash_points"], "every failing file operation of a save, then any retry",
    "No test injects I/O errors.",
    ["mimosa/export/save.py", "mimosa/mimosa.py"], [("file writing and the last-saved marker", "mimosa/mimosa.py:MIMOSA.save")],
    [("last_saved_filename", "what the model claims to have saved", "mimosa/mimosa.py")])
add("P10", "The saved settings file is enough to rebuild the same run",
    "Feeding the settings stored next to a result back into the model, in another process, gives exactly the same optimisation problem and, for the same solver answer, the same saved table; saving that run again stores equivalent settings.",
    ["configurations", "histories"], "every settings dictionary that builds, whatever the history of the process that saved it",
    "No test reads a settings file back.",
    ["mimosa/export/save.py", "mimosa/common/config/parseconfig.py", "mimosa/common/config/utils/parsers.py"],
    [("parsed settings kept in a form that parses to itself", "mimosa/common/config/parseconfig.py")])
add("P11", "Invalid settings are rejected; valid ones are accepted as given",
    "A settings dictionary with a key the library does not define, a value outside its documented type, range or list of choices, a quantity of the wrong dimension or an unreadable or non-finite number is rejected with an exception when the model is created: no file is written, no solver is started, and later valid runs in the process are unaffected. Values on the edge of a documented range, all documented choices and all documented spellings of a type are accepted and used as given, and every combination of valid settings gives a model (the per-capita convergence regime needs emission trade of type emissiontrade).",
    ["inputs", "histories"], "every single-setting corruption and every edge value of any valid settings dictionary, at any point of a process's history",
    "Parser unit tests feed each parser a few samples; none checks whole dictionaries or side effects.",
    ["mimosa/common/config/parseconfig.py", "mimosa/common/config/utils/parsers.py", "mimosa/inputdata/config/config_default.yaml"],
    [("full parse of the settings before building", "mimosa/mimosa.py:MIMOSA.__init__"), ("documented keys, types, ranges and choices", "mimosa/inputdata/config/config_default.yaml")])
add("P12", "The caller's settings are never changed and later edits never leak in",
    "Creating, solving and saving a model leave the settings dictionary passed in exactly as it was, and changing that dictionary afterwards (also between build and save, or while another model is built from it) has no influence on the existing model, its solve or its saved files.",
    ["histories", "schedules"], "every interleaving of edits of the caller's dictionary with operations on models built from it",
    "The parsers are tested on values, not on aliasing over a history.",
    ["mimosa/mimosa.py", "mimosa/common/config/parseconfig.py", "mimosa/common/config/utils/parsers.py"],
    [("copying of the settings", "mimosa/common/config/parseconfig.py:check_params")])
add("P13", "Runs do not depend on the environment they happen to run in",
    "With equal settings, input files and solver answers, two processes produce byte-identical problems and result files, whatever the hash seed, clock, time zone, working directory, temporary directory, buffer sizes or the order in which the operating system lists directories.",
    ["schedules", "configurations"], "every environment: hash seed, directory order, clock, locale of time, working directory",
    "Tests run in one environment.",
    ["mimosa/common/config/parseconfig.py", "mimosa/concrete_model/simulation_mode/utils.py", "mimosa/abstract_model.py", "mimosa/export/save.py"],
    [("ordered containers when the problem is assembled, file lookup by pattern", "mimosa/concrete_model/simulation_mode/utils.py:read_csv")])
add("P14", "The shipped run scripts complete and save what they announce",
    "Each run script in the repository, started from a fresh checkout with a working solver, runs to the end and leaves exactly its announced result files, each solved with the scenario the script describes; if the solver fails on one scenario the script stops or reports it rather than saving an unsolved result.",
    ["fault_sequences", "configurations"], "every outcome sequence of the solver and initial state of the output folder",
    "The scripts are never executed by the reliable tests.",
    ["run.py", "run_baseline.py", "run_calibration.py"], [("scripts", "run.py, run_baseline.py, run_calibration.py")])

# ---------------------------------------------------------------- model level
Q = "every valid configuration (regions, horizon, step, modules, parameter values) and every feasible answer the solver may give, after any solver failures, retries and earlier runs in the process"
O = ["configurations", "inputs", "histories"]
add("M01", "Emissions add up: baseline, abatement, global and cumulative emissions",
    "In every solved run regional emissions are the abated share removed from the baseline, global emissions are the sum over regions, cumulative emissions accumulate them over the years with the chosen integration rule starting at zero, and the first period keeps its observed emissions. With baseline carbon intensity the baseline follows net GDP, otherwise it is the scenario's emission path.",
    O, Q, EQ, ["mimosa/components/emissions.py"], [("emission constraints", "mimosa/components/emissions.py")])
add("M02", "Temperature follows cumulative emissions and meets its target",
    "In every solved run the global temperature equals the initial temperature plus the climate response times cumulative emissions, in the units given in the settings. If a temperature target is set it is met from 2100 on.",
    O, Q, EQ, ["mimosa/components/emissions.py"], [("temperature constraints", "mimosa/components/emissions.py")])
add("M03", "Requested policy limits bind, and no limit is imposed unasked",
    "Every policy limit in the settings (carbon budget, net-zero after the budget year, temperature target, global and regional inertia, minimum levels, non-increasing emissions after 2100) is respected by every solution the model accepts. Conversely a path that respects all requested limits is accepted: limits that are switched off, or years before they apply, do not constrain the solution.",
    O, Q + "; paths chosen on both sides of each limit", EQ, ["mimosa/components/emissions.py"], [("optional limit constraints", "mimosa/components/emissions.py")])
add("M04", "The economy is consistent: production, capital, investment, consumption",
    "In every solved run gross GDP follows from capital, population and a productivity that reproduces the scenario's GDP in the absence of costs; net GDP is gross GDP minus damages, mitigation costs and transfers; investments and consumption split net GDP by the savings rate; and capital accumulates from investments and depreciation over each step.",
    O, Q, EQ, ["mimosa/components/cobbdouglas.py", "mimosa/common/economics.py"], [("production and capital constraints", "mimosa/components/cobbdouglas.py")])
add("M05", "Mitigation costs follow the abatement cost curve and learning",
    "In every solved run the carbon price is the regional marginal abatement cost at the chosen abatement level with learning by doing and over time applied, and mitigation costs are the area under that curve times baseline emissions plus traded costs, with the stated lower bound on relative costs. Reported averages per unit of emission reduction are consistent with these totals.",
    O, Q, EQ, ["mimosa/components/mitigation.py"], [("MAC, learning and cost constraints", "mimosa/components/mitigation.py")])
add("M06", "Climate damages follow the chosen damage functions and are zero when off",
    "In every solved run regional damages are the configured damage functions of temperature and sea level relative to the start year, for the chosen quantile, adaptation choice and scale factor, with each region's own coefficients; with damages switched off they are zero. Reported heat mortality follows its temperature function.",
    O, Q, EQ, ["mimosa/components/damages/coacch.py", "mimosa/components/damages/nodamage.py"], [("damage constraints", "mimosa/components/damages/coacch.py")])
add("M07", "Sea level rise evolves from temperature with all its components",
    "In every solved run thermal expansion, glaciers and the Greenland ice sheet start at their initial levels and evolve over each time step from the temperature path, and total sea level rise is their sum.",
    O, Q, EQ, ["mimosa/components/sealevelrise.py"], [("sea level constraints", "mimosa/components/sealevelrise.py")])
add("M08", "Emission trade and financial transfers conserve money",
    "In every solved run the payments of emission trade (either type) sum to zero over the regions in each year. With emissiontrade, emission reductions bought and sold are valued at the global carbon price and allowances follow from paid-for reductions; with globalcostpool a region has paid for the reductions its payment buys at the average cost, and its payment stays within the set minimum and maximum share of its own area under the MAC. Without trade nothing is exchanged. Financial transfers sum to zero, start at zero and never exceed a region's damages; without transfers they are zero.",
    O, Q, EQ, ["mimosa/components/emissiontrade/emissiontrade.py", "mimosa/components/emissiontrade/globalcostpool.py", "mimosa/components/emissiontrade/notrade.py", "mimosa/components/financialtransfer/globaldamagepool.py", "mimosa/components/financialtransfer/notransfer.py"], [("zero-sum constraints", "mimosa/components/emissiontrade, mimosa/components/financialtransfer")])
add("M09", "Effort-sharing regimes share the burden as named",
    "With equal mitigation costs every region bears the same cost share of GDP within the stated tolerance, with equal total costs the same share including damages and transfers up to 2100, and with per-capita convergence the emission allowances move linearly from current emission shares to population shares by the convergence year. Without a regime none of this constrains the solution.",
    O, Q + "; paths chosen on both sides of the tolerance", EQ, ["mimosa/components/effortsharing.py"], [("regime constraints", "mimosa/components/effortsharing.py")])
add("M10", "The objective is the discounted sum of the chosen welfare or cost measure",
    "In every run the quantity being optimised is the final discounted total of the configured yearly measure (welfare of the chosen kind, maximised, or global costs, minimised), with population, inequality aversion, elasticity and the discount rate as set. The reported yearly welfare and net present value equal that definition on the reported consumption.",
    O, Q, EQ, ["mimosa/components/objective", "mimosa/components/welfare"], [("welfare and NPV constraints and the objective's direction", "mimosa/components/objective, mimosa/components/welfare")])
add("M11", "Baseline data reach every region and year unchanged",
    "Population, GDP and emissions used by a run are those of the configured scenario and source for exactly the requested regions, interpolated to the model years, extrapolated beyond the data with growth fading out, and in the model's units, whatever else was loaded in the process before. Baseline carbon intensity and cumulative baseline emissions follow from them.",
    O, Q, EQ, [DATA, "mimosa/common/data/utils.py", "mimosa/common/units.py", "mimosa/concrete_model/instantiate_params.py"], [("data lookup, unit conversion, interpolation", DATA)])
add("M12", "Simulation mode reproduces the given paths and nothing else binds",
    "In simulation mode the variables named in the settings follow the values read from the given earlier result (saved table, file pattern or dictionary) for the same regions and years within the stated tolerance, the named constraints are switched off, and everything else is computed as in a normal run. Paths that stay within the tolerance are accepted and paths outside it are not. A source that is missing, unreadable or incomplete for a region or year fails loudly; with simulation mode off it has no influence.",
    O + ["fault_sequences"], "every earlier result, choice of simulated variables and switched-off constraints, and every damaged or failing source", EQ, ["mimosa/concrete_model/simulation_mode"], [("extra constraints from an earlier result", "mimosa/concrete_model/simulation_mode/set_constraints.py"), ("deactivation", "mimosa/concrete_model/simulation_mode/deactivate_constraints.py"), ("reading and interpolating the earlier result", "mimosa/concrete_model/simulation_mode/utils.py")])
add("M13", "Units and regional overrides mean what they say",
    "Writing the same physical quantity in another accepted unit in the settings gives the same results, and a parameter overridden for one region applies to that region only, replacing its table value, while all other regions keep theirs.",
    O, "every quantity-valued setting, accepted unit, region and regional parameter", EQ, ["mimosa/common/units.py", "mimosa/common/config/utils/parsers.py", "mimosa/common/regional_params"], [("unit conversion of quantities", "mimosa/common/units.py"), ("per-region overrides and region mapping", "mimosa/common/regional_params/main.py")])

# ---------------------------------------------------------------- pure functions: listed, not claimed
add("M14", "Own input tables, settings files and references mean what they say",
    "Pointing the settings at other input tables (baseline data in other units, years, names or row order; regional parameter tables; conversion tables between region types; another region type), writing the settings in a file instead of a dictionary, or referring in a string to other settings, gives exactly the run those tables and settings describe, for every region, year and parameter. A table, row, column, region, unit, cell or settings file that is missing, ambiguous or unreadable makes the run fail loudly, and a failed reading never leaves settings or data half read.",
    ["configurations", "fault_sequences", "histories"], "every well-formed set of input tables, settings files and references, every single damage to one of them, and failing reads, after any process history",
    "The tests use the shipped tables and dictionaries only, and no settings file with content of its own reaches a model.",
    [DATA, "mimosa/common/data/utils.py", "mimosa/common/regional_params/main.py", "mimosa/common/regional_params/region_mappers.py", "mimosa/common/regional_params/regional_param_container.py", "mimosa/common/config/parseconfig.py"],
    [("row selection and unit conversion of IAMC tables", "mimosa/common/data/datastore.py:_get_cached_data_from_database"), ("region conversion by average", "mimosa/common/regional_params/region_mappers.py:map_regions"), ("references between settings", "mimosa/common/config/parseconfig.py:parse_param_values"), ("settings file", "mimosa/common/config/parseconfig.py:load_params")])
add("N01", "Smooth minimum and maximum stay close to the true ones",
    "The smooth replacements for minimum and maximum differ from the exact ones by at most their stated accuracy for every argument and scale.",
    ["inputs"], "every real argument and scale", "Unit tests sample a grid.", ["mimosa/common/pyomo_utils.py"], [("soft_min/soft_max", "mimosa/common/pyomo_utils.py")])
add("N02", "Social cost of carbon runs report the marginal damage of one extra pulse",
    "The social-cost-of-carbon computation reports the discounted consumption lost per extra tonne of CO2 emitted in the chosen year.",
    ["configurations"], "every configuration and pulse year", "No test runs it.", ["mimosa/socialcostofcarbon/scc.py"], [("pulse run", "mimosa/socialcostofcarbon/scc.py")])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as fh:
        for d in P:
            fh.write(json.dumps(d, ensure_ascii=False) + "\n")
    print(len(P))
