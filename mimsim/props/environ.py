"""P13: the same run in other surroundings."""
import random

from .. import workload
from .base import Outcome, Prop, harness_guard, key
from .process import file_diff, honest, short

ZONES = ["UTC", "Asia/Kathmandu", "America/St_Johns", "XYZ+11:30", "Pacific/Kiritimati"]
LANGS = [{}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "C.UTF-8"}, {"LANG": "de_DE.UTF-8", "LC_NUMERIC": "de_DE.UTF-8"}, {"LC_ALL": "POSIX", "LANGUAGE": "nl"}]
CLOCKS = [0.0, 9.4e8, 1.7e9, 2**31 - 5.0, 4.1e9, 1.234e9]
CWDS = [None, "a folder", "x/y/z", "mimosa", "input data"]
# files of the same names as those of the library, in the working directory
DECOYS = {
    "inputdata/data/data_IMAGE_SSP_harmonised_2020.csv": "model,scenario,region,variable,unit,2010\nX,Y,Z,V,U,1\n",
    "inputdata/config/config_default.yaml": "SSP: {type: enum, values: [SSP9], default: SSP9}\n",
    "config_default.yaml": "nonsense\n",
    "default_units.yaml": "emissions_unit: kg\n",
    "inputdata/params/params_economics.csv": "region,init_capital_factor\nUSA,9\n",
    "config.yaml": "SSP: SSP5\n",
    "params.json": "{}",
    "output/other.csv": "Variable,Region,Unit,2020\n",
    "output/other.csv.params.json": "{}",
}


class P13(Prop):
    id = "P13"
    quick = 120
    rule = "an episode = one run (build, solve, save) in plain surroundings, repeated in two others: in the same interpreter with another clock, working and temporary directory, buffer size, short reads, order of directory listings and files of the library's names in the working directory, and in a newly started interpreter with another hash seed, locale and time zone; distinct = different (settings, surroundings)"
    components_real = Prop.components_real + ["newly started Python interpreters (hash seed, locale, time zone)"]

    def generate(self, rng, ctx):
        o = workload.gen_settings(rng, max_regions=6)
        p = ctx.settings(o)
        case = {
            "settings": o,
            "answer": honest(rng, p, 2),
            "pattern": rng.random() < 0.4,
            "matches": rng.sample(["a", "B", "c_1", "c_10", "c_2", "Z", "_x"], rng.randint(1, 5)),
            "save": {"args": [rng.choice(["run", "run 1", "a.b", "R-2"])], "kwargs": rng.choice([{}, {"hash_suffix": True}, {"hash_suffix": True, "folder": "results"}, {"folder": "out/deep"}])},
            "here": self.surroundings(rng),
            "there": dict(self.surroundings(rng), hashseed=rng.choice([0, 1, 2, 3, 42, rng.randrange(1, 2**32)]), lang=rng.choice(LANGS), flags=rng.choice([[], [], ["-O"], ["-X", "utf8=0"]])),
        }
        if case["pattern"]:
            case["values"] = [round(rng.uniform(0, 0.4), 4) for _ in case["matches"]]
        return case

    def surroundings(self, rng):
        return {
            "seed": rng.randrange(10**6),
            "clock": rng.choice(CLOCKS),
            "clock_jumps": rng.random() < 0.4,
            "tz": rng.choice(ZONES),
            "cwd": rng.choice(CWDS),
            "bufsize": rng.choice([None, 1, 7, 512, 65536]),
            "short_reads": rng.random() < 0.4,
            "shuffle_dirs": rng.random() < 0.8,
            "decoys": rng.sample(sorted(DECOYS), rng.choice([0, 0, 3, len(DECOYS)])),
            "write_order": rng.randrange(1000),
        }

    def shrinks(self, case):
        for where in ("here", "there"):
            e = case[where]
            for k, v in (("decoys", []), ("short_reads", False), ("clock_jumps", False), ("shuffle_dirs", False), ("bufsize", None), ("cwd", None), ("tz", "UTC"), ("clock", 1.7e9), ("flags", []), ("lang", {}), ("hashseed", 0)):
                if k in e and e[k] != v:
                    yield dict(case, **{where: dict(e, **{k: v})})
        if case["pattern"]:
            yield dict(case, pattern=False)
        from .base import generic_shrinks

        yield from generic_shrinks(case)

    def ops(self, case, env):
        o = list(case["settings"])
        ops = []
        if case["pattern"]:
            p = dict(case["settings_full"])
            years = [p["time"]["start"], p["time"]["start"] + 40, p["time"]["end"]]
            files = []
            for name, x in zip(case["matches"], case["values"]):
                rows = [f"relative_abatement,{r},x," + ",".join([repr(x)] * len(YEARS)) for r in p["regions"]]
                files.append({"op": "write", "path": f"earlier/run_{name}.csv", "text": "Variable,Region,Unit," + ",".join(YEARS) + "\n" + "\n".join(rows) + "\n"})
            random.Random(env["write_order"]).shuffle(files)
            ops += files
            o += [[["simulation", "simulationmode"], True], [["simulation", "constraint_variables"], {"relative_abatement": "earlier/run_*.csv"}]]
        ops += [{"op": "write", "path": n, "text": DECOYS[n]} for n in env.get("decoys", [])]
        ops += [
            {"op": "params", "slot": "p", "set": o},
            {"op": "digest", "slot": "p"},
            {"op": "build", "slot": "p", "model": "P"},
            {"op": "probe", "model": "P", "plain": True},
            {"op": "solve", "model": "P", "response": case["answer"]},
            {"op": "probe", "model": "P"},
            {"op": "values", "model": "P"},
            dict({"op": "save", "model": "P"}, **case["save"]),
            {"op": "files", "content": True},
        ]
        return ops

    TAIL = 9

    def decide(self, case, ctx):
        out = Outcome()
        case = dict(case)
        case["settings_full"] = ctx.settings(case["settings"])
        plain = {"seed": 0, "write_order": 0}
        ref = ctx.simulate({"ops": self.ops(case, plain), "env": plain})
        here = ctx.simulate({"ops": self.ops(case, case["here"]), "env": case["here"]})
        e = dict(case["there"])
        hashseed, lang, flags = e.pop("hashseed"), dict(e.pop("lang"), TZ=e["tz"]), e.pop("flags")
        there = ctx.fresh([{"ops": self.ops(case, e), "env": e}], hashseed, lang, flags)[0]
        out.keys.add(key([case["settings"], case["here"], case["there"]]))
        out.sim_years += 3 * (case["settings_full"]["time"]["end"] - case["settings_full"]["time"]["start"])
        for name, log, env in (("same interpreter", here, case["here"]), ("new interpreter", there, case["there"])):
            out.seen(log)
            for rec in log:
                harness_guard(rec)
            self.compare(case, ref[-self.TAIL :], log[-self.TAIL :], env, name, out)
        for f in ("clock_jumps", "short_reads", "shuffle_dirs"):
            for env in (case["here"], case["there"]):
                if env[f]:
                    out.fault(f)
        return out

    def compare(self, case, a, b, env, name, out):
        what = f"{name}, {short(env)}"
        decoys = set(env.get("decoys", []))
        for x, y in zip(a, b):
            out.evals += 1
            if x["ok"] != y["ok"] or (not x["ok"] and x["error"] != y["error"]):
                out.bad("outcome-differs", f"{what}: {x['op']} {x.get('error')} {x.get('message')} and {y.get('error')} {y.get('message')}")
                return
            if x["op"] == "digest" and x.get("digest") != y.get("digest"):
                out.bad("default-settings-differ", what)
                return
            if x["op"] == "probe" and x["ok"]:
                for k in ("nl", "plain", "status"):
                    if x[k] != y[k]:
                        out.bad("problem-differs", f"{what}: {k} of the problem")
                        return
                out.stat("problems")
            if x["op"] == "solve":
                if [c.get("nl") for c in x["calls"]] != [c.get("nl") for c in y["calls"]]:
                    out.bad("problem-differs", f"{what}: the problem the solver got")
                    return
                out.stat("solved" if x["ok"] else "not_solved")
            if x["op"] == "values" and x["ok"] and (x["values"] != y["values"] or x["objective"] != y["objective"]):
                out.bad("values-differ", f"{what}: {value_difference(x['values'], y['values'])}")
                return
            if x["op"] == "files":
                f = {n: t for n, t in x["files"].items() if not n.startswith("earlier/")}
                g = {n: t for n, t in y["files"].items() if not n.startswith("earlier/") and n not in decoys}
                for n in decoys:
                    if y["files"].get(n) != DECOYS[n]:
                        out.bad("foreign-file-touched", f"{what}: {n}")
                d = file_diff(f, g)
                if d:
                    out.bad("files-differ", f"{what}: {d}")


def value_difference(a, b):
    for n in sorted(set(a["v"]) | set(b["v"])):
        if a["v"].get(n) != b["v"].get(n):
            return f"{n}: {short(a['v'].get(n))} and {short(b['v'].get(n))}"
    return "objective, regions, years or order"


YEARS = [str(y) for y in range(2000, 2301, 10)]
