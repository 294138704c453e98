"""P14: the run scripts of the repository, started as a user starts them, with
a solver and a disk that may fail at any of their scenarios."""
import copy
import csv
import io
import json
import math
import random
import re

import numpy as np

from .. import workload
from .base import Outcome, Prop, harness_guard, key
from .model import count_faults

BUDGETS = list(range(200, 1501, 100))
BAD = [
    {"kind": "code", "code": 200}, {"kind": "code", "code": 300}, {"kind": "code", "code": 400}, {"kind": "code", "code": 500}, {"kind": "rc", "rc": 1},
    {"kind": "nosol"}, {"kind": "signal"}, {"kind": "missing"}, {"kind": "execfail"}, {"kind": "interrupt"}, {"kind": "garbage"},
]


def scenarios(script, regions):
    """what each script announces: [(name of the result, edits of the default settings)]"""
    if script == "run.py":
        return [("run1", [[["emissions", "carbonbudget"], False]])]
    if script == "run_baseline.py":
        common = [
            [["emissions", "carbonbudget"], False],
            [["model", "welfare module"], "cost_minimising"],
            [["emissions", "non increasing emissions after 2100"], False],
            [["emissions", "not positive after budget year"], False],
            [["emissions", "inertia", "regional"], False],
            [["emissions", "inertia", "global"], False],
            [["time", "end"], 2150],
        ]
        none = {"__numkeys__": {str(y): {r: 0.0 for r in regions} for y in range(2025, 2151, 5)}}
        no_abatement = [
            [["simulation", "simulationmode"], True],
            [["simulation", "constraint_variables"], {"relative_abatement": none}],
            [["economics", "MAC", "gamma"], "0.00001 USD2005/tCO2"],
        ]
        return [
            ("baseline_ignore_damages_False", common + [[["economics", "damages", "ignore damages"], False]] + no_abatement),
            ("baseline_ignore_damages_True", common + [[["economics", "damages", "ignore damages"], True]]),
        ]
    return [
        (f"calibration/cb_{b}", [[["economics", "damages", "ignore damages"], True], [["time", "end"], 2100], [["emissions", "carbonbudget"], f"{b} GtCO2"]])
        for b in BUDGETS
    ]


OLD = {"csv": "Variable,Region,Unit,2020\nold,Global,,1\n", "json": '{"old": true}'}
WARN = re.compile(r"fail|error|not solve|unsolved|infeasib|warn|exception|abort|skip", re.I)


class P14(Prop):
    id = "P14"
    quick = 90
    rule = "an episode = one run script, executed as the main program, with a seeded outcome of the solver per scenario, disk faults, Ctrl-C and a seeded state of the output folder; after a failure it is started again in a new process on the folder left behind; distinct = different (script, regions, outcomes, faults, folder) descriptions"
    components_real = Prop.components_real + ["run.py, run_baseline.py, run_calibration.py"]
    assumptions = Prop.assumptions + ["most episodes use the scripts' settings with two or three of the 26 regions; some of run.py use them all"]

    def generate(self, rng, ctx):
        script = rng.choice(["run.py", "run.py", "run_baseline.py", "run_baseline.py", "run_calibration.py"])
        full = script == "run.py" and self.turn % 40 == 11
        regions = None if full else sorted(rng.sample(workload.ALL, rng.choice([2, 2, 3])), key=workload.ALL.index)
        todo = scenarios(script, regions or workload.ALL)
        responses = []
        style = rng.random()
        plans = {}
        for name, edits in todo:
            if style < 0.35:
                responses.append({"kind": "code", "code": 0, "seed": rng.randrange(10**6), "echo": True})
                continue
            k = name if script != "run_calibration.py" else "cb"
            if k not in plans:
                p = workload.apply(ctx.defaults, [e for e in edits if e[0] != ["simulation", "constraint_variables"]])
                if regions:
                    p["regions"] = {r: p["regions"].get(r, {}) for r in regions}
                plans[k] = workload.gen_plans(rng, p, 2)[-2:]
                if name == "baseline_ignore_damages_False":
                    plans[k] = plans[k][-1:]
            responses.append({"kind": "honest", "plans": plans[k], "seed": rng.randrange(10**6), "echo": True})
        fault = []
        k = rng.random()
        if k < 0.4:
            at = rng.randrange(len(responses))
            responses[at] = dict(rng.choice(BAD), seed=1)
            if rng.random() < 0.3:
                responses[-1] = dict(rng.choice(BAD), seed=1)
        elif k < 0.6:
            fault.append({"kind": "io", "side": "w", "n": rng.randint(1, 14 * len(todo)), "err": rng.choice(["ENOSPC", "EIO", "EACCES"]), "sticky": rng.random() < 0.3})
        elif k < 0.7:
            fault.append({"kind": "interrupt", "line": rng.randint(1, 1100), "occ": rng.choice([1, 1, 2, 3, 9])})
        return {
            "script": script,
            "regions": regions,
            "responses": responses,
            "fault": fault,
            "folder": rng.choice(["none", "none", "empty", "old", "others", "both", "blocked" if rng.random() < 0.3 else "none"]),
            "env": {"seed": rng.randrange(10**6), "clock_jumps": rng.random() < 0.3, "shuffle_dirs": rng.random() < 0.5},
            "again": rng.random() < 0.6,
        }

    def shrinks(self, case):
        if case["fault"]:
            yield dict(case, fault=[])
        if case["again"]:
            yield dict(case, again=False)
        if case["folder"] != "none":
            yield dict(case, folder="none")
        good = {"kind": "code", "code": 0, "seed": 1, "echo": True}
        for i, r in enumerate(case["responses"]):
            if r != good:
                rs = list(case["responses"])
                rs[i] = good
                yield dict(case, responses=rs)
        if case["regions"] and len(case["regions"]) > 2:
            yield dict(case, regions=case["regions"][:2])

    def start(self, case):
        """files there before the script runs"""
        names = [n for n, _ in scenarios(case["script"], case["regions"] or workload.ALL)]
        f = {"notes.txt": "mine\n"}
        if case["folder"] in ("empty",):
            f["output/.keep"] = ""
        if case["folder"] in ("old", "both"):
            for n in names:
                f[f"output/{n}.csv"] = OLD["csv"]
                f[f"output/{n}.csv.params.json"] = OLD["json"]
        if case["folder"] in ("others", "both"):
            f["output/run2.csv"] = "mine too\n"
            f["output/calibration/cb_100.csv"] = "and this\n"
            f["output/calibration/notes.txt"] = "x"
        if case["folder"] == "blocked":
            f["output"] = "a file"
        return f

    def decide(self, case, ctx):
        out = Outcome()
        todo = scenarios(case["script"], case["regions"] or workload.ALL)
        # the problems the script announces, from the description above
        ops = []
        for i, (name, edits) in enumerate(todo):
            e = list(edits)
            if case["regions"]:
                e.append([["regions"], {r: {} for r in case["regions"]}])
            ops += [
                {"op": "params", "slot": f"p{i}", "set": e, "deep": True},
                {"op": "build", "slot": f"p{i}", "model": "M"},
                {"op": "solve", "model": "M", "response": {"kind": "code", "code": 200, "seed": 0}},
            ]
        ref = ctx.simulate({"ops": ops})
        cores = {}
        for i, (name, _) in enumerate(todo):
            p, b, s = ref[3 * i : 3 * i + 3]
            for r in (p, b, s):
                harness_guard(r)
            if not s.get("calls"):
                out.bad("scenario-does-not-build", f"{name}: {b.get('error')} {b.get('message')} {s.get('error')}")
                return out
            cores[name] = s["calls"][0]["core"]
        first = self.start(case)
        before = first
        files = self.once(case, ctx, out, todo, cores, before, first, case["responses"], case["fault"], "first start")
        out.keys.add(key([case[k] for k in ("script", "regions", "responses", "fault", "folder")]))
        if case["again"] and files is not None and not out.violations:
            if "output" in files:
                # the user moves the file out of the way
                files = {k: v for k, v in files.items() if k != "output"}
            good = [{"kind": "code", "code": 0, "seed": 77 + i, "echo": True} for i in range(len(todo))]
            self.once(case, ctx, out, todo, cores, files, first, good, [], "started again")
            out.stat("started_again")
        return out

    def once(self, case, ctx, out, todo, cores, before, first, responses, fault, what):
        ops = [{"op": "write", "path": p, "text": t} for p, t in sorted(before.items())]
        ops += [{"op": "script", "name": case["script"], "regions": case["regions"], "responses": responses, "fault": fault}, {"op": "files", "content": True}]
        log = ctx.simulate({"ops": ops, "env": case["env"]})
        out.seen([{k: v for k, v in r.items() if k not in ("stdout", "stderr")} for r in log])
        for r in log:
            harness_guard(r)
        rec, after = log[-2], log[-1]["files"]
        for r in log:
            count_faults(out, r, r)
        calls = rec.get("calls", [])
        for c, r in zip(calls, responses):
            if r["kind"] not in ("honest",) and r.get("code") != 0:
                out.fault("solver_" + r["kind"] + (f"_{r['code']}" if "code" in r else ""))
        out.evals += 3
        out.sim_years += 80 * len(calls)
        reported = not rec["ok"] or bool(WARN.search(rec.get("stdout", "") + rec.get("stderr", "")))
        disturbed = bool(rec.get("fired") or rec.get("interrupted") or case["folder"] == "blocked" and what == "first start")
        if rec.get("error") == "SyntaxError" or (rec.get("where") or {}).get("inner") is None and not rec["ok"]:
            out.bad("script-unreadable", f"{rec.get('error')} {rec.get('message')}")
            return None
        solved, failed = {}, []
        names = [n for n, _ in todo]
        for i, c in enumerate(calls):
            r = responses[min(i, len(responses) - 1)]
            if c.get("core") is None:
                failed.append(None)
                continue
            match = [n for n in names if cores[n] == c["core"] and n not in solved]
            if not match:
                out.bad("another-problem", f"{what}: {case['script']}: problem number {i + 1} sent to the solver is none of the announced scenarios")
                return None
            good = r["kind"] == "honest" and any(t["feasible"] for t in c.get("tried", [])) or r["kind"] == "code" and r["code"] == 0
            if good:
                solved[match[0]] = c
            else:
                failed.append(match[0])
        out.stat("solved", len(solved))
        out.stat("not_solved", len(failed))
        bad = [n for n in names if n not in solved]
        # nothing but announced results may change
        allowed = {f"output/{n}.csv{x}" for n in names for x in ("", ".params.json")}
        for p in sorted(set(before) | set(after)):
            out.evals += 1
            if before.get(p) != after.get(p) and p not in allowed:
                if p not in first and (disturbed or p in before):
                    continue  # left behind by a failed save; P08 and P09 judge those
                out.bad("unannounced-file", f"{what}: {p} was {'changed' if p in before and p in after else 'created' if p in after else 'removed'}")
                return None
        for n in bad:
            for x in ("", ".params.json"):
                p = f"output/{n}.csv{x}"
                out.evals += 1
                if after.get(p) != before.get(p):
                    out.bad("unsolved-result-saved", f"{what}: {p} was written although the solver did not solve this scenario")
                    return None
        if (bad or disturbed) and not rec["ok"]:
            out.stat("stopped")
        if bad and rec["ok"] and not reported:
            out.bad("failure-not-reported", f"{what}: {case['script']} ended without a word, unsolved: {bad[:3]}")
            return None
        if not bad and not disturbed and not rec["ok"]:
            out.bad("script-failed", f"{what}: {case['script']}: {rec.get('error')} {rec.get('message')} in {rec.get('where')}")
            return None
        if not failed and not disturbed and not rec["ok"]:
            out.bad("script-failed", f"{what}: {case['script']}: {rec.get('error')} {rec.get('message')} in {rec.get('where')}, nothing had gone wrong")
            return None
        # every solved scenario before the stop is on the disk, with its own answer
        keep = list(solved)
        if disturbed and not rec["ok"] and keep:
            keep = keep[:-1]
        for n in keep:
            p = f"output/{n}.csv"
            if p not in after or p + ".params.json" not in after:
                out.bad("result-missing", f"{what}: {p} or its settings file is missing")
                return None
            if not self.holds(out, after[p], solved[n].get("x") or {}, f"{what}: {p}"):
                return None
            try:
                q = json.loads(after[p + ".params.json"])
                e = dict((tuple(k), v) for k, v in dict(todo)[n] if not isinstance(v, dict))
                for path, v in e.items():
                    out.evals += 1
                    d = q
                    for k in path:
                        d = d[k]
                    if d != v and not (isinstance(v, str) and quantity(d) == quantity(v)):
                        out.bad("wrong-settings-file", f"{what}: {p}.params.json says {path} = {d}")
                        return None
            except (ValueError, KeyError, TypeError) as exc:
                out.bad("unreadable-settings-file", f"{what}: {p}.params.json: {type(exc).__name__} {exc}")
                return None
        if rec["ok"] and not bad and case["script"] == "run_calibration.py":
            self.printed(out, rec["stdout"], after, what)
        return after

    def holds(self, out, text, x, where):
        """the table shows the values the solver returned"""
        rows = {}
        for row in csv.reader(io.StringIO(text)):
            rows[row[0], row[1]] = row[3:]
        n = 0
        for name, v in x.items():
            m = re.fullmatch(r"(\w+)\[(\d+)(?:,(\w+))?\]", name)
            if not m:
                continue
            row = rows.get((m.group(1), m.group(3) or "Global"))
            if row is None:
                continue
            t = int(m.group(2))
            got = row[t] if t < len(row) else None
            n += 1
            try:
                # pyomo clips values into the bounds of the variable; the solver's tolerance is smaller than the print
                ok = math.isclose(float(got), float("%.6g" % v), rel_tol=2e-5, abs_tol=1e-7)
            except (TypeError, ValueError):
                ok = False
            if not ok:
                out.bad("wrong-result", f"{where}: {name} is {got}, the solver returned {v!r}")
                return False
        out.evals += n
        if x and n < 10:
            out.bad("wrong-result", f"{where}: only {n} of {len(x)} values of the solver are in the table")
            return False
        return True

    def printed(self, out, stdout, after, what):
        lines = re.findall(r"(\d+(?:\.\d+)?) GtCO2\D*?(-?[\d.]+(?:e[+-]?\d+)?|-?nan|-?inf) ?%", stdout)
        got = {}
        for b, v in lines:
            got.setdefault(int(float(b)), []).append(float(v))
        for b in BUDGETS:
            out.evals += 1
            if len(got.get(b, [])) != 1:
                out.bad("costs-not-printed", f"{what}: {len(got.get(b, []))} lines with the costs for {b} GtCO2")
                return
            want = costs(after[f"output/calibration/cb_{b}.csv"])
            if want is None or not math.isfinite(want):
                continue
            if abs(got[b][0] - 100 * want) > 0.0502 + 1e-4 * abs(100 * want):
                out.bad("wrong-costs", f"{what}: {b} GtCO2: printed {got[b][0]} %, the saved table gives {100 * want:.3f} %")
                return
        out.stat("costs_checked")

    def vacuous(self, T):
        if T.episodes >= 24:
            for k in ("solved", "not_solved", "stopped", "costs_checked", "started_again"):
                if not T.stats.get(k):
                    return f"never seen: {k}"
        return super().vacuous(T)


def quantity(s):
    m = re.match(r"\s*([-+\d.eE]+)\s*(.*)", str(s))
    try:
        return (float(m.group(1)), m.group(2).replace(" ", "")) if m else s
    except ValueError:
        return s


def costs(text):
    """net present value (3 % per year, continuous, trapezoid rule) of the mitigation costs relative to that of gross GDP"""
    rows = list(csv.reader(io.StringIO(text)))
    k = rows[0].index("2020")
    y = np.array([float(c) for c in rows[0][k:]])
    d = np.exp(-0.03 * (y - y[0]))
    tot = {}
    for v in ("mitigation_costs", "GDP_gross"):
        s = np.zeros(len(y))
        for r in rows[1:]:
            if r[0] == v:
                s += np.array([float(c) if c else 0.0 for c in r[k:]])
        z = s * d
        tot[v] = float(np.sum((z[1:] + z[:-1]) / 2 * np.diff(y)))
    return tot["mitigation_costs"] / tot["GDP_gross"] if tot["GDP_gross"] else None
