"""M12: simulation mode.

A first run is solved and saved.  Its paths become the prescribed ones of a
second run - from the saved table, through a pattern, or as a dictionary -
after one value was moved to either side of the tolerance.  The solver of the
second run answers with the very path of the first."""
import copy
import csv
import io
import math
import random

import numpy as np

from .. import runner, spec, workload
from .base import Outcome, harness_guard, key
from .model import FAILS, ModelProp, count_faults, noise
from .probe import tried

EPS = 1e-3
REGIONAL = ["relative_abatement", "regional_emissions", "carbonprice", "rel_mitigation_costs", "damage_costs", "consumption"]
GLOBAL = ["global_emissions", "temperature", "cumulative_emissions"]
# words by which the constraint of a limit is found among the names of the model
LIMITS = {
    "carbonbudget": ("carbon", "budget"),
    "target": ("temperature", "target"),
    "global inertia": ("global", "inertia"),
    "regional inertia": ("regional", "inertia"),
    "global min level": ("global", "min"),
    "regional min level": ("regional", "min"),
}


def read_table(text):
    rows = list(csv.reader(io.StringIO(text)))
    return rows[0], rows[1:]


def write_table(head, rows):
    out = io.StringIO()
    csv.writer(out, lineterminator="\n").writerows([head] + rows)
    return out.getvalue()


class M12(ModelProp):
    id = "M12"
    quick = 200
    rule = "an episode = one solved and saved run, and 4 runs in simulation mode that prescribe paths of it (saved table, file pattern or dictionary; regional or global variables; years in between, rows in another order; one value moved to either side of the tolerance; limits the path breaks, switched off or not; missing files, rows and failing reads), solved with the path of the first run; distinct = different (configuration, prescription)"

    def vacuous(self, tally):
        return None if tally.evals else "nothing was prescribed"

    def generate(self, rng, ctx):
        o = workload.gen_settings(rng, max_regions=3)
        o = workload.without(o, ["economics", "damages", "ignore damages"])
        o = workload.free(o) + [[["emissions", "not positive after budget year"], False]]
        s, e, dt = rng.choice([(2020, 2150, 10), (2020, 2130, 5), (2015, 2110, 20), (2020, 2105, 7.5), (2025, 2125, 10), (2020, 2095, 15)])
        o = workload.without(o, ["time"]) + [[["time"], {"start": s, "end": e, "dt": dt}]]
        p = ctx.settings(o)
        t = spec.Truth(p)
        style = rng.random()
        ab = workload.wander(rng, t) if style < 0.4 else workload.shape(rng, t)
        plan = {"abatement": ab, "wild": 0.2, "restore": False}
        tests = []
        for k in range(4):
            tests.append({
                "what": rng.choice(["path", "path", "path", "path", "limit", "limit", "broken", "broken", "off"]),
                "vars": rng.sample(REGIONAL[:3] + GLOBAL[:2], 2)[: rng.choice([1, 1, 2])] if rng.random() < 0.8 else [rng.choice(REGIONAL + GLOBAL)],
                "source": rng.choice(["csv", "csv", "pattern", "dict", "dict", "floatdict"]),
                "move": rng.choice([0, 1, -1, 1, -1]),
                "ok": rng.random() < 0.5,
                "margin": 10 ** rng.uniform(-2, -0.4),
                "dice": rng.randrange(10**6),
                "between": rng.random() < 0.3,
                "shuffle": rng.random() < 0.3,
                "extra_region": rng.random() < 0.2,
                "limit": rng.choice(sorted(LIMITS)),
                "off": rng.random() < 0.5,
                # a second limit, in force or switched off together with the first
                "limit2": rng.choice([None, *sorted(LIMITS)]),
                "off2": rng.random() < 0.8,
                "first": rng.random() < 0.5,
                "split": rng.random() < 0.5,
                "before": [dict(rng.choice(FAILS), seed=rng.randrange(1000))] if rng.random() < 0.15 else [],
                "same_process": rng.random() < 0.4,
                "prelude": noise(rng, ctx) if rng.random() < 0.15 else [],
            })
            kinds = ["noregion", "nosuchvar", "blank"]
            if tests[-1]["source"] in ("csv", "pattern"):
                kinds += ["nofile", "nomatch", "novariable", "eio", "torn"]
            tests[-1]["broken"] = rng.choice(kinds)
        return {"settings": o, "plan": plan, "seed": rng.randrange(10**6), "tests": tests, "env": {"seed": rng.randrange(10**6), "short_reads": rng.random() < 0.2, "shuffle_dirs": True}}

    def shrinks(self, case):
        for t in case["tests"]:
            if len(case["tests"]) > 1:
                yield dict(case, tests=[t])
        for k, t in enumerate(case["tests"]):
            if t["prelude"] or t["before"]:
                yield dict(case, tests=case["tests"][:k] + [dict(t, prelude=[], before=[])] + case["tests"][k + 1 :])

    # ------------------------------------------------------------ first run

    def decide(self, case, ctx):
        out = Outcome()
        answer = {"kind": "honest", "plans": [case["plan"]], "seed": case["seed"]}
        base = [
            {"op": "params", "slot": "p", "set": case["settings"], "show": True},
            {"op": "build", "slot": "p", "model": "P"},
            {"op": "names", "model": "P"},
            {"op": "solve", "model": "P", "response": answer},
            {"op": "values", "model": "P"},
            {"op": "save", "model": "P", "args": ["earlier"], "kwargs": {}},
            {"op": "files", "content": True},
        ]
        log = ctx.simulate({"ops": base, "env": case["env"]})
        out.seen(log)
        for rec in log:
            harness_guard(rec)
        out.keys.add(key([case["settings"], case["tests"]]))
        if not (log[0]["ok"] and log[1]["ok"]):
            out.bad("unexpected-exception", f"first run: {log[1].get('error')}: {log[1].get('message')}")
            return out
        if not (log[3]["ok"] and log[5]["ok"]):
            out.stat("first_run_not_solved")
            return out
        truth = spec.Truth(log[0]["params"])
        out.sim_years += truth.end - truth.start
        first = {"v": log[4]["values"]["v"], "csv": log[6]["files"]["output/earlier.csv"], "names": log[2]["constraints"]}
        for test in case["tests"]:
            self.one(case, test, truth, first, answer, base, ctx, out)
        return out

    # ------------------------------------------------------------ second run

    def one(self, case, test, t, first, answer, base, ctx, out):
        rng = random.Random(test["dice"])
        names = [v for v in test["vars"] if v in first["v"]]
        v1 = first["v"]
        years = [float(y) for y in t.years]
        labels = [f"{y:g}" for y in years]
        regions = list(t.regions)
        # prescriptions: {variable: {region: [value per year]}}
        head, rows = read_table(first["csv"])
        wanted = {}
        for v in names:
            tab = {}
            if test["source"] in ("csv", "pattern"):
                for row in rows:
                    if row[0] == v:
                        tab[row[1]] = [float(x) for x in row[3:]]
            else:
                a = np.array(v1[v], float)
                tab = {r: [float(x) for x in a[:, k]] for k, r in enumerate(regions)} if a.ndim == 2 else {"Global": [float(x) for x in a]}
            if not tab or any(not all(math.isfinite(x) for x in s) for s in tab.values()):
                out.stat("sim_no_values")
                return
            wanted[v] = tab
        if not wanted:
            return
        moved = still = None
        if test["what"] in ("path", "off") and (test["move"] or test["what"] == "off"):
            v = rng.choice(sorted(wanted))
            r = rng.choice(sorted(wanted[v]))
            k = rng.randrange(1, t.T)
            x = self.value(v1, v, r, k, regions)
            size = EPS * (1 - test["margin"] if test["ok"] and test["what"] == "path" else 1 + test["margin"])
            wanted[v][r][k] = x + (test["move"] or 1) * size
            moved = (v, r, labels[k], (test["move"] or 1) * size)
        edits = [[["simulation", "simulationmode"], rng.choice([True, True, "true", 1]) if test["what"] != "off" else False]]
        edits2, limit_off = self.limit(case, test, t, v1, first, rng)
        if test["what"] == "limit":
            if edits2 is None:
                out.stat("sim_limit_skipped")
                return
            edits += edits2
            k2 = test.get("limit2")
            if k2 and k2 != test["limit"] and limit_off:
                more, off2 = self.limit(case, dict(test, limit=k2, off=test["off2"]), t, v1, first, rng)
                if more and off2:
                    edits += more
                    limit_off = limit_off + off2 if test["first"] else off2 + limit_off
                    out.stat("sim_several_limits_off")
                elif more:
                    edits += more
                    still = k2
                    out.stat("sim_one_of_two_limits_off")
        ops = list(test["prelude"])
        if test["same_process"]:
            ops += base[:6]
        spec_, files = self.source(test, wanted, t, regions, rng)
        bad = test["what"] == "broken"
        fault = None
        if bad:
            spec_, files, fault = self.breakage(test, spec_, files, names, regions, rng)
            if spec_ is None:
                out.stat("sim_broken_skipped")
                return
        edits.append([["simulation", "constraint_variables"], spec_])
        if test["what"] == "limit" and limit_off:
            edits.append([["simulation", "deactivated_constraints"], limit_off])
        ops += [{"op": "write", "path": n, "text": x} for n, x in files.items()]
        npre = len(ops)
        build = {"op": "build", "slot": "s", "model": "S"}
        ops += [{"op": "params", "slot": "s", "set": case["settings"] + edits, "deep": True, "show": True}, dict(build, fault=fault) if fault else build]
        if bad:
            if fault:
                ops.append(build)
            log = ctx.simulate({"ops": ops, "env": case["env"]})
            out.seen(log)
            for op, rec in zip(ops, log):
                harness_guard(rec)
                count_faults(out, op, rec)
            out.evals += 1
            out.stat("sim_broken_" + test["broken"])
            b = log[npre + 1]
            if b["ok"] and not (fault and not b.get("fired")):
                out.bad("broken-source-accepted", f"{test['broken']}: building succeeded with {list(spec_)} from {list(files)}")
            if fault and not log[npre + 2]["ok"]:
                out.bad("retry-fails", f"building again after a failed read: {log[npre + 2]['error']}: {log[npre + 2]['message']}")
            return
        if test["what"] == "off":
            ops += [{"op": "params", "slot": "n", "set": case["settings"]}, {"op": "build", "slot": "n", "model": "N"}, {"op": "compare", "a": "S", "b": "N", "rtol": 0, "atol": 0}]
            log = ctx.simulate({"ops": ops, "env": case["env"]})
            out.seen(log)
            for rec in log:
                harness_guard(rec)
            out.evals += 1
            out.stat("sim_off")
            if not log[npre + 1]["ok"]:
                out.bad("unexpected-exception", f"simulation mode off: build: {log[npre + 1]['error']}: {log[npre + 1]['message']}")
            elif log[-1].get("diff"):
                out.bad("prescription-used-although-off", log[-1]["diff"])
            return
        ops += [{"op": "solve", "model": "S", "response": b} for b in test["before"]]
        ops += [{"op": "solve", "model": "S", "response": answer}, {"op": "values", "model": "S"}]
        log = ctx.simulate({"ops": ops, "env": case["env"]})
        out.seen(log)
        for op, rec in zip(ops, log):
            harness_guard(rec)
            count_faults(out, op, rec)
        b, s, vals = log[npre + 1], log[-2], log[-1]
        if not b["ok"]:
            out.bad("unexpected-exception", f"prescribing {sorted(wanted)} from {test['source']}: build: {b['error']}: {b['message']}", str((b.get("where") or {}).get("lib")))
            return
        if not s["ok"] and not (s.get("calls") and s["calls"][-1].get("tried")):
            out.bad("unexpected-exception", f"solve: {s['error']}: {s['message']}")
            return
        # does the path of the first run lie within the tolerance?
        worst = 0.0
        for v, tab in wanted.items():
            for r, series in tab.items():
                for k in range(t.T):
                    worst = max(worst, abs(self.value(v1, v, r, k, regions) - series[k]))
        breaks = test["what"] == "limit" and (not limit_off or still is not None)
        out.evals += 1
        if abs(worst - EPS) < 2e-6:
            out.stat("sim_ambiguous")
            return
        want = worst <= EPS and not breaks
        out.stat("sim_" + test["what"] + ("_inside" if want else "_outside"))
        out.stat("sim_source_" + test["source"])
        note = f"prescribed {sorted(wanted)} ({test['source']}), moved: {moved}, limit: {edits2 if test['what'] == 'limit' else None}, switched off: {limit_off}, still in force: {still}"
        if want and not s["ok"]:
            if self.numerics(t, tried(s)):
                out.stat("sim_numerics")
                return
            out.bad("prescribed-path-refused", f"{note}: largest deviation {worst:.6g}, yet refused: {tried(s)['violations'][:3]}")
        elif not want and s["ok"]:
            out.bad("prescription-not-enforced" if worst > EPS else "limit-lost", f"{note}: largest deviation {worst:.6g}, yet accepted")
        if s["ok"]:
            self.ordinary(log[npre]["params"], vals, out)

    def numerics(self, t, tr):
        """refused, but only by amounts at the level of rounding"""
        vs = tr["violations"]
        return bool(vs) and all(abs(x[1]) < 1e-7 for x in vs if len(x) > 1)

    def value(self, v1, v, r, k, regions):
        x = v1[v][k]
        return float(x[regions.index(r)]) if isinstance(x, list) else float(x)

    def ordinary(self, params, vals, out):
        """everything else is computed as in a normal run"""
        if not vals["ok"]:
            out.bad("unexpected-exception", f"reading results: {vals.get('error')}")
            return
        p = dict(params, temperature=dict(params["temperature"], target=False))
        j = spec.Judge(spec.Truth(p), vals["values"]["v"])
        j.objective = vals.get("objective")
        for c in (spec.check_emissions, spec.check_temperature, spec.check_economy, spec.check_mitigation, spec.check_damages, spec.check_sealevel, spec.check_trade, spec.check_baseline):
            try:
                c(j)
            except spec.MissingVariable as e:
                out.bad("missing-variable", str(e))
        out.evals += j.evals
        for x in j.out:
            out.bad("simulated-run-inconsistent", f"{x['class']} {x['where']}: {x['detail']}")

    # ------------------------------------------------------------ pieces

    def limit(self, case, test, t, v, first, rng):
        """a limit which the path breaks, and the names that switch it off"""
        kind = test["limit"]
        E, G = np.array(v["regional_emissions"], float), np.array(v["global_emissions"], float)
        C, Tm = np.array(v["cumulative_emissions"], float), np.array(v["temperature"], float)
        late = t.years >= 2100
        if kind == "carbonbudget":
            if not late.any():
                return None, None
            e = [[["emissions", "carbonbudget"], f"{float(C[late].max()) * 0.9!r} GtCO2"]]
        elif kind == "target":
            if not late.any():
                return None, None
            e = [[["temperature", "target"], f"{float(Tm[late].max()) - 0.05!r} delta_degC"]]
        elif kind.endswith("inertia"):
            s = (G[1:] - G[:-1]) / (t.dt * t.emis[0].sum()) if kind[0] == "g" else (E[1:] - E[:-1]) / (t.dt * t.emis[0])
            L = float(s.min()) * 0.9
            if L > -1e-3:
                return None, None
            e = [[["emissions", "inertia", kind.split()[0]], L]]
        else:
            X = G if kind[0] == "g" else E
            m = float(X[1:].min())
            L = m + 0.05 * max(0.1, abs(m))
            if L > X[0].min() - 1e-3:
                return None, None
            e = [[["emissions", kind], f"{L!r} GtCO2/yr"]]
        off = None
        if test["off"]:
            words = LIMITS[kind]
            hits = [n for n in first["names"] if all(w in n for w in words)]
            if len(hits) != 1 or not hits[0].startswith("constraint_"):
                return None, None
            off = [hits[0][len("constraint_") :]]
        return e, off

    def source(self, test, wanted, t, regions, rng):
        """(value of constraint_variables, {file: text})"""
        years = [float(y) for y in t.years]
        grid = list(years)
        if test["between"]:
            grid += [0.5 * (a + b) for a, b in zip(years, years[1:])]
            grid += [years[0] - 5, years[-1] + 5]
            grid = sorted(grid)

        def full(series):
            return [float(x) for x in np.interp(grid, years, series)]

        if test["source"] in ("dict", "floatdict"):
            sets = {}
            for v, tab in wanted.items():
                regs = list(tab)
                if test["shuffle"]:
                    rng.shuffle(regs)
                cols = {r: full(s) for r, s in tab.items()}
                if test["extra_region"]:
                    regs.append("ELSEWHERE")
                    cols["ELSEWHERE"] = [123.0] * len(grid)
                d = {f"{y:g}": {r: cols[r][k] for r in regs} for k, y in enumerate(grid)}
                sets[v] = {"__numkeys__": d} if test["source"] == "floatdict" else d
            return sets, {}
        head = ["Variable", "Region", "Unit"] + [f"{y:g}" for y in grid]
        rows = []
        for v, tab in wanted.items():
            for r, s in tab.items():
                rows.append([v, r, "x"] + [repr(x) for x in full(s)])
        # other variables of other runs in the same table, some with similar names
        for v in sorted(wanted):
            for name in ("rel_" + v, v + "_2", v.upper(), "global_" + v):
                if name not in wanted and rng.random() < 0.5:
                    for r in wanted[v]:
                        rows.append([name, r, "y"] + ["0.555"] * len(grid))
        for v in ("relative_abatement", "global_emissions", "carbonprice", "population"):
            if v not in wanted:
                for r in regions + ["Global"]:
                    rows.append([v, r, "y"] + ["0.777"] * len(grid))
        if test["extra_region"]:
            rows.append([sorted(wanted)[0], "ELSEWHERE", "x"] + ["55.5"] * len(grid))
        if test["shuffle"]:
            rng.shuffle(rows)
        text = write_table(head, rows)
        if test.get("split") and len(wanted) > 1:
            # every variable from a table of its own; the others hold decoys for it
            files, sets = {}, {}
            for n, v in zip("ab", sorted(wanted)):
                mine = [r if r[0] == v or r[0] not in wanted else r[:3] + ["0.333"] * (len(r) - 3) for r in rows]
                files[f"input/prescribed_{n}1b2c3.csv"] = write_table(head, mine)
                sets[v] = f"input/prescribed_{n}1b2c3.csv" if test["source"] == "csv" else f"input/prescribed_*{n}1b2c3.csv"
            return sets, files
        if test["source"] == "csv":
            return {v: "input/prescribed.csv" for v in wanted}, {"input/prescribed.csv": text, "input/prescribed2.csv": "Variable,Region,Unit,2020\n"}
        return {v: "input/presc*_a1b2c3.csv" for v in wanted}, {"input/prescribed_a1b2c3.csv": text, "input/other_a1b2c3.csv": "Variable,Region,Unit,2020\n"}

    def breakage(self, test, sets, files, names, regions, rng):
        kind = test["broken"]
        fault = None
        v = sorted(sets)[0]
        csvs = [n for n in sorted(files) if "prescribed" in n and "d2.csv" not in n]
        if kind in ("nofile", "nomatch", "eio") and not csvs:
            return None, None, None
        if kind == "nofile":
            sets = {k: "input/not_there.csv" for k in sets}
        elif kind == "nomatch":
            sets = {k: "input/not_there*.csv" for k in sets}
        elif kind == "eio":
            fault = [{"kind": "io", "side": "r", "n": 1, "err": rng.choice(["EIO", "EACCES", "ESTALE"]), "path": csvs[0]}]
        elif kind == "nosuchvar":
            sets = dict(sets)
            sets["no_such_variable"] = sets[v]
        elif csvs:
            head, rows = read_table(files[csvs[0]])
            regs = [r[1] for r in rows if r[0] == v and r[1] in regions + ["Global"]]
            if kind == "novariable":
                rows = [r for r in rows if r[0] != v]
            elif kind in ("blank", "torn"):
                mine = [r for r in rows if r[0] == v and r[1] in regions + ["Global"]]
                if not mine:
                    return None, None, None
                row = rng.choice(mine)
                k = rng.randrange(3, len(row))
                if kind == "blank":
                    row[k] = rng.choice(["", "nan", "NaN"])
                else:  # cut off at this row, as after an interrupted copy
                    rows.remove(row)
                    rows.append(row[:k])
            else:
                if not regs:
                    return None, None, None
                gone = rng.choice(regs)
                rows = [r for r in rows if not (r[0] == v and r[1] == gone)]
            files = dict(files)
            files[csvs[0]] = write_table(head, rows)
        else:
            if kind in ("novariable", "torn"):
                return None, None, None
            d = sets[v]
            inner = d.get("__numkeys__", d)
            some = next(iter(inner.values()))
            gone = rng.choice([r for r in some if r != "ELSEWHERE"])
            year = rng.choice(sorted(inner))
            inner = {y: {r: x for r, x in c.items() if r != gone or (kind == "blank" and y != year)} for y, c in inner.items()}
            if kind == "blank" and rng.random() < 0.5:
                inner[year] = dict(inner[year], **{gone: {"__float__": "nan"}})
            if kind != "blank" and not next(iter(inner.values())):
                return None, None, None
            sets = dict(sets)
            sets[v] = {"__numkeys__": inner} if "__numkeys__" in d else inner
        return sets, files, fault
