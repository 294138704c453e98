"""Probing limits from both sides.

First run: every optional limit is off and the solver answers with some path.
From what the run reports, limits are computed that this very path just meets
or just misses.  Second run: the same solver answer under those limits.  The
model has to accept it exactly when the settings say so."""
import copy
import math
import random

import numpy as np

from .. import runner, spec, workload
from .base import Outcome, harness_guard, key
from .model import FAILS, ModelProp, claimed, count_faults, noise


def session(prelude, settings, plan, seed, before=(), env=None, model="P", claim=False):
    ops = list(prelude)
    ops.append({"op": "params", "slot": "p", "set": settings, "show": True})
    ops.append({"op": "build", "slot": "p", "model": model})
    for b in before:
        ops.append({"op": "solve", "model": model, "response": b})
    ops.append({"op": "solve", "model": model, "response": {"kind": "honest", "plans": [plan], "seed": seed, "claim": claim}, "candidate": True})
    ops.append({"op": "values", "model": model})
    return {"ops": ops, "env": env or {}}


def verdict(out, run, log, npre, what):
    """(params, "accepted"|"rejected"|None, candidate record, values)"""
    params = status = cand = vals = None
    for op, rec in zip(run["ops"], log):
        harness_guard(rec)
        count_faults(out, op, rec)
        if rec["i"] < npre:
            continue
        if op["op"] in ("params", "build") and not rec["ok"]:
            out.bad("unexpected-exception", f"{what}: {op['op']}: {rec['error']}: {rec['message']}", str((rec.get("where") or {}).get("lib")))
            return params, None, None, None
        if op["op"] == "params":
            params = rec["params"]
        if op.get("candidate"):
            cand = rec
            status = "accepted" if rec["ok"] and not claimed(rec) else "rejected"
            if not rec["ok"] and not (rec.get("calls") and rec["calls"][-1].get("tried")):
                out.bad("unexpected-exception", f"{what}: solve: {rec['error']}: {rec['message']}", str((rec.get("where") or {}).get("lib")))
                return params, None, rec, None
        if op["op"] == "values" and rec["ok"]:
            vals = rec["values"]
    return params, status, cand, vals


def tried(cand):
    return cand["calls"][-1]["tried"][0]


class ProbeMixin:
    """case: settings (free), plan, seed, tests: [{pick..}] ; subclasses define limits_for/expect"""

    def first(self, case, ctx, out):
        run = session([], case["settings"], case["plan"], case["seed"], env=case.get("env"), claim=True)
        log = ctx.simulate(run)
        out.seen(log)
        p, status, cand, vals = verdict(out, run, log, 0, "without limits")
        if status is None:
            return None, None
        truth = spec.Truth(p)
        out.sim_years += truth.end - truth.start
        if status == "rejected":
            t = tried(cand)
            if vals is None or t["worst"] < 1e-5 or not spec.wrongly_refused(truth, vals["v"]):
                out.stat("probe_unusable")
                return None, None
            out.bad("unasked-limit", f"every optional limit is off, yet a consistent path was refused: {t['violations'][:3]}")
            return None, None
        out.stat("free_accepted")
        return truth, vals

    def probe(self, case, ctx):
        out = Outcome()
        truth, vals = self.first(case, ctx, out)
        out.keys.add(key([case["settings"], case["tests"]]))
        if truth is None:
            return out
        for k, test in enumerate(case["tests"]):
            made = self.limits_for(truth, vals["v"], test)
            if made is None:
                out.stat("probe_skipped")
                continue
            edits, plan = made
            settings = case["settings"] + edits
            run = session(test.get("prelude", []), settings, plan or case["plan"], case["seed"], test.get("before", ()), case.get("env"))
            log = ctx.simulate(run)
            out.seen(log)
            p, status, cand, v2 = verdict(out, run, log, len(test.get("prelude", [])), str(edits))
            if status is None:
                continue
            want, why = self.expect(spec.Truth(p), vals["v"], test)
            out.evals += 1
            if want is None:
                out.stat("probe_ambiguous")
                continue
            out.stat("probe_" + test["limit"] + ("_ok" if want else "_broken"))
            if want and status == "rejected":
                t = tried(cand)
                out.bad("limit-too-strict", f"{edits}: the path meets every requested limit but was refused: {t['violations'][:3]}", test["limit"])
            elif not want and status == "accepted":
                out.bad("limit-not-enforced", f"{edits}: the path breaks {why} but was accepted", test["limit"])
        return out


ALWAYS = ("cumulative-nonnegative", "abatement-range")


class M03(ProbeMixin, ModelProp):
    id = "M03"
    quick = 460
    rule = "an episode = one configuration and one solver path, replayed under 3-4 sets of limits that the path just meets or just misses (after histories and failed solves); distinct = different (configuration, limits)"
    KINDS = ["carbonbudget", "netzero", "target", "global inertia", "regional inertia", "global min level", "regional min level", "nonincreasing", "zero", "zero"]

    refusals = ()

    def generate(self, rng, ctx):
        if rng.random() < 0.3:
            # limits as a user draws them, with everything else that can restrict a path
            self.focus = rng.choice([set(), set(), {"trade"}, {"pool"}, {"effort"}])
            return super().generate(rng, ctx)
        o = workload.gen_settings(rng, max_regions=3)
        o = workload.without(o, ["economics", "damages", "ignore damages"])
        o = workload.free(o)
        if rng.random() < 0.6:
            s, e, dt = rng.choice([(2020, 2150, 10), (2020, 2130, 5), (2015, 2140, 20), (2030, 2160, 10), (2020, 2120, 7.5), (2050, 2145, 5), (2020, 2132, 7), (2025, 2145, 8)])
            o = workload.without(o, ["time"]) + [[["time"], {"start": s, "end": e, "dt": dt}]]
        t = spec.Truth(ctx.settings(o))
        plan = {"abatement": workload.wander(rng, t), "wild": rng.choice([0.1, 0.4]), "restore": False}
        if len(t.regions) > 1:
            # money moves between regions: nothing the limits know about
            if t.trade and rng.random() < 0.7:
                plan["trade"] = {"scale": rng.choice([0.2, 0.45]), "weights": {r: rng.uniform(-1, 1) for r in t.regions}}
                if rng.random() < 0.5:
                    plan["trade"] = workload.bargain(rng, t)
            if t.pool and rng.random() < 0.7:
                plan["pool"] = {"scale": rng.choice([0.3, 0.6, 0.98]), "weights": {r: rng.uniform(0.2, 1) for r in t.regions}}
        tests = []
        for k in range(4):
            test = {
                "limit": rng.choice(self.KINDS),
                "ok": rng.random() < 0.5,
                "margin": 10 ** rng.uniform(-4.5, -1.5),
                "unit": rng.random(),
                "others": [x for x in self.KINDS if rng.random() < 0.25],
                "netzero_flag": rng.random() < 0.5,
            }
            if rng.random() < 0.15:
                test["prelude"] = noise(rng, ctx)
            if rng.random() < 0.2:
                test["before"] = [dict(rng.choice(FAILS), seed=rng.randrange(1000))]
            tests.append(test)
        return {"settings": o, "plan": plan, "seed": rng.randrange(10**6), "tests": tests, "env": {"seed": rng.randrange(10**6)}}

    def decide(self, case, ctx):
        return super().decide(case, ctx) if "plans" in case else self.probe(case, ctx)

    def checks(self, j):
        for name, s in spec.limits(j.t, j.v):
            j.evals += s.size
            lo = float(np.min(s))
            if not lo >= -2e-7:
                j.report("limit-not-enforced", (), f"an accepted path breaks {name} by {-lo:.6g}")

    def vacuous(self, tally):
        return None if tally.evals else "no limit was probed"

    def limits_for(self, t, v, test):
        rng = random.Random(test["unit"])
        E, G = np.array(v["regional_emissions"], float), np.array(v["global_emissions"], float)
        C, Tm = np.array(v["cumulative_emissions"], float), np.array(v["temperature"], float)
        late = t.years >= 2100
        edits = []
        flag = test["netzero_flag"]

        def one(kind, ok, m):
            nonlocal flag
            sg = 1 if ok else -1
            if kind == "carbonbudget":
                if not late.any():
                    L = 1.0 if not ok else C.max() + m  # before 2100 no budget applies
                    L = 1.0
                else:
                    L = C[late].max() + sg * m * max(1.0, C[late].max())
                edits.append([["emissions", "carbonbudget"], workload.show(rng, float(L), "emissions")])
            elif kind == "netzero":
                flag = True
                L = C.max() + 1.0
                edits.append([["emissions", "carbonbudget"], workload.show(rng, float(L), "emissions")])
            elif kind == "target":
                L = (Tm[late].max() if late.any() else Tm.min() - 0.1) + (sg * m if late.any() else 0)
                edits.append([["temperature", "target"], workload.show(rng, float(L), "temp")])
            elif kind in ("global inertia", "regional inertia"):
                if kind == "global inertia":
                    s = (G[1:] - G[:-1]) / (t.dt * t.emis[0].sum())
                else:
                    s = ((E[1:] - E[:-1]) / (t.dt * t.emis[0])).ravel()
                L = s.min() - sg * m * max(1e-3, abs(s.min()))
                if L >= -1e-6:
                    return False
                edits.append([["emissions", "inertia", kind.split()[0]], float(L)])
            elif kind in ("global min level", "regional min level"):
                X = G if kind == "global min level" else E
                L = X[1:].min() - sg * m * max(0.1, abs(X[1:].min()))
                if L > X[0].min() - 1e-4 or abs(L) < 1e-6:
                    return False
                edits.append([["emissions", kind], workload.show(rng, float(L), "rate")])
            elif kind == "zero":
                # nothing may remain, or nothing may be taken back
                broken = [w for w, bad in (("global min level", G.min() < -1e-3), ("regional min level", E.min() < -1e-3), ("carbonbudget", late.any() and C[late].max() > 1e-3), ("inertia", (G[1:] < G[:-1] - 1e-3).any())) if bad]
                which = rng.choice(broken if broken and not ok else ["global min level", "regional min level", "carbonbudget", "inertia"])
                if which == "inertia":
                    edits.append([["emissions", "inertia", rng.choice(["global", "regional"])], rng.choice([0, "0", "0.0", "0.0", "-0"])])
                else:
                    edits.append([["emissions", which], workload.show(rng, 0.0, "emissions" if which == "carbonbudget" else "rate")])
            elif kind == "nonincreasing":
                edits.append([["emissions", "non increasing emissions after 2100"], rng.choice([True, "true", 1])])
            return True

        if one(test["limit"], test["ok"], test["margin"]) is False:
            return None
        for k in test["others"]:
            if k != test["limit"] and not (k in ("carbonbudget", "netzero") and test["limit"] in ("carbonbudget", "netzero")) and k not in ("nonincreasing", "netzero", "zero"):
                one(k, True, 0.3)
        edits.append([["emissions", "not positive after budget year"], flag])
        return edits, None

    def expect(self, t, v, test):
        worst = (math.inf, "")
        for name, s in spec.limits(t, v):
            lo = float(np.min(s))
            # the model's own rounding
            if abs(lo) < 2e-7 and name not in ALWAYS:
                return None, ""
            if name in ALWAYS and lo >= -1e-9:
                continue
            worst = min(worst, (lo, name))
        return worst[0] >= 0, worst[1]
