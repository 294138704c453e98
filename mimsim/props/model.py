"""M01-M11: what every solved run must satisfy, whatever the solver answers."""
import math
import random

from .. import spec, workload
from .base import Outcome, Prop, harness_guard, key, rng_for

FAILS = [
    {"kind": "code", "code": 200},
    {"kind": "code", "code": 400},
    {"kind": "code", "code": 500},
    {"kind": "code", "code": 300},
    {"kind": "nosol"},
    {"kind": "signal"},
    {"kind": "interrupt"},
    {"kind": "missing"},
    {"kind": "garbage"},
]


NOTHING = "no policy satisfies the problem, neither here nor in any other run of the batch"


def noise(rng, ctx):
    """operations that happen in the process before the run under test"""
    ops = []
    if rng.random() < 0.55:
        return ops
    for k in range(rng.randint(1, 2)):
        o = workload.gen_settings(rng, max_regions=2)
        slot, model = f"n{k}", f"N{k}"
        ops.append({"op": "params", "slot": slot, "set": o})
        b = {"op": "build", "slot": slot, "model": model}
        f = rng.random()
        if f < 0.2:
            b["fault"] = [{"kind": "interrupt", "line": rng.randint(5, 1100)}]
        elif f < 0.35:
            b["fault"] = [{"kind": "io", "side": "r", "n": rng.randint(1, 30), "err": rng.choice(["EIO", "EMFILE", "ENOENT"])}]
        ops.append(b)
        if rng.random() < 0.3:
            ops.append({"op": "edit", "slot": slot, "set": [[["economics", "PRTP"], 0.07]]})
        if rng.random() < 0.3:
            ops.append({"op": "solve", "model": model, "response": dict(rng.choice(FAILS))})
    return ops


class ModelProp(Prop):
    focus = set()
    nplans = 4
    max_regions = 4
    quick = 320
    # what this property says about paths the submitted problem refuses: None nothing,
    # () everything, else the variables whose limits it speaks of
    refusals = None
    rule = "an episode = a process history (earlier builds, interrupted or failing builds, failed solves), one configuration and five solver answers, each possibly after failed solves; distinct = different (configuration, history)"

    def vacuous(self, tally):
        if tally.evals == 0:
            return "no accepted solution was judged"
        return None

    def hopeless(self, tally, first_seed, ctx):
        """Most configurations have an acceptable policy among the five that are tried.
        If over a whole batch nothing at all is accepted, runs cannot be solved any more."""
        if tally.stats.get("candidates", 0) < 100 or tally.stats.get("accepted", 0):
            return None
        for k in range(200):
            case = self.generate(rng_for(self.id, first_seed + k), ctx)
            if case.get("broken") or not case.get("plans"):
                continue
            case["must_accept"] = True
            out = self.decide(case, ctx)
            return (k, first_seed + k, case, out.violations) if out.violations else None
        return None

    def checks(self, j):
        raise NotImplementedError

    def settings(self, rng, ctx):
        return workload.gen_settings(rng, self.focus, self.max_regions)

    def plans(self, rng, p, ctx):
        return workload.gen_plans(rng, p, self.nplans)

    def generate(self, rng, ctx):
        o = self.settings(rng, ctx)
        p = ctx.settings(o)
        case = {"prelude": noise(rng, ctx), "settings": o, "plans": []}
        for plan in self.plans(rng, p, ctx):
            e = {"plan": plan, "seed": rng.randrange(10**6), "before": []}
            if rng.random() < 0.2:
                e["before"].append(dict(rng.choice(FAILS), seed=rng.randrange(1000)))
            case["plans"].append(e)
        case["env"] = {"seed": rng.randrange(10**6), "bufsize": rng.choice([None, 512, 4096]), "short_reads": rng.random() < 0.2, "clock_jumps": rng.random() < 0.2}
        return case

    def run_of(self, case):
        ops = list(case["prelude"])
        ops.append({"op": "params", "slot": "p", "set": case["settings"], "show": True, "must": True})
        ops.append({"op": "build", "slot": "p", "model": "P", "must": True})
        for e in case["plans"]:
            for b in e["before"]:
                ops.append({"op": "solve", "model": "P", "response": b})
            ops.append({"op": "solve", "model": "P", "response": {"kind": "honest", "plans": [e["plan"]], "seed": e["seed"], "claim": self.refusals is not None}, "candidate": True})
            ops.append({"op": "values", "model": "P"})
        return {"ops": ops, "env": case.get("env", {})}

    def decide(self, case, ctx):
        out = Outcome()
        run = self.run_of(case)
        log = ctx.simulate(run)
        out.seen(log)
        npre = len(case["prelude"])
        truth = None
        accepted = 0
        for i, rec in enumerate(log):
            op = run["ops"][i]
            harness_guard(rec)
            count_faults(out, op, rec)
            if i < npre:
                continue
            if op["op"] == "params":
                if not rec["ok"]:
                    out.bad("unexpected-exception", f"loading settings: {rec['error']}: {rec['message']}", str(rec.get("where")))
                    return out
                truth = spec.Truth(rec["params"])
                out.sim_years += truth.end - truth.start
            elif op["op"] == "build" and not rec["ok"]:
                out.bad("unexpected-exception", f"building: {rec['error']}: {rec['message']}", str(rec.get("where")))
                return out
            elif op["op"] == "solve" and op.get("candidate"):
                if claimed(rec):
                    self.refused(out, truth, rec, log[i + 1])
                elif rec["ok"]:
                    accepted += 1
                    vals = log[i + 1]
                    if not vals.get("ok"):
                        out.bad("unexpected-exception", f"reading results: {vals.get('error')}: {vals.get('message')}")
                        continue
                    self.judge(out, truth, vals, rec)
        if case.get("must_accept") and not accepted:
            out.bad("nothing-accepted", NOTHING)
        out.stat("accepted", accepted)
        out.stat("candidates", len(case["plans"]))
        out.stat("regions_%d" % len(truth.regions))
        out.keys.add(key([case["settings"], len(case["prelude"])]))
        return out

    def refused(self, out, truth, rec, vals):
        """the problem refused the path: did it have to?"""
        t = rec["calls"][-1]["tried"][-1]
        out.stat("refused")
        if not vals.get("ok") or t["worst"] < 1e-5:
            return
        if self.refusals and not set(self.refusals) & set(t["about"]):
            return
        out.evals += 1
        if spec.wrongly_refused(truth, vals["values"]["v"]):
            out.bad("refused-without-reason", f"a path that meets every documented limit was refused: {t['violations'][:3]}")

    def judge(self, out, truth, vals, rec):
        v = vals["values"]
        if [str(r) for r in v["regions"]] != truth.regions or len(v["t"]) != truth.T:
            out.bad("wrong-index", f"regions {v['regions']} periods {len(v['t'])}, expected {truth.regions} and {truth.T}")
            return
        j = spec.Judge(truth, v["v"])
        j.objective = vals.get("objective")
        j.sense = (rec.get("calls") or [{}])[-1].get("sense")
        try:
            self.checks(j)
        except spec.MissingVariable as e:
            out.bad("missing-variable", str(e))
        out.evals += j.evals
        for x in j.out:
            out.bad(x["class"], x["detail"], x["where"])


def claimed(rec):
    """the simulated solver was told to hand over a refused path"""
    return bool(rec.get("calls")) and bool(rec["calls"][-1].get("claimed"))


def count_faults(out, op, rec):
    for f in rec.get("fired", []):
        out.fault("io:" + f[0] + ":" + f[1])
    if rec.get("interrupted"):
        out.fault("interrupt")
    if op["op"] == "solve" and "response" in op and op["response"]["kind"] != "honest":
        out.fault("solver:" + op["response"]["kind"] + (str(op["response"].get("code", "")) or ""))


class M01(ModelProp):
    id = "M01"

    def checks(self, j):
        spec.check_emissions(j)


class M02(ModelProp):
    id = "M02"

    def settings(self, rng, ctx):
        o = workload.gen_settings(rng, self.focus, self.max_regions)
        if rng.random() < 0.5:
            o.append([["temperature", "target"], workload.show(rng, workload.num(rng, 1.3, 3.5), "temp", rng.choice(["delta_degC", "delta_degF", "kelvin"]))])
        return o

    def checks(self, j):
        spec.check_temperature(j)


class M04(ModelProp):
    id = "M04"

    def checks(self, j):
        spec.check_economy(j)


class M05(ModelProp):
    id = "M05"

    def checks(self, j):
        spec.check_mitigation(j)


class M06(ModelProp):
    id = "M06"
    focus = {"damages"}

    def checks(self, j):
        spec.check_damages(j)


class M07(ModelProp):
    id = "M07"

    def checks(self, j):
        spec.check_sealevel(j)


class M08(ModelProp):
    id = "M08"
    refusals = ("financial_transfer", "rel_financial_transfer", "import_export_mitigation_cost_balance", "import_export_emission_reduction_balance", "paid_for_emission_reductions", "area_under_MAC", "global_carbonprice", "regional_emission_allowances")
    focus = {"trade", "pool"}

    def checks(self, j):
        spec.check_trade(j)


class M09(ModelProp):
    id = "M09"
    refusals = ("effort_sharing_common_level", "regional_emission_allowances", "percapconv_share")
    quick = 300
    focus = {"effort"}

    def checks(self, j):
        spec.check_effort(j)


class M10(ModelProp):
    id = "M10"

    def checks(self, j):
        spec.check_welfare(j)


class M11(ModelProp):
    id = "M11"

    def checks(self, j):
        spec.check_baseline(j)
