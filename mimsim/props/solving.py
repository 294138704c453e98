"""P04, P05, P06: what the outside solver answers, and what becomes of it."""
import copy
import math

from .. import optimiser, runner, workload
from .base import Outcome, Prop, harness_guard, key
from .model import count_faults, noise
from .process import SOLVE_FAULTS, honest, short_horizon

NOTOK = [
    {"kind": "code", "code": 100}, {"kind": "code", "code": 150}, {"kind": "code", "code": 200}, {"kind": "code", "code": 250},
    {"kind": "code", "code": 300}, {"kind": "code", "code": 400}, {"kind": "code", "code": 401}, {"kind": "code", "code": 500}, {"kind": "code", "code": 550},
    {"kind": "rc", "rc": 1}, {"kind": "rc", "rc": -11}, {"kind": "rc", "rc": 137},
    {"kind": "nosol"}, {"kind": "nosol0"}, {"kind": "signal"}, {"kind": "missing"}, {"kind": "execfail"}, {"kind": "interrupt"},
    {"kind": "garbage"}, {"kind": "garbage", "text": ""}, {"kind": "garbage", "text": "Ipopt\n\nOptions\n3\n1\n1\n0\n5\n5\n5\n5\n1\n2\n"},
]
OKCODES = [{"kind": "code", "code": 0}, {"kind": "code", "code": 0}, {"kind": "code", "code": 1}, {"kind": "code", "code": 99}]


def hopeless(rng, p):
    """an answer that cannot be right: the solver will say so itself"""
    T = 3
    regs = list(p["regions"])
    return {"kind": "honest", "seed": 0, "plans": [{"abatement": {"kind": "table", "values": {str(s): {r: 9.0 for r in regs} for s in range(1, T)}}, "wild": 0}]}


def small(rng, **kw):
    return workload.gen_settings(rng, max_regions=rng.choice([1, 2, 2, 3]), **kw)


def mismatch(x, vals):
    """first variable whose loaded value is not the answer of the solver"""
    R = {r: i for i, r in enumerate(vals["regions"])}
    T = {t: i for i, t in enumerate(vals["t"])}
    n = 0
    for name, v in x.items():
        base, t, r = optimiser.split_name(name)
        if base.startswith("_") or base not in vals["v"] or t not in T or (r is not None and r not in R):
            continue
        got = vals["v"][base][T[t]] if r is None else vals["v"][base][T[t]][R[r]]
        if isinstance(got, list):
            continue
        n += 1
        if got is None or not (got == v or abs(got - v) <= 1e-12 * abs(v)):
            return f"{name} is {got} but the solver answered {v}", n
    return None, n


class P04(Prop):
    id = "P04"
    quick = 260
    rule = "an episode = one model and a sequence of 3-7 solve calls whose outcomes (solved, infeasible, unbounded, limit, error codes, crash before or after writing, killed, no executable, no or unreadable answer, Ctrl-C) are drawn from the seed; distinct = different (configuration, outcome sequence)"

    def generate(self, rng, ctx):
        o = small(rng)
        p = ctx.settings(o)
        solves = []
        for _ in range(rng.randint(2, 6)):
            k = rng.random()
            if k < 0.55:
                r = dict(rng.choice(NOTOK), seed=rng.randrange(99))
            elif k < 0.7:
                r = dict(rng.choice(OKCODES), seed=rng.randrange(99))
            elif k < 0.72:
                r = {"kind": "cut"}
            elif k < 0.8:
                r = hopeless(rng, p)
            else:
                r = honest(rng, p)
            kw = {"verbose": rng.random() < 0.3}
            if rng.random() < 0.3:
                kw["ipopt_maxiter"] = rng.choice([5, 300, 10000])
            if rng.random() < 0.2:
                kw["ipopt_output_file"] = "log.txt"
            if rng.random() < 0.3:
                kw["halt_on_ampl_error"] = rng.choice(["yes", "no"])
            solves.append({"response": r, "kwargs": kw, "other": rng.random() < 0.15})
        solves.append({"response": honest(rng, p), "kwargs": {"verbose": False}, "other": False})
        return {"settings": o, "prelude": noise(rng, ctx), "solves": solves, "env": {"seed": rng.randrange(10**6), "clock_jumps": rng.random() < 0.3}}

    def shrinks(self, case):
        n = len(case["solves"])
        for i in range(n):
            if n > 1:
                yield dict(case, solves=case["solves"][:i] + case["solves"][i + 1 :])
        if case["prelude"]:
            yield dict(case, prelude=[])

    def decide(self, case, ctx):
        out = Outcome()
        head = [{"op": "params", "slot": "p", "set": case["settings"]}, {"op": "build", "slot": "p", "model": "P"}]
        ops = list(case["prelude"]) + head
        other = any(s["other"] for s in case["solves"])
        if other:
            ops.append({"op": "build", "slot": "p", "model": "Q"})
        at = []
        for s in case["solves"]:
            if s["other"]:
                ops.append({"op": "solve", "model": "Q", "response": s["response"]})
                continue
            r = dict(s["response"], echo=True)
            ops.append({"op": "solve", "model": "P", "response": r, "kwargs": s["kwargs"]})
            at.append((len(ops) - 1, s))
            ops.append({"op": "probe", "model": "P"})
            ops.append({"op": "values", "model": "P"})
        log = ctx.simulate({"ops": ops, "env": case["env"]})
        out.seen(log)
        for op, rec in zip(ops, log):
            harness_guard(rec)
            count_faults(out, op, rec)
        b = log[len(case["prelude"]) + 1]
        if not b["ok"]:
            out.bad("unexpected-exception", f"building: {b['error']}: {b['message']}")
            return out
        out.keys.add(key([case["settings"], case["solves"]]))
        seq = []
        lastgood = None
        for i, s in at:
            rec, probe, vals = log[i], log[i + 1], log[i + 2]
            r = s["response"]
            name = r["kind"] + (str(r.get("code", r.get("rc", ""))))
            seq.append(name)
            calls = rec.get("calls") or []
            out.evals += 3
            if len(calls) != 1:
                out.bad("solver-calls", f"the solver was started {len(calls)} times by one solve ({name})")
                return out
            want = r["kind"] == "code" and r["code"] < 100 or r["kind"] == "honest" and any(t["feasible"] for t in calls[0].get("tried", []))
            out.stat("solver_success" if want else "solver_failure")
            hist = " after " + ", ".join(seq[:-1]) if seq[:-1] else ""
            status = probe.get("status")
            if want and not rec["ok"]:
                out.bad("success-raises", f"the solver reported a solution ({name}){hist}, but solve raised {rec['error']}: {rec['message']}")
                return out
            if r["kind"] == "cut" and rec["ok"]:
                out.bad("truncated-answer-passes", f"the answer file ends before the line with the outcome, yet solve returned normally with status {status}")
                continue
            if not want and rec["ok"]:
                out.bad("failure-passes", f"the solver failed ({name}){hist}, but solve returned normally with status {status}")
                return out
            if (str(status) == "ok") != bool(want):
                out.bad("wrong-status", f"status {status} after solver outcome {name}{hist}")
                return out
            if r["kind"] == "interrupt" and rec["error"] != "KeyboardInterrupt":
                out.bad("interrupt-swallowed", f"Ctrl-C during the solve surfaced as {rec['error']}")
            if calls[0].get("options") is not None:
                got = dict(x.split("=", 1) for x in calls[0]["options"] if "=" in x)
                kw = s["kwargs"]
                for k, opt in (("ipopt_maxiter", "max_iter"), ("ipopt_output_file", "output_file"), ("halt_on_ampl_error", "halt_on_ampl_error")):
                    out.evals += 1
                    if k in kw and got.get(opt) != str(kw[k]):
                        out.bad("option-lost", f"{k}={kw[k]} was given, the solver got {got}")
                        return out
                    if k not in kw and opt in ("max_iter", "output_file") and opt in got:
                        out.bad("option-left-over", f"the solver got {opt}={got[opt]} although the caller did not ask for it")
                        return out
            if want:
                if calls[0].get("x") is None:
                    raise runner.HarnessError("no echo of the answer")
                msg, n = mismatch(calls[0]["x"], vals["values"])
                out.evals += n
                out.stat("answers_compared")
                if msg:
                    out.bad("answer-not-loaded", msg + hist)
                    return out
                lastgood = (i, s)
        # the last solve, in a process of its own
        if lastgood and lastgood[1] is case["solves"][-1]:
            i, s = lastgood
            ops2 = head + [{"op": "solve", "model": "P", "response": dict(s["response"], echo=True), "kwargs": s["kwargs"]}, {"op": "values", "model": "P"}]
            ref = ctx.simulate({"ops": ops2, "env": case["env"]})
            for rec in ref:
                harness_guard(rec)
            out.evals += 2
            if not ref[2]["ok"]:
                out.bad("fresh-solve-fails", f"{ref[2]['error']}: {ref[2]['message']}")
            elif ref[2]["calls"][0]["core"] != log[i]["calls"][0]["core"]:
                out.bad("problem-changed", "after " + ", ".join(seq[:-1]) + " another problem is sent to the solver than by a fresh model")
            elif not same_values(log[i + 2]["values"], ref[3]["values"], log[i]["calls"][0].get("x"), ref[2]["calls"][0].get("x")):
                out.bad("values-depend-on-history", first_value_difference(log[i + 2]["values"], ref[3]["values"]) + " after " + ", ".join(seq[:-1]))
        return out

    def vacuous(self, tally):
        if not tally.stats.get("solver_success") or not tally.stats.get("solver_failure"):
            return "no solve succeeded, or none failed"


def same_values(a, b, xa, xb):
    """are two sets of loaded values equal? Bit for bit if the solver gave the same answer both times. (The simulated
    solver may start its search where the caller suggests, so the same problem can get answers that differ in the last
    bits; then the values are compared up to rounding, and not at all if the solver went somewhere else.)"""
    if a == b:
        return True
    if xa == xb:
        return False
    if xa is None or xb is None or set(xa) != set(xb):
        return True
    if any(not close(xa[n], xb[n], 1e-12) for n in xa):
        return True
    return alike(a, b)


def close(p, q, tol):
    return p == q or abs(p - q) <= tol * max(abs(p), abs(q), 1.0)


def alike(p, q):
    if isinstance(p, dict) and isinstance(q, dict):
        return set(p) == set(q) and all(alike(p[k], q[k]) for k in p)
    if isinstance(p, (list, tuple)) and isinstance(q, (list, tuple)):
        return len(p) == len(q) and all(alike(x, y) for x, y in zip(p, q))
    if isinstance(p, float) and isinstance(q, float):
        return close(p, q, 1e-6)
    return p == q


def first_value_difference(a, b):
    for n in sorted(set(a["v"]) | set(b["v"])):
        if a["v"].get(n) != b["v"].get(n):
            x, y = a["v"].get(n), b["v"].get(n)
            if x is None or y is None:
                return f"{n} exists on one side only"
            for t, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    return f"{n} in period {t} is {p} instead of {q}"
    return "the index differs"


# ------------------------------------------------------------------ P05

NETFAULTS = ["lost_request", "refused", "http503", "badstatus", "fault", "lost_reply", "duplicate", "reset"]


class P05(Prop):
    id = "P05"
    quick = 240
    components_stub = ["the NEOS service and the network (xmlrpc.client.ServerProxy)", "ipopt executable (simulated solver)", "disk of the output folder", "clock"]
    rule = "an episode = a model solved 1-3 times through the simulated NEOS service under a seeded pattern of lost, refused, repeated, delayed and failing calls, queue lengths and server-side outcomes, then locally; distinct = different (configuration, fault pattern)"

    def generate(self, rng, ctx):
        o = small(rng)
        p = ctx.settings(o)
        solves = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            q = rng.choice([0, 0, 1, 3, 8])
            net = {"faults": {}, "queue": q, "delay": rng.choice([0.05, 0.2, 5.0])}
            k = rng.random()
            if k < 0.6:
                for _ in range(rng.choice([1, 1, 1, 2, 4])):
                    net["faults"][str(rng.randint(1, 6 + 2 * q))] = rng.choice(NETFAULTS)
            if k > 0.5:
                j = rng.random()
                if j < 0.3:
                    net["final"] = rng.choice(["text", "empty", "cut"] * 3 + ["fewer"])
                elif j < 0.38:
                    net["reject"] = True
                elif j < 0.46:
                    net["no_ipopt"] = True
                elif j < 0.54:
                    net["unknown_job"] = rng.randint(1, 3)
                elif j < 0.6:
                    net["outage"] = [rng.randint(1, 8), rng.choice(NETFAULTS[:5])]
            j = rng.random()
            resp = honest(rng, p) if j < 0.6 else (hopeless(rng, p) if j < 0.65 else dict(rng.choice(NOTOK[:9] + [{"kind": "nosol"}, {"kind": "garbage"}] + OKCODES), seed=rng.randrange(99)))
            mail = rng.choice(["user@example.org"] * 8 + [None, "nonsense"])
            solves.append({"net": net, "response": resp, "email": mail})
        local = {"response": honest(rng, p)}
        return {"settings": o, "solves": solves, "local": local, "before": rng.random() < 0.3, "env": {"seed": rng.randrange(10**6)}}

    def shrinks(self, case):
        n = len(case["solves"])
        for i in range(n):
            if n > 1:
                yield dict(case, solves=case["solves"][:i] + case["solves"][i + 1 :])
        for i, s in enumerate(case["solves"]):
            for f in s["net"]["faults"]:
                c = copy.deepcopy(case)
                del c["solves"][i]["net"]["faults"][f]
                yield c
            if s["net"]["queue"]:
                c = copy.deepcopy(case)
                c["solves"][i]["net"]["queue"] = 0
                yield c

    def decide(self, case, ctx):
        out = Outcome()
        head = [{"op": "params", "slot": "p", "set": case["settings"]}, {"op": "build", "slot": "p", "model": "P"}]
        loc = [{"op": "solve", "model": "P", "response": dict(case["local"]["response"], echo=True)}, {"op": "values", "model": "P"}, {"op": "probe", "model": "P"}]
        ops = head + [{"op": "probe", "model": "P", "plain": True}]
        if case["before"]:
            ops.append({"op": "solve", "model": "P", "response": case["local"]["response"]})
        first = len(ops)
        for s in case["solves"]:
            ops.append({"op": "solve", "model": "P", "response": dict(s["response"], echo=True), "net": s["net"], "kwargs": {"verbose": False, "use_neos": True, "neos_email": s["email"]}})
            ops += [{"op": "probe", "model": "P", "plain": True}, {"op": "values", "model": "P"}]
        ops += loc
        log = ctx.simulate({"ops": ops, "env": case["env"]})
        ref = ctx.simulate({"ops": head + loc, "env": case["env"]})
        out.seen(log)
        for op, rec in list(zip(ops, log)) + list(zip(head + loc, ref)):
            harness_guard(rec)
        if not log[1]["ok"]:
            out.bad("unexpected-exception", f"building: {log[1]['error']}: {log[1]['message']}")
            return out
        out.keys.add(key([case["settings"], [s["net"] for s in case["solves"]]]))
        local = log[2]["plain"]
        for k, s in enumerate(case["solves"]):
            rec, probe, vals = log[first + 3 * k : first + 3 * k + 3]
            net = rec.get("net") or {}
            for f in net.get("fired", []):
                out.fault("net:" + f)
            for f in ("final", "reject", "no_ipopt", "unknown_job", "outage"):
                if s["net"].get(f):
                    out.fault("service:" + f)
            if s["response"]["kind"] != "honest":
                out.fault("service:solver " + s["response"]["kind"] + str(s["response"].get("code", "")))
            status = str(probe.get("status"))
            out.evals += 4
            out.stat("neos_ok" if rec["ok"] else "neos_raised")
            sub = net.get("submitted", [])
            for j in sub:
                if j["core"] != local:
                    out.bad("other-problem-submitted", "the problem sent to the service is not the one a local solver gets")
                    return out
            if (status == "ok") != rec["ok"]:
                out.bad("wrong-status", f"status {status} although the call {'returned' if rec['ok'] else 'raised ' + rec['error']}")
                return out
            if net.get("ncalls", 0) > 4900 or net.get("elapsed", 0) > 36000 + 600 * s["net"]["queue"]:
                out.bad("never-ends", f"{net.get('ncalls')} calls in {net.get('elapsed'):.0f} s with a queue of {s['net']['queue']}")
                return out
            got = [j for j in sub if j.get("delivered") == "solution" and j.get("fetched")]
            if rec["ok"] and [j.get("delivered") for j in sub if j.get("fetched")] == ["wrong length"]:
                out.bad("wrong-length-passes", f"the service delivered a solution that lacks some variables, yet the call returned OK")
                continue
            if rec["ok"]:
                if not got:
                    out.bad("ok-without-solution", f"the call returned OK although the service delivered {net.get('delivered')} (faults {net.get('fired')}, {s['net'].get('final')})")
                    return out
                msgs = []
                for j in got:
                    x = (j.get("solver_record") or {}).get("x")
                    msg, n = mismatch(x, vals["values"]) if x else ("no answer recorded", 0)
                    out.evals += n
                    msgs.append(msg)
                out.stat("neos_answers_compared")
                if all(msgs):
                    out.bad("answer-not-loaded", "the service's solution is not what the model holds: " + msgs[-1])
                    return out
            elif got and not net.get("fired") and not s["net"].get("final") and s["email"] == "user@example.org" and not s["net"].get("unknown_job"):
                out.bad("success-raises", f"nothing went wrong and the service delivered a solution, but the call raised {rec['error']}: {rec['message']}")
                return out
            elif s["email"] == "user@example.org" and not sub and not net.get("fired") and not s["net"].get("no_ipopt") and not s["net"].get("reject"):
                out.bad("nothing-submitted", f"no fault was injected, yet no job was submitted: {rec['error']}: {rec['message']}")
                return out
        a, av, ap = log[-3:]
        b, bv, bp = ref[-3:]
        out.evals += 3
        if a["ok"] != b["ok"]:
            out.bad("later-local-solve", f"a local solve after remote ones {'raised ' + str(a.get('error')) + ': ' + str(a.get('message')) if not a['ok'] else 'returned'}, unlike in a fresh process")
        elif a["ok"]:
            if a["calls"][0]["core"] != b["calls"][0]["core"]:
                out.bad("problem-changed", "after remote solves another problem is sent to the local solver")
            elif not same_values(av["values"], bv["values"], a["calls"][0].get("x"), b["calls"][0].get("x")):
                out.bad("values-depend-on-history", first_value_difference(av["values"], bv["values"]) + " after remote solves")
            elif ap["status"] != "ok":
                out.bad("wrong-status", f"status {ap['status']} after a local solve that returned")
        return out

    def vacuous(self, tally):
        if not tally.stats.get("neos_answers_compared") or not tally.faults:
            return "no remote solve succeeded or no fault was injected"


# ------------------------------------------------------------------ P06


class P06(Prop):
    id = "P06"
    quick = 260
    rule = "an episode = one configuration, a process history, failed solves that leave foreign values behind, and 2-4 adversarial solver answers; every reported value is inserted into the model rebuilt without simplification; distinct = different (configuration, history)"

    def generate(self, rng, ctx):
        focus = rng.choice([set(), {"trade"}, {"pool"}, {"effort"}, {"damages"}])
        o = workload.gen_settings(rng, focus, max_regions=4)
        if rng.random() < 0.3:
            o = o + [[["emissions", "carbonbudget"], rng.choice(["900 GtCO2", "1200 GtCO2", "600 GtCO2"])]]
        if rng.random() < 0.2:
            o = o + [[["temperature", "target"], rng.choice(["2.2 delta_degC", "3 delta_degC"])]]
        p = ctx.settings(o)
        steps = []
        for _ in range(rng.randint(2, 4)):
            before = [dict(rng.choice(SOLVE_FAULTS), seed=rng.randrange(99)) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
            steps.append({"before": before, "response": honest(rng, p)})
        return {"settings": o, "prelude": noise(rng, ctx), "steps": steps, "env": {"seed": rng.randrange(10**6)}}

    def shrinks(self, case):
        n = len(case["steps"])
        for i in range(n):
            if n > 1:
                yield dict(case, steps=case["steps"][:i] + case["steps"][i + 1 :])
        for i, s in enumerate(case["steps"]):
            if s["before"]:
                c = copy.deepcopy(case)
                c["steps"][i]["before"] = []
                yield c
        if case["prelude"]:
            yield dict(case, prelude=[])
        if len(case["settings"]) > 1:
            for i in range(len(case["settings"])):
                yield dict(case, settings=case["settings"][:i] + case["settings"][i + 1 :])

    def decide(self, case, ctx):
        out = Outcome()
        ops = list(case["prelude"]) + [{"op": "params", "slot": "p", "set": case["settings"]}, {"op": "build", "slot": "p", "model": "P"}]
        at = []
        for s in case["steps"]:
            for b in s["before"]:
                ops.append({"op": "solve", "model": "P", "response": b})
            ops.append({"op": "solve", "model": "P", "response": s["response"]})
            at.append(len(ops) - 1)
            ops.append({"op": "values", "model": "P"})
            ops.append({"op": "full", "model": "P", "slot": "p"})
        log = ctx.simulate({"ops": ops, "env": case["env"]})
        out.seen(log)
        for op, rec in zip(ops, log):
            harness_guard(rec)
            count_faults(out, op, rec)
        b = log[len(case["prelude"]) + 1]
        if not b["ok"]:
            out.bad("unexpected-exception", f"building: {b['error']}: {b['message']}")
            return out
        out.keys.add(key([case["settings"], case["prelude"]]))
        for i in at:
            if not log[i]["ok"]:
                continue
            vals, full = log[i + 1], log[i + 2]
            for rec in (vals, full):
                if not rec["ok"]:
                    out.bad("unexpected-exception", f"{rec['op']}: {rec['error']}: {rec['message']}")
                    return out
            f = full["full"]
            out.evals += f["vars"] + f["cons"]
            out.stat("full_evaluations")
            out.stat("equations_checked", f["cons"])
            if f["nmissing"]:
                out.bad("variable-without-value", f"{f['nmissing']} variables have no value, e.g. {f['missing'][:3]}")
            if f["bounds"]:
                out.bad("bound-violated", f"{f['bounds'][:3]}")
            if f["nbad"]:
                out.bad("equation-violated", f"{f['nbad']} of {f['cons']}, e.g. {f['bad'][:3]}")
            if out.violations:
                return out
        return out

    def vacuous(self, tally):
        if not tally.stats.get("full_evaluations"):
            return "no accepted solution was judged"
