"""P11, M13: what the values in the settings mean, and which are refused.
The oracle for the accepted types, ranges and lists is schema.json, a record of
the documented settings; the schema of the tree under test is never consulted."""
import copy
import json
import math
import os
import random

from .. import runner, spec, workload
from .base import LibraryBroken, Outcome, Prop, harness_guard, key
from .process import actor, disturber, file_diff, first_difference, honest, neighbour, short
from .model import FAILS, count_faults

with open(os.path.join(os.path.dirname(__file__), "..", "schema.json")) as fh:
    SCHEMA = json.load(fh)

KIND = {
    "economics/MAC/gamma": "mac",
    "economics/MAC/LBD_scaling": "emissions",
    "emissions/carbonbudget": "emissions",
    "emissions/global min level": "rate",
    "emissions/regional min level": "rate",
    "temperature/initial": "temp",
    "temperature/TCRE": "tcre",
    "temperature/target": "temp",
}
SAMPLES = {
    "mac": ["USD2005/tCO2", "USD2010/tCO2", "trillion USD2005/GtCO2"],
    "emissions": ["GtCO2", "MtCO2", "tCO2"],
    "rate": ["GtCO2/yr", "MtCO2/yr"],
    "temp": ["delta_degC", "kelvin"],
    "tcre": ["delta_degC/TtCO2", "delta_degC/(TtCO2)"],
    "other": ["USD2005", "yr", "meter", "GtCO2*yr", "GtCO2/yr/yr", "1/yr", "kg", "USD2005/yr"],
}
FLOATS = lambda l: l["type"] in ("float", "int")


def sections():
    out = [[]]
    for l in SCHEMA:
        for k in range(1, len(l["path"])):
            if l["path"][:k] not in out:
                out.append(l["path"][:k])
    return out


def is_falsy(v):
    return v in [0, False, "False", "false", "no"]


NAN = float("nan")


def enc(v):
    """nan and infinities survive JSON as text marked for the world"""
    return {"__float__": repr(v)} if isinstance(v, float) and not math.isfinite(v) else v


def bad_number(rng, l):
    lo, hi = l.get("min"), l.get("max")
    k = rng.random()
    if k < 0.2 and lo is not None:
        v = lo - rng.choice([1e-6, 1e-3, 1, 1000]) if l["type"] == "float" else lo - rng.choice([1, 2, 500])
    elif k < 0.45 and hi is not None:
        v = hi + rng.choice([1e-6, 1e-3, 1, 1000]) if l["type"] == "float" else hi + rng.choice([1, 2, 500])
    elif k < 0.6:
        v = rng.choice([NAN, "nan", "NaN"]) if l["type"] == "float" else rng.choice(["nan", "2020.5", NAN])
    elif k < 0.65 and lo is not None:
        v = -math.inf
    elif k < 0.7 and hi is not None:
        v = math.inf
    elif k < 0.85:
        v = rng.choice(["abc", "", "1,5", "five", "0.1 per year", "--1", "1 2", "3%"])
    else:
        v = rng.choice([None, [], [0.1], {}, {"value": 0.1}])
    if l.get("can_be_false") and is_falsy(v):
        v = "abc"
    if rng.random() < 0.25 and isinstance(v, (int, float)) and not isinstance(v, bool):
        v = repr(v)
    return v


def bad_enum(rng, l):
    vals = l["values"]
    v0 = rng.choice(vals)
    if isinstance(v0, str):
        c = [v0.lower() if v0.lower() not in vals else v0 + "x", v0 + " ", " " + v0, v0[:-1] + "9", "", None, 1, v0 + v0, v0.replace("_", " ") + "?", v0[:-1], False, True]
    else:
        c = [v0 + 1e-6, v0 + 1, -v0, str(v0), "", None, NAN, 0.3, 1]
    c = [v for v in c if v not in vals]
    return rng.choice(c)


def bad_quantity(rng, l):
    kind = KIND["/".join(l["path"])]
    k = rng.random()
    n = rng.choice([800, 1.5, 0.62, -3, 1000.0, 2601])
    if k < 0.45:
        other = rng.choice([x for x in SAMPLES if x != kind])
        v = f"{n} {rng.choice(SAMPLES[other])}"
    elif k < 0.6:
        v = rng.choice([n, str(n)])
    elif k < 0.75:
        u = rng.choice(SAMPLES[kind])
        v = rng.choice([f"{n} {u}foo", f"{n} x{u}", f"many {u}", f"{n} {u} $", f"{n} GtC02", f"{n} EUR/tCO2", f"{n} gtco2"])
    elif k < 0.9:
        v = rng.choice([None, "", [], {}, True, [f"{n} {SAMPLES[kind][0]}"]])
        if v is True and l.get("can_be_false"):
            v = None
    else:
        v = f"nan {rng.choice(SAMPLES[kind])}"
    return v


def corrupt(rng, p):
    """one invalid setting: (kind, path, value)"""
    while True:
        k = rng.random()
        if k < 0.25:
            # unknown keys
            sec = rng.choice(sections())
            known = sorted({l["path"][len(sec)] for l in SCHEMA if l["path"][: len(sec)] == sec})
            s = rng.choice(known)
            names = [s.upper() if s.upper() != s else s.lower(), s + " ", s.replace(" ", "_") + "_", s + "s", s[:-1] if len(s) > 3 else s + "x", "foo", s.replace("_", " ") + "2"]
            if not sec:
                l = rng.choice(SCHEMA)
                names.append(" - ".join(l["path"]) if len(l["path"]) > 1 else "foo")
            elif len(sec) >= 1:
                l = rng.choice([l for l in SCHEMA if l["path"][: len(sec)] == sec])
                if len(l["path"]) > len(sec) + 1:
                    names.append(" - ".join(l["path"][len(sec) :]))
            name = rng.choice([n for n in names if n not in known])
            v = rng.choice([1, "x", None, [], {}, {"a": 1}, {"a": {}}, False, 0.5])
            return "unknown-key", sec + [name], v
        if k < 0.3:
            sec = rng.choice([s for s in sections() if s])
            return "section-replaced", sec, rng.choice([None, 5, "x", [], False, [1]])
        l = rng.choice(SCHEMA)
        ty = l["type"]
        if ty in ("float", "int"):
            return ty, l["path"], bad_number(rng, l)
        if ty == "bool":
            return ty, l["path"], rng.choice([2, -1, "maybe", None, [], "", "TRUE", "Yes", 0.5, NAN, {}, "off", "1.0"])
        if ty == "enum":
            return ty, l["path"], bad_enum(rng, l)
        if ty == "quantity":
            return ty, l["path"], bad_quantity(rng, l)
        if ty == "list":
            return ty, l["path"], rng.choice(["abc", 5, {"a": 1}, True, "a,b"])
        if ty == "datasource":
            d = copy.deepcopy(l["default"])
            if rng.random() < 0.75:
                d.pop(rng.choice(["variable", "unit", "scenario", "model", "file"]))
                return ty, l["path"], d
            return ty, l["path"], rng.choice(["x", None, [], 3, ["GDP|PPP"]])
        if ty == "dict":
            if rng.random() < 0.5 and l["path"] in (["regions"], ["regional_parameter_files"]):
                return ty, l["path"], {rng.choice(workload.ALL): rng.choice([5, "x", [1], True])}
            return ty, l["path"], rng.choice(["USA", ["USA"], 5, True, [{}]])


SWITCHES = ("percentage reversible", "min rel payment level", "max rel payment level", "simulationmode", "ignore damages")


def edge(rng, o, p):
    """one unusual but valid value (type, path, value), or None"""
    pool = [x for x in SCHEMA if x["type"] in ("float", "int", "bool", "enum", "quantity")]
    if rng.random() < 0.4:
        # settings that switch something on or off
        pool = [x for x in pool if x["path"][0] in ("model", "emissions", "temperature", "effort sharing") or x["path"][-1] in SWITCHES]
    l = rng.choice(pool)
    ty = l["type"]
    path = l["path"]
    if path[0] in ("regionstype",) or path[0] == "time":
        return None
    if ty in ("float", "int"):
        c = [l[x] for x in ("min", "max") if x in l]
        c += [repr(float(x)) for x in c] + [l["default"]]
        if l.get("can_be_false"):
            c += [False, "false", "no", 0] if l.get("min", -1) > 0 or l.get("min") is None else [False]
        if "min" in l and "max" in l:
            c.append(l["min"] + 0.4 * (l["max"] - l["min"]) if ty == "float" else l["min"] + 2 * (l["max"] - l["min"]) // 5)
        return ty, path, rng.choice(c)
    if ty == "bool":
        return ty, path, rng.choice([True, False, "True", "true", "yes", "no", "false", "False", 1, 0, 1.0, 0.0])
    if ty == "enum":
        return ty, path, rng.choice(l["values"])
    kind = KIND["/".join(path)]
    v = {"mac": 2.6, "emissions": 900.0, "rate": -15.0, "temp": 1.3, "tcre": 0.00062}[kind]
    c = [workload.show(rng, v, kind)]
    if l.get("can_be_false"):
        c += [False, "false", "no", 0]
    return ty, path, rng.choice(c)


class P11(Prop):
    id = "P11"
    quick = 320
    rule = "an episode = one process in which a valid model lives while models are built from settings of which one entry is invalid (the rest valid), at random points of its life, and from settings with one unusual but valid entry; each invalid build has to raise and to leave no trace on disk or at the solver, no valid value may be refused by the settings reader, and the life is compared with the same life alone; distinct = different invalid entries"

    def generate(self, rng, ctx):
        try:
            ctx.defaults
        except LibraryBroken:
            return {"defaults": True}
        o = workload.gen_settings(rng, max_regions=2)
        o = workload.without(o, ["time"]) + [[["time"], {"start": rng.choice([2020, 2025]), "end": 2105, "dt": rng.choice([10, 20, 17])}]]
        life = actor(rng, ctx, "A", o)
        p = ctx.settings(o)
        steps = [["A", x] for x in life]
        extra = []
        for k in range(rng.randint(10, 24)):
            kind, path, v = corrupt(rng, p)
            whole = rng.random() < 0.6
            slot = f"x{k}"
            sets = [[path, enc(v)]]
            if whole:
                sets = o + sets
            ops = [{"op": "params", "slot": slot, "raw": None if whole else {}, "set": sets, "deep": True}, {"op": "build", "slot": slot, "model": slot, "_bad": [kind, path]}]
            if rng.random() < 0.15:
                ops.append({"op": "build", "slot": slot, "model": slot, "_bad": [kind, path]})
            extra.append(ops)
        for k in range(4):
            es = {}
            for _ in range(rng.choice([1, 1, 2, 4, 8, 16, 30])):
                e = edge(rng, o, p)
                if e:
                    es["/".join(e[1])] = [e[0], e[1], enc(e[2])]
            if es:
                sets = o + [[path, v] for _, path, v in es.values()]
                extra.append([{"op": "params", "slot": f"e{k}", "set": sets, "deep": True}, {"op": "build", "slot": f"e{k}", "model": f"e{k}", "_edge": list(es.values())}])
        for ops in extra:
            at = rng.randint(0, len(steps))
            steps[at:at] = [["x", op] for op in ops]
        return {"steps": steps, "env": {"seed": rng.randrange(10**6)}}

    def shrinks(self, case):
        if "steps" not in case:
            return
        s = case["steps"]
        size = max(1, len(s) // 2)
        while size >= 1:
            for i in range(0, len(s), size):
                c = dict(case, steps=s[:i] + s[i + size :])
                if c["steps"]:
                    yield c
            size //= 2

    def edge(self, out, p, ed, rec):
        """valid settings have to give a model"""
        if rec["ok"]:
            out.stat("edge_built")
            return
        said = f"{rec['error']} {' '.join(rec['message'].split())[:200]} at {(rec.get('where') or {}).get('lib')}: {', '.join(f'{e[1]} = {short(e[2])}' for e in ed)}"
        if "mimosa/common/config/" in ((rec.get("where") or {}).get("lib") or ""):
            out.bad("valid-rejected", said)
        elif p["effort sharing"]["regime"] == "per_cap_convergence" and p["model"]["emissiontrade module"] != "emissiontrade":
            out.stat("edge_needs_trade")  # documented: the regime works on traded allowances
        elif not is_falsy(p["emissions"]["carbonbudget"]) and float(p["economics"]["damages"]["percentage reversible"]) < 1:
            out.bad("partly-reversible-not-built", said)
        else:
            out.bad("valid-not-built", said)

    def decide(self, case, ctx):
        out = Outcome()
        if case.get("defaults"):
            # the settings everybody starts from
            log = ctx.simulate({"ops": [{"op": "params", "slot": "d"}]})
            out.seen(log)
            harness_guard(log[0])
            out.evals += 1
            if not log[0]["ok"]:
                out.bad("valid-rejected", f"loading the default settings: {log[0].get('error')}: {log[0].get('message')}")
            return out
        steps = case["steps"]
        ops = [e[1] for e in steps]
        tail = [{"op": "disklog"}, {"op": "files", "content": True}]
        log = ctx.simulate({"ops": ops + tail, "env": case["env"]})
        out.seen(log)
        slots = {}
        for (n, op), rec in zip(steps, log):
            harness_guard(rec)
            count_faults(out, op, rec)
            if op["op"] == "params":
                slots[op["slot"]] = op
            bad = op.get("_bad")
            if bad:
                src = slots.get(op["slot"])
                if src is None:
                    continue
                kind, path = bad
                val = src["set"][-1][1]
                out.evals += 3
                out.keys.add(key([path, val]))
                out.stat("invalid_" + kind)
                if rec["ok"]:
                    out.bad("invalid-accepted", f"{path} = {short(val)} ({kind})", where="/".join(map(str, path)))
                if rec["muts"]:
                    out.bad("invalid-writes", f"building from {path} = {short(val)} changed {rec['muts']} files or folders")
            ed = op.get("_edge")
            if ed and op["slot"] in slots:
                out.evals += 1
                out.keys.add(key(ed))
                self.edge(out, ctx.settings(slots[op["slot"]]["set"]), ed, rec)
        idx = [i for i, e in enumerate(steps) if e[0] == "A"]
        if not idx:
            return out
        mine = [ops[i] for i in idx]
        ref = ctx.simulate({"ops": mine + tail, "env": case["env"]})
        for rec in ref:
            harness_guard(rec)
        d = first_difference([log[i] for i in idx], ref[: len(mine)], mine)
        out.evals += len(mine) + 1
        if d:
            op, k, a, b, x, y = d
            out.bad("invalid-leaves-traces", f"{op['op']}: {k} is {a} among invalid settings and {b} alone")
            return out
        fd = file_diff(log[-1]["files"], ref[-1]["files"])
        if fd:
            out.bad("invalid-leaves-files", fd)
        return out


# ------------------------------------------------------------------ M13

USED = {
    "economics": lambda p: ["init_capital_factor"],
    "MAC": lambda p: [p["economics"]["MAC"]["regional calibration factor"]],
    "COACCH": lambda p: coacch_names(p),
    "mortality": lambda p: [f"{g}_{c}" for g in ("oldest", "older", "young") for c in "abc"],
}


def truthy(v):
    return v in (1, True, "True", "true", "yes")


def coacch_names(p):
    d = p["economics"]["damages"]
    ad = "Ad" if truthy(d["coacch_slr_withadapt"]) else "NoAd"
    q = d["quantile"]
    if truthy(d["coacch_combined_slr_nonslr_damages"]):
        return [f"combined_b1_{ad}-q{q}", f"combined_b2_{ad}-q{q}"]
    return ["NoSLR_b1", f"NoSLR_a (q={q})", f"SLR-{ad}_b1", f"SLR-{ad}_a (q={q})"]


class M13(Prop):
    id = "M13"
    quick = 200
    rule = "an episode = one configuration next to its variants in one process: quantities rewritten in other units (same problem expected), quantities changed (another problem expected), regional parameters overridden by their own table value (same problem), by another value (only that region's results differ, and follow the overriding value), and unused parameters overridden (same problem); distinct = different (configuration, variant)"

    def generate(self, rng, ctx):
        o = workload.gen_settings(rng, max_regions=4)
        n = len(next(v for p, v in o if p == ["regions"]))
        if n < 2:
            regs = rng.sample(workload.ALL, rng.choice([2, 3]))
            o = workload.without(o, ["regions"]) + [[["regions"], {r: {} for r in regs}]]
        p = ctx.settings(o)
        case = {"settings": o, "variants": [], "env": {"seed": rng.randrange(10**6)}}
        # the same quantities in other words
        values = {"mac": 2.1, "emissions": 40.0, "rate": -9.0, "temp": 1.2, "tcre": 0.0006}
        given, other, more = [], [], []
        for path in rng.sample(sorted(KIND), rng.randint(1, 4)):
            kind = KIND[path]
            v = values[kind] * rng.choice([0.7, 1.0, 1.3])
            if path == "temperature/target":
                v *= 1.8
            if path == "emissions/carbonbudget":
                v *= 30
            given.append([path.split("/"), workload.show(rng, v, kind)])
            other.append([path.split("/"), workload.show(rng, v, kind)])
            if path in ("economics/MAC/gamma", "temperature/initial", "temperature/TCRE", "economics/MAC/LBD_scaling"):
                if path == "economics/MAC/LBD_scaling" and p["economics"]["MAC"]["LBD_rate"] == 1.0:
                    continue
                more.append([path.split("/"), workload.show(rng, v * 1.4, kind)])
        case["given"] = given
        case["variants"].append({"kind": "units", "set": other})
        if more:
            case["variants"].append({"kind": "changed", "set": [rng.choice(more)]})
        # regional values
        t = spec.Truth(p)
        regs = list(p["regions"])
        cats = ["economics", "MAC"] + (["COACCH", "COACCH", "mortality"] if p["model"]["damage module"] == "COACCH" else [])
        for _ in range(3):
            r = rng.choice(regs)
            cat = rng.choice(cats)
            name = rng.choice(USED[cat](p))
            ov = copy.deepcopy(p["regions"])
            for a in ov:
                ov[a] = ov[a] or {}
            plain = spec.Truth(ctx.settings(workload.without(o, ["regions"]) + [[["regions"], {a: {} for a in regs}]]))
            k = regs.index(r)
            own = float(plain.regional(cat, name)[k])
            what = rng.choice(["own", "other", "other", "unused"])
            if what == "own" and cat in (ov[r] or {}) and name in ov[r][cat]:
                continue
            if what == "unused":
                cat, name = rng.choice([("MAC", "kappa_carbonprice_2000_2030"), ("COACCH", "NoSLR_a (q=0.05)"), ("economics", "not_a_parameter")])
                if name == f"NoSLR_a (q={p['economics']['damages']['quantile']})":
                    continue
                v = 7.7
            else:
                v = own if what == "own" else round(own * rng.choice([0.6, 1.5]) + rng.choice([0, 0.01]), 6)
                if what == "other" and rng.random() < 0.35:
                    v = rng.choice([1, 1.0] if cat == "economics" else [0, 0.0, 0, 1])
                    if v == own:
                        continue
            ov[r].setdefault(cat, {})[name] = v
            case["variants"].append({"kind": what, "region": r, "param": [cat, name], "value": v, "set": [[["regions"], ov]]})
        plans = workload.gen_plans(rng, p, 2)
        case["plan"] = dict(plans[0], restore=False)
        return case

    def shrinks(self, case):
        for k in range(len(case["variants"])):
            if len(case["variants"]) > 1:
                yield dict(case, variants=[case["variants"][k]])
        if case["given"] and not any(v["kind"] in ("units", "changed") for v in case["variants"]):
            yield dict(case, given=[])

    # settings under which regions only meet through climate and learning
    APART = [
        [["model", "emissiontrade module"], "notrade"],
        [["model", "financialtransfer module"], "notransfer"],
        [["effort sharing", "regime"], "noregime"],
        [["emissions", "baseline carbon intensity"], False],
        [["economics", "damages", "ignore damages"], False],
    ]

    def decide(self, case, ctx):
        out = Outcome()
        base = case["settings"] + case["given"]
        ops = [{"op": "params", "slot": "p", "set": base}, {"op": "build", "slot": "p", "model": "P"}]
        for k, v in enumerate(case["variants"]):
            ops += [{"op": "params", "slot": f"v{k}", "set": base + v["set"]}, {"op": "build", "slot": f"v{k}", "model": f"V{k}"}, {"op": "compare", "a": "P", "b": f"V{k}"}]
        log = ctx.simulate({"ops": ops, "env": case["env"]})
        out.seen(log)
        for rec in log:
            harness_guard(rec)
        if not log[1]["ok"]:
            out.bad("unexpected-exception", f"building: {log[1]['error']}: {log[1]['message']}")
            return out
        for k, v in enumerate(case["variants"]):
            b, c = log[3 + 3 * k], log[4 + 3 * k]
            out.stat("variant_" + v["kind"])
            out.keys.add(key([case["settings"], v]))
            if not b["ok"]:
                out.bad("unexpected-exception", f"building the variant {short(v['set'])}: {b['error']}: {b['message']}")
                continue
            if not c["ok"]:
                raise runner.HarnessError(f"compare: {c['error']} {c['message']}")
            out.evals += 1
            d = c["diff"]
            if v["kind"] == "units" and d:
                out.bad("units-change-problem", f"{short(v['set'])} instead of {short(case['given'])}: {d}")
            elif v["kind"] == "changed" and not d:
                out.bad("quantity-ignored", f"{short(v['set'])} gives the same problem as {short(case['given'])}")
            elif v["kind"] == "own" and d:
                out.bad("override-with-own-value-changes-problem", f"{v['region']} {v['param']} = {v['value']}: {d}")
            elif v["kind"] == "unused" and d:
                out.bad("unused-override-changes-problem", f"{v['region']} {v['param']} = {v['value']}: {d}")
            elif v["kind"] == "other":
                if not d and v["param"][0] in ("economics", "MAC"):
                    out.bad("override-ignored", f"{v['region']} {v['param']} = {v['value']} gives the same problem")
                else:
                    self.apart(case, v, ctx, out)
        return out

    def apart(self, case, v, ctx, out):
        """the results of the other regions under the same policy"""
        sets = [case["settings"] + self.APART, case["settings"] + v["set"] + self.APART]
        ops = []
        for k, s in enumerate(sets):
            s = workload.free(s)
            ops += [
                {"op": "params", "slot": f"p{k}", "set": s, "show": True},
                {"op": "build", "slot": f"p{k}", "model": f"P{k}"},
                {"op": "solve", "model": f"P{k}", "response": {"kind": "honest", "plans": [case["plan"]], "seed": 1}},
                {"op": "values", "model": f"P{k}"},
            ]
        log = ctx.simulate({"ops": ops, "env": case["env"]})
        for rec in log:
            harness_guard(rec)
        if not (log[2]["ok"] and log[6]["ok"]):
            out.stat("apart_not_solved")
            return
        a, b = log[3]["values"], log[7]["values"]
        if any(abs(x - y) > 1e-12 for p, q in zip(a["v"]["relative_abatement"], b["v"]["relative_abatement"]) for x, y in zip(p, q)):
            out.stat("apart_other_policy")
            return
        out.stat("apart")
        R = a["regions"]
        for name, tab in sorted(a["v"].items()):
            if not tab or not isinstance(tab[0], list) or name.startswith("_") or "cost_allowance" in name:
                continue
            other = b["v"].get(name)
            if other is None:
                out.bad("override-changes-variables", name)
                continue
            for t, (x, y) in enumerate(zip(tab, other)):
                for r, f, g in zip(R, x, y):
                    if r == v["region"] or f is None or g is None:
                        continue
                    out.evals += 1
                    if not abs(f - g) <= 1e-7 * max(abs(f), abs(g)) + 1e-9:
                        out.bad("override-leaks", f"{v['param']} of {v['region']} set to {v['value']} changes {name} of {r} in {a['years'][t]:g} from {f} to {g}")
                        return
        j = spec.Judge(spec.Truth(log[4]["params"]), b["v"])
        for c in (spec.check_economy, spec.check_mitigation, spec.check_damages):
            try:
                c(j)
            except spec.MissingVariable as e:
                out.bad("missing-variable", str(e))
        out.evals += j.evals
        for x in j.out:
            out.bad("override-not-applied", f"{v['param']} of {v['region']} = {v['value']}: {x['class']} {x['where']}: {x['detail']}")
