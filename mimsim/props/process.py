"""P01, P02, P03, P10, P12, P13: what one run does must not depend on anything
but its settings - compared with the same run alone in an untouched process."""
import copy
import json
import random

from .. import runner, spec, workload
from . import owninput
from .base import Outcome, Prop, harness_guard, key
from .model import FAILS, count_faults

SOLVE_FAULTS = [f for f in FAILS]


def neighbour(rng, o, ctx):
    """settings that share most of their data requests with o, but not all"""
    o = copy.deepcopy(o)
    other = workload.gen_settings(rng, max_regions=4)
    regions = next(v for p, v in o if p == ["regions"])
    for _ in range(rng.randint(1, 3)):
        k = rng.random()
        if k < 0.2:
            o = workload.without(o, ["SSP"]) + [[["SSP"], rng.choice(["SSP1", "SSP2", "SSP3", "SSP4", "SSP5"])]]
        elif k < 0.4:
            o = workload.without(o, ["time"]) + [e for e in other if e[0][0] == "time"]
        elif k < 0.6:
            r = list(regions.items())
            rng.shuffle(r)
            if len(r) > 2 and rng.random() < 0.4:
                r = r[:-1]
            if rng.random() < 0.5:
                new = rng.choice([x for x in workload.ALL if x not in regions])
                r.append((new, {}))
            r = [(a, {} if rng.random() < 0.5 else b) for a, b in r]
            if rng.random() < 0.5:
                a, _ = r[0]
                r[0] = (a, {"economics": {"init_capital_factor": 3.3}, "MAC": {"kappa_rel_abatement_0.75_2050": 1.9}})
            o = workload.without(o, ["regions"]) + [[["regions"], dict(r)]]
            regions = dict(r)
        elif k < 0.75:
            v = rng.choice(["GDP", "emissions", "population"])
            o = o + [[["input", "variables", v, "file"], workload.HARM if rng.random() < 0.6 else "inputdata/data/data_IMAGE_SSP.csv"]]
        elif k < 0.85:
            v = rng.choice(["GDP", "emissions", "population"])
            o = o + [[["input", "variables", v, "scenario"], rng.choice(["SSP1", "SSP2", "SSP5"]) + "-Ref-SPA0-V17"]]
        else:
            sect = rng.choice(["economics", "emissions", "temperature"])
            o = o + [e for e in other if e[0][0] == sect]
    return o


def tame(o):
    """module combinations stay as they are; nothing here can fail to build"""
    return o


def honest(rng, p, n=3):
    plans = workload.gen_plans(rng, p, n)
    return {"kind": "honest", "plans": plans[-2:] if rng.random() < 0.8 else plans[:1] + plans[-1:], "seed": rng.randrange(10**6)}


def observed(rec):
    """what a caller can see of an operation"""
    d = {k: rec.get(k) for k in ("op", "ok", "error", "nl", "core", "status", "last", "digest", "values", "objective", "skipped")}
    if rec.get("calls") is not None:
        d["calls"] = [{k: c.get(k) for k in ("kind", "nl", "core", "n", "m", "objective", "options") if k in c} for c in rec["calls"]]
        for c in d["calls"]:
            if c.get("options"):
                c["options"] = [x for x in c["options"]]
    return d


def first_difference(a, b, ops):
    for op, x, y in zip(ops, a, b):
        ox, oy = observed(x), observed(y)
        for k in ox:
            if ox[k] != oy[k]:
                return op, k, short(ox[k]), short(oy[k]), x, y
    if len(a) != len(b):
        return None, "length", len(a), len(b), None, None
    return None


def short(v):
    s = json.dumps(v, default=str)
    return s if len(s) < 160 else s[:157] + "..."


def file_diff(a, b, names=None):
    """first difference between two folders of result files"""
    for n in sorted(set(a) | set(b)):
        if names is not None and not names(n):
            continue
        if a.get(n) == b.get(n):
            continue
        if n not in a or n not in b:
            return f"{n} exists only {'with' if n in a else 'without'} the history"
        x, y = a[n].split("\n"), b[n].split("\n")
        for i, (l, m) in enumerate(zip(x, y)):
            if l != m:
                if n.endswith(".json"):
                    return f"{n} differs: " + json_diff(l, m)
                for c, d in zip(l.split(","), m.split(",")):
                    if c != d:
                        return f"{n} line {i + 1} ({','.join(l.split(',')[:2])}): {c} instead of {d}"
                return f"{n} line {i + 1} differs in length"
        return f"{n} differs in length"
    return None


def json_diff(a, b):
    try:
        a, b = json.loads(a), json.loads(b)
    except ValueError:
        return "unreadable"

    def walk(x, y, path):
        if isinstance(x, dict) and isinstance(y, dict):
            for k in list(x) + [k for k in y if k not in x]:
                if k not in x or k not in y:
                    return f"{path + [k]} only on one side"
                r = walk(x[k], y[k], path + [k])
                if r:
                    return r
            return None
        if x != y:
            return f"{path}: {short(x)} instead of {short(y)}"
        return None

    return walk(a, b, []) or "order of the keys"


# ------------------------------------------------------------------ P01


def actor(rng, ctx, name, o, edits=True):
    """the life of one model as its user sees it"""
    p = ctx.settings(o)
    h = honest(rng, p)
    ops = [{"op": "params", "slot": name, "set": o}, {"op": "build", "slot": name, "model": name}]
    if rng.random() < 0.6:
        ops.append({"op": "probe", "model": name})
    if rng.random() < 0.3:
        ops.append({"op": "values", "model": name})
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops.append({"op": "solve", "model": name, "response": dict(rng.choice(SOLVE_FAULTS), seed=rng.randrange(99))})
    ops.append({"op": "solve", "model": name, "response": h, "last": True})
    k = rng.random()
    kw = {"hash_suffix": True} if k < 0.25 else {}
    if k > 0.8:
        kw["folder"] = "output/" + name
    ops.append({"op": "save", "model": name, "args": [f"{name}_res"], "kwargs": kw})
    if rng.random() < 0.4:
        ops.append({"op": "values", "model": name})
    if rng.random() < 0.4:
        ops.append({"op": "probe", "model": name})
    if rng.random() < 0.35:
        ops.append({"op": "solve", "model": name, "response": honest(rng, p)})
        ops.append({"op": "save", "model": name, "args": [f"{name}_again"], "kwargs": {}})
    return ops


INPUTS = ["table", "table", "regional", "map", "prescribed", "file"]


def rewritten(rng, ctx, o, kinds):
    """(operations that (re)write input files, edits, settings file): always the same names, other contents"""
    w, edits, file = [], [], None

    def put(path, text):
        w.append({"op": "write", "path": path, "text": text})
        return path

    if "table" in kinds:
        rows = spec._table(owninput.SHIPPED)
        f = {r: rng.uniform(0.8, 1.25) for r in workload.ALL}
        rows = [dict(x, **{y: repr(round(float(x[y]) * f.get(x["Region"], 1.0), 7)) for y in x if y.isdigit()}) for x in rows if x["Region"] in f]
        put("@CWD@/inputs/base.csv", owninput.text(rows, list(rows[0])))
        for v in ("GDP", "emissions", "population"):
            edits.append([["input", "variables", v, "file"], "@CWD@/inputs/base.csv"])
    files = {}
    for cat, (path, kind) in owninput.CATS.items():
        files[cat] = {"filename": path, "regionstype": kind}
        if "regional" in kinds:
            rows = spec._table(path)
            cols = [c for c in rows[0] if c and c != "region"]
            rows = [dict(owninput.change(rng, x, cols)) for x in rows]
            files[cat]["filename"] = put(f"@CWD@/inputs/{cat}.csv", owninput.text(rows, ["region"] + cols))
    if "regional" in kinds:
        edits.append([["regional_parameter_files"], files])
    if "map" in kinds:
        rows = [dict(x) for x in spec._table(owninput.COACCH_MAP)]
        to = [x["COACCH"] for x in rows]
        rng.shuffle(to)
        rows = [dict(x, COACCH=c) for x, c in zip(rows, to)]
        maps = copy.deepcopy(ctx.defaults["regionsmappings"])
        for m in maps:
            if {m["regionstype1"], m["regionstype2"]} == {"IMAGE26", "COACCH"}:
                m["conversiontable"] = put("@CWD@/inputs/map.csv", owninput.text(rows, ["IMAGE26", "COACCH"]))
        edits.append([["regionsmappings"], maps])
    if "prescribed" in kinds:
        t = spec.Truth(ctx.settings(o))
        ys = [2000, 2020, 2060, 2100, 2250]
        rows = [{"Variable": "relative_abatement", "Region": r, "Unit": "", **{str(y): repr(round(0.0 if y <= 2020 else rng.uniform(0.1, 0.9), 4)) for y in ys}} for r in t.regions]
        put("@CWD@/inputs/earlier.csv", owninput.text(rows, ["Variable", "Region", "Unit"] + [str(y) for y in ys]))
        edits.append([["simulation", "simulationmode"], True])
        edits.append([["simulation", "constraint_variables"], {"relative_abatement": "@CWD@/inputs/earlier.csv"}])
    if "file" in kinds:
        import yaml

        q = owninput.sections(ctx.settings(o + edits), ctx.defaults)
        put("@CWD@/inputs/settings.yaml", yaml.safe_dump(q, sort_keys=False))
        file = "@CWD@/inputs/settings.yaml"
    return w, edits, file


def own_inputs(rng, ctx, o, ops, kinds):
    """lets the first build of ops read freshly written inputs; the writing, the loading and the building stay together"""
    if not kinds:
        return ops
    w, edits, file = rewritten(rng, ctx, o, kinds)
    params = dict(ops[0], set=[] if file else ops[0]["set"] + edits, here=True)
    if file:
        params["file"] = file
    for op in ops:
        # the folder's name is part of the settings, and so of their hash
        if op.get("kwargs"):
            op["kwargs"] = {k: v for k, v in op["kwargs"].items() if k != "hash_suffix"}
    return [w + [params, ops[1]]] + ops[2:]


def disturber(rng, ctx, name, o, kinds=()):
    """other things that happen in the process; not compared"""
    ops = []
    for k in range(rng.randint(1, 2)):
        q = neighbour(rng, o, ctx)
        slot = f"{name}{k}"
        ops.append({"op": "params", "slot": slot, "set": q})
        b = {"op": "build", "slot": slot, "model": slot}
        f = rng.random()
        if f < 0.25:
            b["fault"] = [{"kind": "interrupt", "line": rng.randint(5, 1100), "occ": rng.choice([1, 1, 2, 5])}]
        elif f < 0.4:
            b["fault"] = [{"kind": "io", "side": "r", "n": rng.randint(1, 40), "err": rng.choice(["EIO", "EMFILE", "ENOENT"])}]
        ops[-1:] = own_inputs(rng, ctx, q, [ops[-1], b], kinds)
        if not kinds:
            ops.append(b)
        if rng.random() < 0.3:
            ops.append({"op": "edit", "slot": slot, "set": [[["economics", "PRTP"], 0.07], [["time", "dt"], 25]]})
        if rng.random() < 0.5:
            ops.append({"op": "solve", "model": slot, "response": dict(rng.choice(SOLVE_FAULTS)) if rng.random() < 0.6 else honest(rng, ctx.settings(q))})
        if rng.random() < 0.3:
            ops.append({"op": "save", "model": slot, "args": [slot], "kwargs": {}})
        if rng.random() < 0.2:
            ops.append({"op": "drop", "model": slot})
        if rng.random() < 0.1:
            # settings that do not build
            ops.append({"op": "params", "slot": slot + "x", "set": [[["regions"], {"NOSUCH": {}}]]})
            ops.append({"op": "build", "slot": slot + "x", "model": slot + "x"})
    return ops


def interleave(rng, seqs):
    left = {n: list(s) for n, s in seqs.items() if s}
    out = []
    while left:
        n = rng.choice(sorted(left))
        burst = rng.choice([1, 1, 2, 3, 9])
        for _ in range(burst):
            if not left[n]:
                break
            e = left[n].pop(0)
            out.extend([n, x] for x in (e if isinstance(e, list) else [e]))
        if not left[n]:
            del left[n]
    return out


class P01(Prop):
    id = "P01"
    quick = 240
    rule = "an episode = one interleaving of the lives (load, build, fail, solve, save, solve again) of 2-3 models and of disturbing activity in one process; each life is compared, operation by operation and file by file, with the same life alone in a fresh process, and its last result with a life that consists of build, solve and save only; distinct = different interleavings"

    def generate(self, rng, ctx):
        o = workload.gen_settings(rng, max_regions=3)
        # in half of the episodes everybody keeps rewriting the same input files
        kinds = sorted({rng.choice(INPUTS) for _ in range(rng.randint(1, 2))}) if rng.random() < 0.5 else []
        seqs = {"A": own_inputs(rng, ctx, o, actor(rng, ctx, "A", o), kinds)}
        for n in ["B", "C"][: rng.choice([0, 1, 1, 2])]:
            q = neighbour(rng, o, ctx)
            seqs[n] = own_inputs(rng, ctx, q, actor(rng, ctx, n, q), kinds)
        if rng.random() < 0.8:
            seqs["x"] = disturber(rng, ctx, "x", o, kinds)
        return {"steps": interleave(rng, seqs), "env": {"seed": rng.randrange(10**6), "short_reads": rng.random() < 0.2}}

    def shrinks(self, case):
        s = case["steps"]
        actors = sorted({n for n, _ in s if n != "x"})
        # whole actors, then single operations of the disturber, then of actors
        for n in ["x"] + actors:
            c = dict(case, steps=[e for e in s if e[0] != n])
            if any(e[0] != "x" for e in c["steps"]):
                yield c
        size = max(1, len(s) // 2)
        while size >= 1:
            for i in range(0, len(s), size):
                c = dict(case, steps=s[:i] + s[i + size :])
                if c["steps"]:
                    yield c
            size //= 2

    def decide(self, case, ctx):
        out = Outcome()
        steps = case["steps"]
        tail = {"op": "files", "content": True, "here": True}
        run = {"ops": [e[1] for e in steps] + [tail], "env": case["env"]}
        log = ctx.simulate(run)
        out.seen(log)
        for op, rec in zip(run["ops"], log):
            harness_guard(rec)
            count_faults(out, op, rec)
        files = log[-1]["files"]
        out.keys.add(key(steps))
        for n in sorted({e[0] for e in steps} - {"x"}):
            idx = [i for i, e in enumerate(steps) if e[0] == n]
            ops = [steps[i][1] for i in idx]
            ref = ctx.simulate({"ops": ops + [tail], "env": case["env"]})
            for rec in ref:
                harness_guard(rec)
            out.evals += len(ops)
            out.stat("lives")
            mine = [log[i] for i in idx]
            d = first_difference(mine, ref[:-1], ops)
            if d:
                op, k, a, b, x, y = d
                extra = ""
                if k in ("ok", "error"):
                    bad = x if not x["ok"] else y
                    extra = f" ({bad.get('error')}: {bad.get('message')} at {(bad.get('where') or {}).get('lib')})"
                out.bad("history-changes-" + ("outcome" if k in ("ok", "error") else "problem" if k in ("nl", "core", "calls") else "result"), f"{op['op']} of {n}: {k} is {a} after the history and {b} alone{extra}")
                continue
            fd = file_diff(files, ref[-1]["files"], lambda f: f.split("/")[-1].startswith(n + "_"))
            if fd:
                out.bad("history-changes-files", fd)
                continue
            self.lone(case, ctx, out, n, ops, mine, files, tail)
        return out

    def lone(self, case, ctx, out, n, ops, recs, files, tail):
        """the last result against: build, solve, save and nothing else"""
        saves = [k for k, o in enumerate(ops) if o["op"] == "save" and recs[k]["ok"]]
        if not saves:
            return
        s = saves[-1]
        solves = [k for k in range(s) if ops[k]["op"] == "solve"]
        if not solves or not recs[solves[-1]]["ok"]:
            return
        keep = [k for k in range(len(ops)) if ops[k]["op"] in ("write", "params", "build") and k < s] + [solves[-1], s]
        if len(keep) == s + 1:
            return
        mini = [ops[k] for k in keep]
        ref = ctx.simulate({"ops": mini + [tail], "env": case["env"]})
        out.evals += 2
        out.stat("lone")
        a, b = recs[solves[-1]], ref[len(mini) - 2]
        if [c.get("core") for c in a["calls"]] != [c.get("core") for c in b["calls"]]:
            out.bad("repeat-changes-problem", f"the last solve of {n} was sent a different problem than a first solve of the same settings")
            return
        if [c.get("point") for c in a["calls"]] != [c.get("point") for c in b["calls"]]:
            # same problem; the simulated solver, which starts from where the
            # variables are, found another point, or none, from the other start
            out.stat("lone_start_matters")
            return
        if not b["ok"]:
            out.bad("history-changes-outcome", f"the last solve of {n} succeeds only after earlier solves: {b['error']}: {b['message']}")
            return
        name = ops[s]["args"][0]
        fd = file_diff(files, ref[-1]["files"], lambda f: f.split("/")[-1].startswith(name))
        if fd:
            out.bad("repeat-changes-files", fd)


# ------------------------------------------------------------------ P02


class P02(Prop):
    id = "P02"
    quick = 240
    rule = "an episode = one configuration whose build, solve or save is cut short once to three times (Ctrl-C or MemoryError at a chosen line, a failing or short read, a failing open, a vanishing file, a solver interrupt, a failing write), then retried; the retry is compared with an undisturbed process; distinct = different (configuration, fault positions)"

    SUBS = [("common/data/", 72), ("common/regional_params/", 70), ("mimosa.py", 24), ("common/data/", 72), ("concrete_model/", 70), ("", 1153), ("common/units.py", 40), ("", 1153)]

    def sweep(self, rng, ctx):
        """a small configuration, its build cut short at ten neighbouring lines in turn"""
        o = short_horizon(rng, workload.gen_settings(rng, max_regions=2))
        k = self.turn // 3
        sub, n = self.SUBS[k % len(self.SUBS)]
        first = (k // len(self.SUBS)) * 10 + (37 if k % len(self.SUBS) == 3 else 0)
        if sub == "":
            first = rng.randrange(n)
        pts = [{"sub": sub, "line": (first + i) % n + 1, "occ": rng.choice([1, 1, 1, 2, 3]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])} for i in range(10)]
        return {"sweep": pts, "settings": o, "other": neighbour(rng, o, ctx) if rng.random() < 0.3 else None, "env": {"seed": rng.randrange(10**6)}}

    def decide_sweep(self, case, ctx):
        out = Outcome()
        P = {"op": "params", "slot": "p", "set": case["settings"]}
        B = {"op": "build", "slot": "p", "model": "P"}
        after = [B, {"op": "probe", "model": "P"}, {"op": "values", "model": "P"}]
        ref = ctx.simulate({"ops": [P] + after, "env": case["env"]})
        for rec in ref:
            harness_guard(rec)
        for pt in case["sweep"]:
            f = [dict(pt, kind="interrupt")]
            first = [dict(B, fault=f)]
            if case["other"]:
                first = [{"op": "params", "slot": "q", "set": case["other"]}, {"op": "build", "slot": "q", "model": "Q", "fault": f}]
            log = ctx.simulate({"ops": [P] + first + after, "env": case["env"]})
            out.seen(log)
            for op, rec in zip([P] + first + after, log):
                harness_guard(rec)
                count_faults(out, op, rec)
            hit = log[len(first)].get("interrupted")
            out.evals += 3
            if not hit:
                out.stat("fault_not_reached")
                continue
            out.stat("cut_build")
            out.keys.add(key(hit))
            d = first_difference(log[-3:], ref[-3:], after)
            if d:
                op, k, a, b, x, y = d
                extra = f" ({x.get('error')}: {x.get('message')} at {(x.get('where') or {}).get('lib')})" if not x["ok"] else ""
                out.bad("retry-fails" if not x["ok"] else "retry-differs", f"after an interruption at {hit}: {op['op']}: {k} is {short(a)} instead of {short(b)}{extra}")
                return out
        return out

    def shrinks(self, case):
        if "sweep" in case:
            if len(case["sweep"]) > 1:
                for pt in case["sweep"]:
                    yield dict(case, sweep=[pt])
                return
            if case["other"]:
                yield dict(case, other=None)
        yield from super().shrinks(case)

    def generate(self, rng, ctx):
        if self.turn % 3 == 0:
            return self.sweep(rng, ctx)
        o = workload.gen_settings(rng, max_regions=3)
        p = ctx.settings(o)
        noise = []
        if rng.random() < 0.3:
            q = neighbour(rng, o, ctx)
            noise = [{"op": "params", "slot": "n", "set": q}, {"op": "build", "slot": "n", "model": "N"}]
        faults = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            where = rng.choice(["params", "build", "build", "build", "build", "solve", "save"])
            kind = rng.random()
            if where == "solve":
                f = {"at": "solve", "response": dict(rng.choice(SOLVE_FAULTS))}
                if rng.random() < 0.4:
                    f = {"at": "solve", "response": "honest", "fault": [{"kind": "interrupt", "line": rng.randint(1, 30), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}]}
            elif where == "save":
                if kind < 0.5:
                    f = {"at": "save", "fault": [{"kind": "interrupt", "line": rng.randint(1, 60), "occ": rng.choice([1, 1, 3, 20])}]}
                else:
                    f = {"at": "save", "fault": [{"kind": "io", "side": "w", "n": rng.randint(1, 8), "err": rng.choice(["ENOSPC", "EIO", "EACCES"]), "part": rng.choice([0, 0.4])}]}
            else:
                if kind < 0.5:
                    f = {"at": where, "fault": [{"kind": "interrupt", "line": rng.randint(1, 1150), "occ": rng.choice([1, 1, 1, 2, 3, 10, 60]), "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])}]}
                else:
                    f = {"at": where, "fault": [{"kind": "io", "side": "r", "n": rng.choice([rng.randint(1, 12), rng.randint(1, 60)]), "err": rng.choice(["EIO", "EMFILE", "ENOENT", "ESTALE", "EACCES"])}]}
            f["other"] = where == "build" and rng.random() < 0.25  # the cut-short build is of another configuration
            faults.append(f)
        return {
            "settings": o,
            "other": neighbour(rng, o, ctx),
            "noise": noise,
            "faults": faults,
            "response": honest(rng, p),
            "env": {"seed": rng.randrange(10**6), "short_reads": rng.random() < 0.3, "bufsize": rng.choice([None, 256, 4096])},
        }

    def decide(self, case, ctx):
        if "sweep" in case:
            return self.decide_sweep(case, ctx)
        out = Outcome()
        P = {"op": "params", "slot": "p", "set": case["settings"]}
        B = {"op": "build", "slot": "p", "model": "P"}
        S = {"op": "solve", "model": "P", "response": case["response"]}
        W = {"op": "save", "model": "P", "args": ["result"], "kwargs": {}}
        clean = [P, B, {"op": "probe", "model": "P"}, S, {"op": "values", "model": "P"}, W, {"op": "files", "content": True}]
        ops = list(case["noise"])
        # faults of each stage come right before the clean attempt of that stage
        stage = {"params": [], "build": [], "solve": [], "save": []}
        for f in case["faults"]:
            stage[f["at"]].append(f)
        cut = []

        def add(o, faulty=False):
            if faulty:
                cut.append(len(ops))
            ops.append(o)
            return len(ops) - 1

        for f in stage["params"]:
            add(dict(P, fault=f["fault"]), True)
        marks = []
        marks.append(add(P))
        for f in stage["build"]:
            if f.get("other"):
                add({"op": "params", "slot": "q", "set": case["other"]})
                add({"op": "build", "slot": "q", "model": "Q", "fault": f["fault"]}, True)
            else:
                add(dict(B, fault=f["fault"], model="P"), True)
        marks.append(add(B))
        marks.append(add(clean[2]))
        for f in stage["solve"]:
            if f["response"] == "honest":
                add(dict(S, fault=f["fault"]), True)
            else:
                add(dict(S, response=f["response"]), True)
        marks.append(add(S))
        marks.append(add(clean[4]))
        for f in stage["save"]:
            add(dict(W, fault=f["fault"]), True)
        marks.append(add(W))
        marks.append(add(clean[6]))
        log = ctx.simulate({"ops": ops, "env": case["env"]})
        ref = ctx.simulate({"ops": clean, "env": case["env"]})
        out.seen(log)
        for op, rec in zip(ops, log):
            harness_guard(rec)
            count_faults(out, op, rec)
        for rec in ref:
            harness_guard(rec)
        out.keys.add(key([case["settings"], case["faults"]]))
        # a failure that happened has to be reported
        for i in cut:
            rec = log[i]
            hit = bool(rec.get("fired")) or bool(rec.get("interrupted")) or (ops[i]["op"] == "solve" and ops[i]["response"] is not case["response"])
            if not hit:
                out.stat("fault_not_reached")
                continue
            out.stat("cut_" + ops[i]["op"])
            out.evals += 1
            if rec["ok"]:
                # harmless only if the outcome is the clean one
                out.stat("survived_" + ops[i]["op"])
                if ops[i]["op"] == "build" and ops[i]["model"] == "P":
                    out.stat("survived_builds")
        got = [log[i] for i in marks]
        out.evals += len(marks)
        d = first_difference(got, ref, clean)
        if d and d[0] is not None:
            op, k, a, b, x, y = d
            if k == "nl" and op["op"] == "probe" or k == "calls":
                # earlier (failed) solves may leave another starting point: compare the problems
                d = None
                for o, x, y in zip(clean, got, ref):
                    for k in ("ok", "error", "core", "status", "last"):
                        if x.get(k) != y.get(k):
                            d = (o, k, x.get(k), y.get(k), x, y)
                            break
                    if d is None and [c.get("core") for c in x.get("calls", [])] != [c.get("core") for c in y.get("calls", [])]:
                        d = (o, "calls", "another problem", "", x, y)
                    if d:
                        break
        if d:
            op, k, a, b, x, y = d
            extra = f" ({x.get('error')}: {x.get('message')} at {(x.get('where') or {}).get('lib')})" if x is not None and not x["ok"] else ""
            out.bad("retry-fails" if x is not None and not x["ok"] else "retry-differs", f"{op['op'] if op else ''}: {k} is {short(a)} after the failure and {short(b)} in an undisturbed process{extra}")
            return out
        names = lambda f: f.startswith("output/result") and not f.endswith(".tmp")
        fd = file_diff(got[-1]["files"], ref[-1]["files"], names)
        if fd:
            out.bad("retry-differs", fd)
        return out


# ------------------------------------------------------------------ P03


def short_horizon(rng, o):
    """few periods: the interleavings are in the data code, not in the number of years"""
    return workload.without(o, ["time"]) + [[["time"], {"start": 2020, "end": rng.choice([2060, 2080, 2110]), "dt": rng.choice([10, 20])}]]


class P03(Prop):
    id = "P03"
    quick = 64
    rule = "an episode = 2-3 models built, or their results saved, in threads of one process under several seeded schedules (a thread switch is possible before every line of the library; schedules switch often, rarely, or park one thread at one chosen line while the others run on); distinct = different recorded switch sequences"

    FILES = [
        ["mimosa/common/data"],
        ["mimosa/common/data", "mimosa/common/regional_params"],
        ["mimosa/common/data"],
        ["mimosa/common/config", "mimosa/common/units.py", "mimosa/common/regional_params"],
        ["mimosa/mimosa.py", "mimosa/common", "mimosa/concrete_model", "mimosa/abstract_model"],
        ["mimosa/"],
    ]
    LINES = [72, 140, 72, 240, 500, 1150]

    def generate(self, rng, ctx):
        o = short_horizon(rng, workload.gen_settings(rng, max_regions=2))
        jobs = {"A": o}
        for n in ["B", "C"][: rng.choice([1, 1, 2])]:
            k = rng.random()
            jobs[n] = copy.deepcopy(o) if k < 0.35 else short_horizon(rng, neighbour(rng, o, ctx) if k < 0.8 else workload.gen_settings(rng, max_regions=2))
        fi = self.turn % len(self.FILES)
        f = self.FILES[fi]
        pre = []
        if rng.random() < 0.2:
            q = short_horizon(rng, neighbour(rng, o, ctx))
            pre = [{"op": "params", "slot": "n", "set": q}, {"op": "build", "slot": "n", "model": "N"}]
        saves = {}
        kind = rng.random()
        if kind < 0.35:
            # results written while other results are written, or while a model is built
            for n in sorted(jobs)[1:] if kind < 0.12 else sorted(jobs):
                kw = rng.choice([{}, {}, {"hash_suffix": True}, {"folder": "output/new"}, {"folder": "runs"}])
                saves[n] = {"response": honest(rng, ctx.settings(jobs[n])), "args": [f"{n}_res"], "kwargs": kw if rng.random() < 0.5 or not saves else dict(saves[sorted(saves)[0]]["kwargs"])}
        scheds = []
        first = (self.turn // len(self.FILES)) * 8
        if saves:
            for k in range(6):
                f = rng.choice([["mimosa/export"], ["mimosa/export"], ["mimosa/export", "mimosa/common/pyomo_utils.py", "mimosa/mimosa.py"], ["mimosa/"]])
                sc = {"seed": rng.randrange(10**9), "files": f, "p": 0.0, "stops": []}
                if rng.random() < 0.6:
                    for n in sorted(jobs):
                        if rng.random() < 0.8:
                            sc["stops"].append([n, rng.randint(1, 45 if len(f) == 1 and "export" in f[0] else 75), rng.choice([1, 1, 1, 2, 4])])
                else:
                    sc["p"] = rng.choice([0.5, 0.2, 0.05, 0.02, 0.005])
                scheds.append(sc)
            return {"jobs": jobs, "saves": saves, "schedules": scheds, "noise": pre, "env": {"seed": rng.randrange(10**6), "short_reads": False}}
        for k in range(8):
            sc = {"seed": rng.randrange(10**9), "files": f, "p": 0.0, "stops": []}
            if k < 6:
                # park the threads at walked-through and at random lines
                names = sorted(jobs)
                n0 = rng.choice(names)
                sc["stops"].append([n0, (first + k) % self.LINES[fi] + 1, rng.choice([1, 1, 1, 2, 4])])
                for n in names:
                    if rng.random() < 0.5:
                        sc["stops"].append([n, rng.randint(1, self.LINES[fi]), rng.choice([1, 1, 2, 3])])
                if rng.random() < 0.2:
                    sc["p"] = 0.002
            else:
                sc["p"] = rng.choice([0.5, 0.2, 0.05, 0.02]) if fi < 4 else rng.choice([0.05, 0.01, 0.003])
            scheds.append(sc)
        return {"jobs": jobs, "schedules": scheds, "noise": pre, "env": {"seed": rng.randrange(10**6)}}

    def shrinks(self, case):
        if len(case["schedules"]) > 1:
            for s in case["schedules"]:
                yield dict(case, schedules=[s])
            return
        if len(case["jobs"]) > 2:
            for n in sorted(case["jobs"]):
                sc = dict(case["schedules"][0], script=None)
                sc["stops"] = [x for x in sc["stops"] if x[0] != n]
                yield dict(case, jobs={k: v for k, v in case["jobs"].items() if k != n}, schedules=[sc])
        if case["noise"]:
            yield dict(case, noise=[])
        one = case["schedules"][0]
        sc = one.get("script")
        if sc:
            ks = sorted(sc, key=int)
            size = len(ks)
            while size >= 1:
                for i in range(0, len(ks), size):
                    drop = set(ks[i : i + size])
                    yield dict(case, schedules=[dict(one, script={k: sc[k] for k in ks if k not in drop})])
                size //= 2
        elif one.get("recorded"):
            yield dict(case, schedules=[dict(one, script=one["recorded"])])

    def decide(self, case, ctx):
        out = Outcome()
        refs = {}
        for n in case["jobs"]:
            refs[n] = ctx.simulate({"ops": self.before(case, n) + [self.alone(case, n)] + self.after(n), "env": case["env"]})
            for rec in refs[n]:
                harness_guard(rec)
        for sc in case["schedules"]:
            self.schedule(case, sc, refs, out, ctx)
            if out.violations:
                break
        return out

    def before(self, case, n):
        ops = [{"op": "params", "slot": n, "set": case["jobs"][n]}]
        s = case.get("saves", {}).get(n)
        if s:
            ops += [{"op": "build", "slot": n, "model": n}, {"op": "solve", "model": n, "response": s["response"]}]
        return ops

    def alone(self, case, n):
        s = case.get("saves", {}).get(n)
        if s:
            return {"op": "save", "model": n, "args": s["args"], "kwargs": s["kwargs"]}
        return {"op": "build", "slot": n, "model": n}

    def after(self, n):
        return [{"op": "probe", "model": n}, {"op": "values", "model": n}, {"op": "files", "content": True}]

    def schedule(self, case, sc, refs, out, ctx):
        ops = list(case["noise"])
        for n in case["jobs"]:
            ops += self.before(case, n)
        jobs = []
        for n in case["jobs"]:
            a = self.alone(case, n)
            jobs.append({"model": n, "slot": n} if a["op"] == "build" else {"model": n, "args": a["args"], "kwargs": a["kwargs"]})
        t = {"op": "threads", "seed": sc["seed"], "p": sc["p"], "files": sc["files"], "stops": sc["stops"], "jobs": jobs}
        if sc.get("script") is not None:
            t["script"] = sc["script"]
        ops.append(t)
        ti = len(ops) - 1
        for n in case["jobs"]:
            ops += self.after(n)
        log = ctx.simulate({"ops": ops, "env": case["env"]})
        for rec in log:
            harness_guard(rec)
        out.seen(log)
        tr = log[ti]
        if not tr["ok"]:
            raise runner.HarnessError(f"threads: {tr['error']} {tr['message']}")
        out.stat("scheduling_points", tr["points"])
        out.stat("schedules")
        out.fault("thread_switch", tr["nswitch"])
        out.keys.add(key(tr["switches"]))
        sc["recorded"] = {str(s[0]): s[2] for s in tr["switches"] if s[3] != "end"} if 0 < tr["nswitch"] <= 400 else None
        files = log[-1]["files"]
        for k, n in enumerate(case["jobs"]):
            ref = refs[n]
            a = self.alone(case, n)
            lone = ref[-4]
            got = tr["threads"].get(n, {"ok": False})
            out.evals += 3
            out.stat("thread_" + a["op"])
            if got["ok"] != lone["ok"]:
                out.bad(f"thread-{a['op']}-fails", f"{a['op']} of {n} {'failed' if not got['ok'] else 'succeeded'} among other threads but not alone: {got.get('error')}: {got.get('message')} at {(got.get('where') or {}).get('lib')}")
                continue
            x, y = log[ti + 1 + 3 * k], log[ti + 2 + 3 * k]
            if a["op"] == "save":
                if x.get("last") != ref[-3].get("last"):
                    out.bad("thread-save-differs", f"{n} was saved as {x.get('last')} among other threads and as {ref[-3].get('last')} alone")
                    continue
                fd = file_diff(files, ref[-1]["files"], lambda f: f.split("/")[-1].startswith(a["args"][0]))
                if fd:
                    out.bad("thread-save-differs", fd)
                    continue
            if got["ok"]:
                if x.get("nl") != ref[-3].get("nl"):
                    out.bad("thread-build-differs", f"the problem of {n} differs from the one built alone")
                elif y.get("values") != ref[-2].get("values"):
                    out.bad("thread-build-differs", f"the data of {n} differ from the ones of a lone build")


# ------------------------------------------------------------------ P10


class P10(Prop):
    id = "P10"
    quick = 340
    rule = "an episode = a configuration built, solved and saved after some history, then rebuilt in another process from the stored settings file alone; distinct = different configurations"

    def generate(self, rng, ctx):
        o = workload.gen_settings(rng, max_regions=4)
        p = ctx.settings(o)
        noise = []
        if rng.random() < 0.4:
            noise = disturber(rng, ctx, "x", o)
        edits = []
        if rng.random() < 0.3:
            edits = [[["economics", "PRTP"], 0.0777], [["SSP"], "SSP4"]]
        response = honest(rng, p)
        k = rng.random()
        if k < 0.35:
            o = workload.free(o)
            more, plan = workload.imposed(rng, ctx.settings(o))
            o = o + more
            response = {"kind": "honest", "plans": [plan], "seed": rng.randrange(10**6)}
        if k > 0.75 or rng.random() < 0.1:
            o = o + workload.custom(rng, p, [rng.choice(["regional", "regional", "scalar"])])
        return {"settings": o, "response": response, "noise": noise, "edits": edits, "env": {"seed": rng.randrange(10**6)}, "env2": {"seed": rng.randrange(10**6), "short_reads": rng.random() < 0.5, "clock": 2.1e9}}

    def decide(self, case, ctx):
        out = Outcome()
        ops = list(case["noise"]) + [
            {"op": "params", "slot": "p", "set": case["settings"]},
            {"op": "build", "slot": "p", "model": "P"},
            {"op": "probe", "model": "P"},
        ]
        if case["edits"]:
            ops.append({"op": "edit", "slot": "p", "set": case["edits"]})
        ops += [
            {"op": "solve", "model": "P", "response": case["response"]},
            {"op": "save", "model": "P", "args": ["result"], "kwargs": {}},
            {"op": "files", "content": True},
        ]
        log = ctx.simulate({"ops": ops, "env": case["env"]})
        out.seen(log)
        for op, rec in zip(ops, log):
            harness_guard(rec)
            count_faults(out, op, rec)
        out.keys.add(key(case["settings"]))
        n = len(case["noise"])
        if not log[n + 1]["ok"]:
            out.bad("unexpected-exception", f"building: {log[n + 1]['error']}: {log[n + 1]['message']}")
            return out
        solved, saved = log[-3]["ok"], log[-2]["ok"]
        if not saved:
            if solved:
                out.bad("not-saved", f"saving: {log[-2]['error']}: {log[-2]['message']}")
            return out
        side = log[-1]["files"].get("output/result.csv.params.json")
        table = log[-1]["files"].get("output/result.csv")
        if side is None:
            out.bad("no-settings-file", f"files: {sorted(log[-1]['files'])}")
            return out
        try:
            raw = json.loads(side)
        except ValueError as e:
            out.bad("unreadable-settings-file", str(e))
            return out
        ops2 = [
            {"op": "params", "slot": "p", "raw": raw},
            {"op": "build", "slot": "p", "model": "P"},
            {"op": "probe", "model": "P"},
            {"op": "solve", "model": "P", "response": case["response"]},
            {"op": "save", "model": "P", "args": ["result"], "kwargs": {}},
            {"op": "files", "content": True},
        ]
        log2 = ctx.simulate({"ops": ops2, "env": case["env2"]})
        for rec in log2:
            harness_guard(rec)
        out.evals += 3
        if not log2[1]["ok"]:
            out.bad("settings-file-rejected", f"{log2[1]['error']}: {log2[1]['message']}")
            return out
        if log2[2]["nl"] != log[n + 2]["nl"]:
            out.bad("rebuilt-problem-differs", "the problem built from the stored settings differs from the original one")
            return out
        out.stat("rebuilt")
        if log2[3]["ok"] != solved or [c.get("core") for c in log2[3]["calls"]] != [c.get("core") for c in log[-3]["calls"]]:
            out.bad("rebuilt-solve-differs", f"solving: {log2[3].get('error')} instead of {log[-3].get('error')}")
            return out
        if solved:
            out.evals += 2
            f2 = log2[5]["files"]
            if f2.get("output/result.csv") != table:
                out.bad("rebuilt-table-differs", file_diff(f2, log[-1]["files"], lambda f: f.endswith(".csv")) or "")
            elif json.loads(f2.get("output/result.csv.params.json") or "null") != raw:
                out.bad("resaved-settings-differ", json_diff(f2.get("output/result.csv.params.json") or "null", side))
        return out


# ------------------------------------------------------------------ P12

EDITS = [
    [[["economics", "PRTP"], 0.0777]],
    [[["economics", "MAC", "gamma"], "500 USD2005/tCO2"]],
    [[["time", "end"], 2095], [["time", "dt"], 25]],
    [[["SSP"], "SSP4"]],
    [[["model", "damage module"], "nodamage"]],
    [[["model", "welfare module"], "cost_minimising"]],
    [[["emissions", "carbonbudget"], "400 GtCO2"]],
    [[["emissions", "inertia", "regional"], -0.01]],
    [[["temperature", "TCRE"], "1.1 delta_degC/TtCO2"]],
    [[["input", "variables", "GDP", "scenario"], "SSP5-Ref-SPA0-V17"]],
    [[["input", "variables", "population", "file"], workload.HARM]],
    [[["simulation", "simulationmode"], True]],
    [[["regional_parameter_files", "MAC", "regionstype"], "RICE2010"]],
    [[["regionsmappings"], []]],
    [[["simulation", "constraint_variables"], {"relative_abatement": {"2020": {"USA": 0.1}}}]],
]


class P12(Prop):
    id = "P12"
    quick = 380
    rule = "an episode = one settings dictionary from which a model is built, solved and saved, while its owner edits the dictionary (scalars, nested sections, entries of a region, entries of a list) at seeded moments in between or builds another model from it; compared with the life without edits; distinct = different (configuration, edits, moments)"

    def generate(self, rng, ctx):
        o = workload.gen_settings(rng, max_regions=3)
        regions = next(v for p, v in o if p == ["regions"])
        p = ctx.settings(o)
        inside = []
        plan = None
        if rng.random() < 0.25:
            o = o + workload.custom(rng, p, ["regional"])
            for n in o[-1][1]:
                r = rng.choice(sorted(regions))
                inside.append([[["simulation", "custom_mapping", n, r], 0.0077]])
            if rng.random() < 0.3:
                inside = [[[["simulation", "custom_mapping"], {}]]]
        elif rng.random() < 0.25:
            o = workload.free(o)
            edits, plan = workload.imposed(rng, ctx.settings(o))
            o = o + edits
            inside = [[[["simulation", "constraint_variables", "relative_abatement"], {}]], [[["simulation", "constraint_variables"], {}]], [[["simulation", "deactivated_constraints"], []]], [[["simulation", "simulationmode"], False]]]
        p = ctx.settings(o)
        base = [{"op": "build", "slot": "p", "model": "P"}, {"op": "probe", "model": "P"}]
        for _ in range(rng.choice([0, 0, 1])):
            base.append({"op": "solve", "model": "P", "response": dict(rng.choice(SOLVE_FAULTS))})
        h = honest(rng, p)
        if plan:
            h = {"kind": "honest", "plans": [plan], "seed": rng.randrange(10**6)}
        base += [{"op": "solve", "model": "P", "response": h}, {"op": "probe", "model": "P"}, {"op": "save", "model": "P", "args": ["one"], "kwargs": {"hash_suffix": rng.random() < 0.3}}, {"op": "values", "model": "P"}, {"op": "save", "model": "P", "args": ["two"], "kwargs": {}}]
        edits = []
        for _ in range(rng.randint(1, 4)):
            k = rng.random()
            r = rng.choice(sorted(regions))
            if k < 0.3:
                e = rng.choice([
                    [[["regions", r, "economics"], {"init_capital_factor": 9.5}]],
                    [[["regions", r, "MAC"], {"kappa_rel_abatement_0.75_2050": 7.7}]],
                    [[["regions", r], {"economics": {"init_capital_factor": 8.5}}]],
                    [[["regions", "USA" if "USA" not in regions else "CAN"], {}]],
                ])
                for cat, d in (regions[r] or {}).items():
                    for nm in d:
                        if rng.random() < 0.6:
                            e = [[["regions", r, cat, nm], 4.4]]
            elif inside and k < 0.6:
                e = rng.choice(inside)
            else:
                e = rng.choice(EDITS)
            edits.append({"after": rng.randrange(0, len(base)), "set": e, "build": rng.random() < 0.15})
        return {"settings": o, "base": base, "edits": edits, "before": rng.random() < 0.5, "env": {"seed": rng.randrange(10**6)}}

    def decide(self, case, ctx):
        out = Outcome()
        head = [{"op": "params", "slot": "p", "set": case["settings"]}]
        tail = [{"op": "files", "content": True}]
        ops, at, digests = list(head), [], []
        ops.append({"op": "digest", "slot": "p"})
        for k, b in enumerate(case["base"]):
            ops.append(b)
            at.append(len(ops) - 1)
            ops.append({"op": "digest", "slot": "p"})
            for e in case["edits"]:
                if e["after"] == k:
                    ops.append({"op": "edit", "slot": "p", "set": e["set"], "mine": True})
                    if e.get("build"):
                        ops.append({"op": "build", "slot": "p", "model": "Q", "other": True})
                    ops.append({"op": "digest", "slot": "p"})
        log = ctx.simulate({"ops": ops + tail, "env": case["env"]})
        ref = ctx.simulate({"ops": head + case["base"] + tail, "env": case["env"]})
        out.seen(log)
        for op, rec in zip(ops + tail, log):
            harness_guard(rec)
            count_faults(out, op, rec)
        for rec in ref:
            harness_guard(rec)
        out.keys.add(key([case["settings"], case["edits"]]))
        out.stat("edits", len(case["edits"]))
        # the dictionary: only the owner changes it
        last = None
        changed = False
        for op, rec in zip(ops, log):
            if op["op"] == "edit":
                changed = True
            if op["op"] == "digest":
                out.evals += 1
                if last is not None and not changed and rec["digest"] != last[0]:
                    out.bad("settings-changed", f"the caller's dictionary was changed by {prev['op']} ({prev.get('model')})")
                    return out
                last = (rec["digest"],)
                changed = False
            else:
                prev = op
        out.evals += len(at)
        d = first_difference([log[i] for i in at], ref[1:-1], case["base"])
        if d:
            op, k, a, b, x, y = d
            extra = f" ({x.get('error')}: {x.get('message')})" if not x["ok"] else ""
            out.bad("edit-leaks-in", f"{op['op']}: {k} is {a} after the owner edited the dictionary and {b} without edits{extra}")
            return out
        fd = file_diff(log[-1]["files"], ref[-1]["files"])
        if fd:
            out.bad("edit-leaks-into-files", fd.replace("the history", "the edits"))
        return out
