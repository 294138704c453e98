"""M14: the user's own input tables, settings file and references."""
import copy
import csv
import io
import json
import os

from .. import spec, workload
from .base import Outcome, harness_guard, key
from .model import FAILS, NOTHING, ModelProp, count_faults, noise

SHIPPED = "inputdata/data/data_IMAGE_SSP.csv"
CATS = {
    "economics": ("inputdata/regionalparams/economics.csv", "IMAGE26"),
    "MAC": ("inputdata/regionalparams/mac.csv", "IMAGE26"),
    "mortality": ("inputdata/regionalparams/mortality.csv", "IMAGE26"),
    "COACCH": ("inputdata/regionalparams/COACCH.csv", "COACCH"),
}
COACCH_MAP = "inputdata/regions/IMAGE26_COACCH.csv"
VARS = {"GDP": ("GDP|PPP", "money"), "emissions": ("Emissions|CO2", "rate"), "population": ("Population", "people")}
OWN_NAMES = ["North", "EU-27", "Rest of World", "S_2", "R5OECD90+EU", "Atlantis", "Zone 9"]
YEARS = [
    list(range(2010, 2101, 10)),
    list(range(2010, 2101, 5)),
    [2010, 2015, 2020, 2030, 2050, 2070, 2100],
    [2010, 2020, 2025, 2040, 2060, 2080, 2090, 2095, 2100],
]
with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "schema.json")) as _fh:
    LEAVES = [tuple(s["path"]) for s in json.load(_fh)]


def text(rows, head):
    out = io.StringIO()
    w = csv.DictWriter(out, head, lineterminator="\n")
    w.writeheader()
    for r in rows:
        w.writerow(r)
    return out.getvalue()


def parse(t):
    return list(csv.DictReader(io.StringIO(t)))


class Tables:
    """makes the case's tables known to the reference model for a while"""

    def __init__(self, tables):
        self.tables = tables

    def __enter__(self):
        spec.OWN = {k: parse(v) for k, v in self.tables.items() if k.endswith(".csv")}

    def __exit__(self, *a):
        spec.OWN = {}


def interpolate(ys, vs, y):
    for (a, u), (b, v) in zip(zip(ys, vs), zip(ys[1:], vs[1:])):
        if a <= y <= b:
            return u + (v - u) * (y - a) / (b - a)
    raise ValueError(y)


def baseline_tables(rng, names, p, o):
    """own baseline data; edits of the settings in place.  names: region -> shipped region"""
    tables = {}
    shared = rng.random() < 0.5
    ys = rng.choice(YEARS)
    case_of = rng.choice([str, str.upper, str.lower, str])
    model = rng.choice(["IMAGE", "My model", "IMAGE 3.3"])
    rows_shared = []
    extra = rng.random() < 0.4
    head = ["Model", "Scenario", "Region", "Variable", "Unit"]
    rng.shuffle(head)
    head = [case_of(h) for h in head] + (["Notes"] if extra else []) + [str(y) for y in ys]
    chosen = [v for v in VARS if shared or rng.random() < 0.75] or ["GDP"]
    own = any(r != s for r, s in names.items())
    if own:
        chosen = list(VARS)
    for v in VARS:
        if v not in chosen:
            continue
        iamc, kind = VARS[v]
        variable = rng.choice([iamc, iamc, "Own|" + v])
        unit = rng.choice(sorted(spec.UNITS[kind]))
        style = rng.randrange(6)
        scen, ref = [
            ("{SSP}-Ref-SPA0-V17", None),
            ("own", None),
            ("{SSP}-and-{effort sharing - regime}", None),
            ("Run {time - start} {SSP} {model - damage module} {SSP}", None),
            ("{model - objective module}", None),
            ("{simulation - simulationmode} {SSP}", None),
        ][style]
        truth = spec.Truth(p)
        label = truth.resolve(scen)
        if "|" in label or label in ("",):
            label = scen = "own"
        rows = []
        for r, src in names.items():
            shipped = [x for x in spec._table(SHIPPED) if x["Model"] == "IMAGE" and x["Scenario"].startswith(p["SSP"]) and x["Region"] == src and x["Variable"] == iamc][0]
            sy = sorted(int(c) for c in shipped if c.isdigit())
            sv = [float(shipped[str(y)]) * spec.UNITS[kind][shipped["Unit"]] / spec.UNITS[kind][unit] for y in sy]
            f = rng.uniform(0.7, 1.4)
            # smooth own scenario
            vals = [interpolate(sy, sv, y) * f * (1 + 0.02 * rng.uniform(-1, 1)) for y in ys]
            row = dict(zip([case_of(h) for h in ("Model", "Scenario", "Region", "Variable", "Unit")], (model, label, r, variable, unit)))
            row.update({str(y): repr(x) for y, x in zip(ys, vals)})
            if extra:
                row["Notes"] = rng.choice(["", "estimate, own", "12"])
            rows.append(row)
            # rows that are not asked for
            for k in range(rng.randint(0, 3)):
                decoy = dict(row)
                what = rng.choice(["Model", "Scenario", "Variable", "Region"])
                name = decoy[case_of(what)]
                decoy[case_of(what)] = rng.choice([lambda n: "x " + n, lambda n: "Other " + n, lambda n: n + " 2", lambda n: n + "|Own", str.lower, str.upper, str.swapcase])(name)
                if decoy[case_of(what)] == name or decoy[case_of(what)] in names:
                    continue
                for y in ys:
                    decoy[str(y)] = repr(float(decoy[str(y)]) * rng.uniform(2, 9))
                rows.append(decoy)
        path = "@CWD@/own data/base.csv" if shared else f"@CWD@/own data/{v}.csv"
        if shared:
            rows_shared += rows
        else:
            rng.shuffle(rows)
            tables[path] = text(rows, head)
        shown = "@CWD@/own data/base.csv" if shared else rng.choice([path, path, "@CWD@/own data/" + v + ".csv"])
        o.append([["input", "variables", v], {"variable": variable, "unit": p["input"]["variables"][v]["unit"], "scenario": scen, "model": model, "file": shown}])
    if shared:
        # one row per (model, scenario, region, variable)
        seen, rows = set(), []
        for r in rows_shared:
            k = tuple(r[case_of(c)] for c in ("Model", "Scenario", "Region", "Variable"))
            if k not in seen:
                seen.add(k)
                rows.append(r)
        wanted = rows
        rng.shuffle(wanted)
        tables["@CWD@/own data/base.csv"] = text(wanted, head)
    return tables


def regional_tables(rng, names, p, o, rtype):
    """own regional parameter tables (and conversion tables)"""
    tables, files, maps = {}, {}, copy.deepcopy(p["regionsmappings"])
    own = any(r != s for r, s in names.items())
    to_coacch = {x["IMAGE26"]: x["COACCH"] for x in spec._table(COACCH_MAP)}
    for cat, (shipped, stype) in CATS.items():
        if not own and rng.random() < 0.45:
            files[cat] = copy.deepcopy(p["regional_parameter_files"][cat])
            continue
        src = spec._table(shipped)
        cols = [c for c in src[0] if c and c != "region"]
        by = {x["region"]: x for x in src}
        rows = []
        style = rng.choice(["direct", "direct", "own type", "shipped type"])
        if own and style == "shipped type":
            style = "direct"
        label = {"direct": rtype, "own type": f"My{cat}", "shipped type": stype}[style]
        if style == "shipped type":
            for x in src:
                rows.append(change(rng, x, cols))
        else:
            link = []
            for r, image in names.items():
                s = by[to_coacch[image] if stype == "COACCH" else image]
                if style == "direct":
                    rows.append(dict(change(rng, s, cols), region=r))
                else:
                    # several rows per region are averaged
                    n = 1 if stype == "COACCH" else rng.randint(1, 3)
                    for k in range(n):
                        rows.append(dict(change(rng, s, cols), region=f"{r}/{k}"))
                        link.append({rtype: r, label: f"{r}/{k}"})
            rows.append(dict(change(rng, src[0], cols), region="elsewhere"))
            if style == "own type":
                link.append({rtype: "unused", label: "elsewhere"})
                rng.shuffle(link)
                path = f"@CWD@/own data/map {cat}.csv"
                head = [rtype, label] if rng.random() < 0.5 else [label, rtype]
                tables[path] = text(link, head)
                a, b = (rtype, label) if rng.random() < 0.5 else (label, rtype)
                maps.insert(rng.randint(0, len(maps)), {"regionstype1": a, "regionstype2": b, "conversiontable": path})
        if cat in ("economics", "MAC") and rng.random() < 0.3:
            # whole numbers only
            for x in rows:
                x.update({c: str(rng.randint(1, 3)) for c in cols})
        rng.shuffle(rows)
        head = ["region"] + cols
        if rng.random() < 0.3:
            rng.shuffle(head)
        path = f"@CWD@/own data/{cat}.csv"
        tables[path] = text([{h: x.get(h, "") for h in head} for x in rows], head)
        files[cat] = {"filename": path, "regionstype": label}
    o.append([["regional_parameter_files"], files])
    if maps != p["regionsmappings"]:
        o.append([["regionsmappings"], maps])
    return tables


def change(rng, x, cols):
    y = {"region": x["region"]}
    for c in cols:
        v = spec._num(x[c])
        y[c] = x[c] if v is None else repr(round(v * rng.uniform(0.93, 1.07), 9))
    return y


def sections(settings, defaults):
    """the changed settings as the nested mapping of a settings file"""
    out = {}
    for path in LEAVES:
        a, b = settings, defaults
        for k in path:
            a, b = a[k], b[k]
        if a != b:
            d = out
            for k in path[:-1]:
                d = d.setdefault(k, {})
            d[path[-1]] = a
    return out


class M14(ModelProp):
    id = "M14"
    quick = 340
    rule = "an episode = own baseline tables (units, years, names, decoy rows), regional and conversion tables, references and/or a settings file, after a process history and failing reads, with five solver answers, or one damaged input; distinct = different (settings, tables)"

    def generate(self, rng, ctx):
        import yaml

        o = workload.without(workload.gen_settings(rng, self.focus, 3), ["input"])
        p = ctx.settings(o)
        regs = list(p["regions"])
        rtype = rng.choice(["IMAGE26"] * 3 + ["SSP5", "World"])
        names = {r: r for r in regs}
        if rtype != "IMAGE26":
            fresh = rng.sample(OWN_NAMES, len(regs))
            names = dict(zip(fresh, regs))
            ov = p["regions"]
            o = workload.without(o, ["regions"]) + [[["regionstype"], rtype], [["regions"], {f: ov[r] for f, r in names.items()}]]
            p = ctx.settings(o)
        tables = {}
        both = rtype != "IMAGE26"
        if both or rng.random() < 0.75:
            tables.update(baseline_tables(rng, names, p, o))
        if both or not tables or rng.random() < 0.5:
            tables.update(regional_tables(rng, names, p, o, rtype))
        case = {"prelude": noise(rng, ctx), "settings": o, "tables": tables, "plans": [], "file": None}
        p = ctx.settings(o)
        if rng.random() < 0.4:
            # an earlier model from the same tables
            few = rng.sample(list(names), rng.randint(1, len(names)))
            q = o + [[["time"], {"start": rng.choice([2020, 2030]), "end": 2110, "dt": 10}], [["regions"], {r: p["regions"][r] for r in few}]]
            if rng.random() < 0.5:
                q += [[["economics", "MAC", "regional calibration factor"], "kappa_rel_abatement_0.5_2050"], [["economics", "damages", "quantile"], 0.5]]
            if p["effort sharing"]["regime"] == "per_cap_convergence":
                q += [[["effort sharing", "percapconv_year"], 2100]]
            b = {"op": "build", "slot": "own", "model": "OWN"}
            if rng.random() < 0.3:
                b["fault"] = [{"kind": "interrupt", "line": rng.randint(5, 1100)}]
            case["prelude"] += [{"op": "params", "slot": "own", "set": q, "here": True}, b]
        if rng.random() < 0.45:
            dump = yaml.safe_dump(sections(p, ctx.defaults), sort_keys=False, default_flow_style=rng.choice([None, False]), allow_unicode=True)
            case["file"] = ("# my settings\n" if rng.random() < 0.3 else "") + dump
        if rng.random() < 0.3:
            self.damage(rng, case, p, names)
        case["early"] = []
        if not case.get("broken") and rng.random() < 0.4:
            if rng.random() < 0.6:
                case["early"] = [{"kind": "io", "side": "r", "n": rng.randint(1, 25), "err": rng.choice(["EIO", "EMFILE", "ENOENT", "EACCES"])}]
            else:
                case["early"] = [{"kind": "interrupt", "line": rng.randint(5, 1100)}]
        if case["file"] and rng.random() < 0.4:
            case["load"] = [{"kind": "io", "side": "r", "n": rng.randint(1, 6), "err": rng.choice(["EIO", "EMFILE", "ENOENT", "EACCES"])}]
        if not case.get("broken"):
            with Tables(tables):
                plans = self.plans(rng, p, ctx)
        else:
            plans = [{"abatement": {"kind": "ramp", "top": 0.3, "speed": 0.01}, "wild": 0.2}]
        for plan in plans:
            e = {"plan": plan, "seed": rng.randrange(10**6), "before": []}
            if rng.random() < 0.15:
                e["before"].append(dict(rng.choice(FAILS), seed=rng.randrange(1000)))
            case["plans"].append(e)
        case["env"] = {"seed": rng.randrange(10**6), "bufsize": rng.choice([None, 512, 4096]), "short_reads": rng.random() < 0.25}
        return case

    def damage(self, rng, case, p, names):
        """one thing wrong with the inputs; the run must not succeed"""
        base = [k for k in case["tables"] if "own data/" in k and any(k.endswith("/" + v + ".csv") for v in list(VARS) + ["base"])]
        reg = [k for k in case["tables"] if k.endswith("/economics.csv") or k.endswith("/MAC.csv")]
        maps = [k for k in case["tables"] if k.endswith(("map economics.csv", "map MAC.csv"))]
        kinds = ["table missing"] if case["tables"] else []
        if base:
            kinds += ["row missing", "row twice", "wrong unit", "text in cell", "empty cell", "reference misspelt"]
        if reg:
            kinds += ["region missing", "region twice", "column missing"]
        if maps:
            kinds += ["mapping without region", "mapping without type"]
        if case["file"]:
            kinds += ["unknown key in file", "settings file missing"]
        if not kinds:
            return
        kind = rng.choice(kinds)
        T = case["tables"]
        what = kind
        if kind == "table missing":
            path = rng.choice(sorted(T))
            T.pop(path)
            what += " " + path
        elif kind in ("row missing", "row twice", "wrong unit", "text in cell", "empty cell"):
            path = rng.choice(base)
            with Tables(T):
                t = spec.Truth(p)
                v = rng.choice([v for v in VARS if t._source(v)["file"] == path])
                info = t._source(v)
            r = rng.choice(list(names))
            rows = parse(T[path])
            hit = [
                x
                for x in rows
                if spec._cell(x, "Model") == info["model"] and spec._cell(x, "Scenario") == info["scenario"] and spec._cell(x, "Region") == r and spec._cell(x, "Variable") == info["variable"]
            ]
            x = hit[0]
            head = list(x)
            years = [h for h in head if h.isdigit()]
            if kind == "row missing":
                rows.remove(x)
            elif kind == "row twice":
                rows.insert(rng.randint(0, len(rows)), dict(x))
            elif kind == "wrong unit":
                u = next(h for h in head if h.lower() == "unit")
                x[u] = rng.choice([w for w in ("Mt CO2/yr", "billion US$2005/yr", "delta_degC", "gram") if w != x[u] and w not in spec.UNITS[VARS[v][1]]])
            else:
                x[rng.choice(years)] = rng.choice(["n/k", "-,-", "12 apples"]) if kind == "text in cell" else ""
            T[path] = text(rows, head)
            what += f" {v} {r}"
        elif kind == "reference misspelt":
            v = rng.choice([e[0][2] for e in case["settings"] if e[0][:2] == ["input", "variables"] and len(e[0]) == 3])
            for e in case["settings"]:
                if e[0] == ["input", "variables", v]:
                    e[1]["scenario"] = rng.choice(["{SPP}-own", "{model - damages}", "{emissions - ssp}"])
        elif kind in ("region missing", "region twice", "column missing"):
            path = rng.choice(reg)
            cat = "economics" if "economics" in path else "MAC"
            param = "init_capital_factor" if cat == "economics" else p["economics"]["MAC"]["regional calibration factor"]
            victims = [r for r in names if param not in ((p["regions"].get(r) or {}).get(cat) or {})]
            if not victims:
                case["broken"] = None
                return
            r = rng.choice(victims)
            rows = parse(T[path])
            info = p["regional_parameter_files"][cat]
            direct = info["regionstype"] == p["regionstype"]
            ids = [r] if direct else [x["region"] for x in rows if x["region"].rsplit("/", 1)[0] == r]
            if kind == "region twice" and not direct:
                # rows that belong to one region are averaged
                kind = what = "column missing"
            if kind == "region missing":
                rows = [x for x in rows if x["region"] not in ids]
            elif kind == "region twice":
                rows.append(dict(next(x for x in rows if x["region"] in ids)))
            head = [h for h in rows[0] if not (kind == "column missing" and h == param)]
            T[path] = text([{h: x[h] for h in head} for x in rows], head)
            what = f"{kind} {cat} {r}"
        elif kind == "mapping without region":
            path = rng.choice(maps)
            cat = "economics" if "economics" in path else "MAC"
            param = "init_capital_factor" if cat == "economics" else p["economics"]["MAC"]["regional calibration factor"]
            victims = [r for r in names if param not in ((p["regions"].get(r) or {}).get(cat) or {})]
            if not victims:
                case["broken"] = None
                return
            r = rng.choice(victims)
            rows = [x for x in parse(T[path]) if r not in x.values()]
            T[path] = text(rows, list(parse(T[path])[0]))
            what += f" {cat} {r}"
        elif kind == "mapping without type":
            path = rng.choice(maps)
            T[path] = T[path].replace(p["regionstype"], "Kind", 1)
        elif kind == "unknown key in file":
            case["file"] += rng.choice(["SPP: SSP1\n", "temprature: {target: 2 delta_degC}\n", "my own setting: 1\n"])
        else:
            case["no_file"] = True
        if case["file"] and kind == "reference misspelt":
            # the file is written from the settings
            import yaml

            doc = yaml.safe_load(case["file"])
            for e in case["settings"]:
                if e[0] == ["input", "variables", v]:
                    doc.setdefault("input", {}).setdefault("variables", {})[v] = e[1]
            case["file"] = yaml.safe_dump(doc)
        case["broken"] = what
        case["kind"] = kind

    def run_of(self, case):
        ops = []
        for path, t in case["tables"].items():
            ops.append({"op": "write", "path": path, "text": t})
        if case["file"] is not None and not case.get("no_file"):
            ops.append({"op": "write", "path": "@CWD@/my settings.yaml", "text": case["file"]})
        ops += case["prelude"]
        if case["file"] is not None:
            load = {"op": "params", "slot": "p", "file": "@CWD@/my settings.yaml", "here": True}
            if case.get("load"):
                ops.append(dict(load, slot="q", fault=case["load"], show=True, early=True))
            ops.append(dict(load, must=True, main=True, show=True))
        else:
            ops.append({"op": "params", "slot": "p", "set": case["settings"], "here": True, "must": True, "main": True})
        if case["early"]:
            ops.append({"op": "build", "slot": "p", "model": "E", "fault": case["early"], "early": True})
        ops.append({"op": "build", "slot": "p", "model": "P", "must": True, "main": True})
        if case["file"] is not None and not case.get("broken"):
            ops.append({"op": "params", "slot": "d", "set": case["settings"], "here": True, "must": True})
            ops.append({"op": "build", "slot": "d", "model": "D", "must": True, "main": True})
            ops.append({"op": "compare", "a": "P", "b": "D", "rtol": 0, "atol": 0})
        for e in case["plans"]:
            for b in e["before"]:
                ops.append({"op": "solve", "model": "P", "response": b})
            ops.append({"op": "solve", "model": "P", "response": {"kind": "honest", "plans": [e["plan"]], "seed": e["seed"]}, "candidate": True})
            ops.append({"op": "values", "model": "P"})
        return {"ops": ops, "env": case.get("env", {})}

    def decide(self, case, ctx):
        out = Outcome()
        run = self.run_of(case)
        log = ctx.simulate(run)
        out.seen([{k: v for k, v in r.items() if k != "params"} for r in log])
        p = ctx.settings(case["settings"])
        accepted = 0
        failed = None
        with Tables(case["tables"]):
            truth = spec.Truth(p)
            for i, rec in enumerate(log):
                op = run["ops"][i]
                harness_guard(rec)
                count_faults(out, op, rec)
                if op.get("main") and not rec["ok"]:
                    failed = rec
                    if not case.get("broken"):
                        out.bad("own-input-refused", f"{op['op']}: {rec['error']}: {rec['message']}", str(rec.get("where")))
                        return out
                    break
                if op.get("early") and op["op"] == "params" and rec["ok"]:
                    # a reading error may be survived, but not by forgetting settings
                    main = next((r for r, q in zip(log, run["ops"]) if q.get("main") and q["op"] == "params"), None)
                    out.evals += 1
                    if main and main["ok"] and main["params"] != rec["params"]:
                        out.bad("half-read-settings", f"loading with {case['load']} succeeded with other settings")
                if op["op"] == "compare" and rec["ok"]:
                    out.evals += 1
                    if rec["diff"]:
                        out.bad("file-differs-from-dictionary", rec["diff"])
                if op["op"] == "solve" and op.get("candidate"):
                    if case.get("broken"):
                        if not rec["ok"]:
                            failed = rec
                        continue
                    if rec["ok"]:
                        accepted += 1
                        vals = log[i + 1]
                        if not vals.get("ok"):
                            out.bad("unexpected-exception", f"reading results: {vals.get('error')}: {vals.get('message')}")
                            continue
                        self.judge(out, truth, vals, rec)
        if case.get("broken"):
            out.evals += 1
            out.stat("damaged: " + case["kind"])
            if failed is None:
                out.bad("damaged-input-accepted", f"{case['broken']}: the run succeeded")
        else:
            out.sim_years += truth.end - truth.start
            if case.get("must_accept") and not accepted:
                out.bad("nothing-accepted", NOTHING)
            out.stat("accepted", accepted)
            out.stat("candidates", len(case["plans"]))
        if case["file"] is not None:
            out.stat("settings_file")
        out.stat("own_tables", len(case["tables"]))
        out.stat("regionstype_" + p["regionstype"])
        out.keys.add(key([case["settings"], case["tables"]]))
        return out

    def checks(self, j):
        spec.check_baseline(j)
        spec.check_emissions(j)
        spec.check_temperature(j)
        spec.check_economy(j)
        spec.check_mitigation(j)
        spec.check_damages(j)
        spec.check_sealevel(j)
        spec.check_trade(j)
        spec.check_effort(j)
        spec.check_welfare(j)
