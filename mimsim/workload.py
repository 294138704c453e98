"""Seeded generation of settings and of solver plans.  Pure functions of an RNG."""
import copy

import numpy as np

from . import spec

ALL = "CAN USA MEX RCAM BRA RSAM NAF WAF EAF SAF WEU CEU TUR UKR STAN RUS ME INDIA KOR CHN SEAS INDO JAP OCE RSAS RSAF".split()
HARM = "inputdata/data/data_IMAGE_SSP_harmonised_2020.csv"
MODULES = {
    "damage module": ["COACCH", "COACCH", "COACCH", "nodamage"],
    "emissiontrade module": ["notrade", "notrade", "notrade", "emissiontrade", "emissiontrade", "globalcostpool"],
    "financialtransfer module": ["notransfer", "notransfer", "globaldamagepool"],
    "welfare module": ["welfare_loss_minimising", "cost_minimising", "inequal_aversion_general"],
    "objective module": ["utility", "utility", "globalcosts"],
}


def put(p, path, value):
    d = p
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = value


def apply(p, overrides):
    for path, value in overrides:
        put(p, path, revive(copy.deepcopy(value)))
    return p


def revive(x):
    """{"@map": [[key, value], ...]} stands for a dictionary whose keys are no strings (a case is stored as JSON)"""
    if isinstance(x, dict):
        if set(x) == {"@map"}:
            return {tuple(k) if isinstance(k, list) else k: revive(v) for k, v in x["@map"]}
        return {k: revive(v) for k, v in x.items()}
    return x


def show(rng, value, kind, unit=None):
    """the same physical quantity written in a random accepted unit"""
    units = sorted(spec.UNITS[kind])
    u = unit or rng.choice(units)
    return f"{value / spec.UNITS[kind][u]!r} {u}"


def num(rng, lo, hi, digits=4):
    return round(rng.uniform(lo, hi), digits)


_NOW = {}


def century(regions):
    """a hundred years of today's emissions"""
    if not _NOW:
        for x in spec._table("inputdata/data/data_IMAGE_SSP.csv"):
            if x["Variable"] == "Emissions|CO2" and x["Model"] == "IMAGE" and x["Scenario"].startswith("SSP2"):
                _NOW[x["Region"]] = float(x["2020"]) * spec.UNITS["rate"][x["Unit"]]
    return max(5.0, 100 * sum(_NOW[r] for r in regions))


def gen_time(rng, big=False):
    start = rng.choice([2020, 2020, 2020, 2015, 2025, 2030])
    dt = rng.choice([5, 5, 10, 10, 10, 20, 7.5, 4, 2.5 if big else 10])
    end = rng.choice([2110, 2120, 2130, 2150, 2105, 2060 if not big else 2190, 2100])
    return start, end, dt


def gen_settings(rng, focus=None, max_regions=4, units=True):
    """list of [path, value] edits to the default settings; always a valid configuration"""
    o = []
    focus = focus or set()
    n = rng.choice([1, 2, 2, 3, 3, 4][: max(1, max_regions + 2)])
    n = min(n, max_regions)
    if focus & {"trade", "pool", "effort"}:
        n = max(n, 2)
    regs = rng.sample(ALL, n)
    overrides = {}
    start, end, dt = gen_time(rng)
    if rng.random() < 0.85:
        o.append([["time"], {"start": start, "end": end, "dt": dt}])
    else:
        o.append([["time", "end"], 2110])
    if rng.random() < 0.7:
        o.append([["SSP"], rng.choice(["SSP1", "SSP2", "SSP3", "SSP4", "SSP5"])])
    # modules
    mod = {k: rng.choice(v) for k, v in MODULES.items()}
    if "trade" in focus:
        mod["emissiontrade module"] = rng.choice(["emissiontrade", "emissiontrade", "notrade", "globalcostpool"])
    if "pool" in focus:
        mod["financialtransfer module"] = rng.choice(["globaldamagepool", "globaldamagepool", "notransfer"])
    if "damages" in focus and rng.random() < 0.7:
        mod["damage module"] = "COACCH"
    regime = "noregime"
    if "effort" in focus:
        regime = rng.choice(["equal_mitigation_costs", "equal_total_costs", "per_cap_convergence", "noregime"])
    elif rng.random() < 0.1:
        regime = rng.choice(["equal_mitigation_costs", "per_cap_convergence"])
    if regime == "per_cap_convergence":
        mod["emissiontrade module"] = "emissiontrade"
        o.append([["effort sharing", "percapconv_year"], rng.choice([2050, 2040, 2100, 2060, False, max(start, 2020), 2020, 2075.5, min(2200, end + rng.choice([5, 20, 60.5]))])])
    if regime == "equal_total_costs" and rng.random() < 0.5:
        mod["financialtransfer module"] = "globaldamagepool"
    if regime == "equal_mitigation_costs":
        if rng.random() < 0.5:
            mod["emissiontrade module"] = "notrade"
    if len(regs) == 1:
        mod["emissiontrade module"] = "notrade" if regime != "per_cap_convergence" else "emissiontrade"
        if rng.random() < 0.8:
            mod["financialtransfer module"] = "notransfer"
    for k, v in mod.items():
        o.append([["model", k], v])
    if regime != "noregime":
        o.append([["effort sharing", "regime"], regime])
    # economics
    e = "economics"
    m = rng.random

    def maybe(p, path, f):
        if m() < p:
            o.append([path, f()])

    maybe(0.5, [e, "PRTP"], lambda: num(rng, 0, 0.05))
    maybe(0.5, [e, "elasmu"], lambda: num(rng, 0.5, 3) + 0.0003)
    maybe(0.4, [e, "inequal_aversion"], lambda: rng.choice([0.0, 0.25, 0.7, 1.4]))
    maybe(0.4, [e, "GDP", "alpha"], lambda: num(rng, 0.2, 0.5))
    maybe(0.4, [e, "GDP", "depreciation of capital"], lambda: num(rng, 0.02, 0.1))
    maybe(0.4, [e, "GDP", "savings rate"], lambda: num(rng, 0.15, 0.3))
    maybe(0.3, [e, "MAC", "beta"], lambda: rng.choice([2.0, 2.5, 3.0, 1.5]))
    g = num(rng, 0.8, 4.0)
    if units and m() < 0.7:
        o.append([[e, "MAC", "gamma"], show(rng, g, "mac")])
    maybe(0.4, [e, "MAC", "LBD_rate"], lambda: rng.choice([0.65, 0.9, 0.95, 1.0, 0.75]))
    maybe(0.4, [e, "MAC", "LBD_scaling"], lambda: show(rng, num(rng, 20, 80), "emissions"))
    maybe(0.3, [e, "MAC", "LOT_rate"], lambda: num(rng, 0, 0.05))
    maybe(
        0.4,
        [e, "MAC", "regional calibration factor"],
        lambda: rng.choice(["kappa_carbonprice_200_2030", "kappa_carbonprice_500_2050", "kappa_rel_abatement_0.25_2100", "kappa_rel_abatement_0.5_2050"]),
    )
    if "trade" in focus or regime in ("equal_total_costs", "equal_mitigation_costs"):
        maybe(0.6, [e, "MAC", "rel_mitigation_costs_min_level"], lambda: rng.choice([-0.3, -0.05, -0.01]))
    if mod["emissiontrade module"] == "globalcostpool":
        maybe(0.6, [e, "emission trade", "min rel payment level"], lambda: rng.choice([0.95, 0.8, 0.5, 0, 1, False, "0.9"]))
        maybe(0.6, [e, "emission trade", "max rel payment level"], lambda: rng.choice([1.05, 1.2, 1.5, 1, False, 0]))
    # a few regions hardly warm the planet: sometimes they make up for the others
    hot = rng.uniform(1.0, 6.0) if units and rng.random() < 0.3 else None
    maybe(0.4, [e, "damages", "scale factor"], lambda: rng.choice([0.5, 0.8, 1.2, 0.0, 2.5 if not hot else 1.0]))
    maybe(0.25, [e, "damages", "ignore damages"], lambda: rng.choice([True, "true", 1]))
    maybe(0.5, [e, "damages", "quantile"], lambda: rng.choice([0.025, 0.05, 0.16, 0.25, 0.33, 0.5, 0.67, 0.75, 0.84]))
    maybe(0.3, [e, "damages", "coacch_slr_withadapt"], lambda: rng.choice([False, "no", 0]))
    maybe(0.3, [e, "damages", "coacch_combined_slr_nonslr_damages"], lambda: rng.choice([True, "yes"]))
    # emissions
    k = "emissions"
    maybe(0.35, [k, "baseline carbon intensity"], lambda: False)
    maybe(0.35, [k, "cumulative_emissions_trapz"], lambda: False)
    maybe(0.3, [k, "non increasing emissions after 2100"], lambda: False)
    maybe(0.3, [k, "not positive after budget year"], lambda: False)
    maybe(0.4, [k, "inertia", "regional"], lambda: rng.choice([False, -0.08, -0.2]))
    maybe(0.25, [k, "inertia", "global"], lambda: rng.choice([-0.08, -0.3]))
    if units:
        maybe(0.3, [k, "global min level"], lambda: rng.choice([False, show(rng, -num(rng, 5, 30, 2), "rate")]))
        maybe(0.3, [k, "regional min level"], lambda: rng.choice([False, show(rng, -num(rng, 2, 12, 2), "rate")]))
    # temperature
    if units:
        if hot:
            o.append([["temperature", "TCRE"], show(rng, round(hot / century(regs), 7), "tcre")])
        else:
            maybe(0.4, ["temperature", "TCRE"], lambda: show(rng, num(rng, 0.0003, 0.0009, 7), "tcre"))
    maybe(0.3, ["temperature", "initial"], lambda: show(rng, num(rng, 0.8, 1.4), "temp", "delta_degC"))
    # data
    if m() < 0.4:
        for v in rng.sample(["GDP", "emissions", "population"], rng.randint(1, 3)):
            o.append([["input", "variables", v, "file"], HARM])
    if m() < 0.2:
        v = rng.choice(["GDP", "emissions", "population"])
        o.append([["input", "variables", v, "scenario"], rng.choice(["SSP1", "SSP3", "SSP5"]) + "-Ref-SPA0-V17"])
    # regional overrides
    if m() < 0.4:
        for r in rng.sample(regs, rng.randint(1, len(regs))):
            ov = {}
            if m() < 0.6:
                ov["economics"] = {"init_capital_factor": num(rng, 1.5, 4)}
            if m() < 0.5:
                ov["MAC"] = {"kappa_rel_abatement_0.75_2050": num(rng, 0.4, 2)}
            if m() < 0.4:
                q = rng.choice([0.5, 0.25])
                ov["COACCH"] = {f"NoSLR_a (q={q})": num(rng, 0.3, 1.5)}
            if m() < 0.2:
                ov["mortality"] = {"oldest_a": num(rng, 0, 2)}
            overrides[r] = ov
    o.append([["regions"], {r: overrides.get(r, {}) for r in regs}])
    return o


# ---------------------------------------------------------------- plans


def shape(rng, t, lim=None, style=None):
    """an abatement table (time x region) meant to satisfy the usual limits of settings truth t"""
    R, T = len(t.regions), t.T
    dt = t.dt
    style = style or rng.choice(["gentle", "gentle", "steady", "strong", "uneven"])
    speed = {"gentle": rng.uniform(0.004, 0.01), "steady": rng.uniform(0.008, 0.018), "strong": rng.uniform(0.015, 0.03), "uneven": rng.uniform(0.006, 0.02)}[style]
    top = {"gentle": rng.uniform(0.3, 0.8), "steady": rng.uniform(0.6, 1.0), "strong": rng.uniform(0.9, 1.08), "uneven": rng.uniform(0.6, 1.0)}[style]
    pw = rng.choice([1.0, 1.0, 1.5])
    mult = [rng.uniform(0.6, 1.2) if style == "uneven" else rng.uniform(0.95, 1.05) for _ in range(R)]
    base = t.emis
    a = np.zeros((T, R))
    E = base.copy()
    inert = t.num_or_false("emissions", "inertia", "regional")
    ginert = t.num_or_false("emissions", "inertia", "global")
    rmin = t.q("rate", "emissions", "regional min level", can_be_false=True)
    caps = [x for x in (inert, ginert) if x is not False]
    lo = max(caps) if caps else False  # the weaker speed of both (negative numbers)
    noninc = t.flag("emissions", "non increasing emissions after 2100")
    for s in range(1, T):
        for r in range(R):
            want = min(1.1, top * mult[r]) * min(1.0, (s * dt * speed / max(top, 0.1))) ** pw
            a[s, r] = max(want, a[s - 1, r] if rng.random() < 0.9 else 0.0)
            e = (1 - a[s, r]) * base[s, r]
            if lo is not False:
                floor = E[s - 1, r] + 0.8 * dt * lo * base[0, r]
                if e < floor:
                    e = floor
            if rmin is not False:
                e = max(e, 0.8 * rmin)
            if noninc and t.years[s - 1] > 2100:
                e = min(e, E[s - 1, r] - 0.02 * abs(E[s - 1, r]) - 1e-4)
            aa = 1 - e / base[s, r]
            aa = min(max(aa, 0.0), 1.15)
            a[s, r] = aa
            E[s, r] = (1 - aa) * base[s, r]
    return {"kind": "table", "values": {str(s): {t.regions[r]: round(float(a[s, r]), 6) for r in range(R)} for s in range(1, T)}}


def gen_plans(rng, p, n=4):
    """candidate answers of the solver, from ambitious to safe"""
    t = spec.Truth(p)
    out = []
    styles = ["strong", "steady", "uneven", "gentle", "gentle"]
    rng.shuffle(styles)
    styles = styles[: n - 1] + ["gentle"]
    for k, st in enumerate(styles):
        plan = {"abatement": shape(rng, t, style=st), "wild": rng.choice([0.1, 0.3, 0.6])}
        decorate(rng, p, t, plan, mild=k > 0)
        out.append(plan)
    # the quiet policy: nothing but the smallest effort
    zero = {"abatement": {"kind": "ramp", "top": 0.0, "speed": 0.0}, "wild": 0.2}
    decorate(rng, p, t, zero, mild=True, quiet=True)
    out.append(zero)
    for plan in out:
        if rng.random() < 0.15:
            plan["restore"] = False
    return out


def bargain(rng, t):
    """as much trade as the settings allow, or half of it"""
    lo = hi = False
    if t.get("model", "emissiontrade module") == "globalcostpool":
        lo = t.num_or_false("economics", "emission trade", "min rel payment level")
        hi = t.num_or_false("economics", "emission trade", "max rel payment level")
    f = rng.choice([0.5, 0.97, 0.999])
    give = (1.0 if lo is False else max(0.0, 1 - lo)) * f
    take = (60.0 if hi is False else max(0.0, hi - 1)) * f
    sellers = rng.sample(t.regions, rng.randint(1, len(t.regions) - 1))
    return {"give": {r: give for r in sellers}, "take": {r: take for r in t.regions}}


def decorate(rng, p, t, plan, mild, quiet=False):
    trade = p["model"]["emissiontrade module"] != "notrade"
    pool = p["model"]["financialtransfer module"] == "globaldamagepool"
    regime = p["effort sharing"]["regime"]
    if trade and regime == "noregime" and len(t.regions) > 1 and not quiet:
        plan["trade"] = {"scale": rng.choice([0.2, 0.45]) if not mild else 0.05, "weights": {r: rng.uniform(-1, 1) for r in t.regions}}
        if rng.random() < (0.2 if mild else 0.6):
            plan["trade"] = bargain(rng, t)
    if pool and regime != "equal_total_costs" and len(t.regions) > 1 and not quiet:
        plan["pool"] = {"scale": rng.choice([0.3, 0.9, 0.98]) if not mild else 0.1, "weights": {r: rng.uniform(0.2, 1) for r in t.regions}}
    if regime in ("equal_mitigation_costs", "equal_total_costs"):
        lev = {}
        x = 0.0
        for s in range(1, t.T):
            # a slowly rising common share
            x = min(0.02, x + t.dt * (2e-5 if quiet else rng.uniform(0.5e-4, 1.5e-4)))
            lev[str(s)] = x
        eps = 0.004 if not mild else 0.001
        skew = {r: 1 + rng.uniform(-eps, eps) for r in t.regions}
        vs = ["rel_mitigation_costs"]
        if regime == "equal_total_costs":
            vs = ["rel_mitigation_costs", "damage_costs", "rel_financial_transfer"]
            for s in range(1, t.T):
                lev[str(s)] = lev[str(s)] * 2 + 0.002 * s * t.dt / 10
        plan["targets"] = [{"kind": "equal", "vars": vs, "level": lev, "skew": skew}]
    if regime == "per_cap_convergence":
        sh = spec.percap_share(t)
        off = {r: rng.uniform(-8e-4, 8e-4) for r in t.regions}
        plan["targets"] = [{"kind": "percap", "share": {str(s): {r: float(sh[s, k]) for k, r in enumerate(t.regions)} for s in range(t.T)}, "offset": off}]


# ---------------------------------------------------------------- probing limits

LIMITS = [
    [["emissions", "carbonbudget"], False],
    [["emissions", "global min level"], False],
    [["emissions", "regional min level"], False],
    [["emissions", "non increasing emissions after 2100"], False],
    [["emissions", "inertia", "global"], False],
    [["emissions", "inertia", "regional"], False],
    [["temperature", "target"], False],
    [["effort sharing", "regime"], "noregime"],
    [["economics", "emission trade", "min rel payment level"], False],
    [["economics", "emission trade", "max rel payment level"], False],
]


def without(o, *prefixes):
    return [e for e in o if not any(list(e[0][: len(p)]) == list(p) for p in prefixes)]


def free(o):
    """the same settings with every optional limit switched off"""
    o = without(o, *[p for p, _ in LIMITS])
    # whole-section edits ("time", "regions") stay; switched-off limits come last
    return o + [[list(p), v] for p, v in LIMITS]


def wander(rng, t):
    """an abatement table with no regard for any limit"""
    R, T = len(t.regions), t.T
    style = rng.choice(["walk", "walk", "overshoot", "rise", "late", "deep"])
    cap = rng.choice([0.95, 1.05, 1.1, 1.2, 1.23, 1.24, 1.25, 1.5])
    a = np.zeros((T, R))
    for r in range(R):
        x = 0.0
        for s in range(1, T):
            u = s / max(1, T - 1)
            if style == "walk":
                x = min(1.3, max(0.02, x + rng.uniform(-0.25, 0.35)))
            elif style == "overshoot":
                x = 0.2 * s if u < 0.35 else 1.1 + 0.5 * (u - 0.35) + rng.uniform(0, 0.2)
            elif style == "deep":
                x = min(x + rng.uniform(0.3, 0.5), cap) if x < 1.1 else rng.uniform(0.9 * cap, cap)
            elif style == "rise":
                x = 0.9 * (1 - u) + rng.uniform(0, 0.1)
            else:
                x = 0.02 + 0.05 * rng.random() if u < 0.6 else rng.uniform(0.5, 1.3)
            a[s, r] = min(cap, x)
    return {"kind": "table", "values": {str(s): {t.regions[r]: round(float(a[s, r]), 6) for r in range(R)} for s in range(1, T)}}


def imposed(rng, p):
    """simulation mode with a path written into the settings, and the plan that follows it; None if there is no room"""
    t = spec.Truth(p)
    speed, top = rng.uniform(0.003, 0.02), rng.uniform(0.05, 0.6)
    shape = {r: rng.uniform(0.8, 1.0) for r in t.regions}
    path = {y: {r: round(min(speed * (y - t.start), top) * shape[r], 6) for r in t.regions} for y in (float(y) for y in t.years)}
    plain = all(y == int(y) for y in path)
    as_key = rng.choice([int, str, float, lambda y: str(int(y))] if plain else [float, str])
    table = {"@map": [[as_key(y), v] for y, v in path.items()]} if as_key in (int, float) else {as_key(y): v for y, v in path.items()}
    edits = [[["simulation", "simulationmode"], rng.choice([True, True, "true", 1])], [["simulation", "constraint_variables"], {"relative_abatement": table}]]
    off = [n for n in ("regional_inertia", "rel_mitigation_costs_non_negative", "global_inertia", "regional_min_level") if rng.random() < 0.3]
    if off:
        edits.append([["simulation", "deactivated_constraints"], off])
    plan = {"abatement": {"kind": "table", "values": {str(k): v for k, v in enumerate(path.values()) if k}}, "wild": rng.choice([0.1, 0.3]), "restore": False}
    return edits, plan


REGIONAL = {"init_capitalstock_factor": (1.5, 3.5), "mortality_param_oldest_a": (0.0, 0.01), "mortality_param_young_b": (0.0, 0.01)}
SCALAR = {"TCRE": (0.5e-3, 0.8e-3), "PRTP": (0.005, 0.03), "slr_thermal_init": (0.05, 0.15), "LBD_rate": (0.7, 0.95), "alpha": (0.2, 0.4)}


def custom(rng, p, kinds=("regional",)):
    """parameters of the model set directly (custom_mapping)"""
    out = {}
    for kind in kinds:
        if kind == "regional":
            for n in rng.sample(sorted(REGIONAL), rng.randint(1, 2)):
                if n.startswith("mortality") and p["model"]["damage module"] != "COACCH":
                    n = "init_capitalstock_factor"
                out[n] = {r: num(rng, *REGIONAL[n]) for r in p["regions"]}
        elif kind == "scalar":
            n = rng.choice([k for k in sorted(SCALAR) if k != "slr_thermal_init" or p["model"]["damage module"] == "COACCH"])
            out[n] = {"@map": [[None, round(rng.uniform(*SCALAR[n]), 7)]]}
    return [[["simulation", "custom_mapping"], out]]
