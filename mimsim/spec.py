"""Independent statement of what a MIMOSA run must satisfy.

Nothing here imports mimosa.  `Truth` turns the user's settings (the plain
dictionary a user edits) and the shipped input tables into numbers with its own
unit table, its own interpolation and its own region mapping.  `check_*`
functions judge a finished trajectory against them.
"""
import csv
import math
import os
import re

import numpy as np
from scipy.interpolate import CubicSpline

INPUT = "/repo/mimosa"

UNITS = {
    "emissions": {"GtCO2": 1.0, "TtCO2": 1e3, "MtCO2": 1e-3, "ktCO2": 1e-6, "tCO2": 1e-9, "Gt CO2": 1.0, "Mt CO2": 1e-3},
    "rate": {"GtCO2/yr": 1.0, "TtCO2/yr": 1e3, "MtCO2/yr": 1e-3, "ktCO2/yr": 1e-6, "Mt CO2/yr": 1e-3, "GtCO2/year": 1.0},
    "mac": {
        "USD2005/tCO2": 1e-3,
        "USD2010/tCO2": 1.11e-3,
        "USD2005/ktCO2": 1e-6,
        "billion USD2005/GtCO2": 1e-3,
        "trillion USD2005/GtCO2": 1.0,
        "USD2005/MtCO2": 1e-9,
    },
    "temp": {"delta_degC": 1.0, "delta_degF": 5.0 / 9.0, "kelvin": 1.0},
    "tcre": {
        "delta_degC/(TtCO2)": 1e-3,
        "delta_degC/TtCO2": 1e-3,
        "delta_degC/GtCO2": 1.0,
        "kelvin/TtCO2": 1e-3,
        "delta_degF/TtCO2": 1e-3 * 5.0 / 9.0,
    },
    "money": {
        "billion US$2005/yr": 1e-3,
        "million US$2005/yr": 1e-6,
        "trillion US$2005/yr": 1.0,
        "billion USD2005/yr": 1e-3,
        "billion USD2010/yr": 1.11e-3,
        "US$2005/yr": 1e-12,
    },
    "people": {"million": 1e-3, "billion": 1.0, "thousand": 1e-6},
}
_NUM = re.compile(r"^\s*([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)\s*(.*?)\s*$")


def falsy(v):
    return v is False or v in (0, "False", "false", "no")


def quantity(value, kind, can_be_false=False):
    if can_be_false and (v := value) is not None and (v is False or v in (0, "False", "false", "no")):
        return False
    m = _NUM.match(str(value))
    return float(m.group(1)) * UNITS[kind][m.group(2)]


def _table(path):
    with open(os.path.join(INPUT, path), newline="", encoding="utf-8") as fh:
        return list(csv.DictReader(fh))


_CACHE = {}
OWN = {}  # tables of the case at hand, by path


def table(path):
    if path in OWN:
        return OWN[path]
    if path not in _CACHE:
        _CACHE[path] = _table(path)
    return _CACHE[path]


def _cell(row, name):
    if name in row:
        return row[name]
    return next(v for k, v in row.items() if k.lower() == name.lower())


def soft(x, scale=1.0):
    a = 25.0 / scale
    return (np.arctan(a * x) / np.pi + 0.5) * x + 1.0 / (a * np.pi)


def _num(s):
    try:
        return float(s)
    except (TypeError, ValueError):
        return None


class Truth:
    def __init__(self, p):
        """p: the complete settings dictionary as the user passed it"""
        self.p = p
        t = p["time"]
        self.start, self.end, self.dt = int(t["start"]), int(t["end"]), float(t["dt"])
        self.T = int(math.ceil((self.end - self.start) / self.dt)) + 1
        self.years = self.start + self.dt * np.arange(self.T)
        self.regions = [str(r) for r in p["regions"]]
        self._series_cache = {}
        self.trade = p["model"]["emissiontrade module"] != "notrade"
        self.pool = p["model"]["financialtransfer module"] == "globaldamagepool"

    # ---------------------------------------------------------------- data

    def _source(self, var):
        info = self.p["input"]["variables"][var]

        return {k: self.resolve(v) for k, v in info.items()}

    def resolve(self, s):
        """references to other settings, like {SSP} or {model - damage module}"""

        def sub(m):
            d = self.p
            for k in m.group(1).split(" - "):
                if not isinstance(d, dict) or k not in d:
                    return m.group(0)
                d = d[k]
            return str(d)

        return re.sub(r"\{([\w -]+)\}", sub, str(s))

    def series(self, var, kind):
        """time x region baseline array in model units"""
        info = self._source(var)
        rows = table(info["file"])
        out = np.empty((self.T, len(self.regions)))
        for k, r in enumerate(self.regions):
            want = r[:-1] if r.endswith("#") else r
            sel = [
                x
                for x in rows
                if _cell(x, "Model") == info["model"]
                and _cell(x, "Scenario") == info["scenario"]
                and _cell(x, "Region") == want
                and _cell(x, "Variable") == info["variable"]
            ]
            assert len(sel) == 1, (info, r)
            row = sel[0]
            ys = sorted((int(c) for c in row if c.isdigit()))
            vals = np.array([float(row[str(y)]) for y in ys]) * UNITS[kind][_cell(row, "Unit")]
            # beyond the last year: growth falls linearly to zero over 50 years
            yy = list(map(float, ys))
            vv = list(vals)
            rate = (vv[-1] - vv[-2]) / (yy[-1] - yy[-2])
            tp, vp = yy[-1], vv[-1]
            for y in range(2110, 2260, 10):
                left = 1.0 - (tp - 2100.0) / 50.0
                vp = vp + rate * max(0.0, left) * (y - tp)
                tp = float(y)
                yy.append(tp)
                vv.append(vp)
            out[:, k] = CubicSpline(yy, vv)(self.years)
        return out

    @property
    def gdp(self):
        return self._memo("gdp", lambda: self.series("GDP", "money"))

    @property
    def pop(self):
        return self._memo("pop", lambda: self.series("population", "people"))

    @property
    def emis(self):
        return self._memo("emis", lambda: self.series("emissions", "rate"))

    def _memo(self, k, f):
        if k not in self._series_cache:
            self._series_cache[k] = f()
        return self._series_cache[k]

    def regional(self, category, name, text=False):
        """one value per region, honouring per-region overrides and the region mapping"""
        info = self.p["regional_parameter_files"][category]
        rows = table(self.resolve(info["filename"]))
        rtype = info["regionstype"]
        out = []
        for r in self.regions:
            ov = (self.p["regions"].get(r) or {})
            try:
                v = ov[category][name]
                out.append(v if text else (None if v is None else float(v)))
                continue
            except (KeyError, TypeError):
                pass
            if rtype == self.p["regionstype"]:
                names = [r]
            else:
                names = None
                for mp in self.p["regionsmappings"]:
                    a, b = mp["regionstype1"], mp["regionstype2"]
                    if {a, b} == {rtype, self.p["regionstype"]}:
                        names = [
                            x[rtype]
                            for x in table(mp["conversiontable"])
                            if x[self.p["regionstype"]] == r
                        ]
                assert names, (category, r)
            sel = [x[name] for n in names for x in rows if x["region"] == n]
            assert sel, (category, name, r)
            if text:
                out.append(sel[0])
            else:
                nums = [float(s) for s in sel if s not in ("", None)]
                out.append(sum(nums) / len(nums) if nums else None)
        return out if text else np.array([np.nan if v is None else v for v in out])

    # ---------------------------------------------------------------- settings

    def get(self, *path):
        d = self.p
        for k in path:
            d = d[k]
        return d

    def flag(self, *path):
        return self.get(*path) in (1, True, "True", "true", "yes")

    def num_or_false(self, *path):
        v = self.get(*path)
        return False if falsy(v) else float(v)

    def q(self, kind, *path, can_be_false=False):
        return quantity(self.get(*path), kind, can_be_false)

    @property
    def gamma(self):
        return self.q("mac", "economics", "MAC", "gamma")

    @property
    def T0(self):
        return self.q("temp", "temperature", "initial")

    @property
    def TCRE(self):
        return self.q("tcre", "temperature", "TCRE")


# ====================================================================== judging


class Judge:
    """collects disagreements:  (class, where, detail)"""

    def __init__(self, truth, values, rtol=1e-6, atol=1e-9):
        self.t = truth
        self.v = values
        self.rtol, self.atol = rtol, atol
        self.out = []
        self.evals = 0
        self.skipped = 0

    def has(self, name):
        return name in self.v

    def a(self, name):
        if name not in self.v:
            raise MissingVariable(name)
        return np.array(self.v[name], dtype=float)

    def same(self, cls, got, want, tol=None, scale=None, mask=None):
        """|got-want| <= rtol*scale + atol + tol  elementwise"""
        got, want = np.broadcast_arrays(np.asarray(got, float), np.asarray(want, float))
        sc = np.maximum(np.abs(got), np.abs(want))
        if scale is not None:
            sc = np.maximum(sc, np.abs(scale))
        lim = self.rtol * sc + self.atol
        if tol is not None:
            lim = lim + tol
        bad = ~(np.abs(got - want) <= lim)
        if mask is not None:
            m = np.broadcast_to(mask, bad.shape)
            self.evals += int(m.sum())
            self.skipped += int((~m).sum())
            bad = bad & m
        else:
            self.evals += bad.size
        if bad.any():
            d = np.where(bad, np.abs(got - want) / (lim + 1e-300), 0)
            i = np.unravel_index(np.nanargmax(np.where(np.isnan(d), np.inf, d)), bad.shape)
            self.report(cls, i, f"got {float(got[i]):.9g}, expected {float(want[i]):.9g} ({int(bad.sum())} of {bad.size} entries)")

    def at_least(self, cls, got, bound, tol=1e-6, mask=None):
        got, bound = np.broadcast_arrays(np.asarray(got, float), np.asarray(bound, float))
        bad = ~(got >= bound - tol * np.maximum(1, np.abs(bound)))
        if mask is not None:
            bad = bad & np.broadcast_to(mask, bad.shape)
            self.evals += int(np.broadcast_to(mask, bad.shape).sum())
        else:
            self.evals += bad.size
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            self.report(cls, i, f"got {float(got[i]):.9g}, limit {float(bound[i]):.9g}")

    def at_most(self, cls, got, bound, tol=1e-6, mask=None):
        self.at_least(cls, -np.asarray(got, float), -np.asarray(bound, float), tol, mask)

    def report(self, cls, idx, detail):
        idx = tuple(int(k) for k in np.atleast_1d(idx))
        where = ""
        if len(idx) >= 1 and idx[0] < len(self.t.years):
            where = f"year {self.t.years[idx[0]]:g}"
        if len(idx) >= 2 and idx[1] < len(self.t.regions):
            where += f" region {self.t.regions[idx[1]]}"
        self.out.append({"class": cls, "where": where, "detail": detail})


class MissingVariable(Exception):
    pass


def _after0(T, R=None):
    m = np.ones((T,) if R is None else (T, R), bool)
    m[0] = False
    return m


def baseline_in_use(j):
    t = j.t
    if t.flag("emissions", "baseline carbon intensity"):
        return t.emis / t.gdp * j.a("GDP_net")
    return t.emis


# ---------------------------------------------------------------- emissions (M01)


def check_emissions(j):
    t = j.t
    E, A, B = j.a("regional_emissions"), j.a("relative_abatement"), j.a("baseline")
    base = baseline_in_use(j)
    T, R = E.shape
    m = _after0(T, R)
    j.same("baseline-definition", B, base)
    j.same("regional-emissions", E, (1 - A) * base, scale=base, mask=m)
    j.same("first-period-emissions", E[0], t.emis[0])
    j.same("emission-reduction", j.a("regional_emission_reduction"), base - E, scale=base)
    G = j.a("global_emissions")
    j.same("global-sum", G, E.sum(axis=1), scale=np.abs(E).sum(axis=1))
    C = j.a("cumulative_emissions")
    dt = t.dt
    if t.flag("emissions", "cumulative_emissions_trapz"):
        inc = dt * (G[1:] + G[:-1]) / 2
    else:
        inc = dt * G[1:]
    want = np.concatenate([[0.0], np.cumsum(inc)])
    j.same("cumulative-emissions", C, want, scale=np.cumsum(np.abs(G)) * dt)
    cb = t.emis
    cumb = np.concatenate([[0.0], np.cumsum(dt * (cb[1:] + cb[:-1]).sum(axis=1) / 2)])
    if j.has("emission_relative_cumulative"):
        rel = j.a("emission_relative_cumulative")
        j.same("relative-cumulative", rel[1:], C[1:] / cumb[1:])
        j.same("relative-cumulative-first", rel[0], 1.0)
    j.at_least("abatement-range", A, 0.0, 1e-6)
    j.at_most("abatement-range", A, 2.5, 1e-6)
    j.at_least("cumulative-nonnegative", C, 0.0, 1e-6)


def check_temperature(j):
    t = j.t
    C = j.a("cumulative_emissions")
    Tm = j.a("temperature")
    j.same("temperature", Tm, t.T0 + t.TCRE * C)
    j.same("initial-temperature", Tm[0], t.T0)
    target = t.q("temp", "temperature", "target", can_be_false=True)
    if target is not False:
        j.at_most("temperature-target", Tm, target, 1e-6, t.years >= 2100)


# ---------------------------------------------------------------- policy limits (M03)


def limits(truth, v, j=None):
    """list of (name, slack array, scale) for every requested limit; slack >= 0 means satisfied"""
    t = truth
    E = np.array(v["regional_emissions"], float)
    G = np.array(v["global_emissions"], float)
    C = np.array(v["cumulative_emissions"], float)
    Tm = np.array(v["temperature"], float)
    A = np.array(v["relative_abatement"], float)
    y = t.years
    out = []
    bud = t.q("emissions", "emissions", "carbonbudget", can_be_false=True)
    late = y >= 2100
    if bud is not False:
        out.append(("carbon-budget", (bud - C)[late]))
        if t.flag("emissions", "not positive after budget year"):
            out.append(("net-zero-after-2100", (-G)[late]))
    tgt = t.q("temp", "temperature", "target", can_be_false=True)
    if tgt is not False:
        out.append(("temperature-target", (tgt - Tm)[late]))
    ig = t.num_or_false("emissions", "inertia", "global")
    if ig is not False:
        out.append(("global-inertia", G[1:] - G[:-1] - t.dt * ig * t.emis[0].sum()))
    ir = t.num_or_false("emissions", "inertia", "regional")
    if ir is not False:
        out.append(("regional-inertia", (E[1:] - E[:-1] - t.dt * ir * t.emis[0]).ravel()))
    gm = t.q("rate", "emissions", "global min level", can_be_false=True)
    if gm is not False:
        out.append(("global-min-level", G - gm))
    rm = t.q("rate", "emissions", "regional min level", can_be_false=True)
    if rm is not False:
        out.append(("regional-min-level", (E - rm).ravel()))
    if t.flag("emissions", "non increasing emissions after 2100"):
        m = y[:-1] > 2100
        if m.any():
            out.append(("non-increasing-after-2100", (E[:-1] - E[1:])[m].ravel()))
    out.append(("cumulative-nonnegative", C))
    out.append(("abatement-range", A.ravel()))
    out.append(("abatement-range", (2.5 - A).ravel()))
    return [(n, s) for n, s in out if s.size]


def documented(t, v):
    """every inequality the documentation mentions, as limits(): a path that meets all of them
    (and the equations) has to be accepted.  None: the path lies where the model is not defined
    or where the documentation leaves the answer open"""
    g = lambda n: np.array(v[n], float)
    for n in ("GDP_net", "GDP_gross", "consumption", "capital_stock", "investments"):
        x = g(n)
        if not np.isfinite(x).all() or (x < 1e-3).any():
            return None
    if not all(np.isfinite(np.array(x, float)).all() for n, x in v.items() if not n.startswith("_")):
        return None
    out = list(limits(t, v))
    R = g("rel_mitigation_costs")
    out.append(("mitigation-costs-minimum", R[1:] - float(t.get("economics", "MAC", "rel_mitigation_costs_min_level"))))
    out.append(("mitigation-costs-minimum", R[0]))
    P = g("carbonprice")
    out += [("carbon-price-range", P), ("carbon-price-range", 2 * t.gamma - P)]
    if "damage_costs_slr" in v:
        D = g("damage_costs_slr")
        out += [("sea-level-damage-range", D + 0.5), ("sea-level-damage-range", 0.7 - D)]
    for n in ("total_SLR", "slr_thermal", "slr_cumgsic", "slr_cumgis"):
        if n in v:
            out.append(("sea-level-not-negative", g(n)))
    C, A, Y = g("mitigation_costs"), g("area_under_MAC"), g("GDP_gross")
    if t.pool:
        out.append(("transfer-at-most-own-damages", g("financial_transfer") + g("damage_costs") * Y))
    if t.get("model", "emissiontrade module") == "globalcostpool":
        lo = t.num_or_false("economics", "emission trade", "min rel payment level")
        hi = t.num_or_false("economics", "emission trade", "max rel payment level")
        if lo is not False:
            out.append(("own-payment-minimum", (C - lo * A)[1:]))
        if hi is not False:
            out.append(("own-payment-maximum", (hi * A - C)[1:]))
    reg = t.get("effort sharing", "regime")
    if reg in ("equal_mitigation_costs", "equal_total_costs"):
        L = g("effort_sharing_common_level")
        m = np.ones(t.T, bool)
        x = R
        if reg == "equal_total_costs":
            x = R + g("damage_costs") + g("rel_financial_transfer")
            m = t.years <= 2100
        if (L[m] < 0).any():
            return None
        out.append(("cost-share-equality", (0.0049 * L[:, None] + 1e-9 - np.abs(x - L[:, None]))[m]))
    elif reg == "per_cap_convergence":
        w = percap_share(t) * g("global_emissions")[:, None]
        out.append(("per-capita-convergence", (0.00099 - np.abs(g("regional_emission_allowances") - w))[1:]))
    return [(n, np.asarray(s, float)) for n, s in out if np.size(s)]


def wrongly_refused(t, v):
    """the path meets every documented limit"""
    d = documented(t, v)
    return d is not None and all(float(np.min(s)) >= -1e-10 for _, s in d)


# ---------------------------------------------------------------- economy (M04)


def check_economy(j):
    t = j.t
    alpha, dk, sr = (
        float(t.get("economics", "GDP", "alpha")),
        float(t.get("economics", "GDP", "depreciation of capital")),
        float(t.get("economics", "GDP", "savings rate")),
    )
    dt = t.dt
    Y, N, K = j.a("GDP_gross"), j.a("GDP_net"), j.a("capital_stock")
    I, C = j.a("investments"), j.a("consumption")
    M, D = j.a("mitigation_costs"), j.a("damage_costs")
    F = j.a("financial_transfer")
    k0 = t.regional("economics", "init_capital_factor")
    # total factor productivity: reproduces baseline GDP on the baseline capital path
    cap = np.empty_like(t.gdp)
    cap[0] = k0 * t.gdp[0]
    dep = ((1 - dk) ** dt - 1) / dt
    for s in range(1, t.T):
        cap[s] = cap[s - 1] + dt * (dep * cap[s - 1] + sr * t.gdp[s - 1])
    tfp = t.gdp / (t.pop ** (1 - alpha) * cap**alpha)
    if j.has("TFP"):
        j.same("tfp-calibration", j.a("TFP"), tfp)
    j.same("gross-gdp-first", Y[0], t.gdp[0])
    ideal = tfp * t.pop ** (1 - alpha) * np.maximum(K, 1e-12) ** alpha
    softened = tfp * t.pop ** (1 - alpha) * np.maximum(soft(K, 10), 1e-12) ** alpha
    j.same("gross-gdp", Y, softened, tol=1.1 * np.abs(ideal - softened), mask=_after0(*Y.shape))
    ignore = t.flag("economics", "damages", "ignore damages")
    j.same("net-gdp", N, Y * (1 - (0 if ignore else D)) - M - F, scale=Y)
    j.same("investments", I, sr * N, scale=N)
    j.same("consumption", C, (1 - sr) * N, scale=N)
    j.same("initial-capital", K[0], k0 * t.gdp[0])
    j.same("capital-accumulation", K[1:], K[:-1] + dt * (dep * K[1:] + I[1:]), scale=K[:-1])


# ---------------------------------------------------------------- mitigation (M05)


def check_mitigation(j):
    t = j.t
    A = j.a("relative_abatement")
    B = baseline_in_use(j)
    C = j.a("cumulative_emissions")
    T, R = A.shape
    kap = t.regional("MAC", t.get("economics", "MAC", "regional calibration factor"))
    beta = float(t.get("economics", "MAC", "beta"))
    gam = t.gamma
    rate = float(t.get("economics", "MAC", "LBD_rate"))
    lot = float(t.get("economics", "MAC", "LOT_rate"))
    scal = t.q("emissions", "economics", "MAC", "LBD_scaling")
    cb = t.emis
    cumb = np.concatenate([[0.0], np.cumsum(t.dt * (cb[1:] + cb[:-1]).sum(axis=1) / 2)])
    x = (cumb - C) / scal + 1.0
    ex = math.log(rate) / math.log(2)
    okx = x > 0.05
    xs = np.where(okx, x, 1.0)
    s = soft(xs)
    j.same("learning-by-doing", j.a("LBD_factor"), s**ex, tol=1.1 * np.abs(s**ex - xs**ex), mask=okx)
    j.same("learning-over-time", j.a("LOT_factor"), 1.0 / (1 + lot) ** np.arange(T))
    L = j.a("LBD_factor") * j.a("LOT_factor")
    j.same("learning-product", j.a("learning_factor"), L)
    f = L[:, None] * kap[None, :] * gam
    Ap = np.maximum(A, 0)
    j.same("carbon-price", j.a("carbonprice"), f * Ap**beta, mask=_after0(T, R))
    j.same("carbon-price-first", j.a("carbonprice")[0], 0.0, tol=1e-7)
    area = f * Ap ** (beta + 1) / (beta + 1) * B
    j.same("abatement-cost", j.a("area_under_MAC"), area)
    bal = j.a("import_export_mitigation_cost_balance")
    M = j.a("mitigation_costs")
    Y = j.a("GDP_gross")
    j.same("mitigation-costs", M, area + bal, scale=np.abs(bal) + np.abs(area))
    j.same("relative-mitigation-costs", j.a("rel_mitigation_costs"), M / Y, scale=M / Y)
    lev = float(t.get("economics", "MAC", "rel_mitigation_costs_min_level"))
    j.at_least("minimum-cost-level", (M / Y)[1:], lev, 1e-6)
    j.at_least("minimum-cost-level-first", (M / Y)[0], 0.0, 1e-6)
    if j.has("global_rel_mitigation_costs"):
        j.same("global-relative-costs", j.a("global_rel_mitigation_costs"), M.sum(1) / Y.sum(1), scale=np.abs(M).sum(1) / Y.sum(1))
    red = (j.a("baseline") - j.a("regional_emissions")).sum(1)
    Ms = M.sum(1)
    for nm, num, den in (
        ("global_emission_reduction_per_cost_unit", red, Ms),
        ("global_cost_per_emission_reduction_unit", Ms, red),
    ):
        if j.has(nm):
            m = (den > 0.02) & _after0(T)
            d = np.where(m, den, 1.0)
            s = soft(d)
            j.same("average-cost-report", j.a(nm), num / s, tol=1.1 * np.abs(num / s - num / d), mask=m)


# ---------------------------------------------------------------- sea level, damages (M06, M07)


def check_sealevel(j):
    t = j.t
    Tm = j.a("temperature")
    th, gs, gi, tot = j.a("slr_thermal"), j.a("slr_cumgsic"), j.a("slr_cumgis"), j.a("total_SLR")
    a, eq, init = 0.024076141150722, 0.5, 0.0920666936642
    d = t.dt / 10
    j.same("thermal-initial", th[0], init + a * (Tm[0] * eq - init))
    j.same("thermal", th[1:], th[:-1] * (1 - a) ** d + Tm[:-1] * a * d * eq)
    j.same("glaciers-initial", gs[0], 0.015)
    j.same("glaciers", gs[1:], gs[:-1] + 0.0008 * t.dt * (0.26 - gs[:-1]) / 0.26 * (Tm[:-1] + 1))
    j.same("greenland-initial", gi[0], 0.006)
    j.same("greenland", gi[1:], gi[:-1] + d / 100 * (1.11860082 * Tm[:-1] + 0.6) * (1 - gi[:-1] / 7.3))
    j.same("sea-level-total", tot, th + gs + gi)


def _damage(form, a, b1, b2, b3, x):
    if "Linear" in form:
        return a * b1 * x / 100, 0
    if "Quadratic" in form:
        return a * (b1 * x + b2 * x * x) / 100, 0
    if "Logistic" in form:
        # the exponent is capped at 10 to avoid overflow: both are accepted near the cap
        z = np.minimum(-b3 * x, 10)
        v = a * (b1 / (1 + b2 * np.exp(z)) - b1 / (1 + b2)) / 100
        return v, 1e-5 * np.abs(a * b1) / 100
    raise AssertionError(form)


def check_damages(j):
    t = j.t
    D = j.a("damage_costs")
    if t.get("model", "damage module") == "nodamage":
        j.same("no-damages", D, 0.0)
        return
    Tm, S = j.a("temperature"), j.a("total_SLR")
    q = t.get("economics", "damages", "quantile")
    adapt = t.flag("economics", "damages", "coacch_slr_withadapt")
    comb = t.flag("economics", "damages", "coacch_combined_slr_nonslr_damages")
    sf = float(t.get("economics", "damages", "scale factor"))
    pre = "Ad" if adapt else "NoAd"
    R = len(t.regions)
    x = Tm - 0.6
    ns = np.zeros_like(D)
    sl = np.zeros_like(D)
    tol_s = np.zeros_like(D)
    if comb:
        b1 = t.regional("COACCH", f"combined_b1_{pre}-q{q}")
        b2 = t.regional("COACCH", f"combined_b2_{pre}-q{q}")
        for k in range(R):
            ns[:, k] = _damage("Quadratic", 1, b1[k], b2[k], 0, x)[0] - _damage("Quadratic", 1, b1[k], b2[k], 0, t.T0 - 0.6)[0]
    else:
        for which, xx, x0, arr in (("NoSLR", x, t.T0 - 0.6, ns), (f"SLR-{pre}", S, S[0], sl)):
            form = t.regional("COACCH", f"{which}_form", text=True)
            b = [t.regional("COACCH", f"{which}_b{i}") for i in (1, 2, 3)]
            a = t.regional("COACCH", f"{which}_a (q={q})")
            for k in range(R):
                v, tol = _damage(form[k], a[k], b[0][k], b[1][k], b[2][k], xx)
                v0, _ = _damage(form[k], a[k], b[0][k], b[1][k], b[2][k], x0)
                arr[:, k] = v - v0
                if which != "NoSLR":
                    tol_s[:, k] = tol
    j.same("temperature-damages", j.a("damage_costs_non_slr"), sf * ns, atol_scale(ns))
    j.same("sea-level-damages", j.a("damage_costs_slr"), sf * sl, tol_s * abs(sf) + 1e-9)
    j.same("total-damages", D, sf * (ns + sl), tol_s * abs(sf) + 1e-9)
    for age in ("oldest", "older", "young"):
        nm = f"mortality_{age}"
        if j.has(nm):
            A, B, C = (t.regional("mortality", f"{age}_{c}") for c in "abc")
            j.same("heat-mortality", j.a(nm), A + B * Tm[:, None] + C * Tm[:, None] ** 2, scale=np.abs(B * Tm[:, None]) + np.abs(A))
    if j.has("mortality_cost_oldest"):
        j.same("mortality-cost", j.a("mortality_cost_oldest"), j.a("mortality_oldest") * t.pop * 1e4 * 1.3)


def atol_scale(x):
    return 1e-9


# ---------------------------------------------------------------- trade and transfers (M08)


def check_trade(j):
    t = j.t
    bal = j.a("import_export_mitigation_cost_balance")
    red_bal = j.a("import_export_emission_reduction_balance")
    kind = t.get("model", "emissiontrade module")
    T, R = bal.shape
    if kind == "notrade":
        j.same("no-trade-money", bal, 0.0)
        j.same("no-trade-emissions", red_bal, 0.0)
    else:
        j.same("trade-money-zero-sum", bal.sum(1), 0.0, scale=np.abs(bal).sum(1) + (np.abs(j.a("mitigation_costs")).sum(1) if kind == "globalcostpool" else 0))
        rr = j.a("baseline") - j.a("regional_emissions")
        if kind == "globalcostpool":
            check_cost_pool(j, red_bal, rr)
        else:
            P = j.a("carbonprice")
            gp = (P * t.pop).sum(1) / t.pop.sum(1)
            j.same("global-carbon-price", j.a("global_carbonprice"), gp)
            m = _after0(T) & (gp > 0.01)
            d = np.where(m, gp, 1.0)
            s = soft(d)
            w = bal / s[:, None]
            j.same("trade-emissions-at-global-price", red_bal, w, tol=1.1 * np.abs(w - bal / d[:, None]), mask=m[:, None])
            paid = j.a("paid_for_emission_reductions")
            j.same("paid-reductions", paid, rr + red_bal, scale=np.abs(rr) + np.abs(red_bal), mask=_after0(T, R))
            j.same("allowances", j.a("regional_emission_allowances"), j.a("baseline") - paid, scale=j.a("baseline"), mask=_after0(T, R))
    F, rF = j.a("financial_transfer"), j.a("rel_financial_transfer")
    Y, D = j.a("GDP_gross"), j.a("damage_costs")
    if t.get("model", "financialtransfer module") == "notransfer":
        j.same("no-transfer", F, 0.0)
        j.same("no-transfer-relative", rF, 0.0)
    else:
        j.same("transfer-zero-sum", F.sum(1), 0.0, scale=np.abs(F).sum(1), tol=2e-8)
        j.same("transfer-first-period", F[0], 0.0)
        j.at_least("transfer-at-most-own-damages", F, -D * Y, 1e-6)
        j.same("transfer-relative", rF * Y, F, tol=1e-7)


def check_cost_pool(j, red_bal, rr):
    """every region pays into one pool; what it pays for is its share of the pool"""
    t = j.t
    T, R = rr.shape
    C, A = j.a("mitigation_costs"), j.a("area_under_MAC")
    total = C.sum(1)
    m = _after0(T) & (total > 0.01)
    d = np.where(m, total, 1.0)
    w = C * (rr.sum(1) / soft(d))[:, None]
    paid = j.a("paid_for_emission_reductions")
    j.same("paid-reductions", paid, w, tol=1.1 * np.abs(w - C * (rr.sum(1) / d)[:, None]), scale=np.abs(rr).sum(1)[:, None], mask=m[:, None])
    j.same("paid-minus-own-reductions", red_bal, paid - rr, scale=np.abs(rr) + np.abs(paid), mask=_after0(T, R))
    lo = t.num_or_false("economics", "emission trade", "min rel payment level")
    hi = t.num_or_false("economics", "emission trade", "max rel payment level")
    if lo is not False:
        j.at_least("own-payment-minimum", C[1:], lo * A[1:], 1e-6)
    if hi is not False:
        j.at_least("own-payment-maximum", hi * A[1:], C[1:], 1e-6)


def percap_share(t):
    y = t.years
    yc = t.num_or_false("effort sharing", "percapconv_year")
    e0 = t.emis[0] / t.emis[0].sum()
    pp = t.pop / t.pop.sum(1, keepdims=True)
    if yc is False:
        return np.broadcast_to(e0, pp.shape).copy()
    if yc <= y[0]:
        return pp
    w = (y - y[0]) / (yc - y[0])
    return np.minimum(w, 1)[:, None] * pp + np.maximum(1 - w, 0)[:, None] * e0


def check_effort(j):
    t = j.t
    reg = t.get("effort sharing", "regime")
    if reg in ("equal_mitigation_costs", "equal_total_costs"):
        x = j.a("mitigation_costs") / j.a("GDP_gross")
        m = np.ones(t.T, bool)
        if reg == "equal_total_costs":
            x = x + j.a("damage_costs") + j.a("financial_transfer") / j.a("GDP_gross")
            m = t.years <= 2100
        L = j.a("effort_sharing_common_level")
        tol = 0.00503 * np.abs(L) + 1e-7
        bad = (np.abs(x - L[:, None]) > tol[:, None]) & m[:, None]
        j.evals += int(bad.size)
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            j.report("cost-share-equality", i, f"regional share {x[i]:.9g}, common level {L[i[0]]:.9g}")
    elif reg == "per_cap_convergence":
        al = j.a("regional_emission_allowances")
        G = j.a("global_emissions")
        w = percap_share(t) * G[:, None]
        bad = np.abs(al - w) > 0.001 + 1e-6
        bad[0] = False
        j.evals += int(bad.size)
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            j.report("per-capita-convergence", i, f"allowance {al[i]:.9g}, share of global emissions {w[i]:.9g}")


# ---------------------------------------------------------------- welfare (M10)


def check_welfare(j):
    t = j.t
    ob = getattr(j, "objective", None)
    if ob is not None:
        j.evals += 1
        want_min = t.get("model", "objective module") != "utility"
        V = j.a("NPV")
        if len(ob) != 1:
            j.report("objective", (), f"{len(ob)} active objectives")
        else:
            is_min, val = ob[0]
            if val is None or not abs(val - (V[-1] if is_min == want_min else -V[-1])) <= 1e-6 * max(1.0, abs(V[-1])):
                j.report("objective", (), f"{'minimised' if is_min else 'maximised'} quantity is {val}, final discounted total is {V[-1]:.9g}, which has to be {'minimised' if want_min else 'maximised'}")
        if j.sense is not None and (j.sense == 0) != ob[0][0]:
            j.report("objective-direction", (), "the solver was given the opposite direction")
    el = float(t.get("economics", "elasmu"))
    C, L = j.a("consumption"), t.pop
    mod = t.get("model", "welfare module")

    def band(f, x):
        a, b = f(np.maximum(soft(x), 1e-9)), f(np.maximum(x, 1e-9))
        return a, 1.1 * np.abs(a - b)

    u = lambda z: (z ** (1 - el) - 1) / (1 - el)
    W = j.a("yearly_welfare")
    # nothing is said about an economy that consumes less than nothing
    real = C / L > 1e-3
    alls = real.all(1)
    if mod == "welfare_loss_minimising":
        a, tol = band(u, C / L)
        j.same("utility", j.a("utility"), a, tol, mask=real)
        j.same("yearly-welfare", W, (L * j.a("utility")).sum(1), scale=(L * np.abs(a)).sum(1), mask=alls)
    elif mod == "cost_minimising":
        j.same("utility", j.a("utility"), C / L)
        a, tol = band(u, C.sum(1) / L.sum(1))
        j.same("yearly-welfare", W, L.sum(1) * a, L.sum(1) * tol, mask=alls)
    else:
        ia = float(t.get("economics", "inequal_aversion"))
        a, tol = band(lambda z: z ** (1 - ia), C / L)
        j.same("utility", j.a("utility"), L * a, L * tol, mask=real)
        a, tol = band(lambda z: z ** ((1 - el) / (1 - ia)) / (1 - el), j.a("utility").sum(1) / L.sum(1))
        j.same("yearly-welfare", W, L.sum(1) * a, L.sum(1) * tol, mask=alls)
    prtp = float(t.get("economics", "PRTP"))
    V = j.a("NPV")
    disc = np.exp(-prtp * (t.years - t.start))
    if t.get("model", "objective module") == "utility":
        flow = W
    else:
        flow = j.a("mitigation_costs").sum(1) + (j.a("damage_costs") * j.a("GDP_gross")).sum(1)
    inc = t.dt * disc[1:] * flow[1:]
    j.same("net-present-value", V, np.concatenate([[0.0], np.cumsum(inc)]), scale=np.concatenate([[0.0], np.cumsum(np.abs(inc))]))


# ---------------------------------------------------------------- baselines (M11)


def check_baseline(j):
    t = j.t
    j.same("population", j.a("population"), t.pop, scale=t.pop)
    j.same("baseline-gdp", j.a("baseline_GDP"), t.gdp, scale=t.gdp)
    j.same("baseline-emissions", j.a("baseline_emissions"), t.emis, scale=np.abs(t.emis))
    if j.has("baseline_carbon_intensity"):
        j.same("carbon-intensity", j.a("baseline_carbon_intensity"), t.emis / t.gdp)
    if j.has("cumulative_baseline_emissions"):
        cb = t.emis
        cum = np.vstack([np.zeros(cb.shape[1]), np.cumsum(t.dt * (cb[1:] + cb[:-1]) / 2, axis=0)])
        j.same("cumulative-baseline", j.a("cumulative_baseline_emissions"), cum, scale=np.abs(cum))
        if j.has("cumulative_global_baseline_emissions"):
            j.same("cumulative-baseline", j.a("cumulative_global_baseline_emissions"), cum.sum(axis=1), scale=np.abs(cum).sum(axis=1))
