"""The simulated optimiser.

MIMOSA hands a non-linear program to an external optimiser, which answers with
*some* point.  Which one is not under MIMOSA's control.  Here it is under the
simulator's control: a plan (pure data, derived from the run's seed) fixes the
policy choices, the optimiser completes them to a full point that satisfies
every equation present in the problem it was given, fills everything the
equations leave undetermined with adversarial values, and reports honestly
whether the point satisfies all inequalities and bounds.
"""
import math
import random

import numpy as np
from scipy.sparse import csr_matrix
from scipy.sparse.csgraph import maximum_bipartite_matching

CONTROLS = (
    "relative_abatement",
    "import_export_mitigation_cost_balance",
    "financial_transfer",
    "effort_sharing_common_level",
)

FEAS_TOL = 1e-8


def split_name(name):
    """'x[3,CAN]' -> ('x', 3, 'CAN');  'x[3]' -> ('x', 3, None)"""
    i = name.find("[")
    if i < 0:
        return name, None, None
    base, idx = name[:i], name[i + 1 : -1].strip("'")
    parts = idx.split(",", 1)
    try:
        t = int(parts[0])
    except ValueError:
        return base, None, idx
    return base, t, (parts[1].strip("'") if len(parts) > 1 else None)


class LinearTarget:
    """an extra equation  sum(c * x) = rhs  requested by the plan"""

    name = "target"

    def __init__(self, lin, rhs):
        self.lin = tuple(lin)
        self.lb = self.ub = rhs
        self.vars = sorted({i for i, _ in self.lin})

    def value(self, x):
        return sum(c * x[i] for i, c in self.lin)

    def value_grad(self, x):
        g = {}
        for i, c in self.lin:
            g[i] = g.get(i, 0.0) + c
        return self.value(x), g

    def scale(self, x):
        return max([abs(self.lb)] + [abs(c * x[i]) for i, c in self.lin])


class Point:
    __slots__ = ("x", "feasible", "violations", "objective", "free", "worst")


def merit(pt):
    return sum(v for _, v in pt.violations)


class Optimiser:
    def __init__(self, problem, seed):
        self.P = problem
        self._eqnames = {c.name for c in problem.cons if c.lb == c.ub}
        self.rng = random.Random(seed)
        self.index = {nm: i for i, nm in enumerate(problem.names)}
        self.split = [split_name(nm) for nm in problem.names]
        self.is_control = [s[0] in CONTROLS for s in self.split]
        # payments add up to zero: one region's follows from the others'
        last = {}
        for j, (b, s, r) in enumerate(self.split):
            if b in CONTROLS[1:3]:
                last[b, s] = j
        self.chosen = list(self.is_control)
        for j in last.values():
            self.chosen[j] = False
        self.fixed = [
            lo == hi for lo, hi in zip(problem.lb, problem.ub)
        ]
        self._structures = {}

    # ------------------------------------------------------------ structure

    def _structure(self, targets):
        key = tuple(t.lin for t in targets)
        if key in self._structures:
            return self._structures[key]
        P = self.P
        rows = [c for c in P.cons if c.lb == c.ub]
        nreal = len(rows)
        rows = rows + list(targets)
        match_row = [-1] * len(rows)
        match_col = [-1] * P.n
        # phase 1: real equations against non-control columns
        if nreal:
            ii, jj = [], []
            for i in range(nreal):
                for j in rows[i].vars:
                    if not self.chosen[j] and not self.fixed[j]:
                        ii.append(i)
                        jj.append(j)
            A = csr_matrix((np.ones(len(ii)), (ii, jj)), shape=(nreal, P.n))
            mm = maximum_bipartite_matching(A, perm_type="column")
            for i in range(nreal):
                if mm[i] >= 0:
                    match_row[i] = int(mm[i])
                    match_col[int(mm[i])] = i
        # phase 2: remaining rows may use control columns (later periods' controls last)
        for i in range(len(rows)):
            if match_row[i] < 0:
                self._augment(rows, match_row, match_col, i)
        blocks = self._blocks(rows, match_row, match_col)
        unmatched_rows = [i for i in range(len(rows)) if match_row[i] < 0]
        st = (rows, nreal, match_row, match_col, blocks, unmatched_rows)
        self._structures[key] = st
        return st

    def _augment(self, rows, match_row, match_col, start):
        parent = {}
        stack = [start]
        seen_rows = {start}
        while stack:
            i = stack.pop()
            cols = [j for j in rows[i].vars if not self.fixed[j] and j not in parent]
            # try free columns first
            for j in cols:
                if match_col[j] < 0:
                    parent[j] = i
                    # flip
                    while True:
                        i2 = parent[j]
                        nxt = match_row[i2]
                        match_row[i2] = j
                        match_col[j] = i2
                        if i2 == start:
                            return True
                        j = nxt
            for j in cols:
                parent[j] = i
                k = match_col[j]
                if k not in seen_rows:
                    seen_rows.add(k)
                    stack.append(k)
        return False

    def _blocks(self, rows, match_row, match_col):
        """strongly connected components, dependencies first (iterative Tarjan)"""
        n = len(rows)
        adj = []
        for i in range(n):
            if match_row[i] < 0:
                adj.append(())
                continue
            adj.append(
                tuple(
                    match_col[j]
                    for j in rows[i].vars
                    if match_col[j] >= 0 and match_col[j] != i
                )
            )
        index = [None] * n
        low = [0] * n
        on = [False] * n
        st = []
        out = []
        cnt = 0
        for root in range(n):
            if index[root] is not None or match_row[root] < 0:
                continue
            work = [(root, 0)]
            while work:
                v, pi = work[-1]
                if pi == 0:
                    index[v] = low[v] = cnt
                    cnt += 1
                    st.append(v)
                    on[v] = True
                advanced = False
                a = adj[v]
                while pi < len(a):
                    w = a[pi]
                    pi += 1
                    if index[w] is None:
                        work[-1] = (v, pi)
                        work.append((w, 0))
                        advanced = True
                        break
                    if on[w]:
                        low[v] = min(low[v], index[w])
                if advanced:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on[w] = False
                        comp.append(w)
                        if w == v:
                            break
                    out.append(sorted(comp))
        return out

    # ------------------------------------------------------------ solving

    def complete(self, values, targets=(), wild=0.3, base=None):
        """values: {column index: value} for controls; everything else is solved for"""
        P = self.P
        rows, nreal, match_row, match_col, blocks, unmatched = self._structure(targets)
        x = self.neutral() if base is None else list(base)
        for j in range(P.n):
            if self.fixed[j]:
                x[j] = P.lb[j]
        free = []
        for j in range(P.n):
            if self.fixed[j]:
                continue
            if j in values:
                x[j] = values[j]
                if match_col[j] < 0:
                    continue
            if match_col[j] < 0 and j not in values:
                free.append(j)
                u = self.rng.uniform(-1, 1)
                v = x[j] + wild * u * (abs(x[j]) + 0.1)
                lo, hi = P.lb[j], P.ub[j]
                if v < lo:
                    v = lo
                if v > hi:
                    v = hi
                x[j] = v
        ok = True
        for b in blocks:
            rs, cols = [rows[i] for i in b], [match_row[i] for i in b]
            good = False
            for fill in (None, 10.0, 0.1, 0.01, 100.0, -1.0, "x0") if len(b) == 1 else (None, 10.0, 0.1, "x0"):
                if fill is not None:
                    for j in cols:
                        x[j] = P.x0[j] if fill == "x0" else min(max(fill, P.lb[j]), P.ub[j])
                good = self._scalar(rs[0], cols[0], x) if len(b) == 1 else self._block(rs, cols, x)
                if good:
                    break
            if not good:
                # what follows would only be computed from a wrong value
                ok = False
                break
        in_eq = set()
        for r in rows:
            in_eq.update(r.vars)
        for j in free:
            if j not in in_eq:
                self._interval(j, x)
        pt = Point()
        pt.x = x
        pt.free = free
        pt.violations = self._violations(rows, nreal, x) if ok else [("incomplete", math.inf)]
        pt.feasible = not pt.violations
        pt.worst = max([v for _, v in pt.violations], default=0.0)
        try:
            pt.objective = P.objective.value(x) if P.objective is not None else 0.0
        except (ValueError, ZeroDivisionError, OverflowError):
            pt.objective = math.nan
        return pt

    def neutral(self):
        """a starting point that does not depend on what the caller suggests"""
        out = []
        for lo, hi in zip(self.P.lb, self.P.ub):
            if math.isfinite(lo) and math.isfinite(hi):
                out.append(0.5 * (lo + hi))
            else:
                out.append(min(max(1.0, lo), hi))
        return out

    def _interval(self, j, x):
        P = self.P
        lo, hi = P.lb[j], P.ub[j]
        for c in P.cons:
            if j in c.vars and c.lb != c.ub:
                x[j] = 0.0
                v0 = c.value(x)
                x[j] = 1.0
                k = c.value(x) - v0
                if k == 0:
                    continue
                for b, is_ub in ((c.ub, True), (c.lb, False)):
                    if b is None or math.isinf(b):
                        continue
                    q = (b - v0) / k
                    if is_ub == (k > 0):
                        hi = min(hi, q)
                    else:
                        lo = max(lo, q)
        if math.isinf(lo) and math.isinf(hi):
            x[j] = self.rng.uniform(-1, 1)
        elif math.isinf(lo):
            x[j] = hi
        elif math.isinf(hi):
            x[j] = lo
        else:
            x[j] = 0.5 * (lo + hi)

    @staticmethod
    def _ev(row, x):
        try:
            v, g = row.value_grad(x)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            return None
        v -= row.lb
        if v != v or math.isinf(v):
            return None
        return v, g

    def _scalar(self, row, j, x):
        best = None
        for _ in range(60):
            e = self._ev(row, x)
            if e is None:
                x[j] = x[j] * 0.5 + 0.5 * (abs(x[j]) + 1.0)
                continue
            v, g = e
            if v == 0.0:
                return True
            d = g.get(j, 0.0)
            if d == 0.0 or d != d:
                if abs(v) <= 1e-13 * max(1.0, row.scale(x)):
                    return True
                x[j] += 1e-3 * (abs(x[j]) + 1.0)
                continue
            step = -v / d
            new = x[j] + step
            old = x[j]
            lam = 1.0
            while True:
                x[j] = old + lam * step
                e2 = self._ev(row, x)
                if e2 is not None and (abs(e2[0]) < abs(v) or abs(v) < 1e-13 * max(1e-30, row.scale(x))):
                    break
                lam *= 0.5
                if lam < 1e-8:
                    x[j] = old
                    return abs(v) <= 1e-10 * max(1e-6, row.scale(x))
            if abs(x[j] - old) <= 1e-15 * max(1e-300, abs(x[j])):
                return True
            best = v
        return best is not None and abs(best) <= 1e-10 * max(1e-6, row.scale(x))

    def _block(self, rows, cols, x):
        n = len(rows)
        pos = {j: k for k, j in enumerate(cols)}

        def evaluate():
            F = np.empty(n)
            J = np.zeros((n, n))
            for i, r in enumerate(rows):
                e = self._ev(r, x)
                if e is None:
                    return None
                F[i] = e[0]
                for j, d in e[1].items():
                    k = pos.get(j)
                    if k is not None:
                        J[i, k] += d
            if not np.all(np.isfinite(J)):
                return None
            return F, J

        cur = evaluate()
        tries = 0
        while cur is None and tries < 8:
            for j in cols:
                x[j] = abs(x[j]) * 0.7 + 0.1
            cur = evaluate()
            tries += 1
        if cur is None:
            return False
        for it in range(40):
            F, J = cur
            rs = np.maximum(np.abs(J).max(axis=1), 1e-12)
            Fs = F / rs
            nrm = np.abs(Fs).max()
            if nrm == 0:
                return True
            try:
                d = np.linalg.solve(J / rs[:, None], -Fs)
            except np.linalg.LinAlgError:
                d = np.linalg.lstsq(J / rs[:, None], -Fs, rcond=None)[0]
            old = [x[j] for j in cols]
            lam = 1.0
            accepted = False
            while lam > 1e-4:
                for j, o, dj in zip(cols, old, d):
                    x[j] = o + lam * float(dj)
                nxt = evaluate()
                if nxt is not None:
                    nn = np.abs(nxt[0] / rs).max()
                    if nn < nrm * (1 - 1e-4 * lam) or nn <= 1e-15:
                        accepted = True
                        break
                lam *= 0.5
            if not accepted:
                for j, o in zip(cols, old):
                    x[j] = o
                return nrm < 1e-9
            cur = nxt
            step = max(abs(lam * float(dj)) / (abs(o) + 1e-3) for o, dj in zip(old, d))
            if step < 1e-14:
                return True
        return nrm < 1e-9

    def _violations(self, rows, nreal, x):
        P = self.P
        out = []
        for k, r in enumerate(rows):
            e = self._ev(r, x)
            if e is None:
                out.append((r.name, math.inf))
                continue
            if abs(e[0]) > FEAS_TOL * max(1.0, r.scale(x)):
                out.append((r.name, abs(e[0])))
        for c in P.cons:
            if c.lb == c.ub:
                continue
            try:
                v = c.value(x)
            except (ValueError, ZeroDivisionError, OverflowError):
                out.append((c.name, math.inf))
                continue
            # the absolute tolerance of ipopt (1e-8)
            if v < c.lb - FEAS_TOL or v > c.ub + FEAS_TOL or v != v:
                out.append((c.name, max(c.lb - v, v - c.ub)))
        for j in range(P.n):
            if x[j] < P.lb[j] - FEAS_TOL or x[j] > P.ub[j] + FEAS_TOL or x[j] != x[j]:
                out.append((f"bound {P.names[j]}", max(P.lb[j] - x[j], x[j] - P.ub[j])))
        return out

    # ------------------------------------------------------------ plans

    def regions(self):
        out = []
        for b, t, r in self.split:
            if r is not None and r not in out:
                out.append(r)
        return out

    def run_plan(self, plan):
        """plan: see workload.py; returns a Point"""
        values = {}
        targets = []
        ab = plan.get("abatement", {})
        for j, (b, t, r) in enumerate(self.split):
            if t is None:
                continue
            if b == "relative_abatement" and t is not None:
                values[j] = abatement(ab, t, r)
            elif b in CONTROLS and b != "effort_sharing_common_level":
                values[j] = 0.0
            elif b == "effort_sharing_common_level":
                # if nothing but inequalities mentions it, an interval is computed
                pass
        for tg in plan.get("targets", ()):
            targets += self._expand_target(tg)
        pt = self.complete(values, targets, plan.get("wild", 0.3))
        second = False
        tr = plan.get("trade")
        if tr:
            second |= self._trade(tr, pt, values)
        pool = plan.get("pool")
        if pool:
            second |= self._pool(pool, pt, values)
        if second:
            pt = self.complete(values, targets, plan.get("wild", 0.3))
        if not pt.feasible and plan.get("restore", True):
            pt = self.restore(pt, values, plan)
        return pt

    def restore(self, pt, values, plan):
        """feasibility restoration: sequential linear programming on the policy choices.

        Each round linearises every equation and limit, asks for the smallest
        change of the policy choices that meets them with a margin, and completes
        the corrected choices to a full point again."""
        wild = plan.get("wild", 0.3)
        for mild in (0, 1):
            if not self._broken(pt):
                break
            vals = {}
            for j in values:
                ab = self.split[j][0] == "relative_abatement"
                vals[j] = values[j] * (0.5 if mild else 1.0) if ab else 0.0
            pt = self.complete(vals, (), wild if not mild else 0.0)
        best = pt
        radius = 0.25
        for it in range(plan.get("rounds", 9)):
            if best.feasible or self._broken(best):
                break
            step = self._correction(best, radius, margin=[1e-3, 1e-4, 1e-5][it] if it < 3 else 1e-6)
            if step is None:
                break
            new = None
            lam = 1.0
            for _ in range(4):
                vals = {j: best.x[j] + lam * step[j] for j in range(self.P.n) if self.is_control[j] and not self.fixed[j]}
                new = self.complete(vals, (), 0.0, base=best.x)
                if new.feasible or (not self._broken(new) and merit(new) < merit(best) * (1 - 0.05 * lam)):
                    break
                new = None
                lam *= 0.35
                radius *= 0.6
            if new is None:
                break
            best = new
        return best

    def mentioned(self, names):
        """the variables in the named rows and bounds"""
        out = set()
        for c in self.P.cons:
            if c.name in names:
                out.update(self.split[j][0] for j in c.vars)
        out.update(split_name(n[6:])[0] for n in names if n.startswith("bound "))
        return sorted(out)

    def _broken(self, pt):
        """the equations themselves could not be completed"""
        if not math.isfinite(pt.worst):
            return True
        eq = self._eqnames
        return any(n == "target" or (n in eq and v > 1e-6) for n, v in pt.violations)

    def _correction(self, pt, radius, margin):
        from scipy.optimize import linprog
        from scipy.sparse import coo_matrix

        P, x = self.P, pt.x
        n = P.n
        ctrl = [j for j in range(n) if self.is_control[j] and not self.fixed[j]]
        nc = len(ctrl)
        eq_i, eq_j, eq_v, eq_b = [], [], [], []
        in_i, in_j, in_v, in_b, mar = [], [], [], [], []

        def limit(terms, rhs, m):
            r = len(in_b)
            for j, d in terms:
                in_i.append(r)
                in_j.append(j)
                in_v.append(d)
            in_b.append(rhs - m)
            mar.append(m)

        for c in P.cons:
            try:
                v, g = c.value_grad(x)
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                return None
            if not math.isfinite(v) or not all(math.isfinite(d) for d in g.values()):
                return None
            g = {j: d for j, d in g.items() if not self.fixed[j]}
            s = max([abs(d) for d in g.values()] + [0.0])
            if s < 1e-11:
                continue
            if c.lb == c.ub:
                r = len(eq_b)
                for j, d in g.items():
                    eq_i.append(r)
                    eq_j.append(j)
                    eq_v.append(d / s)
                eq_b.append((c.lb - v) / s)
                continue
            width = (c.ub - c.lb) if math.isfinite(c.ub) and math.isfinite(c.lb) else math.inf
            m = min(margin * max(1e-3, min(1.0, s)), 0.1 * width)
            if math.isfinite(c.ub):
                limit([(j, d / s) for j, d in g.items()], (c.ub - v) / s, m / s)
            if math.isfinite(c.lb):
                limit([(j, -d / s) for j, d in g.items()], (v - c.lb) / s, m / s)
        bounds = []
        for j in range(n):
            if self.fixed[j]:
                bounds.append((0.0, 0.0))
                continue
            rad = None
            if self.is_control[j]:
                rad = radius * max(1.0 if self.split[j][0] == "relative_abatement" else 0.05, 0.7 * abs(x[j]))
            bounds.append((-rad, rad) if rad is not None else (None, None))
            if math.isfinite(P.lb[j]) and (rad is None or x[j] - rad < P.lb[j]):
                limit([(j, -1.0)], x[j] - P.lb[j], min(1e-7, margin))
            if math.isfinite(P.ub[j]) and (rad is None or x[j] + rad > P.ub[j]):
                limit([(j, 1.0)], P.ub[j] - x[j], min(1e-7, margin))
        # columns: change d (n), |d| of choices (nc), use of margin (ni), violation (ni)
        ni = len(in_b)
        N = n + nc + 2 * ni
        for r in range(ni):
            in_i += [r, r]
            in_j += [n + nc + r, n + nc + ni + r]
            in_v += [-1.0, -1.0]
        r = ni
        for k, j in enumerate(ctrl):
            for sg in (1.0, -1.0):
                in_i += [r, r]
                in_j += [j, n + k]
                in_v += [sg, -1.0]
                in_b.append(0.0)
                r += 1
        cost = np.zeros(N)
        for k, j in enumerate(ctrl):
            cost[n + k] = {"relative_abatement": 1.0, "effort_sharing_common_level": 1e-3}.get(self.split[j][0], 0.3)
        cost[n + nc : n + nc + ni] = 30.0
        cost[n + nc + ni :] = 1e4
        bounds += [(0, None)] * nc + [(0, m) for m in mar] + [(0, None)] * ni
        try:
            res = linprog(
                cost,
                A_ub=coo_matrix((in_v, (in_i, in_j)), shape=(len(in_b), N)).tocsr(),
                b_ub=in_b,
                A_eq=coo_matrix((eq_v, (eq_i, eq_j)), shape=(len(eq_b), N)).tocsr() if eq_b else None,
                b_eq=eq_b or None,
                bounds=bounds,
                method="highs-ds",
                options={"presolve": True, "maxiter": 4000, "primal_feasibility_tolerance": 1e-10, "dual_feasibility_tolerance": 1e-9},
            )
        except ValueError:
            return None
        if res.x is None:
            return None
        return [float(v) if abs(v) > 1e-12 else 0.0 for v in res.x[:n]]

    def _by_time(self, base):
        out = {}
        for j, (b, t, r) in enumerate(self.split):
            if b == base:
                out.setdefault(t, {})[r] = j
        return out

    def _trade(self, tr, pt, values):
        bal = self._by_time("import_export_mitigation_cost_balance")
        area = self._by_time("area_under_MAC")
        done = False
        for t, cols in bal.items():
            if t not in area:
                continue
            m = min(pt.x[j] for j in area[t].values())
            if m <= 0:
                continue
            if "give" in tr:
                # sellers pass on a share of their own costs, buyers take up to a multiple of theirs
                A = {r: pt.x[area[t][r]] for r in cols}
                give = {r: tr["give"].get(r, 0.0) * A[r] for r in cols}
                room = {r: tr["take"].get(r, 0.0) * A[r] for r in cols if not give[r]}
                sold, cap = sum(give.values()), sum(room.values())
                if sold <= 0 or cap <= 0:
                    continue
                k = min(1.0, cap / sold)
                for r, j in cols.items():
                    values[j] = -give[r] * k if give[r] else room[r] * min(1.0, sold / cap)
                    done = True
                continue
            w = {r: tr["weights"].get(r, 0.0) for r in cols}
            mean = sum(w.values()) / len(w)
            for r, j in cols.items():
                values[j] = tr["scale"] * (w[r] - mean) * m
                done = True
        return done

    def _pool(self, pool, pt, values):
        ft = self._by_time("financial_transfer")
        dm = self._by_time("damage_costs")
        gg = self._by_time("GDP_gross")
        done = False
        for t, cols in ft.items():
            if t not in dm or t not in gg:
                continue
            D = {}
            for r in cols:
                if r not in dm[t] or r not in gg[t]:
                    break
                D[r] = pt.x[dm[t][r]] * pt.x[gg[t][r]]
            if len(D) != len(cols):
                continue
            tot = sum(D.values())
            if tot <= 0:
                continue
            w = {r: pool["weights"].get(r, 0.0) for r in cols}
            sw = sum(w.values()) or 1.0
            for r, j in cols.items():
                values[j] = pool["scale"] * (-D[r] + w[r] / sw * tot)
                done = True
        return done

    def _expand_target(self, tg):
        """tg: {"kind": "fix", "var":.., "values": {t: v | {r: v}}} or
        {"kind": "equal", "vars": [...], "level": {...}} or {"kind": "percap", "share": {...}}"""
        out = []
        if tg["kind"] == "fix":
            for t, cols in sorted(self._by_time(tg["var"]).items()):
                for r, j in cols.items():
                    v = tg["values"].get(str(t))
                    if isinstance(v, dict):
                        v = v.get(r)
                    if v is not None and not self.fixed[j]:
                        out.append(LinearTarget([(j, 1.0)], v))
        elif tg["kind"] == "equal":
            maps = [self._by_time(v) for v in tg["vars"]]
            for t in sorted(maps[0]):
                lev = tg["level"].get(str(t))
                if lev is None:
                    continue
                for r in maps[0][t]:
                    js = [mp.get(t, {}).get(r) for mp in maps]
                    lin = [(j, 1.0) for j in js if j is not None]
                    out.append(LinearTarget(lin, lev * tg.get("skew", {}).get(r, 1.0)))
        elif tg["kind"] == "percap":
            al = self._by_time("regional_emission_allowances")
            ge = self._by_time("global_emissions")
            for t in sorted(al):
                if t == 0 or t not in ge:
                    continue
                regs = list(al[t])
                for r in regs[:-1]:
                    s = tg["share"][str(t)][r]
                    out.append(
                        LinearTarget([(al[t][r], 1.0), (list(ge[t].values())[0], -s)], tg.get("offset", {}).get(r, 0.0))
                    )
        return out


def abatement(spec, t, r):
    """a policy path: pure function of the plan"""
    if t == 0:
        return 0.0
    kind = spec.get("kind", "ramp")
    if kind == "table":
        row = spec["values"].get(str(t), {})
        if isinstance(row, dict):
            return row.get(r, spec.get("default", 0.0))
        return row
    top, speed, pw = spec["top"], spec["speed"], spec.get("power", 1.0)
    mult = spec.get("regions", {}).get(r, 1.0)
    a = top * mult * min(1.0, (t * speed)) ** pw
    late = spec.get("late", 0.0)
    if late:
        a += late * t
    noise = spec.get("noise", 0.0)
    if noise:
        h = random.Random(f"{spec.get('seed', 0)}/{t}/{r}").uniform(-1, 1)
        a += noise * h
    return max(0.0, a)
