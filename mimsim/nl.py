"""Reader and evaluator for the AMPL .nl text files that cross the solver seam.

The simulated optimiser sees exactly what a real optimiser would see: the bytes
of the .nl file (plus the .col file with the variable names).  Constraints are
grouped by expression structure; one Python function with reverse-mode
derivatives is generated per structure.
"""
import math

_UN = {
    16: "neg", 15: "abs", 49: "atan", 44: "exp", 43: "log", 39: "sqrt",
    42: "log10", 46: "cos", 41: "sin", 38: "tan", 37: "tanh",
}
_BIN = {0: "+", 1: "-", 2: "*", 3: "/", 5: "^"}


class NLError(Exception):
    pass


class _Lines:
    def __init__(self, text):
        self.lines = text.split("\n")
        self.i = 0

    def next(self):
        line = self.lines[self.i]
        self.i += 1
        h = line.find("#")
        if h >= 0:
            line = line[:h]
        return line.strip()

    def more(self):
        while self.i < len(self.lines) and not self.lines[self.i].strip():
            self.i += 1
        return self.i < len(self.lines)


def _read_expr(L, defined):
    s = L.next()
    c = s[0]
    if c == "v":
        k = int(s[1:])
        if k in defined:
            return defined[k]
        return ("v", k)
    if c == "n":
        return ("n", float(s[1:]))
    if c == "o":
        op = int(s[1:])
        if op in _BIN:
            a = _read_expr(L, defined)
            b = _read_expr(L, defined)
            return (_BIN[op], a, b)
        if op in _UN:
            return (_UN[op], _read_expr(L, defined))
        if op == 54:
            n = int(L.next())
            return ("sum",) + tuple(_read_expr(L, defined) for _ in range(n))
        raise NLError(f"unsupported nl operator o{op}")
    raise NLError(f"unexpected nl token {s!r}")


class _Gen:
    """Generates a function  f(x, c) -> (value, [d value / d x_k])  for one structure."""

    def __init__(self):
        self.fwd = []
        self.nodes = []  # (kind, args) in evaluation order
        self.nv = 0
        self.nc = 0

    def visit(self, e, vs, cs):
        k = e[0]
        if k == "v":
            vs.append(e[1])
            self.nodes.append(("v", self.nv))
            self.nv += 1
        elif k == "n":
            cs.append(e[1])
            self.nodes.append(("n", self.nc))
            self.nc += 1
        else:
            args = [self.visit(a, vs, cs) for a in e[1:]]
            self.nodes.append((k, args))
        return len(self.nodes) - 1

    def source(self, name):
        out = [f"def {name}(x, c):"]
        for i, (k, a) in enumerate(self.nodes):
            if k == "v":
                r = f"x[{a}]"
            elif k == "n":
                r = f"c[{a}]"
            elif k == "sum":
                r = " + ".join(f"t{j}" for j in a) or "0.0"
            elif k == "neg":
                r = f"-t{a[0]}"
            elif k == "^":
                r = f"_pow(t{a[0]}, t{a[1]})"
            elif k in ("+", "-", "*", "/"):
                r = f"t{a[0]} {k} t{a[1]}"
            elif k == "abs":
                r = f"abs(t{a[0]})"
            else:
                r = f"_m.{k}(t{a[0]})"
            out.append(f"  t{i} = {r}")
        n = len(self.nodes)
        has_adj = [False] * n
        # which nodes depend on a variable at all
        dep = [False] * n
        for i, (k, a) in enumerate(self.nodes):
            dep[i] = k == "v" or (k not in ("v", "n") and any(dep[j] for j in a))
        back = []
        grads = {}

        def add(j, expr):
            if not dep[j]:
                return
            if has_adj[j]:
                back.append(f"  a{j} += {expr}")
            else:
                back.append(f"  a{j} = {expr}")
                has_adj[j] = True

        if dep[n - 1]:
            back.append(f"  a{n-1} = 1.0")
            has_adj[n - 1] = True
        for i in range(n - 1, -1, -1):
            if not dep[i]:
                continue
            k, a = self.nodes[i]
            g = f"a{i}"
            if k == "v":
                grads[a] = g
            elif k == "sum":
                for j in a:
                    add(j, g)
            elif k == "+":
                add(a[0], g)
                add(a[1], g)
            elif k == "-":
                add(a[0], g)
                add(a[1], f"-{g}")
            elif k == "*":
                add(a[0], f"{g}*t{a[1]}")
                add(a[1], f"{g}*t{a[0]}")
            elif k == "/":
                add(a[0], f"{g}/t{a[1]}")
                add(a[1], f"-{g}*t{i}/t{a[1]}")
            elif k == "neg":
                add(a[0], f"-{g}")
            elif k == "^":
                add(a[0], f"{g}*_dpow(t{a[0]}, t{a[1]})")
                add(a[1], f"{g}*t{i}*_m.log(t{a[0]})")
            elif k == "atan":
                add(a[0], f"{g}/(1.0+t{a[0]}*t{a[0]})")
            elif k == "exp":
                add(a[0], f"{g}*t{i}")
            elif k == "log":
                add(a[0], f"{g}/t{a[0]}")
            elif k == "log10":
                add(a[0], f"{g}/(t{a[0]}*2.302585092994046)")
            elif k == "sqrt":
                add(a[0], f"{g}*0.5/t{i}")
            elif k == "abs":
                add(a[0], f"{g}*(1.0 if t{a[0]}>=0 else -1.0)")
            elif k == "tanh":
                add(a[0], f"{g}*(1.0-t{i}*t{i})")
            elif k == "sin":
                add(a[0], f"{g}*_m.cos(t{a[0]})")
            elif k == "cos":
                add(a[0], f"-{g}*_m.sin(t{a[0]})")
            elif k == "tan":
                add(a[0], f"{g}*(1.0+t{i}*t{i})")
        out += back
        gl = ", ".join(grads.get(j, "0.0") for j in range(self.nv))
        out.append(f"  return t{n-1}, ({gl}{',' if self.nv else ''})")
        return "\n".join(out)


def _pow(a, b):
    r = a ** b
    if isinstance(r, complex):
        raise ValueError("complex power")
    return r


def _dpow(a, b):
    if b == 0.0:
        return 0.0
    if a == 0.0:
        return 0.0 if b > 1.0 else (1.0 if b == 1.0 else 1e6)
    r = b * a ** (b - 1.0)
    if isinstance(r, complex):
        raise ValueError("complex power")
    return r


_STRUCT = {}


def _compile(e):
    key_parts = []
    vs, cs = [], []

    def keyof(x):
        k = x[0]
        if k == "v":
            key_parts.append("v")
        elif k == "n":
            key_parts.append("n")
        else:
            key_parts.append(k + str(len(x) - 1))
            for y in x[1:]:
                keyof(y)

    keyof(e)
    key = " ".join(key_parts)
    fn = _STRUCT.get(key)
    if fn is None:
        g = _Gen()
        g.visit(e, vs, cs)
        ns = {"_m": math, "_pow": _pow, "_dpow": _dpow}
        exec(g.source("f"), ns)
        fn = _STRUCT[key] = ns["f"]
    else:
        def collect(x):
            k = x[0]
            if k == "v":
                vs.append(x[1])
            elif k == "n":
                cs.append(x[1])
            else:
                for y in x[1:]:
                    collect(y)
        collect(e)
    return fn, tuple(vs), tuple(cs)


class Con:
    __slots__ = ("fn", "vs", "cs", "lin", "lb", "ub", "const", "vars", "name")

    def value(self, x):
        s = self.const
        if self.fn is not None:
            v, _ = self.fn([x[i] for i in self.vs], self.cs)
            s += v
        for i, c in self.lin:
            s += c * x[i]
        return s

    def value_grad(self, x):
        s = self.const
        g = {}
        if self.fn is not None:
            v, d = self.fn([x[i] for i in self.vs], self.cs)
            s += v
            for i, di in zip(self.vs, d):
                g[i] = g.get(i, 0.0) + di
        for i, c in self.lin:
            s += c * x[i]
            g[i] = g.get(i, 0.0) + c
        return s, g

    def scale(self, x):
        """magnitude of the largest term: used to judge residuals"""
        s = abs(self.const)
        if self.fn is not None:
            try:
                s = max(s, abs(self.fn([x[i] for i in self.vs], self.cs)[0]))
            except (ValueError, ZeroDivisionError, OverflowError):
                pass
        for i, c in self.lin:
            s = max(s, abs(c * x[i]))
        for b in (self.lb, self.ub):
            if b is not None and math.isfinite(b):
                s = max(s, abs(b))
        return s


class Problem:
    def __init__(self, text, names=None, connames=None):
        L = _Lines(text)
        h = L.next()
        if not h.startswith("g"):
            raise NLError("not a text nl file")
        l1 = L.next().split()
        self.n, self.m, self.nobj = int(l1[0]), int(l1[1]), int(l1[2])
        for _ in range(8):
            L.next()
        n, m = self.n, self.m
        cons = [None] * m
        defined = {}
        self.x0 = [0.0] * n
        self.obj = None
        self.sense = None
        lin = [[] for _ in range(m)]
        objlin = []
        self.lb = [-math.inf] * n
        self.ub = [math.inf] * n
        rb = [(None, None)] * m
        while L.more():
            s = L.next()
            if not s:
                continue
            c = s[0]
            if c == "C":
                cons[int(s[1:])] = _read_expr(L, defined)
            elif c == "O":
                a = s[1:].split()
                self.sense = int(a[1])  # 0 minimise, 1 maximise
                self.obj = _read_expr(L, defined)
            elif c == "V":
                a = s[1:].split()
                k, nlin = int(a[0]), int(a[1])
                terms = []
                for _ in range(nlin):
                    i, co = L.next().split()
                    terms.append(("*", ("n", float(co)), ("v", int(i))))
                e = _read_expr(L, defined)
                defined[k] = ("sum", e) + tuple(terms) if terms else e
            elif c == "x":
                for _ in range(int(s[1:].split()[0])):
                    i, v = L.next().split()
                    self.x0[int(i)] = float(v)
            elif c == "d":
                for _ in range(int(s[1:].split()[0])):
                    L.next()
            elif c == "r":
                for k in range(m):
                    rb[k] = self._bound(L.next())
            elif c == "b":
                for k in range(n):
                    lo, hi = self._bound(L.next())
                    self.lb[k], self.ub[k] = lo, hi
            elif c == "k":
                for _ in range(int(s[1:].split()[0])):
                    L.next()
            elif c == "J":
                a = s[1:].split()
                k = int(a[0])
                for _ in range(int(a[1])):
                    i, v = L.next().split()
                    lin[k].append((int(i), float(v)))
            elif c == "G":
                a = s[1:].split()
                for _ in range(int(a[1])):
                    i, v = L.next().split()
                    objlin.append((int(i), float(v)))
            elif c == "S":
                a = s[1:].split()
                for _ in range(int(a[1])):
                    L.next()
            elif c in "LF":
                raise NLError("unsupported segment " + s)
            else:
                raise NLError("unknown segment " + s)
        self.cons = []
        for k in range(m):
            con = self._con(cons[k], lin[k])
            con.lb, con.ub = rb[k]
            con.name = connames[k] if connames else f"c{k}"
            self.cons.append(con)
        self.objective = self._con(self.obj, objlin) if self.obj is not None else None
        if self.objective is not None:
            self.objective.lb = self.objective.ub = None
        self.names = names or [f"x{i}" for i in range(n)]

    @staticmethod
    def _con(e, lin):
        con = Con()
        con.const = 0.0
        con.fn, con.vs, con.cs = None, (), ()
        if e is not None:
            if e[0] == "n":
                con.const = e[1]
            else:
                con.fn, con.vs, con.cs = _compile(e)
        con.lin = tuple((i, c) for i, c in lin if c != 0.0)
        con.vars = sorted(set(con.vs) | {i for i, _ in con.lin})
        con.name = None
        con.lb = con.ub = None
        return con

    @staticmethod
    def _bound(s):
        a = s.split()
        t = int(a[0])
        if t == 0:
            return float(a[1]), float(a[2])
        if t == 1:
            return -math.inf, float(a[1])
        if t == 2:
            return float(a[1]), math.inf
        if t == 3:
            return -math.inf, math.inf
        if t == 4:
            return float(a[1]), float(a[1])
        raise NLError("complementarity bounds unsupported")
