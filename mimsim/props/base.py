import copy
import hashlib
import json
import random

from .. import runner, spec, workload


class Context:
    """gives access to the simulator; counts what was simulated"""

    def __init__(self, simulate):
        self._simulate = simulate
        self.runs = 0
        self._defaults = None

    def simulate(self, run):
        self.runs += 1
        return self._simulate(run)

    def fresh(self, runs, hashseed=0, environ=None, flags=()):
        """the same, in a newly started interpreter"""
        from .. import fresh

        self.runs += len(runs)
        return fresh.simulate(runs, hashseed, environ, flags)

    @property
    def defaults(self):
        """the settings dictionary a user starts from (obtained in a run of its own)"""
        if self._defaults is None:
            log = self._simulate({"ops": [{"op": "params", "slot": "d", "show": True}]})
            if not log[0].get("ok"):
                raise LibraryBroken("loading the default settings failed: " + log[0].get("message", ""))
            self._defaults = log[0]["params"]
        return copy.deepcopy(self._defaults)

    def settings(self, overrides):
        return workload.apply(self.defaults, overrides)


class LibraryBroken(Exception):
    pass


def rng_for(pid, seed, what=""):
    return random.Random(f"{pid}/{seed}/{what}")


def key(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


class Prop:
    id = None
    level = "exploration"
    components_real = ["mimosa (all of it)", "pyomo modelling, presolve, NL writer, solution reader", "pandas/numpy/scipy/pint"]
    components_stub = ["ipopt executable (simulated solver)", "disk of the output folder", "clock"]
    quick = 160  # episodes of the quick tier
    rule = "seeded episodes; distinct = different (settings, history) descriptions"
    assumptions = [
        "the solver is simulated: it answers with points that satisfy the problem it was given, not with optimal ones",
        "seeded sampling of configurations, histories and faults: a clean batch is evidence, not proof",
    ]

    def vacuous(self, tally):
        """a reason why the batch would not mean anything, or None"""
        return None if tally.evals > 0 else "no condition was evaluated"

    def hopeless(self, tally, first_seed, ctx):
        """(i, seed, case, violations) if the batch as a whole is a violation, or None"""
        return None

    def generate(self, rng, ctx):
        raise NotImplementedError

    def decide(self, case, ctx):
        """returns Outcome"""
        raise NotImplementedError

    def shrinks(self, case):
        """smaller cases, most promising first"""
        return generic_shrinks(case)

    def episode(self, seed, ctx):
        rng = rng_for(self.id, seed)
        self.turn = seed % 10_000_019  # lets a batch walk through a list instead of sampling it
        before = ctx.runs
        case = self.generate(rng, ctx)
        out = self.decide(case, ctx)
        d = out.as_dict()
        d["runs"] = ctx.runs - before
        if out.violations:
            d["case"] = case
        d["sample"] = {"seed": seed, "case": brief(case)}
        return d


def brief(x, depth=0):
    """a case, short enough for the evidence file"""
    if isinstance(x, dict):
        if depth > 5:
            return "..."
        return {k: brief(v, depth + 1) for k, v in list(x.items())[:14]}
    if isinstance(x, (list, tuple)):
        return [brief(v, depth + 1) for v in list(x)[:6]] + (["..."] if len(x) > 6 else [])
    if isinstance(x, str) and len(x) > 120:
        return x[:120] + "..."
    return x


class Outcome:
    def __init__(self):
        self.violations = []
        self.evals = 0
        self.faults = {}
        self.keys = set()  # what was distinct about this episode
        self.stats = {}
        self.sim_years = 0.0
        self.fingerprint = hashlib.sha1()

    def bad(self, cls, detail, where=""):
        self.violations.append({"class": cls, "where": where, "detail": str(detail)[:600]})

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def seen(self, log):
        """adds a run's log to the fingerprint (used by the determinism test)"""
        self.fingerprint.update(repr(scrub(log)).encode())

    def as_dict(self):
        return {
            "violations": self.violations,
            "evals": self.evals,
            "faults": self.faults,
            "keys": sorted(self.keys),
            "stats": self.stats,
            "years": self.sim_years,
            "print": self.fingerprint.hexdigest(),
        }


def scrub(x):
    if isinstance(x, dict):
        return {k: scrub(v) for k, v in x.items() if k not in ("_files", "_ids", "message")}
    if isinstance(x, (list, tuple)):
        return [scrub(v) for v in x]
    return x


def harness_guard(rec):
    """an exception that came out of the simulator itself is not evidence about the library"""
    w = rec.get("where") or {}
    if not rec.get("ok") and w.get("harness"):
        raise runner.HarnessError(f"simulator raised in {rec['op']}: {rec.get('error')} {rec.get('message')} {w}")


# ------------------------------------------------------------ shrinking


def generic_shrinks(case):
    """remove list elements under the well-known keys, coarse to fine"""
    paths = []

    def walk(x, path):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("prelude", "settings", "noise", "faults", "edits", "plans") and isinstance(v, list) and v:
                    paths.append(path + [k])
                walk(v, path + [k])
        elif isinstance(x, list):
            for i, v in enumerate(x):
                walk(v, path + [i])

    walk(case, [])
    for p in paths:
        if case.get("must_accept") and p[-1] != "prelude":
            continue  # fewer policies or other settings would prove nothing
        n = len(at(case, p))
        size = n
        while size >= 1:
            for s in range(0, n, size):
                if p[-1] == "plans" and n - size < 1:
                    continue
                c = copy.deepcopy(case)
                lst = at(c, p)
                del lst[s : s + size]
                yield c
            size //= 2


def at(x, path):
    for k in path:
        x = x[k]
    return x


def minimise(P, case, cls, ctx, limit, accept=lambda v, c: True):
    """greedy delta debugging: keep a smaller case while it shows the same class of violation"""
    import time

    t0 = time.monotonic()
    tried = 0
    progress = True
    while progress and time.monotonic() - t0 < limit:
        progress = False
        for c in P.shrinks(case):
            if time.monotonic() - t0 > limit:
                break
            tried += 1
            try:
                out = P.decide(c, ctx)
            except (runner.HarnessError, Exception):
                continue
            if any(v["class"] == cls and accept(v, c) for v in out.violations):
                case = c
                progress = True
                break
    return case, tried
