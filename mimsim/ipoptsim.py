"""The simulated external solver process.

Sits at pyomo's process seam: MIMOSA and pyomo run unchanged, write the real
.nl problem file and read a real .sol file; only "run the ipopt executable" is
replaced.  What the solver does is decided by the scripted response of the
current operation.
"""
import hashlib
import math
import os
import random

from pyomo.common.errors import ApplicationError
from pyomo.opt import SolverFactory
from pyomo.solvers.plugins.solvers.IPOPT import IPOPT

from . import nl, optimiser


class Script:
    """what the solver will do next, and what it has been asked so far"""

    def __init__(self):
        self.todo = [{"kind": "honest", "plans": []}]
        self.calls = []  # one record per execution
        self.model = None  # only used as a fallback source of names
        self.memo = {}

    def set(self, response):
        self.todo = [response]

    def queue(self, responses):
        """one response per execution; the last one stays"""
        self.todo = list(responses)

    @property
    def response(self):
        return self.todo[0]

    def advance(self):
        if len(self.todo) > 1:
            self.todo.pop(0)


SCRIPT = Script()
EXE = "/simulated/ipopt"


def read_problem(stub):
    with open(stub + ".nl") as fh:
        text = fh.read()
    names, connames = None, None
    if os.path.exists(stub + ".col"):
        with open(stub + ".col") as fh:
            names = fh.read().split("\n")
        with open(stub + ".row") as fh:
            connames = fh.read().split("\n")
        names = [x for x in names if x]
        connames = [x for x in connames if x]
    return text, names, connames


def sol_text(n, m, x, code, message="Ipopt (simulated)"):
    out = [message, "", "Options", "3", "1", "1", "0", str(m), str(m), str(n), str(n)]
    # 3 options follow the count
    out += ["0"] * m
    out += [repr(float(v)) for v in x]
    out.append(f"objno 0 {code}")
    return "\n".join(out) + "\n"


def digest(s):
    return hashlib.sha256(s.encode()).hexdigest()[:16]


def core(text):
    """digest of the problem without the solver's starting point"""
    lines = text.split("\n")
    for k in range(len(lines) - 1, -1, -1):
        s = lines[k]
        if s[:1] == "x" and s[1:].split("#")[0].strip().isdigit():
            n = int(s[1:].split("#")[0])
            lines = lines[:k] + lines[k + 1 + n :]
            break
    return digest("\n".join(lines))


def solve_problem(text, names, connames, resp, rec):
    """returns (sol file text or None, return code, log) for a response"""
    kind = resp["kind"]
    rec["kind"] = kind
    rec["nl"] = digest(text)
    rec["core"] = core(text)
    if kind in ("nosol", "signal"):
        return None, resp.get("rc", 1 if kind == "nosol" else -9), "EXIT: simulated abort\n"
    if kind == "nosol0":
        return None, 0, "EXIT: Problem has too few degrees of freedom.\n"
    P = nl.Problem(text, names, connames)
    if kind == "garbage":
        return resp.get("text", "not a solution file\n"), 0, ""
    if kind == "code":
        r = random.Random(resp.get("seed", 0))
        x = [v + r.uniform(-1, 1) * 0.1 * (abs(v) + 0.1) for v in P.x0]
        if resp.get("echo"):
            rec["x"] = dict(zip(P.names, x))
        return sol_text(P.n, P.m, x, resp["code"]), resp.get("rc", 0), "EXIT: simulated\n"
    if kind == "cut":
        # complete numbers, but the line with the outcome never reached the disk
        return sol_text(P.n, P.m, P.x0, 200).rsplit("objno", 1)[0], 0, ""
    if kind == "rc":
        return sol_text(P.n, P.m, P.x0, 0), resp["rc"], "EXIT: simulated crash after writing\n"
    if kind == "honest":
        opt = optimiser.Optimiser(P, resp.get("seed", 0))
        tried = []
        best = None
        for plan in resp["plans"]:
            pt = opt.run_plan(plan)
            t = {"feasible": pt.feasible, "worst": pt.worst, "violations": pt.violations[:6], "broken": opt._broken(pt)}
            if resp.get("claim") and pt.violations:
                t["about"] = opt.mentioned({n for n, _ in pt.violations})
            if resp.get("report"):
                t["range"] = {}
                for j, (b, _, _) in enumerate(opt.split):
                    if b in resp["report"]:
                        lo, hi = t["range"].get(b, (math.inf, -math.inf))
                        t["range"][b] = (min(lo, pt.x[j]), max(hi, pt.x[j]))
            tried.append(t)
            if pt.feasible:
                best = pt
                break
            last = pt
        rec["tried"] = tried
        rec["n"] = P.n
        rec["m"] = P.m
        rec["sense"] = P.sense
        if best is not None:
            rec["objective"] = best.objective
            rec["point"] = digest(" ".join(f"{v:.10g}" for v in best.x))
            if resp.get("echo"):
                rec["x"] = dict(zip(P.names, best.x))
            rec["free"] = sorted({optimiser.split_name(P.names[j])[0] for j in best.free})
            return sol_text(P.n, P.m, best.x, 0, "Ipopt: Optimal Solution Found"), 0, "EXIT: Optimal Solution Found.\n"
        x = [0.0 if v != v or abs(v) == float("inf") else v for v in last.x]
        if resp.get("claim") and not tried[-1]["broken"]:
            # refused by the problem alone: hand it over, so that every reported value of the refused path is known
            rec["claimed"] = True
            return sol_text(P.n, P.m, x, 0, "Ipopt: Optimal Solution Found"), 0, "EXIT: Optimal Solution Found.\n"
        return sol_text(P.n, P.m, x, 200, "Ipopt: Converged to a locally infeasible point"), 0, "EXIT: infeasible\n"
    raise AssertionError(f"unknown response {kind}")


class SimulatedIpopt(IPOPT):
    def _default_executable(self):
        if SCRIPT.response["kind"] == "missing":
            self.enable = False
            return None
        return EXE

    def executable(self):
        return self._default_executable()

    def available(self, exception_flag=True):
        if SCRIPT.response["kind"] == "missing":
            SCRIPT.calls.append({"kind": "missing"})
            SCRIPT.advance()
            if exception_flag:
                raise ApplicationError(f"No executable found for solver '{self.name}'")
            return False
        return True

    def _get_version(self):
        return (3, 14, 0)

    def _execute_command(self, command):
        resp = SCRIPT.response
        SCRIPT.advance()
        rec = {}
        SCRIPT.calls.append(rec)
        rec["options"] = [a for a in command.cmd[3:]]
        self._last_solve_time = 0.0
        kind = resp["kind"]
        stub = command.cmd[1]
        stub = stub[:-3] if stub.endswith(".nl") else stub
        text, names, connames = read_problem(stub)
        rec["nl"] = digest(text)
        rec["core"] = core(text)
        if kind == "execfail":
            rec["kind"] = kind
            raise ApplicationError("Could not execute the command: simulated")
        if kind == "interrupt":
            rec["kind"] = kind
            raise KeyboardInterrupt("simulated Ctrl-C while the solver runs")
        sol, rc, log = solve_problem(text, names, connames, resp, rec)
        if sol is not None:
            with open(self._soln_file, "w") as fh:
                fh.write(sol)
        return [rc, log]


def install():
    if "ipopt" in SolverFactory._cls:
        SolverFactory.unregister("ipopt")
    SolverFactory.register("ipopt", doc="simulated")(SimulatedIpopt)
