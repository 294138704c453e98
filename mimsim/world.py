"""Executes one run (a list of operations on the real library) inside a forked
child process whose disk, solver, network, clock and interruptions are
simulated.  Everything the run does is a function of the run description."""
import builtins
import copy
import hashlib
import io
import json
import logging
import math
import os
import random
import sys
import traceback

import numpy as np

from . import fs, ipoptsim, sched, workload

REPO = "/repo"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/"
LIB = "/repo/mimosa/"


def sha(b):
    if isinstance(b, str):
        b = b.encode()
    return hashlib.sha256(b).hexdigest()[:20]


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    return x


def num(v):
    if v is None:
        return None
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


def plain(v):
    """values that JSON cannot hold"""
    if isinstance(v, dict):
        if list(v) == ["__float__"]:
            return float(v["__float__"])
        if list(v) == ["__numkeys__"]:
            return {float(k): plain(x) for k, x in v["__numkeys__"].items()}
        return {k: plain(x) for k, x in v.items()}
    return [plain(x) for x in v] if isinstance(v, list) else v


def plant(p, edits):
    """like workload.apply, but creates missing sections"""
    for path, v in edits:
        d = p
        for k in path[:-1]:
            if not isinstance(d.get(k), dict):
                d[k] = {}
            d = d[k]
        d[path[-1]] = plain(copy.deepcopy(v))


def nl_difference(a, b, rtol, atol):
    """None, or a short text about the first difference"""
    for k, what in ((1, "variables"), (2, "constraints")):
        if a[k] != b[k]:
            x, y = a[k].split("\n"), b[k].split("\n")
            return f"{what}: {sorted(set(x) ^ set(y))[:4]} of {len(x)} and {len(y)}"
    la, lb = a[0].split("\n"), b[0].split("\n")
    if len(la) != len(lb):
        return f"{len(la)} and {len(lb)} lines"
    for i, (x, y) in enumerate(zip(la, lb)):
        x, y = x.split("#")[0], y.split("#")[0]
        if x == y:
            continue
        u, v = x.split(), y.split()
        if len(u) != len(v):
            return f"line {i + 1}: {x!r} and {y!r}"
        for p, q in zip(u, v):
            if p == q:
                continue
            try:
                # numbers of expressions start with n
                f, g = (float(z[1:] if z[0] == "n" else z) for z in (p, q))
            except ValueError:
                return f"line {i + 1}: {p!r} and {q!r}"
            if not abs(f - g) <= rtol * max(abs(f), abs(g)) + atol:
                return f"line {i + 1}: {f!r} and {g!r}"
    return None


class NoModel(Exception):
    """the operation refers to a model whose construction failed earlier"""


class World:
    def __init__(self, run, scratch):
        self.run = run
        self.scratch = scratch
        self.params = {}
        self.models = {}
        self.log = []
        self.faults = {}
        self.mimosa = sys.modules["mimosa"]

    # ------------------------------------------------------------ environment

    def setup(self):
        env = self.run.get("env", {})
        seed = env.get("seed", 0)
        os.chdir(self.scratch)
        cwd = env.get("cwd")
        if cwd:
            os.makedirs(cwd, exist_ok=True)
            os.chdir(cwd)
        tmp = os.path.join(self.scratch, ".tmp")
        os.makedirs(tmp, exist_ok=True)
        import tempfile

        tempfile.tempdir = tmp
        from pyomo.common.tempfiles import TempfileManager

        TempfileManager.tempdir = tmp
        random.seed(f"py{seed}")
        np.random.seed(seed % 2**31)
        D = fs.DISK
        D.write_roots = (os.getcwd() + "/", self.scratch + "/out")
        D.write_excl = tmp
        D.read_roots = (LIB + "inputdata/", os.getcwd() + "/")
        D.rng = random.Random(f"disk{seed}")
        D.bufsize = env.get("bufsize")
        D.short_reads = bool(env.get("short_reads"))
        D.order = random.Random(f"order{seed}") if env.get("shuffle_dirs") else None
        fs.install()
        clock = fs.Clock(env.get("clock", 1.7e9), random.Random(f"clock{seed}"), env.get("clock_jumps", False))
        fs.install_clock(clock)
        self.clock = clock
        if env.get("tz"):
            os.environ["TZ"] = env["tz"]
            __import__("time").tzset()
        ipoptsim.install()
        from . import neos

        self.net = neos.install(clock)
        D.active = True

    # ------------------------------------------------------------ helpers

    def note(self, op, **kw):
        rec = {"op": op["op"], "i": len(self.log)}
        rec.update(kw)
        self.log.append(rec)
        return rec

    def files(self, root=None):
        root = root or os.getcwd()
        out = {}
        for d, subs, names in os.walk(root):
            subs[:] = sorted(s for s in subs if s != ".tmp")
            for n in sorted(names):
                p = os.path.join(d, n)
                with fs._open(p, "rb") as fh:
                    out[os.path.relpath(p, root)] = fh.read()
        return out

    def nl_digest(self, cm, labels=True):
        """hash of the problem the model would send to a solver now"""
        D = fs.DISK
        was, D.active = D.active, False
        try:
            stub = os.path.join(self.scratch, ".tmp", "probe")
            import contextlib

            with contextlib.redirect_stdout(io.StringIO()):
                cm.write(stub + ".nl", format="nl", io_options={"symbolic_solver_labels": labels})
            with open(stub + ".nl") as fh:
                a = fh.read()
            if not labels:
                return sha(a), ipoptsim.core(a)
            with open(stub + ".col") as fh:
                b = fh.read()
            return sha(a + b), sha(ipoptsim.core(a) + b)
        finally:
            D.active = was

    def nl_text(self, cm):
        """the problem and the names of its columns and rows"""
        D = fs.DISK
        was, D.active = D.active, False
        try:
            stub = os.path.join(self.scratch, ".tmp", "probe")
            import contextlib

            with contextlib.redirect_stdout(io.StringIO()):
                cm.write(stub + ".nl", format="nl", io_options={"symbolic_solver_labels": True})
            out = []
            for ext in (".nl", ".col", ".row"):
                with open(stub + ext) as fh:
                    out.append(fh.read())
            return out
        finally:
            D.active = was

    # ------------------------------------------------------------ operations

    def op_compare(self, op):
        """do two models describe the same problem, up to rounding of the numbers?"""
        a = self.nl_text(self.models[op["a"]].concrete_model) if op["a"] in self.models else None
        b = self.nl_text(self.models[op["b"]].concrete_model) if op["b"] in self.models else None
        if a is None or b is None:
            raise NoModel("a" if a is None else "b")
        return {"diff": nl_difference(a, b, op.get("rtol", 1e-9), op.get("atol", 1e-12))}

    def here(self, x):
        """@CWD@ stands for the folder the run works in"""
        if isinstance(x, str):
            return x.replace("@CWD@", os.getcwd())
        if isinstance(x, dict):
            return {k: self.here(v) for k, v in x.items()}
        return [self.here(v) for v in x] if isinstance(x, list) else x

    def there(self, x):
        if isinstance(x, str):
            return x.replace(os.getcwd(), "@CWD@")
        if isinstance(x, dict):
            return {k: self.there(v) for k, v in x.items()}
        return [self.there(v) for v in x] if isinstance(x, list) else x

    def op_params(self, op):
        load = self.mimosa.load_params
        if op.get("raw") is not None:
            p = copy.deepcopy(op["raw"])
        elif op.get("file") is not None:
            p = load(self.here(op["file"]))
        else:
            p = load()
        if op.get("deep"):
            plant(p, op["set"])
        else:
            workload.apply(p, op.get("set", []))
        for path in op.get("delete", []):
            d = p
            for k in path[:-1]:
                d = d[k]
            d.pop(path[-1], None)
        if op.get("here"):
            p = self.here(p)
        self.params[op["slot"]] = p
        return {"params": self.there(jsonable(p)) if op.get("show") else None}

    def op_edit(self, op):
        workload.apply(self.slot(op), op["set"])
        return {}

    def op_digest(self, op):
        """fingerprint of the caller's dictionary"""
        return {"digest": sha(json.dumps(jsonable(self.slot(op))) + repr(self.slot(op)))}

    def slot(self, op):
        try:
            return self.params[op["slot"]]
        except KeyError:
            raise NoModel(op["slot"]) from None

    def op_build(self, op):
        self.models.pop(op["model"], None)
        m = self.mimosa.MIMOSA(self.slot(op))
        self.models[op["model"]] = m
        return {}

    def model(self, op):
        try:
            return self.models[op["model"]]
        except KeyError:
            raise NoModel(op["model"]) from None

    def op_probe(self, op):
        m = self.model(op)
        nl, core = self.nl_digest(m.concrete_model)
        plain = self.nl_digest(m.concrete_model, False)[1] if op.get("plain") else None
        return {"nl": nl, "core": core, "plain": plain, "status": str(m.status), "last": m.last_saved_filename}

    def op_solve(self, op):
        ipoptsim.SCRIPT.set(op["response"])
        ipoptsim.SCRIPT.model = self.model(op)
        before = len(ipoptsim.SCRIPT.calls)
        if "net" in op:
            self.net.plan(op["net"], op["response"])
        extra = {}
        try:
            self.models[op["model"]].solve(**op.get("kwargs", {"verbose": False}))
        finally:
            extra["calls"] = ipoptsim.SCRIPT.calls[before:]
            if "net" in op:
                extra["net"] = self.net.report()
            self.extra.update(extra)
            self.extra["status"] = str(self.models[op["model"]].status)
        return {}

    def op_save(self, op):
        m = self.model(op)
        try:
            m.save(*op.get("args", []), **op.get("kwargs", {}))
        finally:
            self.extra["last"] = m.last_saved_filename
        return {}

    def op_names(self, op):
        """names of the constraints of the model"""
        from pyomo.environ import Constraint

        cm = self.model(op).concrete_model
        return {"constraints": sorted(c.name for c in cm.component_objects(Constraint))}

    def op_values(self, op):
        return {"values": collect(self.model(op)), "objective": objective(self.model(op))}

    def op_files(self, op):
        fl = self.files()
        if op.get("content"):
            fl = {k: v.decode("utf-8", "replace") for k, v in fl.items()}
            return {"files": self.there(fl) if op.get("here") else fl}
        return {"files": {k: sha(v) for k, v in fl.items()}}

    def op_rm(self, op):
        D = fs.DISK
        was, D.active = D.active, False
        try:
            os.remove(op["path"])
        finally:
            D.active = was
        return {}

    def op_write(self, op):
        D = fs.DISK
        was, D.active = D.active, False
        try:
            path = self.here(op["path"])
            d = os.path.dirname(path)
            if d:
                os.makedirs(d, exist_ok=True)
            with open(path, "w") as fh:
                fh.write(op["text"])
        finally:
            D.active = was
        return {}

    def op_noop(self, op):
        return {}

    def op_cleanup(self, op):
        """removes a folder of the run's own scratch space"""
        import shutil

        D = fs.DISK
        was, D.active = D.active, False
        try:
            p = os.path.realpath(op["path"])
            if not p.startswith(os.path.realpath(self.scratch) + "/"):
                raise ValueError("outside the scratch folder")
            shutil.rmtree(p)
        finally:
            D.active = was
        return {}

    def op_disklog(self, op):
        return {"disk": list(fs.DISK.log), "cwd": os.getcwd()}

    def op_drop(self, op):
        self.models.pop(op["model"], None)
        return {}

    def op_full(self, op):
        """the reported values inserted in the unsimplified model"""
        from . import fullmodel

        return fullmodel.residuals(self.mimosa, self.model(op), self.slot(op))

    def op_mark(self, op):
        """remember the position in the disk log"""
        files, inodes = fs.snapshot(os.getcwd())
        ids = {p: fs.DISK.inode.get(i, i) for p, i in inodes.items()}
        return {"pos": len(fs.DISK.log), "_files": files, "_ids": ids}

    def op_threads(self, op):
        return threads(self, op)

    def op_script(self, op):
        from . import scripts

        return scripts.run(self, op)

    # ------------------------------------------------------------ main loop

    def execute(self):
        out = io.StringIO()
        for op in self.run["ops"]:
            fn = getattr(self, "op_" + op["op"])
            D = fs.DISK
            fault = op.get("fault")
            D.fired = []
            io_faults = [f for f in (fault or []) if f["kind"] == "io"]
            intr = [f for f in (fault or []) if f["kind"] == "interrupt"]
            D.arm(io_faults)
            self.extra = {}
            start = len(D.log)
            rec = {"op": op["op"], "i": len(self.log)}
            tracer = None
            old = sys.stdout
            sys.stdout = out
            try:
                if intr:
                    f = intr[0]
                    exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[f.get("exc", "KeyboardInterrupt")]
                    tracer = sched.Interrupter(LIB + f.get("sub", ""), f.get("line"), f.get("occ", 1), exc)
                    with tracer:
                        res = fn(op)
                else:
                    res = fn(op)
                rec["ok"] = True
                rec.update(res or {})
            except NoModel:
                rec["ok"] = False
                rec["skipped"] = True
                rec["error"] = "NoModel"
                rec["message"] = ""
            except (Exception, KeyboardInterrupt, SystemExit) as exc:
                rec["ok"] = False
                rec["error"] = type(exc).__name__
                rec["message"] = str(exc)[:300]
                rec["where"] = where(exc)
                rec["chain"] = chain(exc)
            finally:
                sys.stdout = old
            rec.update(self.extra)
            rec["disk_ops"] = len(D.log) - start
            rec["muts"] = D.n_mut
            rec["reads"] = D.n_read
            if D.fired:
                rec["fired"] = [list(x) for x in D.fired]
            if tracer is not None:
                rec["lines"] = len(tracer.lines)
                if tracer.fired:
                    rec["interrupted"] = list(tracer.fired)
            D.disarm()
            self.log.append(rec)
            if not rec["ok"] and op.get("must"):
                rec["stopped"] = True
                break
            if rec["ok"] and op.get("stop_if_ok"):
                break
        return self.log


def where(exc):
    """the innermost frame of the library, then the innermost frame"""
    tb = traceback.extract_tb(exc.__traceback__)
    lib = [f for f in tb if f.filename.startswith(LIB)]
    last = tb[-1] if tb else None
    return {
        "lib": f"{os.path.relpath(lib[-1].filename, REPO)}:{lib[-1].name}" if lib else None,
        "inner": f"{os.path.basename(last.filename)}:{last.name}" if last else None,
        "harness": bool(last and last.filename.startswith(HERE) and "fs.py" not in last.filename and "ipoptsim" not in last.filename and "sched" not in last.filename and "neos" not in last.filename),
    }


def chain(exc):
    out = []
    seen = 0
    while exc is not None and seen < 6:
        out.append(type(exc).__name__)
        exc = exc.__cause__ or exc.__context__
        seen += 1
    return out


def collect(model):
    """every variable and parameter over time (and region), at full precision"""
    from pyomo.environ import Param, Var

    cm = model.concrete_model
    T = list(cm.t)
    R = [str(r) for r in cm.regions]
    out = {}
    kinds = {}
    for ctype in (Var, Param):
        for c in cm.component_objects(ctype):
            if not c.is_indexed():
                continue
            name = c.name
            kinds[name] = "Var" if ctype is Var else "Param"
            try:
                dim = c.index_set().dimen
            except Exception:
                continue
            try:
                if dim == 1:
                    if set(c.index_set()) - set(T):
                        continue
                    out[name] = [get(c, t) for t in T]
                elif dim == 2:
                    out[name] = [[get(c, (t, r)) for r in cm.regions] for t in T]
            except (KeyError, ValueError, TypeError):
                continue
    return {"t": T, "regions": R, "years": [num(cm.year(t)) for t in T], "v": out, "kind": kinds}


def get(c, idx):
    from pyomo.environ import value

    try:
        v = value(c[idx], exception=False)
    except (KeyError, ValueError):
        return None
    return num(v)


def objective(model):
    from pyomo.environ import Objective, value

    out = []
    for ob in model.concrete_model.component_data_objects(Objective, active=True):
        out.append([ob.sense == 1 or str(ob.sense) == "minimize", value(ob, exception=False)])
    return out


def threads(world, op):
    """several builds and saves at once under the seeded baton"""
    b = sched.Baton(op["seed"], op["p"], op["files"], {int(k): v for k, v in op["script"].items()} if op.get("script") is not None else None, op.get("stops", ()))
    jobs = {}
    M = world.mimosa.MIMOSA

    def job(name, slot):
        def f():
            m = M(world.params[slot])
            world.models[name] = m
            return True

        return f

    def save(name, args, kwargs):
        return lambda: world.model({"model": name}).save(*args, **kwargs)

    for j in op["jobs"]:
        jobs[j["model"]] = save(j["model"], j["args"], j["kwargs"]) if "args" in j else job(j["model"], j["slot"])
    res = b.run(jobs)
    out = {}
    for n, (k, v) in res.items():
        out[n] = {"ok": k == "ok"}
        if k != "ok":
            out[n].update(error=type(v).__name__, message=str(v)[:300], where=where(v))
    return {"threads": out, "points": b.points, "switches": b.switches[-400:], "nswitch": len(b.switches)}
