"""Runs many simulated runs on all processors and collects what they showed.

Layout: one parent imports the library and never uses it; worker processes are
forked from it; each run is a child forked from a worker, so that every run
starts from the same untouched library state.  Workers judge, children run.
"""
import json
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

RUN_LIMIT = 150.0


class HarnessError(Exception):
    pass


def import_library():
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    sys.dont_write_bytecode = True
    if "/repo" not in sys.path:
        sys.path.insert(0, "/repo")
    import warnings

    warnings.filterwarnings("ignore")
    import logging

    import mimosa  # noqa

    logging.getLogger("pyomo").setLevel(logging.CRITICAL)
    logging.getLogger("mimosa").setLevel(logging.CRITICAL)
    import pyomo.opt  # noqa
    import pyomo.environ  # noqa
    import pyomo.neos.kestrel  # noqa
    import xmlrpc.client  # noqa
    from . import fs, fullmodel, ipoptsim, neos, nl, optimiser, sched, scripts, spec, workload, world  # noqa

    root = os.path.realpath(os.path.dirname(mimosa.__file__))
    if root != "/repo/mimosa":
        raise HarnessError(f"the library was imported from {root}")


def child_main(run, scratch, fd):
    try:
        os.setpgid(0, 0)
        devnull = os.open(os.devnull, os.O_RDWR)
        for k in (0, 1, 2):
            os.dup2(devnull, k)
        import gc

        gc.disable()
        from . import world

        w = world.World(run, scratch)
        w.setup()
        log = w.execute()
        payload = pickle.dumps(("log", log))
    except BaseException:
        payload = pickle.dumps(("harness", traceback.format_exc()))
    from . import fs

    data = struct.pack("<Q", len(payload)) + payload
    fs._write_all(fd, data)
    os._exit(0)


_fork_count = 0


def simulate(run, keep=None):
    """one run, in its own process; returns its log"""
    scratch = tempfile.mkdtemp(prefix="mimsim-", dir=base_dir())
    r, w = os.pipe()
    t0 = time.monotonic()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child_main(run, scratch, w)
    os.close(w)
    buf = bytearray()
    try:
        need = None
        while True:
            left = RUN_LIMIT - (time.monotonic() - t0)
            if left <= 0:
                raise HarnessError(f"run exceeded {RUN_LIMIT} s of real time")
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                continue
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
            if need is None and len(buf) >= 8:
                need = struct.unpack("<Q", buf[:8])[0]
            if need is not None and len(buf) >= 8 + need:
                break
        if need is None or len(buf) < 8 + need:
            raise HarnessError("the run's process died without a result")
        kind, val = pickle.loads(bytes(buf[8 : 8 + need]))
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        shutil.rmtree(scratch, ignore_errors=True)
    if kind == "harness":
        raise HarnessError(val)
    return val


_BASE = None


def base_dir():
    global _BASE
    if _BASE is None:
        # every real path seen by a run has the same length and prefix
        _BASE = tempfile.mkdtemp(prefix="mimsim", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
    return _BASE


def cleanup():
    if _BASE and os.path.isdir(_BASE):
        shutil.rmtree(_BASE, ignore_errors=True)


# ------------------------------------------------------------ pool


def worker_main(prop, seeds_fn, k, n, deadline, fd, budget):
    """seeds k, k+n, k+2n ... until the deadline"""
    from . import props

    P = props.get(prop)
    ctx = props.Context(simulate)
    i = k
    done = 0
    while time.monotonic() < deadline and (budget is None or done < budget):
        seed = seeds_fn(i)
        t0 = time.monotonic()
        try:
            res = P.episode(seed, ctx)
            msg = ("res", i, seed, res, time.monotonic() - t0)
        except HarnessError as e:
            msg = ("harness", i, seed, str(e), time.monotonic() - t0)
        except Exception:
            msg = ("harness", i, seed, traceback.format_exc(), time.monotonic() - t0)
        data = pickle.dumps(msg)
        _wr(fd, struct.pack("<Q", len(data)) + data)
        i += n
        done += 1
    os._exit(0)


def _wr(fd, data):
    while data:
        k = os.write(fd, data)
        data = data[k:]


def pool(prop, seeds_fn, wall, workers, on_result, budget=None, stop_on=None):
    """fork `workers` workers; call on_result(i, seed, res) as results arrive"""
    base_dir()
    deadline = time.monotonic() + wall
    fds, pids = {}, {}
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for f in fds:
                os.close(f)
            os.setpgid(0, 0)
            try:
                worker_main(prop, seeds_fn, k, workers, deadline, w, budget)
            finally:
                os._exit(3)
        os.close(w)
        fds[r] = bytearray()
        pids[r] = pid
    stopped = False
    hard = deadline + RUN_LIMIT + 60
    try:
        while fds:
            ready, _, _ = select.select(list(fds), [], [], 5)
            if time.monotonic() > hard:
                raise HarnessError("workers did not finish")
            for r in ready:
                chunk = os.read(r, 1 << 20)
                if not chunk:
                    fds.pop(r)
                    os.close(r)
                    _, st = os.waitpid(pids.pop(r), 0)
                    if st != 0 and not stopped:
                        raise HarnessError(f"a worker died (status {st})")
                    continue
                buf = fds[r]
                buf += chunk
                while len(buf) >= 8:
                    n = struct.unpack("<Q", buf[:8])[0]
                    if len(buf) < 8 + n:
                        break
                    msg = pickle.loads(bytes(buf[8 : 8 + n]))
                    del buf[: 8 + n]
                    if not stopped and on_result(*msg):
                        stopped = True
            if stopped:
                break
    finally:
        for r, pid in pids.items():
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
