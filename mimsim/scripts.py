"""Runs one of the repository's run scripts as a user would: `python run.py` in
the working directory of the simulated run."""
import contextlib
import io
import os
import sys

from . import ipoptsim

REPO = "/repo"


def run(world, op):
    S = ipoptsim.SCRIPT
    S.queue(op["responses"])
    before = len(S.calls)
    path = os.path.join(REPO, op["name"])
    restricted = restrict(op["regions"]) if op.get("regions") else contextlib.nullcontext()
    out, err = io.StringIO(), io.StringIO()
    argv, sys.argv = sys.argv, [op["name"]]
    path0 = list(sys.path)
    ended = None
    try:
        with restricted, contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            from . import fs

            with fs._open(path, encoding="utf-8") as fh:
                code = compile(fh.read(), path, "exec")
            try:
                exec(code, {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__})
            except SystemExit as e:
                ended = e.code
                if e.code not in (None, 0):
                    raise
    finally:
        sys.argv = argv
        sys.path[:] = path0
        world.extra.update(calls=S.calls[before:], stdout=out.getvalue(), stderr=err.getvalue()[:2000], exit=str(ended))
    return {}


@contextlib.contextmanager
def restrict(regions):
    """the default settings with some of the regions only (a full run takes minutes)"""
    mods = [m for n, m in list(sys.modules.items()) if m is not None and (n == "mimosa" or n.startswith("mimosa."))]
    orig = sys.modules["mimosa"].load_params

    def load_params(*a, **k):
        p = orig(*a, **k)
        p["regions"] = {r: p["regions"].get(r, {}) for r in regions}
        return p

    spots = [(m, a) for m in mods for a, v in list(vars(m).items()) if v is orig]
    for m, a in spots:
        setattr(m, a, load_params)
    try:
        yield
    finally:
        for m, a in spots:
            setattr(m, a, orig)
