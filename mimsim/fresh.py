"""Simulates runs from a newly started interpreter, whose hash seed, locale and
time zone are chosen by the caller.  Reads a pickled list of runs from stdin,
writes their pickled logs to stdout."""
import os
import pickle
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def simulate(runs, hashseed=0, environ=None, flags=()):
    """the logs of the runs, or a HarnessError"""
    from . import runner

    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON", "TZ"))}
    env.update(environ or {})
    env["PYTHONHASHSEED"] = str(hashseed)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    r = subprocess.run([sys.executable, "-B", *flags, os.path.abspath(__file__)], input=pickle.dumps(runs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=runner.RUN_LIMIT)
    if r.returncode != 0:
        raise runner.HarnessError("a new interpreter failed: " + r.stderr.decode("utf-8", "replace")[-1500:])
    kind, val = pickle.loads(r.stdout)
    if kind != "logs":
        raise runner.HarnessError(val)
    return val


def main():
    sys.path[0:1] = [HERE]
    out = os.dup(1)
    os.dup2(2, 1)
    import traceback

    from mimsim import fs, runner

    if hasattr(__import__("time"), "tzset"):
        __import__("time").tzset()
    try:
        runner.import_library()
        res = ("logs", [runner.simulate(r) for r in pickle.load(sys.stdin.buffer)])
    except BaseException:
        res = ("harness", traceback.format_exc())
    finally:
        runner.cleanup()
    fs._write_all(out, pickle.dumps(res))


if __name__ == "__main__":
    main()
