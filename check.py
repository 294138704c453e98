#!/opt/venv/bin/python -B
"""Runs the simulated episodes of one property and judges them.

  check.py --property P08 [--tier quick|thorough]   seeds come from VERIF_SEED
  check.py --replay replays/P08-....json            repeats one recorded violation exactly
  check.py --selftest [--property P08]              determinism of the simulator itself
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

EXIT_OK, EXIT_VIOLATION, EXIT_HARNESS = 0, 1, 2
THOROUGH_WALL = 700.0


def known_findings():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return [f for f in json.load(fh)["findings"]]


def matches(finding, pid, v, case):
    m = finding.get("match")
    if not m or finding["property"] != pid:
        return False
    if v["class"] != m["class"]:
        return False
    text = v.get("where", "") + " " + v.get("detail", "")
    return all(s in text for s in m.get("contains", []))


def workers():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 1
    return int(os.environ.get("MIMSIM_WORKERS", 0)) or max(1, min(16, n))


class Tally:
    def __init__(self):
        self.episodes = 0
        self.runs = 0
        self.evals = 0
        self.faults = {}
        self.stats = {}
        self.keys = set()
        self.trivial = 0
        self.years = 0.0
        self.real = 0.0
        self.samples = []
        self.harness = []
        self.bad = []  # (i, seed, case, violations)
        self.prints = {}

    def add(self, kind, i, seed, res, secs):
        self.real += secs
        if kind == "harness":
            self.harness.append((i, seed, res))
            return
        self.episodes += 1
        self.runs += res["runs"]
        self.evals += res["evals"]
        self.years += res["years"]
        self.prints[i] = res["print"]
        for k, v in res["faults"].items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in res["stats"].items():
            self.stats[k] = self.stats.get(k, 0) + v
        before = len(self.keys)
        self.keys.update(res["keys"])
        if res.get("sample") and len(self.samples) < 3:
            self.samples.append(res["sample"])
        if res["violations"]:
            self.bad.append((i, seed, res["case"], res["violations"]))


def too_many(T, at_least):
    """episodes without a verdict: a stray one is reported in the evidence, more are an error"""
    return len(T.harness) >= at_least and len(T.harness) * 50 > T.episodes or any(i < 0 for i, _, _ in T.harness)


def explore(pid, P, tier, seed, budget, wall):
    from mimsim import runner

    T = Tally()
    known = known_findings()

    def fresh(vs, case):
        return [v for v in vs if not any(matches(f, pid, v, case) for f in known)]

    state = {"until": None}

    def on_result(kind, i, s, res, secs):
        T.add(kind, i, s, res, secs)
        if kind == "harness" and too_many(T, 3) and not T.bad:
            return True
        if T.bad and fresh(T.bad[-1][3], T.bad[-1][2]):
            # a little longer, so that the report does not depend on which worker was first
            if state["until"] is None:
                state["until"] = time.monotonic() + 3
        return state["until"] is not None and time.monotonic() > state["until"]

    n = workers()
    per = None if budget is None else max(1, -(-budget // n))
    runner.pool(pid, lambda i: seed * 10_000_019 + i, wall, n, on_result, budget=per)
    return T, known, fresh


def write_evidence(pid, P, tier, seed, T, wall, nviol, note=""):
    rate = T.episodes / max(wall, 1e-9) * 3600
    cov = {
        "evaluations": T.episodes,
        "distinct_nontrivial": len(T.keys),
        "rule": P.rule,
        "samples": T.samples,
        "simulated_runs": T.runs,
        "checked_conditions": T.evals,
        "seeds_per_hour": round(rate),
        "runs_per_hour": round(T.runs / max(wall, 1e-9) * 3600),
        "simulated_model_years": round(T.years),
        "faults_injected": dict(sorted(T.faults.items())),
        "probes": dict(sorted(T.stats.items())),
        "first_seed": seed * 10_000_019,
        "episodes_without_verdict": len(T.harness),
        "real_components": P.components_real,
        "simulated_components": P.components_stub,
        "workers": workers(),
    }
    doc = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": P.level,
        "coverage": cov,
        "assumptions": P.assumptions,
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", f"{pid}.json")
    tmp = path + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(doc, fh, indent=1, default=str)
    os.replace(tmp, path)


def run_property(pid, tier, seed, args):
    from mimsim import props, runner
    from mimsim.props import base  # noqa

    t0 = time.monotonic()
    runner.import_library()
    P = props.get(pid)
    ctx = props.Context(runner.simulate)
    if tier == "quick":
        budget, wall = args.episodes or P.quick, args.wall or 240.0
    else:
        budget, wall = args.episodes, args.wall or THOROUGH_WALL
    try:
        T, known, fresh = explore(pid, P, tier, seed, budget, wall)
        new = sorted((b for b in T.bad if fresh(b[3], b[2])), key=lambda b: b[0])
        # listed findings: shown again from their recorded case
        for f in known:
            if f["property"] == pid and f.get("case") is not None:
                try:
                    out = P.decide(f["case"], ctx)
                except Exception as e:
                    T.harness.append((-1, "known finding", str(e)))
                    continue
                hit = [v for v in out.violations if matches(f, pid, v, f["case"])]
                other = [v for v in out.violations if not any(matches(g, pid, v, f["case"]) for g in known)]
                if hit:
                    print(f"KNOWN-FINDING: property={pid} {f['what']}")
                if other:
                    new.append((-1, -1, f["case"], other))
        wall_s = time.monotonic() - t0
        if T.harness and not new:
            print(f"no verdict in {len(T.harness)} episode(s), first: seed {T.harness[0][1]}\n{T.harness[0][2]}", file=sys.stderr)
            if too_many(T, 1):
                return EXIT_HARNESS
        if not new:
            empty = P.hopeless(T, seed * 10_000_019, ctx)
            if empty:
                # not one honest answer was accepted in the whole batch
                new = [empty]
        if not new:
            vac = P.vacuous(T)
            if vac:
                print(f"harness error: nothing meaningful was explored: {vac}", file=sys.stderr)
                return EXIT_HARNESS
            write_evidence(pid, P, tier, seed, T, wall_s, 0)
            print(f"{pid}: held on {T.episodes} episodes, {T.runs} simulated runs, {T.evals} conditions, {sum(T.faults.values())} faults, {wall_s:.0f} s")
            return EXIT_OK
        # confirm, minimise, record
        for i, s, case, vs in new[:6]:
            vs = fresh(vs, case)
            cls = vs[0]["class"]
            out = P.decide(case, ctx)
            if not any(v["class"] == cls for v in fresh(out.violations, case)):
                print(f"seed {s}: '{cls}' did not repeat: {vs[0]}", file=sys.stderr)
                continue
            small, tried = props.base.minimise(P, case, cls, ctx, 60 if tier == "quick" else 180, lambda v, c: bool(fresh([v], c)))
            out = P.decide(small, ctx)
            final = [v for v in fresh(out.violations, small) if v["class"] == cls]
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            rel = f"replays/{pid}-{s if s >= 0 else 'known'}.json"
            with open(os.path.join(HERE, rel), "w") as fh:
                json.dump({"property": pid, "seed": s, "class": cls, "violation": final[0], "case": small, "original_case": case, "shrink_steps": tried}, fh, indent=1)
            write_evidence(pid, P, tier, seed, T, time.monotonic() - t0, len(new))
            print(f"seed {s}: {cls}: {final[0].get('where','')}: {final[0]['detail']}")
            print(f"VIOLATION property={pid} replay={rel}")
            return EXIT_VIOLATION
        print("harness error: violations were seen but none repeated", file=sys.stderr)
        return EXIT_HARNESS
    finally:
        runner.cleanup()


def replay(path):
    from mimsim import props, runner

    with open(path) as fh:
        doc = json.load(fh)
    runner.import_library()
    P = props.get(doc["property"])
    ctx = props.Context(runner.simulate)
    try:
        out = P.decide(doc["case"], ctx)
    finally:
        runner.cleanup()
    hit = [v for v in out.violations if v["class"] == doc["class"]]
    for v in out.violations[:10]:
        print(f"{v['class']}: {v['where']}: {v['detail']}")
    if hit:
        print(f"VIOLATION property={doc['property']} replay={path}")
        return EXIT_VIOLATION
    print("not reproduced")
    return EXIT_OK


def fingerprints(pid, seed, n):
    from mimsim import props, runner

    runner.import_library()
    P = props.get(pid)
    T = Tally()
    k = workers()
    runner.pool(pid, lambda i: seed * 10_000_019 + i, 900, k, lambda *a: T.add(*a) or False, budget=max(1, -(-n // k)))
    runner.cleanup()
    print(json.dumps({"prints": T.prints, "harness": [h[2] for h in T.harness]}))
    return 0


def selftest(pids, seed, n):
    bad = 0
    for pid in pids:
        outs = []
        for w, hs in (("8", "0"), ("3", "4711"), ("5", "random")):
            env = dict(os.environ, MIMSIM_WORKERS=w, PYTHONHASHSEED=hs)
            r = subprocess.run([sys.executable, "-B", __file__, "--fingerprints", str(n), "--property", pid, "--seed", str(seed)], env=env, capture_output=True, text=True, timeout=3000)
            if r.returncode:
                print(pid, "selftest run failed", r.stderr[-2000:])
                bad += 1
                break
            outs.append(json.loads(r.stdout.strip().splitlines()[-1]))
        else:
            common = set(outs[0]["prints"]) & set(outs[1]["prints"]) & set(outs[2]["prints"])
            diff = [i for i in sorted(common, key=int) if len({o["prints"][i] for o in outs}) != 1]
            print(f"{pid}: {len(common)} seeds three times, {len(diff)} differ {diff[:10]}", "harness errors: %d" % sum(len(o["harness"]) for o in outs))
            bad += bool(diff)
    return 1 if bad else 0


def setup():
    from mimsim import props, runner

    runner.import_library()
    ctx = props.Context(runner.simulate)
    try:
        n = len(ctx.defaults)
    finally:
        runner.cleanup()
    print(f"ready: {n} settings sections, {workers()} workers")
    return EXIT_OK


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--episodes", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--fingerprints", type=int)
    ap.add_argument("--setup", action="store_true", help="checks that the simulator can run here")
    args = ap.parse_args()
    if args.setup:
        return setup()
    if args.replay:
        return replay(args.replay)
    if args.fingerprints:
        return fingerprints(args.property, args.seed, args.fingerprints)
    if args.selftest:
        from mimsim import props

        return selftest([args.property] if args.property else sorted(props.TABLE), args.seed, args.n)
    try:
        return run_property(args.property, args.tier, args.seed, args)
    except Exception:
        import traceback

        traceback.print_exc()
        return EXIT_HARNESS


if __name__ == "__main__":
    if "PYTHONHASHSEED" not in os.environ:
        os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    # one thread per worker (read when numpy is loaded)
    os.environ.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
