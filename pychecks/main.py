"""Python checks:  main.py check ID --tier T --seed N --site DIR --evidence F --replays D
                   main.py replay FILE --site DIR"""
import argparse
import collections
import hashlib
import json
import os
import subprocess
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ap = argparse.ArgumentParser()
ap.add_argument("cmd", choices=["check", "worker", "replay"])
ap.add_argument("target")
ap.add_argument("--tier", default="quick")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--site", required=True)
ap.add_argument("--wheels", required=True)
ap.add_argument("--evidence")
ap.add_argument("--replays")
ap.add_argument("--shard", type=int, default=0)
ap.add_argument("--n", type=int, default=100)
ap.add_argument("--result")
ap.add_argument("--cases", type=int)
A = ap.parse_args()
sys.path[:0] = [A.site, A.wheels, HERE]

SHARDS = 8
CASES = {  # per shard
    "quick": {"C24": 1200, "C25": 1500, "C26": 1500, "C27": 1000, "C28": 5000, "C29": 1000, "C31": 400, "C34": 500},
    "thorough": {"C24": 40000, "C25": 50000, "C26": 50000, "C27": 40000, "C28": 150000, "C29": 25000, "C31": 10000, "C34": 15000},
}
SHRINK_S = 60
CASE_LIMIT = 120  # seconds


class Ctx:
    def __init__(self):
        self.labels = collections.Counter()

    def label(self, s):
        self.labels[s] += 1


class Enough(BaseException):
    pass


def run_case(pid, case, ctx):
    """(outcome, message): outcome is 'trivial', 'nontrivial', 'skip' or 'bad'"""
    import props

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return ("nontrivial" if props.PROPS[pid][1](case, ctx) else "trivial"), None
    except props.Skip:
        return "skip", None
    except props.Bad as e:
        return "bad", str(e)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:  # the check calls the package with valid arguments: nothing may raise
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if HERE in f.filename), "?")
        return "bad", f"unexpected {type(e).__name__}: {e} (raised in the call at {where})"


def worker():
    import props
    from hypothesis import HealthCheck, Phase, given, seed, settings

    pid = A.target
    ctx, samples, hashes = Ctx(), [], set()
    n = {"evaluations": 0, "skip": 0, "trivial": 0, "nontrivial": 0}
    best, t_fail = {}, []

    @seed(A.seed * 1000 + A.shard)
    @settings(max_examples=A.n, database=None, deadline=None, phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck), print_blob=False, report_multiple_bugs=False)
    @given(props.PROPS[pid][0](A.tier))
    def go(case):
        text = json.dumps(case)
        with open(A.result + ".case", "w") as f:
            f.write(text)
        if t_fail and time.time() - t_fail[0] > SHRINK_S:
            raise Enough
        outcome, msg = run_case(pid, case, Ctx() if t_fail else ctx)
        if not t_fail:
            n["evaluations"] += 1
            if outcome != "bad":
                n[outcome] += 1
            if outcome == "nontrivial":
                hashes.add(hashlib.sha1(text.encode()).hexdigest()[:16])
                if len(samples) < 1:
                    samples.append(case)
        if outcome == "bad":
            t_fail or t_fail.append(time.time())
            size = len(text)
            if not best or size <= best["size"]:
                best.update(size=size, case=json.loads(text), message=msg)
            raise AssertionError("violation")

    err = None
    try:
        go()
    except Enough:
        pass
    except Exception as e:
        if not best:
            import traceback

            err = "".join(traceback.format_exception(e))[-3000:]
    json.dump({"n": n, "labels": ctx.labels, "samples": samples, "hashes": sorted(hashes), "best": best, "error": err}, open(A.result, "w"))
    return 0


def env():
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    return e


def check():
    pid, t0 = A.target, time.time()
    n = A.cases or CASES[A.tier][pid]
    tmp = os.path.join(A.replays, f".{pid}-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    ps = []
    for s in range(SHARDS):
        res = os.path.join(tmp, f"r{s}.json")
        err = open(os.path.join(tmp, f"e{s}"), "w")
        cmd = [sys.executable, os.path.abspath(__file__), "worker", pid, "--tier", A.tier, "--seed", str(A.seed), "--site", A.site, "--wheels", A.wheels, "--shard", str(s), "--n", str(n), "--result", res]
        ps.append((s, res, subprocess.Popen(cmd, env=env(), stderr=err, stdout=err)))
    tot, labels, hashes, samples, fails, broken = collections.Counter(), collections.Counter(), set(), [], [], []
    hung = False
    for s, res, p in ps:
        while True:
            try:
                rc = p.wait(2)
                break
            except subprocess.TimeoutExpired:
                f = res + ".case"
                if hung or (os.path.exists(f) and time.time() - os.stat(f).st_mtime > CASE_LIMIT):
                    p.kill()
                    p.wait()
                    rc = "hung"
                    break
        if rc == "hung":
            if not hung:  # once confirmed, the other shards are not waited for
                hung, case = True, json.load(open(res + ".case"))
                path = os.path.join(tmp, "hang.json")
                json.dump({"property": pid, "case": case}, open(path, "w"))
                try:
                    subprocess.run([sys.executable, os.path.abspath(__file__), "replay", path, "--site", A.site, "--wheels", A.wheels], env=env(), timeout=60, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    broken.append(f"shard {s}: a case took over {CASE_LIMIT} s, but not when repeated")
                except subprocess.TimeoutExpired:
                    fails.append({"case": case, "message": "the call does not return within 60 s", "size": 0})
            continue
        tail = open(os.path.join(tmp, f"e{s}"), errors="replace").read()[-2000:]
        if rc < 0 and os.path.exists(res + ".case"):
            fails.append({"case": json.load(open(res + ".case")), "message": f"the interpreter was killed by signal {-rc}: {tail[-600:]}", "size": 0})
            continue
        if rc or not os.path.exists(res):
            broken.append(f"shard {s}: exit {rc}: {tail}")
            continue
        r = json.load(open(res))
        tot.update(r["n"])
        labels.update(r["labels"])
        hashes.update(r["hashes"])
        samples += r["samples"]
        if r["error"]:
            broken.append(f"shard {s}: {r['error']}")
        if r["best"]:
            fails.append(r["best"])
    import shutil

    shutil.rmtree(tmp, ignore_errors=True)
    from props import RULES

    ev = {"property": pid, "tier": A.tier, "seed": A.seed, "level": "exploration",
          "coverage": {"evaluations": tot["evaluations"], "distinct_nontrivial": len(hashes), "rule": RULES[pid], "samples": samples[:3],
                       "trivial": tot["trivial"], "not_applicable_cases": tot["skip"], "labels": dict(labels.most_common(80))},
          "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
    json.dump(ev, open(A.evidence, "w"), indent=1)
    print(f"{pid} {A.tier}: {tot['evaluations']} cases, {len(hashes)} distinct non-trivial, {ev['wall_s']} s")
    if fails:
        f = min(fails, key=lambda f: f["size"])
        path = os.path.join(A.replays, f"{pid}-{hashlib.sha1(json.dumps(f['case']).encode()).hexdigest()[:10]}.json")
        json.dump({"property": pid, "case": f["case"], "message": f["message"]}, open(path, "w"), indent=1)
        print(f"{pid}: {f['message']}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if broken:
        print("ERROR: " + "\n".join(broken))
        return 2
    return 0


def replay():
    v = json.load(open(A.target))
    outcome, msg = run_case(v["property"], v["case"], Ctx())
    print(f"{v['property']}: {outcome}: {msg}")
    if outcome == "bad":
        print(f"VIOLATION property={v['property']} replay={A.target}")
        return 1
    return 0


sys.exit({"check": check, "worker": worker, "replay": replay}[A.cmd]())
