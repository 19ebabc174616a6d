#!/usr/bin/env python3
"""Runs one check:  run.py <ID> quick|thorough      run.py setup      run.py replay FILE

Builds what the check needs from /repo's current working tree into /verif/build, runs it, and
rewrites evidence/<ID>.json.  Exit 0: held; 1: VIOLATION printed; 2: the check itself failed."""
import fcntl, hashlib, json, os, shutil, signal, subprocess, sys, time, zipfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
TARGET = os.path.join(BUILD, "target")
REPLAYS = os.path.join(BUILD, "replays")
HARNESS = os.path.join(HERE, "harness")
RUST = {}
for i in range(1, 24):
    RUST[f"C{i:02d}"] = "pbt"
RUST["C30"] = RUST["C32"] = RUST["C33"] = "pbt"
RUST["C18"] = "cost"
RUST["C22"] = "variants"
RUST["C35"] = "generic"
PY = [f"C{i}" for i in range(24, 30)] + ["C31", "C34"]
TIMEOUT = {"quick": 800, "thorough": 6 * 3600}
CASE_LIMIT = {"quick": 120, "thorough": 600}


def env():
    e = dict(os.environ)
    e["PATH"] = os.path.expanduser("~/.cargo/bin") + ":" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", RUST_BACKTRACE="0",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1")
    return e


def tree_hash():
    """Content of everything the build reads from /repo: time stamps are not trusted."""
    h = hashlib.sha256()
    files = []
    for top in ("src", ".cargo"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            files += [os.path.join(d, f) for f in fs if not f.endswith((".pyc", ".so"))]
    for f in ("Cargo.toml", "Cargo.lock", "pyproject.toml", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            files.append(p)
    for f in sorted(files):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def sh(cmd, cwd, log):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        sys.stdout.write(p.stdout[-6000:])
        print(f"ERROR: {log} failed (exit {p.returncode})")
        sys.exit(2)
    return p.stdout


def fresh(target, key, cur):
    """Forget cargo's fingerprints of the crate under test unless it was built from this very tree."""
    stamp = os.path.join(target, f"stamp-{key}")
    os.makedirs(target, exist_ok=True)
    try:
        if open(stamp).read() == cur:
            return stamp, True
    except OSError:
        pass
    if os.path.exists(stamp):
        os.unlink(stamp)
    return stamp, False


def drop_fingerprints(target):
    for d, names, _ in os.walk(target):
        for n in names:
            if os.path.basename(d) == ".fingerprint" and n.startswith("interpn"):
                shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        if d.count(os.sep) - target.count(os.sep) >= 2:
            names[:] = []


def build_rust(pkgs):
    cur = tree_hash()
    tree, same = fresh(TARGET, "tree", cur)
    if not same:
        drop_fingerprints(TARGET)
    sh(["cargo", "build", "--release", "--offline", "--locked", "--target-dir", TARGET] + [x for p in pkgs for x in ("-p", p)], HARNESS, "building the harness")
    open(tree, "w").write(cur)


def build_python():
    """The Python package as built from the working tree, in build/site."""
    cur = tree_hash()
    target = os.path.join(BUILD, "pytarget")
    site = os.path.join(BUILD, "site")
    stamp, same = fresh(target, "tree", cur)
    if same and os.path.exists(os.path.join(site, "interpn", "interpn.abi3.so")):
        return site
    drop_fingerprints(target)
    sh(["cargo", "build", "--lib", "--features", "python,fma", "--offline", "--locked", "--target-dir", target, "--manifest-path", os.path.join(REPO, "Cargo.toml")], REPO, "building the Python extension")
    shutil.rmtree(site, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "src", "interpn"), os.path.join(site, "interpn"), ignore=shutil.ignore_patterns("__pycache__", "*.so"))
    shutil.copy(os.path.join(target, "debug", "libinterpn.so"), os.path.join(site, "interpn", "interpn.abi3.so"))
    di = os.path.join(site, "interpn-0.0.0.dist-info")
    os.makedirs(di)
    open(os.path.join(di, "METADATA"), "w").write("Metadata-Version: 2.1\nName: interpn\nVersion: 0.0.0\n")
    open(stamp, "w").write(cur)
    return site


WHEELS = ["hypothesis-6.170.15-cp312-cp312-manylinux2014_x86_64.manylinux_2_17_x86_64.whl", "sortedcontainers-2.4.0-py2.py3-none-any.whl"]


def wheels():
    """Hypothesis, unpacked from the wheelhouse."""
    d = os.path.join(BUILD, "wheels")
    done = os.path.join(d, ".done")
    if not os.path.exists(done):
        for w in WHEELS:
            zipfile.ZipFile(os.path.join("/opt/veriftools/wheels", w)).extractall(d)
        open(done, "w").write("")
    return d


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def known():
    """id -> list of known findings (none suppresses anything: they are reported and skipped by signature)."""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        line = line.strip()
        if line.startswith("known: property="):
            pid = line.split("property=", 1)[1].split()[0]
            out.setdefault(pid, []).append(line.split(None, 2)[2])
    return out


def run(cmd, limit):
    p = subprocess.Popen(cmd, cwd=HERE, env=env(), start_new_session=True)
    try:
        return p.wait(limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None


def run_watched(cmd, limit, inflight, case_limit):
    """As run(); additionally gives up, with "hang", when one case has been executing for case_limit s."""
    p = subprocess.Popen(cmd, cwd=HERE, env=env(), start_new_session=True)
    t0 = time.time()
    while True:
        try:
            return p.wait(2)
        except subprocess.TimeoutExpired:
            pass
        old = [f for f in os.listdir(inflight) if time.time() - mtime(os.path.join(inflight, f)) > case_limit]
        if old or time.time() - t0 > limit:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            for f in os.listdir(inflight):
                if old and f not in old:
                    os.unlink(os.path.join(inflight, f))
            return "hang" if old else None


def mtime(p):
    try:
        return os.stat(p).st_mtime
    except OSError:
        return time.time()


# quick tier: multiples of the numbers of cases written in the harness
QUICK_SCALE = {"C03": 2, "C18": 1, "C19": 1, "C22": 2, "C23": 2}


def rust_check(pid, tier, seed, extra):
    pkg = RUST[pid]
    build_rust([pkg])
    exe = os.path.join(TARGET, "release", pkg)
    inflight = os.path.join(BUILD, f"inflight-{pid}")
    shutil.rmtree(inflight, ignore_errors=True)
    os.makedirs(inflight)
    ev = os.path.join(HERE, "evidence", f"{pid}.json")
    if tier == "quick" and "--scale" not in extra:
        extra = ["--scale", str(QUICK_SCALE.get(pid, 4))] + extra
    rc = run_watched([exe, "check", pid, "--tier", tier, "--seed", str(seed), "--evidence", ev, "--replays", REPLAYS, "--inflight", inflight] + extra, TIMEOUT[tier], inflight, CASE_LIMIT[tier])
    if rc == "hang" or (rc is not None and rc < 0):
        # killed by a signal (stack overflow, abort), or a case does not end: which case does that?
        print(f"{pid}: " + ("a case does not end" if rc == "hang" else f"killed by signal {-rc}") + "; re-running the cases that were executing", flush=True)
        for f in sorted(os.listdir(inflight)):
            src = os.path.join(inflight, f)
            try:
                json.load(open(src))
            except ValueError:
                continue
            r = run([exe, "replay", src], 60)
            if r is None or r < 0 or r == 1:
                dst = os.path.join(REPLAYS, f"{pid}-{f}")
                shutil.copy(src, dst)
                what = "is not answered within 60 s" if r is None else f"kills the process with signal {-r}" if r < 0 else "violates the property"
                print(f"{pid}: this input {what}")
                print(f"VIOLATION property={pid} replay={dst}")
                write_crash_evidence(ev, pid, tier, seed, json.load(open(src)))
                return 1
        return 2
    if rc is None:
        print(f"ERROR: {pid} did not finish in {TIMEOUT[tier]} s")
        return 2
    return rc


def write_crash_evidence(ev, pid, tier, seed, sample):
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration",
               "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run was cut short by a case that kills the process or does not end; only that case is counted", "samples": [sample]},
               "wall_s": 0.0, "violations": 1}, open(ev, "w"), indent=1)


def py_check(pid, tier, seed, extra):
    site = build_python()
    rc = run(["/opt/vp/venv/bin/python", os.path.join(HERE, "pychecks", "main.py"), "check", pid, "--tier", tier, "--seed", str(seed), "--site", site, "--wheels", wheels(),
              "--evidence", os.path.join(HERE, "evidence", f"{pid}.json"), "--replays", REPLAYS] + extra, TIMEOUT[tier])
    if rc is None:
        print(f"ERROR: {pid} did not finish in {TIMEOUT[tier]} s")
        return 2
    return rc if rc in (0, 1) else 2


def main():
    a = sys.argv[1:]
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    l = lock()
    if a[0] == "setup":
        build_rust(sorted(set(RUST.values())))
        build_python()
        wheels()
        return 0
    if a[0] == "replay":
        v = json.load(open(a[1]))
        pid = v["property"]
        if pid in PY:
            return run(["/opt/vp/venv/bin/python", os.path.join(HERE, "pychecks", "main.py"), "replay", os.path.abspath(a[1]), "--site", build_python(), "--wheels", wheels()], 900) or 0
        build_rust([RUST[pid]])
        return run([os.path.join(TARGET, "release", RUST[pid]), "replay", os.path.abspath(a[1])], 900)
    pid, tier = a[0], (a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED") or 1)
    for k in known().get(pid, []):
        print(f"KNOWN-FINDING: property={pid} {k}")
    sys.stdout.flush()
    f = py_check if pid in PY else rust_check
    rc = f(pid, tier, seed, a[2:])
    sys.stdout.flush()
    del l
    return rc


if __name__ == "__main__":
    sys.exit(main())
