"""Development tool: builds and tries planted bugs.

  plant.py make SPEC.py        writes seeded/<id>/ from a specification (a python file with
                               ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO)
  plant.py try ID [CHECK...]   demo on both trees, stable tests and checks with the patch
  plant.py check ID CHECK...   only the checks

Everything happens in copies of /repo under /tmp/w/p."""
import json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
SCRATCH = "/tmp/w/p"
PY = "/opt/venv/bin/python"

DEMO_SH = """#!/bin/bash
# exit 0: behaves as described; nonzero: the property is broken
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
export DEMO_REPO="$PWD" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR="$scratch/numba" HOME="$scratch" OMP_NUM_THREADS=1
cd "$scratch" && %s "$here/demo.py"
""" % PY


def copy(id):
    d = os.path.join(SCRATCH, id)
    subprocess.run(["rm", "-rf", d]); os.makedirs(SCRATCH, exist_ok=True)
    subprocess.check_call(["cp", "-a", os.environ.get("PLANT_REPO", "/repo"), d])
    return d


def make(path):
    ns = {}
    exec(compile(open(path).read(), path, "exec"), ns)
    id = ns["ID"]
    d = copy("mk_" + id)
    for file, old, new in ns["EDITS"]:
        p = os.path.join(d, file)
        s = open(p).read()
        assert s.count(old) == 1, (file, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True, check=True).stdout
    subprocess.run(["rm", "-rf", d])
    out = os.path.join(SEEDED, id)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.py"), "w").write(ns["DEMO"].lstrip("\n"))
    open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    return id


def demo(id, cwd):
    t = time.time()
    r = subprocess.run(["bash", os.path.join(SEEDED, id, "demo.sh")], cwd=cwd, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:], time.time() - t


def original_lines(id):
    # the removed lines must exist in the base commit
    base = "476cb18"
    diff = open(os.path.join(SEEDED, id, "patch.diff")).read()
    file = None; n = k = 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            file = l[6:]
            txt = subprocess.run(["git", "show", base + ":" + file], cwd="/repo", capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("-"):
            n += 1; k += l[1:] in txt
    return "%d removed lines, %d in base" % (n, k)


def tests(d):
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("stable_pass") or base.get("stable") or base
    tests = [t for t in (names if isinstance(names, list) else names.get("tests", []))]
    r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-o",
        "python_files=test_*.py *_test.py decorators.py qz.py newton.py taylor_expansion.py", "--no-header", "-rA", "dolo/tests"],
        cwd=d, capture_output=True, text=True)
    return r.stdout


def run_tests(id, d):
    stable = json.load(open("/opt/vp/BASELINE.json"))
    env = dict(os.environ, PYTHONPATH=d)
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-o",
        "python_files=test_*.py *_test.py decorators.py qz.py newton.py taylor_expansion.py", "-rA", "-n0"] if 0 else
        [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-o",
        "python_files=test_*.py *_test.py decorators.py qz.py newton.py taylor_expansion.py", "-rA"],
        cwd=d, env=env, capture_output=True, text=True)
    ok = set(l.split()[1] for l in r.stdout.splitlines() if l.startswith("PASSED "))
    return ok, r.stdout


def check(id, d, c, seed="1"):
    env = dict(os.environ, DOLO_SIM_REPO=d, DOLO_SIM_CACHES=os.path.join(SCRATCH, "caches_" + id), VERIF_SEED=seed, VERIF_TIER="quick")
    t = time.time()
    r = subprocess.run([PY, os.path.join(HERE, "sim/run.py"), "check", c], cwd=HERE, env=env, capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return r.returncode, v, time.time() - t, (r.stdout + r.stderr)


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "make":
        for p in sys.argv[2:]:
            print(make(p))
    elif cmd in ("try", "check", "demo"):
        id = sys.argv[2]
        meta = json.load(open(os.path.join(SEEDED, id, "meta.json")))
        d = copy(id)
        if cmd in ("try", "demo"):
            print(id, original_lines(id))
            print(" demo clean :", *demo(id, d))
        subprocess.check_call(["git", "apply", os.path.join(SEEDED, id, "patch.diff")], cwd=d)
        if cmd in ("try", "demo"):
            print(" demo bug   :", *demo(id, d), flush=True)
        if cmd == "try":
            r = subprocess.run(["bash", "/tmp/w/teststable.sh", d], capture_output=True, text=True)
            print(" tests      :", r.stdout.strip()[-300:], flush=True)
        if cmd != "demo":
            for c in sys.argv[3:] or [meta["property"]]:
                rc, v, t, out = check(id, d, c)
                print(" %s: exit %d %.0fs %s" % (c, rc, t, v[:1] or out[-300:]), flush=True)
        subprocess.run(["rm", "-rf", d, os.path.join(SCRATCH, "caches_" + id)])
