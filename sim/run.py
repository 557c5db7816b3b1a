#!/usr/bin/env python3
"""run.py check C01 [--tier quick|thorough] | run.py replay FILE"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WANT = {
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
}


def reexec():
    if all(os.environ.get(k) == v for k, v in WANT.items()) and os.environ.get("DOLO_SIM_READY"):
        return
    import tempfile
    env = dict(os.environ, **WANT)
    env["DOLO_SIM_READY"] = "1"
    env.pop("PYTHONPATH", None)
    # private caches, so that nothing is written into /repo and nothing stale is read
    if "DOLO_SIM_CACHES" in env:  # developer convenience only: keep the JIT cache between runs
        work = env["DOLO_SIM_CACHES"]
    else:
        work = tempfile.mkdtemp(prefix="dolosim-caches-")
        env["DOLO_SIM_CACHES_TMP"] = work
    env["PYTHONPYCACHEPREFIX"] = work + "/pyc"
    env["NUMBA_CACHE_DIR"] = work + "/numba"
    env["MPLCONFIGDIR"] = work + "/mpl"
    for d in ("numba", "mpl"):
        os.makedirs(os.path.join(work, d), exist_ok=True)
    os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    reexec()
    sys.path.insert(0, os.path.dirname(HERE))
    repo = os.environ.get("DOLO_SIM_REPO", "/repo")
    sys.path.insert(0, repo)
    import importlib
    import json
    import shutil
    from sim import core
    code = 2
    try:
        if sys.argv[1] == "check":
            pid = sys.argv[2]
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--tier" in sys.argv:
                tier = sys.argv[sys.argv.index("--tier") + 1]
            seed = int(os.environ.get("VERIF_SEED", "1"))
            mod = importlib.import_module("sim.checks." + pid.lower())
            code = core.run_check(mod.CHECK, tier, seed)
        elif sys.argv[1] == "replay":
            path = os.path.abspath(sys.argv[2])
            pid = json.load(open(path))["property"]
            mod = importlib.import_module("sim.checks." + pid.lower())
            code = core.run_replay(mod.CHECK, path)
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    finally:
        tmp = os.environ.get("DOLO_SIM_CACHES_TMP")
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


main()
