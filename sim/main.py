#!/opt/venv/bin/python
"""Entry point of every check.

    main.py P01                 run the check of a property (tier and seed from the environment)
    main.py P01 --replay FILE   execute one recorded case again
    main.py P01 --runs N --seed S --digests FILE --workers W   determinism study
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def bootstrap():
    """Re-exec in a controlled environment (seams that must exist before the interpreter starts)."""
    import shutil
    import subprocess
    import tempfile

    scratch = tempfile.mkdtemp(prefix="petsim-")
    so = os.path.join(scratch, "shim.so")
    subprocess.run(
        ["gcc", "-O1", "-fPIC", "-shared", "-o", so, os.path.join(HERE, "shim.c"), "-ldl", "-lpthread"],
        check=True,
    )
    env = dict(
        PATH=os.environ.get("PATH", "/usr/bin:/bin"),
        PYTHONHASHSEED=os.environ.get("SIM_HASHSEED", "0"),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPATH=os.pathsep.join([os.path.join(REPO, "src"), VERIF]),
        MPLBACKEND="agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        HOME=os.path.join(scratch, "home"),
        XDG_CACHE_HOME=os.path.join(scratch, "cache"),
        NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
        NUMBA_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        BLOSC_NTHREADS="1",
        TZ="UTC",
        LC_ALL="C.UTF-8",
        VERIF_SEED=os.environ.get("VERIF_SEED", "1"),
        VERIF_TIER=os.environ.get("VERIF_TIER", "quick"),
        SIM_SCRATCH=scratch,
        SIM_CHILD="1",
        LD_PRELOAD=so,
        TMPDIR=scratch,
    )
    for k in ("SIM_RUNS", "SIM_CAP", "VP_REPO", "SIM_KEEP", "SIM_PROF", "SIM_NUMBA_CACHE"):
        if k in os.environ:
            env[k] = os.environ[k]
    if "SIM_NUMBA_CACHE" in os.environ:  # development only
        env["NUMBA_CACHE_DIR"] = os.environ["SIM_NUMBA_CACHE"]
    for d in ("mpl", "home", "cache", "numba"):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    # paths given on the command line are relative to the caller's folder
    argv = [os.path.abspath(a) if k and sys.argv[k] in ("--replay", "--digests") else a for k, a in enumerate(sys.argv[1:])]
    child = subprocess.Popen([PY, "-X", "faulthandler", os.path.abspath(__file__)] + argv, env=env, cwd=scratch)

    import signal

    def stop(signum, frame):
        child.terminate()
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(3)

    signal.signal(signal.SIGTERM, stop)
    try:
        rc = child.wait()
    finally:
        if not os.environ.get("SIM_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)
    return rc if rc >= 0 else 3


if __name__ == "__main__":
    if os.environ.get("SIM_CHILD") != "1":
        sys.exit(bootstrap())
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.path.join(REPO, "src"))
    from sim import engine

    sys.exit(engine.main(sys.argv[1:]))
