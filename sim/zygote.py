"""Interpreters with other hash seeds, each serving jobs in forked children with a fresh state.

A zygote imports the package and loads the compiled functions (without calling them), then forks one
child per request.  The child of a request has never run anything of the package before.
"""
import importlib
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys
import time

SEEDS = ("0", "1", "271828")


def dispatchers():
    """Compiled functions of the package."""
    out = []
    for mn, m in sorted(sys.modules.items()):
        if not mn.startswith("py_eddy_tracker") or m is None:
            continue
        for k, v in sorted(vars(m).items()):
            if hasattr(v, "py_func") and hasattr(v, "signatures") and v.py_func.__module__ == mn:
                out.append(v)
    return out


def preload():
    """Load every specialisation found in the cache of compiled code, without calling anything."""
    n = 0
    for d in dispatchers():
        try:
            keys = list(d._cache._cache_file._load_index())
        except Exception:
            continue
        for k in keys:
            if k[0] not in d.overloads:
                try:
                    d.compile(k[0])
                    n += 1
                except Exception:
                    pass
    return n


def start(scratch):
    """Start the zygotes; called once before the workers are forked."""
    procs = []
    for hs in SEEDS:
        env = dict(os.environ, PYTHONHASHSEED=hs)
        sock = os.path.join(scratch, f"zy{hs}.sock")
        if os.path.exists(sock):
            os.remove(sock)
        procs.append((hs, sock, subprocess.Popen([sys.executable, "-m", "sim.zygote", sock, str(os.getpid())], env=env)))
    end = time.monotonic() + 240
    for hs, sock, p in procs:
        while not os.path.exists(sock):
            if p.poll() is not None or time.monotonic() > end:
                raise RuntimeError("zygote did not start")
            time.sleep(0.05)


def call(scratch, hashseed, job):
    """Run sim.jobs.run(job) in a fresh child of the interpreter with this hash seed."""
    s = socket.socket(socket.AF_UNIX)
    s.connect(os.path.join(scratch, f"zy{hashseed}.sock"))
    b = pickle.dumps(job)
    s.sendall(struct.pack("<I", len(b)) + b)
    s.shutdown(socket.SHUT_WR)
    data = b""
    while True:
        c = s.recv(1 << 20)
        if not c:
            break
        data += c
    s.close()
    if not data:
        return dict(died=True)
    return pickle.loads(data)


def serve(sock, parent):
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    try:
        from numcodecs import blosc

        blosc.use_threads = False
    except ImportError:
        pass
    for m in ("py_eddy_tracker.appli.eddies", "py_eddy_tracker.appli.network", "py_eddy_tracker.appli.grid", "py_eddy_tracker.tracking",
              "py_eddy_tracker.featured_tracking.area_tracker", "py_eddy_tracker.featured_tracking.old_tracker_reference"):
        importlib.import_module(m)
    from . import jobs

    preload()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(sock + ".tmp")
    srv.listen(64)
    os.rename(sock + ".tmp", sock)
    srv.settimeout(1.0)
    while True:
        try:
            c, _ = srv.accept()
        except TimeoutError:
            if os.getppid() != parent:
                os._exit(0)
            continue
        if os.fork():
            c.close()
            continue
        srv.close()
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        signal.alarm(170)
        c.settimeout(None)
        b = b""
        while True:
            d = c.recv(1 << 20)
            if not d:
                break
            b += d
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        if not os.environ.get("SIM_KEEP"):
            os.dup2(dn, 2)
        try:
            if os.environ.get("SIM_PROF"):
                import cProfile, pstats
                pr = cProfile.Profile(); t0=time.time()
                out = pr.runcall(jobs.run, pickle.loads(b[4:]))
                with open("/tmp/x/prof6.txt", "a") as h:
                    h.write(f"TOTAL {time.time()-t0}\n")
                    pstats.Stats(pr, stream=h).sort_stats("tottime").print_stats(14)
            else:
                out = jobs.run(pickle.loads(b[4:]))
        except BaseException as e:
            import traceback

            tb = traceback.extract_tb(e.__traceback__)
            inside = any("py_eddy_tracker" in f.filename for f in tb)
            out = dict(error=traceback.format_exc(), kind=type(e).__name__, inside=inside)
        c.sendall(pickle.dumps(out))
        c.close()
        os._exit(0)


if __name__ == "__main__":
    serve(sys.argv[1], int(sys.argv[2]))
