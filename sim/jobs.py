"""Jobs executed in fresh interpreters: a workload under one environment, with its results as plain data."""
import os
import sys
import time

import numpy as np

from . import faults, sched
from . import tracklib as T
from . import world as W


TOUCH = None  # seed of the modification times of the input files


def touch(files):
    import random

    r = random.Random(f"{TOUCH}/{len(files)}")
    for f in files:
        t = 1600000000 + r.randrange(3) * 86400
        os.utime(f, (t, t))


def run(job):
    """job: dir, env (clock, tz, listing, ...), prior (list of workloads), task (workload), choices (interleaving)."""
    global TOUCH
    env, top = job["env"], job["dir"]
    TOUCH = env.get("touch")
    os.makedirs(top, exist_ok=True)
    if env.get("tz"):
        os.environ["TZ"] = env["tz"]
        time.tzset()
    undo = []
    if env.get("listing"):
        undo = shuffle_listing(env["listing"])
    if env.get("clock"):
        faults.clock(**env["clock"])
    faults.memory(env.get("memory", 0))
    failures = []
    try:
        for k, p in enumerate(job.get("prior", [])):
            d = os.path.join(top, "work" if p.get("same_path") else f"prior{k}")
            try:
                workload(p, d)
            except Exception as e:
                failures.append(type(e).__name__)
            if p.get("same_path"):
                wipe(os.path.join(d, "in"))
                wipe(os.path.join(d, "out"))
        work = os.path.join(top, "work")
        if job.get("beside"):
            from py_eddy_tracker.observations.observation import EddiesObservations

            u = sched.hook(EddiesObservations, "load_file")
            s = sched.Scheduler(job["choices"], log=[])
            s.add(workload, job["task"], work)
            s.add(guarded, job["beside"], os.path.join(top, "beside"))
            try:
                s.run()
            finally:
                u()
            if s.tasks[0]["error"] is not None:
                raise s.tasks[0]["error"]
            switches = s.switches
        else:
            workload(job["task"], work)
            switches = 0
        res = collect(os.path.join(work, "out"), work)
        return dict(results=res, failures=failures, switches=switches, clock_reads=faults.clock_reads())
    finally:
        for u in undo:
            u()
        faults.clock(None)


def wipe(d):
    import shutil

    shutil.rmtree(d, ignore_errors=True)


def guarded(p, d):
    try:
        workload(p, d)
    except Exception:
        pass


def workload(p, d):
    """Run one workload in folder d: inputs in d/in, results in d/out."""
    inp, out = os.path.join(d, "in"), os.path.join(d, "out")
    os.makedirs(out, exist_ok=True)
    files = W.write_files(p["world"], inp, p.get("ext", "nc"))
    if p.get("spoil"):
        with open(files[p["spoil"] % len(files)], "r+b") as h:
            h.truncate(40)
    if TOUCH is not None:
        touch(files)
    pattern = os.path.join(inp, "Eddy_*." + p.get("ext", "nc")) if p.get("glob", True) else list(files)
    if p.get("reverse") and not p.get("glob", True):
        pattern = pattern[::-1]
    if p["kind"] == "track":
        T.run_track(pattern, out, p["settings"])
    elif p["kind"] == "network":
        from py_eddy_tracker.appli import network as app

        s = p["settings"]
        net = os.path.join(out, "net.nc")
        argv = ["-w", str(s["window"]), "-p", str(s["overlap"])] + (["--intern"] if s["intern"] else [])
        call(app.build_network, [os.path.join(inp, "Eddy_*.nc"), net] + argv + (["--memory"] if s["memory"] else []))
        call(app.divide_network, [net, os.path.join(out, "divided.nc")] + argv)
    else:
        raise ValueError(p["kind"])


def call(fn, argv):
    old, sys.argv = sys.argv, ["program"] + argv
    try:
        fn()
    finally:
        sys.argv = old


def collect(out, root):
    """Every variable and attribute of every file below out."""
    from netCDF4 import Dataset

    res = {}
    for base, dirs, files in sorted(os.walk(out)):
        for f in sorted(files):
            if not f.endswith(".nc"):
                continue
            p = os.path.join(base, f)
            name = os.path.relpath(p, out)
            with Dataset(p) as h:
                h.set_auto_maskandscale(False)
                res[name, "dimensions"] = {k: len(v) for k, v in h.dimensions.items()}
                res[name, "attributes"] = {k: plain(h.getncattr(k), root) for k in h.ncattrs()}
                for k, v in h.variables.items():
                    res[name, "variable", k] = (str(v.dtype), v.dimensions, plain(v[:], root),
                                                {a: plain(v.getncattr(a), root) for a in v.ncattrs()})
        for dname in list(dirs):
            if dname.endswith(".zarr"):
                import zarr

                p = os.path.join(base, dname)
                name = os.path.relpath(p, out)
                h = zarr.open(p, "r")
                res[name, "attributes"] = {k: plain(v, root) for k, v in h.attrs.items()}
                for k in h.array_keys():
                    res[name, "variable", k] = (str(h[k].dtype), (), plain(h[k][:], root), {a: plain(v, root) for a, v in h[k].attrs.items()})
                dirs.remove(dname)
    return res


def plain(v, root):
    if isinstance(v, np.ndarray):
        v = np.ma.getdata(v)
        if v.dtype.kind == "O" or v.dtype.kind in "SU":
            return [str(x).replace(root, "<work>") for x in v.ravel().tolist()]
        return (str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, bytes):
        return v.decode(errors="replace").replace(root, "<work>")
    if isinstance(v, str):
        return v.replace(root, "<work>")
    if isinstance(v, np.generic):
        return (str(v.dtype), v.item() if v == v else "nan")
    return v


def shuffle_listing(seed):
    """The folder is listed in another order (glob and os.walk read it through scandir and listdir)."""
    import random

    scan, ls = os.scandir, os.listdir

    class Listing:
        def __init__(self, path):
            with scan(path) as it:
                items = sorted(it, key=lambda e: e.name)
            random.Random(f"{seed}/{len(items)}").shuffle(items)
            self.it = iter(items)

        def __iter__(self):
            return self.it

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

    def listdir(path="."):
        names = sorted(ls(path))
        random.Random(f"{seed}/{len(names)}").shuffle(names)
        return names

    os.scandir, os.listdir = lambda path=".": Listing(path), listdir

    def undo():
        os.scandir, os.listdir = scan, ls

    return [undo]
