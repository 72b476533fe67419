"""Programs interrupted and rerun give the products of an undisturbed chain."""
import contextlib
import hashlib
import io
import os
import pickle
import random
import runpy
import shutil
import signal
import sys

import numpy as np

from .. import core, faults, jobs
from .. import world as W
from .p16 import Break

RUNS = dict(quick=160, thorough=6000)
RULE = (
    "A case is a chain of the installed programs run on one folder (identification of small grids or synthetic detections, then "
    "tracking, finishing, merging, subsetting, translating, circles, frequency, comparisons, networks, filtering), with faulty "
    "attempts of some programs (process killed after a sampled operation, failing writes, reads or opens, interruption or failing "
    "call inside the program, short transfers) before the clean one. Every run is non-trivial: at least one attempt is faulty."
)
MEASURE = "distinct (program, kind of fault, outcome of the attempt, what was found of its products)"
REAL = ["every command-line program of the package but the two graphical ones, from its argument parser to its output files",
        "netCDF4, HDF5 and zarr libraries, numba kernels"]
STUB = ["wall clock", "system calls below the working folder can fail, stop the process or transfer less than asked"]
SCRIPTS = os.path.join(os.environ.get("VP_REPO", "/repo"), "src", "scripts")
NOW = 1600000000.0
KINDS = ("kill", "kill", "kill", "write", "write", "read", "open", "stop", "call", "short", "missing", "cut")
WORLD_STEPS = ("final", "merge", "translate", "subset", "circle", "frequency", "infos", "compare", "group", "paths", "netsub", "netcompare", "filter")
ODD = ("filter",)
NEEDS = dict(final=("track",), merge=("track",), subset=("track",), paths=("group",), netsub=("group", "paths"), netcompare=("group", "paths"), track=(),
             group=(), translate=(), circle=(), frequency=(), infos=(), compare=(), filter=())


def gen(rng, tier, i):
    n = rng.randint(3, 7)
    w = W.gen_world(rng, "crowd", n, max_eddies=7, allow_empty=rng.random() < 0.15)
    grids = rng.random() < 0.15
    asked = set(rng.sample(WORLD_STEPS, rng.randint(1, 3)))
    if rng.random() < 0.3 or grids:
        asked.add("track")
    for s in list(asked):
        asked.update(NEEDS[s])
    order = [s for s in ("track",) + WORLD_STEPS if s in asked]
    faulty = rng.sample(order, rng.randint(1, min(3, len(order))))
    return dict(
        world=w, n_grid=rng.randint(2, 3) if grids else 0, steps=order, seed=rng.randrange(1 << 30), older=rng.choice((False, False, False, "less", "options", "options")),
        attempts={s: [dict(kind=rng.choice(KINDS), at=round(rng.random(), 4), err=rng.choice(("ENOSPC", "EIO", "EDQUOT")), sticky=rng.random() < 0.5)
                      for _ in range(rng.randint(1, 3))]
                  for s in faulty + ["id0"] * (grids and rng.random() < 0.5) + ["back", "dump"] * ("translate" in order and rng.random() < 0.5)},
    )


def warmup(tmp):
    for k, steps in enumerate((("track",) + WORLD_STEPS, ("track",))):
        c = gen(random.Random(k), "quick", 0)
        c.update(steps=list(steps), n_grid=2 * k, older=False, attempts={})
        # inside this process: its children find every kernel loaded
        top = os.path.join(tmp, f"inline{k}")
        for s in plan(c, top, *inputs(c, top)):
            faults.clock(NOW)
            inside(s, top)
        faults.clock(None)


def inside(s, top):
    for d in s.make:
        os.makedirs(os.path.join(top, "out", d), exist_ok=True)
    old, sys.argv = sys.argv, list(s.argv)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            entry(s.argv[0])()
    except (Exception, SystemExit):
        pass
    finally:
        sys.argv = old


# ---- programs -----------------------------------------------------------------------
def entry(program):
    from py_eddy_tracker.appli import eddies, grid, misc, network

    return dict(
        EddyTracking=eddies.eddies_tracking, MergeEddies=eddies.merge_eddies, EddyFrequency=eddies.get_frequency_grid,
        EddyInfos=eddies.display_infos, EddyCircle=eddies.eddies_add_circle, EddyQuickCompare=eddies.quick_compare,
        EddyNetworkGroup=network.build_network, EddyNetworkBuildPath=network.divide_network,
        EddyNetworkSubSetter=network.subset_network, EddyNetworkQuickCompare=network.quick_compare,
        GridFiltering=grid.grid_filtering, EddyId=grid.eddy_id, ZarrDump=misc.zarrdump,
    ).get(program) or (lambda: runpy.run_path(os.path.join(SCRIPTS, program), run_name="__main__"))


class Step:
    def __init__(self, name, argv, judge=None, make=()):
        self.name, self.argv, self.judge, self.make = name, [str(a) for a in argv], judge, make


def inputs(case, top, less=0):
    """Write the inputs of the chain; `less` removes steps (an older state of the archive)."""
    import yaml

    w = dict(case["world"])
    w["n_step"] -= less
    inp = os.path.join(top, "in")
    shutil.rmtree(inp, ignore_errors=True)
    files = W.write_files(w, inp)
    if case["n_grid"] or "filter" in case["steps"]:
        write_grids(inp, max(1, case["n_grid"]), case["seed"] + less)
    sign = "Anticyclonic" if w["sign"] == 1 or case["n_grid"] else "Cyclonic"
    r = random.Random(f"{case['seed']}/track")
    n = case["n_grid"] or w["n_step"]
    cfg = dict(PATHS=dict(FILES_PATTERN=os.path.join(top, "out/id/Anticyclonic_*.nc" if case["n_grid"] else "in/Eddy_*.nc"),
                          SAVE_DIR=os.path.join(top, "out", "track")), VIRTUAL_LENGTH_MAX=r.choice((0, 0, 2, 3)), TRACK_DURATION_MIN=r.randint(1, n))
    if r.random() < 0.5:
        m, c = W.TRACKERS["area"]
        cfg["CLASS"] = dict(MODULE=m, CLASS=c, OPTIONS=dict(cmin=0.1))
    with open(os.path.join(inp, "conf.yaml"), "w") as h:
        yaml.safe_dump(cfg, h)
    os.makedirs(os.path.join(top, "out"), exist_ok=True)
    return files, sign, cfg


def write_grids(folder, n, seed):
    from netCDF4 import Dataset

    r = random.Random(f"{seed}/grid")
    x, y = 10 + np.arange(34) * 0.25, 35 + np.arange(26) * 0.25
    bumps = [(r.uniform(12, 16.5), r.uniform(36.5, 40), r.choice((-1, 1, 1)) * r.uniform(0.1, 0.3), r.uniform(0.5, 0.8)) for _ in range(4)]
    drift = r.uniform(-0.1, 0.1)
    for t in range(n):
        ax, ay = np.meshgrid(x, y)
        z = sum(a * np.exp(-((ax - bx - drift * t) ** 2 + (ay - by) ** 2) / s**2) for bx, by, a, s in bumps) + 0.01 * ax
        with Dataset(os.path.join(folder, f"grid{t}.nc"), "w") as h:
            h.createDimension("lat", y.size), h.createDimension("lon", x.size)
            h.createVariable("lon", "f8", ("lon",))[:] = x
            h.createVariable("lat", "f8", ("lat",))[:] = y
            v = h.createVariable("adt", "f8", ("lat", "lon"), fill_value=1e20)
            v.units = "m"
            m = np.zeros(z.shape, bool)
            m[:2, :3] = True
            v[:] = np.ma.array(z, mask=m)


def plan(case, top, files, sign, cfg):
    """The steps, in order, with their arguments."""
    r = random.Random(f"{case['seed']}/plan")
    out = lambda *p: os.path.join(top, "out", *p)
    inp = lambda *p: os.path.join(top, "in", *p)
    trk = out("track", sign + ".nc")
    steps = []
    for t in range(case["n_grid"]):
        argv = ["EddyId", inp(f"grid{t}.nc"), f"202001{10 + t}", "adt", "None", "None", "lon", "lat", out("id"), "--cut_wavelength", "0", "--isoline_step", "0.02"]
        steps.append(Step(f"id{t}", argv, make=("id",)))
    for s in case["steps"]:
        z = random.Random(f"{case['seed']}/{s}")
        if s == "track":
            argv = ["EddyTracking", inp("conf.yaml")] + z.choice(([], [], ["--unraw"], ["--memory"]))
            steps.append(Step(s, argv, judge_track))
        elif s == "final":
            corr = out("track", sign + "_correspondances.nc")
            steps.append(Step(s, ["EddyFinalTracking", corr, "--path_out", out("final"), "--nb_obs_min", cfg["TRACK_DURATION_MIN"]], judge_final))
        elif s == "merge":
            argv = ["MergeEddies", trk, out("track", sign + "_track_too_short.nc"), out("merged.nc")]
            if z.random() < 0.4:
                argv[1:1] = [trk]
            if z.random() < 0.5:
                argv.append("--add_rotation_variable")
            steps.append(Step(s, argv, judge_merge))
        elif s == "translate":
            src = trk if "track" in case["steps"] and z.random() < 0.5 else files[z.randrange(len(files))]
            ext = z.choice(("zarr", "nc"))
            steps.append(Step(s, ["EddyTranslate", src, out("translated." + ext)] + ["--unraw"] * (z.random() < 0.5), judge_same))
            if ext == "zarr":
                steps.append(Step("back", ["EddyTranslate", out("translated.zarr"), out("back.nc")], judge_same))
                steps.append(Step("dump", ["ZarrDump", out("translated.zarr")]))
        elif s == "subset":
            steps.append(Step(s, ["EddySubSetter", trk, out("subset.nc")] + selection(case, z), judge_subset))
        elif s == "circle":
            src = trk if "track" in case["steps"] and z.random() < 0.5 else files[z.randrange(len(files))]
            steps.append(Step(s, ["EddyCircle", src, out("circle.nc")], judge_circle))
        elif s == "frequency":
            x0 = case["world"]["lon0"] + 190
            argv = ["EddyFrequency", files[z.randrange(len(files))], out("frequency.nc"), "--xrange", x0, x0 + 12, 0.5, "--yrange", 30, 40, 0.5]
            steps.append(Step(s, argv + ["--intern"] * (z.random() < 0.5)))
        elif s == "infos":
            steps.append(Step(s, ["EddyInfos", *z.sample(files, min(len(files), z.randint(1, 3)))], judge_infos))
        elif s == "compare":
            zf = random.Random(f"{case.get('files', case['seed'])}/compare")
            argv = ["EddyQuickCompare", *zf.sample(files, min(len(files), zf.randint(2, 3)))]
            if zf.random() < 0.7:
                argv += ["--path_out", out("groups")]
            elif z.random() < 0.5:
                argv.append("--area")
            argv += z.choice(([], [], ["--low", 1, "--high", 2], ["--low", 60, "--high", 90])) + ["--minimal_area"] * (z.random() < 0.3)
            steps.append(Step(s, argv + ["--invalid", z.choice((0, 5, 10)), "--intern"][: z.choice((0, 2, 3))], judge_compare))
        elif s in ("group", "paths"):
            r2 = random.Random(f"{case['seed']}/net")
            argv = ["-w", r2.randint(1, 3), "-p", r2.choice((0.05, 0.2))] + ["--intern"] * (r2.random() < 0.3)
            if s == "group":
                steps.append(Step(s, ["EddyNetworkGroup", inp("Eddy_*.nc"), out("net.nc")] + argv + ["--memory"] * (z.random() < 0.5), judge_group))
            else:
                steps.append(Step(s, ["EddyNetworkBuildPath", out("net.nc"), out("divided.nc")] + argv, judge_paths))
        elif s == "netsub":
            argv = z.choice((["--remove_trash"], ["-l", z.randint(1, 3), -1], ["--remove_dead_end", z.randint(1, 3), 2], ["-p", 1, -1], []))
            if "-p" in argv:
                argv = ["-p", case["world"]["day0"] + z.randint(0, 2), -z.randint(1, 2)]
            steps.append(Step(s, ["EddyNetworkSubSetter", out("divided.nc"), out("netsub.nc")] + argv))
        elif s == "netcompare":
            steps.append(Step(s, ["EddyNetworkQuickCompare", out("divided.nc"), out("divided.nc")]))
        elif s == "filter":
            argv = ["GridFiltering", inp("grid0.nc"), "adt", "lon", "lat", out("filtered.nc"), "--cut_wavelength", z.choice((150, 250)), "--filter_order", z.choice((1, 3))]
            steps.append(Step(s, argv + z.choice(([], ["--low"], ["--extend", "1"])), judge_filter))
    return steps


def selection(case, z):
    """Options of the subsetter (two of them at most, applied in the program's order)."""
    day = case["world"]["day0"]
    n = case["world"]["n_step"]
    x, y = case["world"]["lon0"] + case["world"]["eddies"][0]["x"] + z.choice((0, 0, 360)), case["world"]["eddies"][0]["y"]
    opts = [
        ["-i"] + [z.randint(0, 5) for _ in range(z.randint(1, 3))],
        ["-l", *z.choice(((2, -1), (3, -1), (-1, 3), (2, 4)))],
        ["-p", *z.choice(((day + 1, day + max(1, n - 2)), (day + 1, 0), (0, day + n - 2), (-1, -1), (0, -2), (-2, 0)))],
        ["-a", x - z.choice((1, 6)), y - z.choice((0.5, 4)), x + z.choice((1, 6)), y + z.choice((0.5, 4))],
        ["--direction", z.choice("EWNS")],
    ]
    got = sum(z.sample(opts, z.randint(1, 2)), [])
    if {"-p", "-a"} & set(got) and z.random() < 0.5:
        got += z.choice((["-f"], ["-d"], ["-f", "--reject_virtual"]))
    if z.random() < 0.3:
        got.append("-n")
    return got


# ---- one attempt ----------------------------------------------------------------------
def attempt(case, ctx, top, step, fault=None):
    """Run the program in a child: (how it ended, what it printed, calls counted)."""
    res = os.path.join(ctx.root, "result")
    if os.path.exists(res):
        os.unlink(res)
    pid = os.fork()
    if pid == 0:
        code = 4
        try:
            signal.alarm(100)
            for d in step.make:
                os.makedirs(os.path.join(top, "out", d), exist_ok=True)
            text, b = io.StringIO(), Break(-1, KeyboardInterrupt)
            faults.clock(NOW)
            sys.argv = list(step.argv)
            fn = entry(step.argv[0])
            faults.arm(top)
            if fault:
                k, at = fault["kind"], fault["at"]
                if k == "kill":
                    faults.die_at(at)
                elif k == "write":
                    faults.fail_mut(at, fault["err"], fault["sticky"])
                elif k == "read":
                    faults.fail_read(at, "EIO", fault["sticky"])
                elif k == "open":
                    faults.fail_open(at, "EIO", fault["sticky"])
                elif k == "short":
                    faults.transfers(500, 0, case["seed"])
                elif k in ("stop", "call"):
                    b = Break(at, KeyboardInterrupt if k == "stop" else MemoryError)
            how = "ok"
            with contextlib.redirect_stdout(text):
                if fault is None or b.at > 0:
                    sys.setprofile(b)
                try:
                    fn()
                except SystemExit as e:
                    how = "ok" if e.code in (None, 0) else "exit"
                except BaseException as e:
                    how = type(e).__name__
                    if os.environ.get("SIM_KEEP"):
                        import traceback

                        traceback.print_exc()
                finally:
                    sys.setprofile(None)
            n = dict(faults.counts(), call=b.n)
            faults.disarm()
            with open(res, "wb") as h:
                pickle.dump((how, text.getvalue(), n), h)
            code = 0
        finally:
            os._exit(code)
    st = os.waitpid(pid, 0)[1]
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
        with open(res, "rb") as h:
            return pickle.load(h)
    ctx.check(not (os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM), f"stuck/{step.argv[0]}", "the program does not end")
    return "died", "", {}


# ---- what is on disk -------------------------------------------------------------------
def tree(top):
    """Every product (file or zarr folder) below a folder; temporary names (hidden) are not products."""
    got = []
    for base, dirs, files in os.walk(top):
        dirs.sort()
        for d in list(dirs):
            if d.startswith("."):
                dirs.remove(d)
            elif d.endswith(".zarr"):
                dirs.remove(d)
                got.append(os.path.relpath(os.path.join(base, d), top))
        got += [os.path.relpath(os.path.join(base, f), top) for f in files if not f.startswith(".")]
    return sorted(got)


def stamp(path):
    """Digest of the bytes of a file or folder."""
    h = hashlib.sha1()
    for base, dirs, files in os.walk(path) if os.path.isdir(path) else [(os.path.dirname(path), [], [os.path.basename(path)])]:
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(f"{os.path.relpath(p, path)} {os.path.getsize(p)}\n".encode())
            with open(p, "rb") as g:
                h.update(g.read())
    return h.hexdigest()


def snapshot(folder, root, memo={}):
    got = {}
    for p in tree(folder):
        full = os.path.join(folder, p)
        k = root, p[p.rfind("."):], stamp(full)
        if k not in memo:
            memo[k] = content(full, root)
        got[p] = memo[k]
    return got


def content(path, root):
    """Everything a reader gets from a product, None when it does not read."""
    from netCDF4 import Dataset

    res = {}
    plain = jobs.plain
    try:
        if path.endswith(".zarr"):
            import zarr

            h = zarr.open(path, "r")
            res["attributes"] = {k: plain(v, root) for k, v in h.attrs.items()}
            for k in h.array_keys():
                res["variable", k] = str(h[k].dtype), plain(h[k][:], root), {a: plain(v, root) for a, v in h[k].attrs.items()}
        elif path.endswith(".nc"):
            with Dataset(path) as h:
                h.set_auto_maskandscale(False)
                res["dimensions"] = {k: len(v) for k, v in h.dimensions.items()}
                res["attributes"] = {k: plain(h.getncattr(k), root) for k in h.ncattrs()}
                for k, v in h.variables.items():
                    res["variable", k] = str(v.dtype), v.dimensions, plain(v[:], root), {a: plain(v.getncattr(a), root) for a in v.ncattrs()}
        else:
            with open(path, "rb") as h:
                res["bytes"] = h.read()
    except Exception:
        return None
    return res


def diff(a, b):
    for k in sorted(set(a) | set(b), key=str):
        if a.get(k) != b.get(k):
            if k not in a or k not in b:
                return f"{k} only in one"
            return f"{k} differs"
    return "same"


# ---- the run ---------------------------------------------------------------------------
def run(case, ctx):
    top = ctx.dir("work")
    out = os.path.join(top, "out")
    ctx.nontrivial = True
    ctx.simdays += case["world"]["n_step"]
    previous = {}
    if case["older"] and (case["world"]["n_step"] > 3 or case["older"] == "options"):
        # an earlier run: with less dates, or with other options of the programs
        less = case["older"] == "less"
        before = case if less else dict(case, seed=case["seed"] + 1, files=case["seed"])
        files, sign, cfg = inputs(before, top, less=int(less))
        cfg["TRACK_DURATION_MIN"] = min(cfg["TRACK_DURATION_MIN"], len(files))
        for s in plan(before, top, files, sign, cfg):
            how, text, n = attempt(case, ctx, top, s)
        previous = snapshot(out, top)
        kept = os.path.join(ctx.root, "older")
        shutil.move(out, kept)
        ctx.probe(f"older products in place ({case['older']})")
    # the chain nothing disturbs
    files, sign, cfg = inputs(case, top)
    steps = plan(case, top, files, sign, cfg)
    before_in = snapshot(os.path.join(top, "in"), top)
    want, text, ops, seen, hows = {}, {}, {}, {}, {}
    for s in steps:
        how, text[s.name], ops[s.name] = attempt(case, ctx, top, s)
        refused = how != "ok" and not nothing_to_compare(s)
        hows[s.name] = how
        ctx.log("reference", s.name, how, sorted((k, v) for k, v in ops[s.name].items() if k != "read"))
        ctx.check(not refused, f"raised/{s.argv[0]}", lambda: f"{' '.join(s.argv)} ended with {how} without any fault".replace(ctx.root, "<scratch>"))
        now = snapshot(out, top)
        for p in seen:
            ctx.check(now.get(p) == seen[p], f"changed-other/{s.argv[0]}", lambda: f"{p} was changed by the program")
        want[s.name] = {p: now[p] for p in now if p not in seen}
        for p, c in want[s.name].items():
            ctx.check(c is not None, f"unreadable/{s.argv[0]}", lambda: f"{p} does not read after the program ended normally")
        hidden(ctx, out, s)
        if s.judge and how == "ok":
            s.judge(case, ctx, s, top, text[s.name], want[s.name])
        seen = now
    ctx.check(snapshot(os.path.join(top, "in"), top) == before_in, "inputs", "an input file was changed")
    shutil.rmtree(out)
    if previous:
        shutil.move(kept, out)
    else:
        os.makedirs(out)
    # the same chain, disturbed
    have = dict(previous)
    for s in steps:
        for a in case["attempts"].get(s.name, ()) if hows[s.name] == "ok" else ():
            disturbed(case, ctx, top, s, a, ops[s.name], want[s.name], text[s.name], have, before_in)
        how, said, n = attempt(case, ctx, top, s)
        ctx.check(how == hows[s.name], f"rerun/{s.argv[0]}", lambda: f"{how} when run again after {case['attempts'].get(s.name)}")
        ctx.check(said == text[s.name], f"rerun-text/{s.argv[0]}", lambda: f"prints something else when run again: {said!r} / {text[s.name]!r}"[:300].replace(ctx.root, "<scratch>"))
        now = snapshot(out, top)
        for p, c in want[s.name].items():
            ctx.check(now.get(p) == c, f"rerun-product/{s.argv[0]}", lambda: f"{p} after a rerun: {'absent' if p not in now else diff(now[p] or {}, c)}")
        for p in now:
            ok = p in want[s.name] or now[p] == have.get(p, "absent")
            ctx.check(ok, f"rerun-other/{s.argv[0]}", lambda: f"{p} {'changed' if p in have else 'appeared'}")
        have = now
        ctx.log("rerun", s.name, how, len(now))
    ctx.check(snapshot(os.path.join(top, "in"), top) == before_in, "inputs", "an input file was changed")


def nothing_to_compare(s):
    """Networks are compared from two observations: the program refuses when there is none."""
    return s.name == "netcompare" and np.unique(raw(s.argv[1])["track"], return_counts=True)[1].max() < 2


def hidden(ctx, out, s):
    """A program which ended normally leaves no temporary file."""
    for base, dirs, files in os.walk(out):
        for f in dirs + files:
            if f.startswith(".") and not base.endswith(".zarr") and ".zarr/" not in base and f not in (".zattrs", ".zgroup", ".zarray", ".zmetadata"):
                ctx.check(False, f"debris/{s.argv[0]}", f"{f.split('.')[1]} left in {os.path.relpath(base, out)}")


def disturbed(case, ctx, top, s, a, n, want, text, have, before_in):
    a = dict(a)
    if a["kind"] in ("missing", "cut"):
        victims = [p for p in s.argv[1:] if p.startswith(top) and (os.path.isfile(p) or p.endswith(".zarr") and a["kind"] == "missing" and os.path.isdir(p))
                   and os.path.relpath(p, os.path.join(top, "out")) not in want and not p.endswith(".yaml")]
        if not victims:
            return
        a["victim"] = victims[int(a["at"] * len(victims))]
        aside = os.path.join(ctx.root, "aside")
        os.rename(a["victim"], aside)
        if a["kind"] == "cut":
            with open(aside, "rb") as h:
                b = h.read()
            with open(a["victim"], "wb") as h:
                h.write(b[: int(len(b) * a["at"])])
    scale = dict(kill="mut", write="mut", read="read", open="open").get(a["kind"], "call")
    if a["kind"] not in ("short", "missing", "cut"):
        if not n[scale]:
            return
        a["at"] = min(int(a["at"] * n[scale]), n[scale] - 1) + (scale == "call")
    how, said, m = attempt(case, ctx, top, s, a)
    if "victim" in a:
        there = os.path.lexists(a["victim"])
        if there:
            (shutil.rmtree if os.path.isdir(a["victim"]) else os.unlink)(a["victim"])
        os.rename(aside, a["victim"])
        ctx.check(how != "ok", f"silent/{s.argv[0]}/{a['kind']}", lambda: f"ended normally without {os.path.basename(a['victim'])}")
        ctx.check(there == (a["kind"] == "cut"), f"input-created/{s.argv[0]}", lambda: f"{os.path.basename(a['victim'])}, which was missing, was created")
    name = a["kind"] + (" from then on" if a["sticky"] and a["kind"] in ("write", "read", "open") else "")
    ctx.fault({"kill": "process killed", "write": a["err"], "read": "read error", "open": "open error", "stop": "interrupted", "call": "call fails (MemoryError)",
               "short": "short transfers", "missing": "input missing", "cut": "input truncated"}[a["kind"]])
    if a["kind"] == "short":
        ctx.check(how == "ok", f"short/{s.argv[0]}", lambda: f"{how} under short transfers")
    now = snapshot(os.path.join(top, "out"), top)
    found = []
    for p in sorted(set(now) | set(have) | set(want)):
        if p in want:
            if p not in now:
                f = "absent"
            elif now[p] is None:
                f = "unreadable"
            elif now[p] == want[p]:
                f = "new"
            elif p in have and now[p] == have[p]:
                f = "previous"
            else:
                ctx.check(False, f"partial/{s.argv[0]}/{a['kind']}", lambda: f"{p} reads as something else ({diff(now[p], want[p])}) after {how}")
            if how == "ok":
                ctx.check(f == "new", f"silent/{s.argv[0]}/{a['kind']}", lambda: f"the program ended normally but {p} is {f}")
            found.append(f)
        else:
            ctx.check(p in have and p in now and now[p] == have[p] or p not in have and (now[p] is None),
                      f"changed-other/{s.argv[0]}/{a['kind']}", lambda: f"{p} {'changed' if p in now and p in have else 'disappeared' if p in have else 'appeared'} after {how}")
    if how == "ok":
        ctx.check(said == text, f"silent-text/{s.argv[0]}/{a['kind']}", lambda: f"ended normally but printed something else: {said!r} / {text!r}"[:300])
    ctx.check(snapshot(os.path.join(top, "in"), top) == before_in, f"inputs/{s.argv[0]}/{a['kind']}", "an input file was changed")
    for p in now:
        have[p] = now[p]
    for p in [p for p in have if p not in now]:
        del have[p]
    kinds = sorted(set(found))
    ctx.log("attempt", s.name, a["kind"], a["at"], how, kinds)
    ctx.probe(f"{how if how in ('ok', 'died') else 'error'} after {name}")
    ctx.cover(s.argv[0], name, how, kinds)


# ---- what the products must hold ----------------------------------------------------------
def tracks(path):
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    return TrackEddiesObservations.load_file(path)


def raw(path):
    from netCDF4 import Dataset

    with Dataset(path) as h:
        h.set_auto_maskandscale(False)
        return {k: np.array(v[:]) for k, v in h.variables.items()}


def days(v):
    return np.round(v["time"].astype("f8") / (86400 if v["time"].dtype.kind in "iu" and v["time"].size and v["time"].max() >= 86400 else 1)).astype("i8")


def rows_of(v):
    """Identity of each row: position, date and contours."""
    return [(round(float(x) % 360, 4), round(float(y), 4), int(t), int(e)) for x, y, t, e in zip(v["longitude"], v["latitude"], days(v), v["num_point_e"])]


def judge_track(case, ctx, s, top, text, products):
    from netCDF4 import Dataset

    name = [p for p in products if p.endswith("correspondances.nc")]
    ctx.check(len(products) == 4 and len(name) == 1, "track-products", lambda: str(sorted(products)))
    n = case["n_grid"] or case["world"]["n_step"]
    with Dataset(os.path.join(top, "out", name[0])) as h:
        got = [os.path.basename(str(x)) for x in h.variables["FileOut"][:].tolist()] if "FileOut" in h.variables else None
    if got is not None:
        ctx.check(got == sorted(got), "track-order", lambda: f"files linked in the order {got}")
    total = 0
    if not case["n_grid"]:
        for p in products:
            if p not in name:
                v = raw(os.path.join(top, "out", p))
                total += int((v["observation_flag"] == 0).sum()) if "observation_flag" in v else v["time"].size
        want = sum(len(W.present(case["world"], t)) for t in range(n))
        ctx.check(total == want, "track-conservation", lambda: f"{total} detections in the outputs, {want} in the files")


def judge_final(case, ctx, s, top, text, products):
    """Finishing from the saved links gives what the tracking program gave."""
    ctx.check(len(products) == 3, "final-products", lambda: str(sorted(products)))
    out = os.path.join(top, "out")
    for p in products:
        kind = "untracked" if "untracked" in p else "track_too_short" if "too_short" in p else ""
        q = next(f for f in tree(os.path.join(out, "track")) if "correspondances" not in f and (kind in f if kind else "track_too_short" not in f and "untracked" not in f))
        a, b = tracks(os.path.join(out, p)), tracks(os.path.join(out, "track", q))
        ctx.check(len(a) == len(b), "final-differs", lambda: f"{p}: {len(a)} / {len(b)} observations")
        for f in ("lon", "lat", "time", "amplitude", "track", "n"):
            if f in a.fields and f in b.fields:
                x, y = np.asarray(a[f], "f8"), np.asarray(b[f], "f8")
                ok = np.abs((x - y + 180) % 360 - 180 if f == "lon" else x - y) < 2e-3
                ctx.check(ok.all(), "final-differs", lambda: f"{p} field {f}: {x[~ok][:3].tolist()} / {y[~ok][:3].tolist()}")


def judge_merge(case, ctx, s, top, text, products):
    src = [a for a in s.argv[1:] if a.endswith(".nc")][:-1]
    got = raw(os.path.join(top, "out", "merged.nc"))
    parts = [raw(f) for f in src]
    for k in parts[0]:
        if k in got and all(k in p for p in parts):
            want = np.concatenate([p[k] for p in parts])
            if k == "track":  # tracks of two files stay two tracks
                pairs = set(zip(np.concatenate([np.full(p[k].size, n) for n, p in enumerate(parts)]).tolist(), want.tolist(), got[k].tolist()))
                ctx.check(len(pairs) == len({x[:2] for x in pairs}) == len({x[2] for x in pairs}), "merge-tracks", lambda: str(sorted(pairs)[:8]))
                continue
            ok = got[k].shape == want.shape and np.array_equal(got[k], want, equal_nan=want.dtype.kind == "f")
            ctx.check(ok, "merge-rows", lambda: f"{k}: {got[k].shape} / {want.shape}")
        else:
            ctx.check(not all(k in p for p in parts), "merge-variable", lambda: f"{k} lost")


def judge_same(case, ctx, s, top, text, products):
    from py_eddy_tracker.observations.observation import EddiesObservations

    a, b = EddiesObservations.load_file(s.argv[1]), EddiesObservations.load_file(s.argv[2])
    ctx.check(sorted(a.fields) == sorted(b.fields), "translate-fields", lambda: str(sorted(set(a.fields) ^ set(b.fields))))
    ctx.check(len(a) == len(b), "translate-rows", lambda: f"{len(a)} / {len(b)}")
    for f in a.fields:
        x, y = np.asarray(a[f], "f8"), np.asarray(b[f], "f8")
        ctx.check(x.shape == y.shape and np.allclose(x, y, rtol=1e-4, atol=2e-2 if f.startswith("contour_lon") else 1e-2, equal_nan=True), "translate-values", lambda: f"{f}: {x.ravel()[:3].tolist()} / {y.ravel()[:3].tolist()}")
    ctx.check(int(a.sign_type) == int(b.sign_type), "translate-sign", lambda: f"{a.sign_type} / {b.sign_type}")


def judge_subset(case, ctx, s, top, text, products):
    v = raw(s.argv[1])
    track, day = v["track"], days(v)
    keep = np.ones(track.size, bool)
    args = s.argv[3:]

    def values(opt):
        i = args.index(opt) + 1
        j = i
        while j < len(args) and (args[j].lstrip("-").isdigit()):
            j += 1
        return [int(a) for a in args[i:j]]

    def whole_tracks(keep, m):
        if "-f" in args:
            real = m & (v["observation_flag"] == 0) if "--reject_virtual" in args else m
            return keep & np.isin(track, track[real])
        if "-d" in args:
            return keep & ~np.isin(track, track[keep & ~m])
        return m

    if "-i" in args:
        keep &= np.isin(track, values("-i"))
    if "-l" in args:
        b0, b1 = values("-l")
        size = {t: int((track[keep] == t).sum()) for t in set(track.tolist())}
        keep &= np.array([size[t] >= b0 and (b1 == -1 or size[t] <= b1) for t in track.tolist()], bool)
    if "-p" in args:
        p0, p1 = values("-p")
        if keep.any():
            lo, hi = int(day[keep].min()), int(day[keep].max())
            m = keep.copy()
            if p0:
                m &= day >= (p0 if p0 > 0 else lo - p0)
            if p1:
                m &= day <= (p1 if p1 > 0 else hi + p1)
            keep = whole_tracks(keep, m)
    if "-a" in args and keep.any():
        x0, y0, x1, y1 = [float(a) for a in args[args.index("-a") + 1: args.index("-a") + 5]]
        lon = (v["longitude"].astype("f8") - x0) % 360 + x0
        keep = whole_tracks(keep, keep & (v["latitude"] > y0) & (v["latitude"] < y1) & (lon > x0) & (lon < x1))
    if "--direction" in args:
        way = args[args.index("--direction") + 1]
        good = []
        for t in sorted(set(track[keep].tolist())):
            i = np.where(keep & (track == t))[0]
            if way in "NS":
                d = float(v["latitude"][i[-1]]) - float(v["latitude"][i[0]])
            else:
                d = (float(v["longitude"][i[-1]]) - float(v["longitude"][i[0]]) + 180) % 360 - 180
            if (d if way in "NE" else -d) > 0:
                good.append(t)
        keep &= np.isin(track, good)
    if not keep.any():
        ctx.check(not products, "subset-empty", "a product for an empty selection")
        return
    ctx.check(sorted(products) == ["subset.nc"], "subset-product", lambda: f"{int(keep.sum())} observations are selected but the products are {sorted(products)}")
    got = raw(s.argv[2])
    want = {k: x[keep] for k, x in v.items()}
    ctx.check(rows_of(got) == rows_of(want), f"subset-rows", lambda: f"{len(got['time'])} / {int(keep.sum())} observations with {args}")


def judge_circle(case, ctx, s, top, text, products):
    from py_eddy_tracker.generic import distance

    a, b = tracks(s.argv[1]), tracks(s.argv[2])
    ctx.check(len(a) == len(b), "circle-rows", lambda: f"{len(a)} / {len(b)}")
    for f in a.fields:
        if not f.startswith("contour_"):
            ctx.check(f in b.fields and np.array_equal(a[f], b[f], equal_nan=True), "circle-field", lambda: f)
    for k, rad in (("e", "radius_e"), ("s", "radius_s")):
        for i in range(len(b)):
            x, y = b["contour_lon_" + k][i], b["contour_lat_" + k][i]
            lon = (x - float(b.lon[i]) + 180) % 360 - 180
            dx = lon * 111200 * np.cos(np.radians(float(b.lat[i])))
            dy = (y - float(b.lat[i])) * 111200
            d = np.hypot(dx, dy)
            r = float(b[rad][i])
            ctx.check(np.abs(d / r - 1).max() < 0.06, "circle-radius", lambda: f"row {i} contour {k}: {d.min():.0f} to {d.max():.0f} for a radius of {r:.0f}")


def judge_infos(case, ctx, s, top, text, products):
    heads = [l for l in text.splitlines() if l.startswith("-- ")]
    ctx.check(heads == [f"-- {f} -- " for f in sorted(s.argv[1:])], "infos", lambda: f"{heads}".replace(ctx.root, "<scratch>"))


def judge_compare(case, ctx, s, top, text, products):
    if "--path_out" not in s.argv:
        return
    files = [a for a in s.argv[1:] if a.endswith(".nc")]
    ref = raw(files[0])
    for o in files[1:]:
        d = o.replace("/", "_")
        for side, f in (("ref", ref), ("other", raw(o))):
            rows = []
            for g in ("nomatch", "low", "intermediate", "high", "multi_match"):
                p = os.path.join(top, "out", "groups", d, f"{side}_{g}.nc")
                ctx.check(os.path.exists(p), "compare-product", lambda: f"{side} {g} missing")
                rows += rows_of(raw(p))
            ctx.check(sorted(rows) == sorted(rows_of(f)), "compare-groups", lambda: f"{side}: {len(rows)} observations in the groups, {len(f['time'])} in the file")


def judge_group(case, ctx, s, top, text, products):
    got = raw(os.path.join(top, "out", "net.nc"))
    want = []
    for t in range(case["world"]["n_step"]):
        f = os.path.join(top, "in", f"Eddy_{W.date_of(t, case['world'].get('day0', W.DAY0))}.nc")
        want += rows_of(raw(f))
    ctx.check(sorted(rows_of(got)) == sorted(want), "group-rows", lambda: f"{len(got['time'])} observations in the network, {len(want)} in the files")


def judge_paths(case, ctx, s, top, text, products):
    a, b = raw(os.path.join(top, "out", "net.nc")), raw(os.path.join(top, "out", "divided.nc"))
    ctx.check(sorted(zip(a["track"].tolist(), rows_of(a))) == sorted(zip(b["track"].tolist(), rows_of(b))), "paths-rows", "observations changed of network")


def judge_filter(case, ctx, s, top, text, products):
    a, b = raw(s.argv[1]), raw(s.argv[5])
    ctx.check(sorted(a) == sorted(b), "filter-variables", lambda: str(sorted(set(a) ^ set(b))))
    for k in ("lon", "lat"):
        ctx.check(np.array_equal(a[k], b[k]), "filter-axes", k)
    ctx.check(a["adt"].shape == b["adt"].shape, "filter-shape", "shape")


def shrink(case):
    for s in list(case["attempts"]):
        yield dict(case, attempts={k: v for k, v in case["attempts"].items() if k != s})
        for v in core.shrink_list(case["attempts"][s], 1):
            yield dict(case, attempts=dict(case["attempts"], **{s: v}))
    for s in case["steps"]:
        rest = [x for x in case["steps"] if x != s]
        if not any(s in NEEDS[x] for x in rest) and (rest or case["n_grid"]):
            yield dict(case, steps=rest, attempts={k: v for k, v in case["attempts"].items() if k != s})
    if case["older"]:
        yield dict(case, older=False)
        if case["older"] == "options":
            yield dict(case, older="less")
    for n in range(case["n_grid"]):
        if n != 1:
            yield dict(case, n_grid=n)
    for w in W.shrink_world(case["world"], min_steps=4 if case["older"] == "less" else 2):
        yield dict(case, world=w)
