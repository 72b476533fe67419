"""A saved tracking state reloads as itself and finishes like the original."""
import os
import runpy
import sys

from .. import tracklib as T
from .. import world as W

RUNS = dict(quick=280, thorough=5000)
RULE = (
    "A case is an eddy population, tracking settings, and a chain of one to three save/reload generations of the state, ended by "
    "the finishing steps in-process or by the final-tracking program. Non-trivial: the state holds at least one track and two "
    "steps, or a step without link."
)
MEASURE = "distinct (settings, numbers of links per step, generations)"
REAL = ["Correspondances save/load/merge", "EddyFinalTracking program", "trackers", "netCDF4/HDF5"]
STUB = ["identification step (synthetic detections)"]
SCRIPT = os.path.join(os.environ.get("VP_REPO", "/repo"), "src", "scripts", "EddyFinalTracking")


def gen(rng, tier, i):
    n = rng.randint(2, 12 if rng.random() < 0.3 else 7)
    w = W.gen_world(rng, rng.choice(("sparse", "crowd")), n, max_eddies=rng.choice((2, 4, 8)), allow_empty=rng.random() < 0.35)
    s = T.settings(rng, n, trackers=("default", "default", "area", "area", "chelton"))
    s.update(zarr=False, cli=False, bytes=rng.random() < 0.4)
    return dict(world=w, settings=s, generations=rng.randint(1, 3), program=rng.random() < 0.4, resumed=rng.random() < 0.3,
                spoil=rng.random() < 0.3)


def warmup(tmp):
    from . import p01

    p01.warmup(tmp)


def run(case, ctx):
    from py_eddy_tracker.tracking import Correspondances

    w, s = case["world"], case["settings"]
    n = w["n_step"]
    files = W.write_files(w, ctx.dir("in"))
    out = ctx.dir("out")
    prev = None
    if case["resumed"] and n > 2:
        half = T.correspondances(files[: n - 1], s)
        ctx.sut("track first part", half.track)
        prev = os.path.join(out, "half.nc")
        ctx.sut("save first part", half.save, prev)
    c = T.correspondances(files, s, prev)
    ctx.sut("track", c.track)
    ctx.simdays += n
    copy = c._copy()
    cur = c
    for g in range(case["generations"]):
        p = os.path.join(out, f"state{g}.nc")
        if case["spoil"]:
            with open(p, "wb") as h:  # what an earlier, unrelated save left at this path
                h.write(b"\x89HDF\r\n\x1a\n" + bytes(600))
            ctx.fault("stale file at the destination")
        ctx.sut("save", cur.save, p)
        d = T.state_diff(copy, cur)
        ctx.check(d is None, "save-changes-state", lambda: f"generation {g}: before / after save: {d}")
        cur = ctx.sut("load", Correspondances.load, p)
        d = T.state_diff(c, cur)
        ctx.check(d is None, "reloaded-state-differs", lambda: f"generation {g}: original / reloaded: {d}")
        ctx.check([str(x if not isinstance(x, bytes) else x.decode()) for x in cur.datasets] == list(files), "reloaded-file-list",
                  lambda: f"{T.names(cur.datasets)}")
        ctx.check(int(cur.current_id) == int(c.current_id), "reloaded-next-number", "")
    for x in c:
        ctx.log(x.tolist())
    a = ctx.sut("finish original", T.finish, c, s["nb_min"], True)
    if case["program"]:
        b = ctx.sut("final tracking program", _program, p, ctx.dir("final"), s["nb_min"], w["sign"])
        ctx.probe("finished by the program")
        ref = ctx.dir("ref")
        for name, o in zip(("long", "short", "untracked"), a):
            o.write_file(filename=os.path.join(ref, name + ".nc"))
        a = _load(*(os.path.join(ref, x + ".nc") for x in ("long", "short", "untracked")))
    else:
        b = ctx.sut("finish reloaded", T.finish, cur, s["nb_min"], True)
    d = T.outputs_diff(a, b)
    ctx.check(d is None, "different-outputs", lambda: f"original / reloaded: {d}")
    nl = [len(x) for x in copy]
    if 0 in nl:
        ctx.probe("step without link")
    if sum(nl) == 0:
        ctx.probe("state without any link")
    ctx.cover(s["tracker"], s["virtual"], tuple(nl), case["generations"], case["program"])
    ctx.nontrivial = (sum(nl) > 0 and len(nl) > 1) or 0 in nl


def _load(long_, short, untracked):
    from py_eddy_tracker.observations.observation import EddiesObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    return (TrackEddiesObservations.load_file(long_), TrackEddiesObservations.load_file(short), EddiesObservations.load_file(untracked))


def _program(state, out, nb_min, sign):
    argv = sys.argv
    names = [os.path.join(out, x + ".nc") for x in ("long", "short", "untracked")]
    sys.argv = ["EddyFinalTracking", state, "--path_out", out, "--nb_obs_min", str(nb_min), "--eddies_long_model", names[0],
                "--eddies_short_model", names[1], "--eddies_untracked_model", names[2]]
    try:
        runpy.run_path(SCRIPT, run_name="__main__")
    finally:
        sys.argv = argv
    return _load(*names)


def shrink(case):
    for w in W.shrink_world(case["world"], min_steps=2):
        yield dict(case, world=w, settings=dict(case["settings"], nb_min=min(case["settings"]["nb_min"], w["n_step"])))
    for k, v in (("generations", 1), ("program", False), ("resumed", False), ("spoil", False)):
        if case[k] != v:
            yield dict(case, **{k: v})
    if case["settings"].get("bytes"):
        yield dict(case, settings=dict(case["settings"], bytes=False))
    for s in T.shrink_settings(case["settings"]):
        yield dict(case, settings=s)
