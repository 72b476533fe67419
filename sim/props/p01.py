"""Tracking stopped anywhere and resumed equals one uninterrupted tracking."""
import os

from .. import tracklib as T
from .. import world as W

RUNS = dict(quick=300, thorough=6000)
RULE = (
    "A case is an eddy population, tracking settings, and the points where tracking is stopped (state saved, process memory "
    "dropped) and resumed, some of them hit by a failed attempt that is started again. Non-trivial: an eddy is inside a gap, or "
    "a track is alive, across a stop."
)
MEASURE = "distinct (settings, stops, numbers of links per step)"
REAL = ["Correspondances tracking, saving and resuming", "tracking application", "trackers", "netCDF4/HDF5"]
STUB = ["identification step (synthetic detections)"]


def gen(rng, tier, i):
    n = rng.randint(3, 14 if rng.random() < 0.3 else 8)
    w = W.gen_world(rng, rng.choice(("sparse", "crowd", "crowd")), n, max_eddies=rng.choice((3, 5, 9)), allow_empty=rng.random() < 0.25)
    s = T.settings(rng, n, trackers=("default", "default", "area", "area", "chelton"), virtual=rng.choice((0, 1, 2, 2, 3, 4)))
    s["zarr"] = False
    s["cli"] = False
    s["bytes"] = rng.random() < 0.3
    cuts = sorted(rng.sample(range(2, n), rng.randint(1, min(3, n - 2)))) if n > 2 else []
    if rng.random() < 0.1:
        cuts = list(range(2, n))
    legs = [dict(memory=rng.random() < 0.3, fail=rng.random() < 0.2, app=rng.random() < 0.15) for _ in range(len(cuts) + 1)]
    return dict(world=w, settings=s, cuts=cuts, legs=legs, finish=rng.random() < 0.6)


def warmup(tmp):
    from . import p02

    p02.warmup(tmp)
    import random

    from ..core import Ctx

    for k in range(3):
        c = gen(random.Random(k), "quick", k)
        try:
            run(c, Ctx(os.path.join(tmp, f"p01{k}")))
        except Exception:
            pass


def run(case, ctx):
    w, s, cuts = case["world"], case["settings"], case["cuts"]
    n = w["n_step"]
    inp, out = ctx.dir("in"), ctx.dir("out")
    files = W.write_files(w, inp)
    ref = ctx.sut("uninterrupted tracking", lambda: _tracked(files, s, None, s["memory"]))
    state = None
    bounds = list(cuts) + [n]
    for k, (stop, leg) in enumerate(zip(bounds, case["legs"])):
        if leg["fail"] and stop > 2:
            # An attempt dies on a missing file: nothing is saved, the leg is run again
            first = 1 if state is None else bounds[k - 1]
            lost = files[max(first, stop - 1)]
            os.rename(lost, lost + ".away")
            try:
                _tracked(files[:stop], s, state, leg["memory"])
            except Exception:
                ctx.fault("attempt killed by a missing file")
            finally:
                os.rename(lost + ".away", lost)
        new = os.path.join(out, f"state{k}.nc")
        if leg["app"]:
            ctx.sut("tracking application leg", _app_leg, files[:stop], out, s, state, new, leg["memory"])
            c = None
        else:
            c = ctx.sut("resumed tracking", _tracked, files[:stop], s, state, leg["memory"])
            if stop < n:
                ctx.sut("save state", c.save, new)
        state = new
        ctx.simdays += stop
        if stop < n:
            ctx.fault("stop and resume")
    if c is None:
        from py_eddy_tracker.tracking import Correspondances

        c = ctx.sut("load last state", Correspondances.load, state)
        c.datasets = list(files)
    d = T.state_diff(ref, c)
    ctx.check(d is None, "different-links", lambda: f"stops {cuts}: uninterrupted / resumed: {d}")
    nl = [len(x) for x in ref]
    ctx.log("links", nl, int(ref.current_id), cuts)
    for x in ref:
        ctx.log(x.tolist())
    # the state saved at the end must hand on the same things too
    if case["finish"]:
        a = ctx.sut("finish uninterrupted", T.finish, ref, s["nb_min"], s["raw"])
        b = ctx.sut("finish resumed", T.finish, c, s["nb_min"], s["raw"])
        d = T.outputs_diff(a, b)
        ctx.check(d is None, "different-outputs", lambda: f"stops {cuts}: uninterrupted / resumed: {d}")
        ctx.probe("outputs compared")
    ctx.cover(s["tracker"], s["virtual"], tuple(cuts), tuple(nl))
    alive = False
    for e in w["eddies"]:
        p = e["pres"]
        for c_ in cuts:
            if "1" in p[:c_] and "1" in p[c_:]:
                alive = True
                if p[c_ - 1] == "0":
                    ctx.probe("stop inside a detection gap")
    for c_ in cuts:
        if c_ == 2:
            ctx.probe("stop after the first association")
        if c_ >= 3 and s["virtual"] and case["legs"]:
            ctx.probe("stop with gap filling state")
    ctx.nontrivial = alive


def _tracked(files, s, previous, memory):
    c = T.correspondances(list(files), s, previous, memory)
    c.track()
    return c


def _app_leg(files, out, s, previous, new, memory):
    from py_eddy_tracker.appli import eddies as app

    kw = {}
    if s["tracker"] != "default":
        kw["class_method"] = W.tracker_class(s["tracker"])
    if s["tracker"] == "area":
        kw["class_kw"] = dict(cmin=s["cmin"])
    app.track(list(files), out, new, nb_obs_min=1, correspondances_only=True, virtual=s["virtual"], memory=memory,
              previous_correspondance=previous, **kw)


def shrink(case):
    w = case["world"]
    for w2 in W.shrink_world(w, min_steps=3):
        if w2["n_step"] == w["n_step"] or w2["eddies"][0]["pres"] == w["eddies"][0]["pres"][: w2["n_step"]]:
            cuts = [c for c in case["cuts"] if c < w2["n_step"]]
        else:
            cuts = [c - 1 for c in case["cuts"] if 2 <= c - 1 < w2["n_step"]]
        if not cuts:
            continue
        yield dict(case, world=w2, cuts=cuts, legs=case["legs"][: len(cuts) + 1],
                   settings=dict(case["settings"], nb_min=min(case["settings"]["nb_min"], w2["n_step"])))
    for k in range(len(case["cuts"])):
        if len(case["cuts"]) > 1:
            cuts = case["cuts"][:k] + case["cuts"][k + 1:]
            yield dict(case, cuts=cuts, legs=case["legs"][:k] + case["legs"][k + 1:])
    for k, leg in enumerate(case["legs"]):
        for f in leg:
            if leg[f]:
                legs = [dict(x) for x in case["legs"]]
                legs[k][f] = False
                yield dict(case, legs=legs)
    if case["settings"].get("bytes"):
        yield dict(case, settings=dict(case["settings"], bytes=False))
    for s in T.shrink_settings(case["settings"]):
        yield dict(case, settings=s)
