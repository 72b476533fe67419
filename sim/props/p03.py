"""Tracks bridge gaps up to the configured length and are internally consistent."""
import os

import numpy as np

from .. import tracklib as T
from .. import world as W

RUNS = dict(quick=330, thorough=6000)
RULE = (
    "A case is an eddy population with a detection history per eddy (missed detections up to longer than the allowed gap), its "
    "file format and tracking settings. Non-trivial: at least one track with a filled gap, or one gap that had to end a track."
)
MEASURE = "distinct (settings, multiset of (track length, positions of filled steps))"
REAL = ["tracking application", "Correspondances", "trackers", "interpolation of gap-filling observations", "netCDF4/HDF5", "zarr"]
STUB = ["identification step (synthetic detections)"]
SKIP = ("n", "virtual", "track", "cost_association")


def gen(rng, tier, i):
    n = rng.randint(4, 16 if rng.random() < 0.4 else 9)
    kind = rng.choice(("sparse", "sparse", "sparse", "crowd"))
    w = W.gen_world(rng, kind, n, max_eddies=rng.choice((2, 4, 8)), allow_empty=rng.random() < 0.25)
    s = T.settings(rng, n, virtual=rng.choice((0, 1, 1, 2, 2, 3, 4, 5)))
    s["cmin"] = rng.choice((0.05, 0.1))
    s["nb_min"] = rng.choice((1, 2, 3, s["nb_min"]))
    if kind == "sparse" and rng.random() < 0.7:
        gaps(rng, w, s["virtual"])
    return dict(world=w, settings=s)


def gaps(rng, w, nb):
    """Presence histories made of sightings and gaps around the allowed length."""
    for e in w["eddies"]:
        out = "0" * rng.choice((0, 0, 1, 2))
        while len(out) < w["n_step"]:
            out += "1" * rng.choice((1, 2, 2, 3)) + "0" * rng.choice((max(1, nb - 1), max(1, nb), nb + 1, nb + 2, 1))
        e["pres"] = out[: w["n_step"]]


def warmup(tmp):
    from . import p02

    p02.warmup(tmp)


def run(case, ctx):
    w, s = case["world"], case["settings"]
    inp, out = ctx.dir("in"), ctx.dir("out")
    files = W.write_files(w, inp)
    ctx.sut("track", T.run_track, list(files), out, s)
    long_, short, untracked = ctx.sut("load outputs", T.load_outputs, out, w["sign"], s["zarr"])
    ctx.simdays += w["n_step"]
    got = []
    shape = []
    for name, o in (("long", long_), ("short", short)):
        rows_of = T.split_tracks(o)
        codes = T.code(o)
        for rows in rows_of:
            flag = o["virtual"].astype(int)[rows]
            n = o["n"].astype(int)[rows]
            time = o["time"].astype("f8")[rows]
            ctx.check((n == np.arange(len(rows))).all(), "observation-number", lambda: f"{name}: {n.tolist()}")
            ctx.check((np.diff(time) == 1).all(), "dates-of-track", lambda: f"{name}: {(time - w["day0"]).tolist()} flags {flag.tolist()}")
            ctx.check(flag[0] == 0 and flag[-1] == 0, "filled-at-track-end", lambda: f"{name}: flags {flag.tolist()}")
            steps = (time - w["day0"]).astype(int).tolist()
            for r, f, t in zip(rows, flag.tolist(), steps):
                if not f:
                    ctx.check(codes[r][0] == t, "observation-at-wrong-date", lambda: f"{name}: detection {codes[r]} at step {t}")
            real = np.where(flag == 0)[0]
            runs = np.diff(real) - 1
            ctx.check(runs.max(initial=0) <= s["virtual"], "gap-too-long", lambda: f"{name}: flags {flag.tolist()}, allowed {s['virtual']}")
            for a, b in zip(real[:-1], real[1:]):
                for k in range(a + 1, b):
                    check_fill(ctx, o, rows[a], rows[k], rows[b], (k - a) / (b - a), name)
            got.append([(t, None if f else codes[r][1], f) for r, f, t in zip(rows, flag.tolist(), steps)])
            shape.append((len(rows), tuple(np.where(flag)[0].tolist())))
    ctx.log("tracks", sorted(map(str, got)))
    filled = sum(f for g in got for _, _, f in g)
    if filled:
        ctx.probe("filled step", filled)
    ended = False
    if w["kind"] == "sparse":
        want = [[(t, None if f else k, f) for t, k, f in tr] for tr in W.tracks_model(w, s["virtual"])]
        gs, ws = sorted(map(str, got)), sorted(map(str, want))
        if gs != ws:
            miss = [x for x in ws if x not in gs][:2]
            more = [x for x in gs if x not in ws][:2]
            ctx.check(False, "wrong-tracks", f"missing {miss} unexpected {more}")
        for e in w["eddies"]:
            g = [len(x) for x in e["pres"].strip("0").split("1") if x]
            ended = ended or any(x > s["virtual"] for x in g)
            ctx.fault("missed detection", sum(g))
        if ended:
            ctx.probe("gap that ends a track")
    ctx.cover(s["tracker"], s["virtual"], s["nb_min"], sorted(shape))
    ctx.nontrivial = bool(filled) or ended


def check_fill(ctx, o, a, k, b, frac, name):
    from py_eddy_tracker import VAR_DESCR

    for f in o.fields:
        if f in SKIP or f in o.array_variables:
            continue
        va, vk, vb = (float(o.obs[f][r]) for r in (a, k, b))
        if f in T.LON_FIELDS:
            vb = va + (vb - va + 180) % 360 - 180
            want = va + frac * (vb - va)
            err = abs((vk - want + 180) % 360 - 180)
            tol = 2e-3
        else:
            want = va + frac * (vb - va)
            err = abs(vk - want)
            q = VAR_DESCR[f].get("scale_factor", 0)
            kind = np.dtype(VAR_DESCR[f]["output_type"]).kind
            tol = 1e-4 * max(abs(va), abs(vb)) + 1.6 * (q or (1 if kind in "iu" else 0)) + 1e-6
        ctx.check(err <= tol, "not-interpolated", lambda: f"{name} field {f}: {va} | {vk} | {vb} at {frac:.2f}")


def shrink(case):
    for w in W.shrink_world(case["world"], min_steps=3):
        c = dict(case, world=w)
        c["settings"] = dict(c["settings"], nb_min=min(c["settings"]["nb_min"], w["n_step"]))
        yield c
    for s in T.shrink_settings(case["settings"]):
        yield dict(case, settings=s)
