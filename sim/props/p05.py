"""Tracking segments computed separately join into the single-run tracking."""
import os
import runpy
import sys

import numpy as np

from .. import tracklib as T
from .. import world as W

RUNS = dict(quick=330, thorough=6000)
RULE = (
    "A case is an eddy population, tracking settings without gap filling, a partition of the period in overlapping segments, the "
    "form of each segment state (in process or reloaded from its file) and misfits offered for joining. Non-trivial: at least one "
    "track crosses a junction, or a misfit was offered."
)
MEASURE = "distinct (tracker, partition, numbers of links per step, form of the segments)"
REAL = ["Correspondances tracking, saving, joining, finishing", "EddyMergeCorrespondances program", "trackers", "netCDF4/HDF5"]
STUB = ["identification step (synthetic detections)"]
SCRIPT = os.path.join(os.environ.get("VP_REPO", "/repo"), "src", "scripts", "EddyMergeCorrespondances")


def gen(rng, tier, i):
    n = rng.randint(4, 16 if rng.random() < 0.3 else 9)
    w = W.gen_world(rng, rng.choice(("sparse", "crowd", "crowd")), n, max_eddies=rng.choice((2, 5, 9)), allow_empty=rng.random() < 0.3)
    s = T.settings(rng, n, trackers=("default", "default", "area", "chelton"), virtual=0)
    s.update(zarr=False, cli=False, bytes=False)
    # a segment is [a, b): the next one starts two files or more before its end
    k = rng.randint(1, min(4, n - 3 + 1))
    cuts = sorted(rng.sample(range(3, n), min(k, n - 3))) if n > 3 else []
    segs, a = [], 0
    for c in cuts:
        if c - a >= 3:
            segs.append((a, c))
            a = max(a + 1, c - rng.choice((2, 2, 2, 3, 4)))
    segs.append((a, n))
    return dict(world=w, settings=s, segs=segs, form=[rng.choice(("live", "file")) for _ in segs], program=rng.random() < 0.35,
                misfit=[rng.choice(("none", "gap", "one", "virtual", "lengths")) for _ in segs], resave=rng.random() < 0.5)


def warmup(tmp):
    from . import p02

    p02.warmup(tmp)


def run(case, ctx):
    from py_eddy_tracker.tracking import Correspondances

    w, s, segs = case["world"], case["settings"], case["segs"]
    files = W.write_files(w, ctx.dir("in"))
    out = ctx.dir("out")
    ref = T.correspondances(list(files), s)
    ctx.sut("single run", ref.track)
    ctx.simdays += 2 * w["n_step"]
    want = chains(ref)
    states, paths = [], []
    for k, (a, b) in enumerate(segs):
        c = T.correspondances(list(files[a:b]), s)
        ctx.sut("track segment", c.track)
        p = os.path.join(out, f"seg{k}.nc")
        if case["form"][k] == "file" or case["program"]:
            ctx.sut("save segment", c.save, p)
            ctx.fault("segment handed over as a file")
        if case["form"][k] == "file":
            c = ctx.sut("load segment", Correspondances.load, p)
        states.append(c)
        paths.append(p)
    joined = states[0]
    for k in range(1, len(segs)):
        m = case["misfit"][k]
        if m == "lengths":
            lengths(ctx, case, files, segs, k)
        bad = misfit(m, files, segs, k, s)
        if bad is not None:
            before = joined._copy()
            names = T.names(joined.datasets)
            try:
                joined.merge_correspondance(bad)
            except Exception:
                ctx.fault(f"misfit rejected ({m})")
            else:
                ctx.check(False, f"misfit-accepted/{m}", f"segment {segs[k]} after {segs[k - 1]}")
            d = T.state_diff(before, joined)
            ctx.check(d is None and T.names(joined.datasets) == names, "rejected-join-changes-state", lambda: f"{m}: {d}")
        ctx.sut("join", joined.merge_correspondance, states[k])
        ctx.check(T.names(joined.datasets) == T.names(files[: segs[k][1]]), "joined-file-list", lambda: f"{T.names(joined.datasets)}")
    if case["program"]:
        p = os.path.join(out, "joined.nc")
        ctx.sut("joining program", _program, paths, p)
        joined2 = ctx.sut("load joined", Correspondances.load, p)
        compare(ctx, joined2, ref, want, files, segs, "joined by the program")
        ctx.probe("joined by the program")
    compare(ctx, joined, ref, want, files, segs, "joined")
    if case["resave"]:
        p = os.path.join(out, "resaved.nc")
        ctx.sut("save joined", joined.save, p)
        again = ctx.sut("load joined", Correspondances.load, p)
        compare(ctx, again, ref, want, files, segs, "joined, saved and reloaded")
    a = ctx.sut("finish single run", T.finish, ref, s["nb_min"], s["raw"])
    b = ctx.sut("finish joined", T.finish, joined, s["nb_min"], s["raw"])
    ctx.check(tracks_of(a) == tracks_of(b), "different-outputs", lambda: f"segments {segs}")
    nl = [len(x) for x in ref]
    ctx.log(nl, segs, sorted(map(str, want)))
    ctx.cover(s["tracker"], segs, tuple(nl), case["form"])
    cross = sum(1 for ch in want for _, b in segs[:-1] if ch[0][0] < b - 1 and ch[-1][0] > b - 1)
    if cross:
        ctx.probe("track crossing a junction", cross)
    if any(nl[b - 2] == 0 for _, b in segs[:-1]):
        ctx.probe("junction without link")
    ctx.nontrivial = bool(cross) or bool(ctx.faults)


def tracks_of(outs):
    """Observations of each output as sets of chains, whatever the track numbers."""
    res = []
    for o in outs[:2]:
        cs = T.code(o)
        res.append(sorted(str([cs[r] for r in rows]) for rows in T.split_tracks(o)))
    res.append(sorted(T.code(outs[2])))
    return res


def chains(c):
    """Tracks of a state: lists of (file number, row)."""
    by = {}
    for i, x in enumerate(c):
        for a, b, t in zip(x["in"].tolist(), x["out"].tolist(), x["id"].tolist()):
            by.setdefault(t, []).append(((i, a), (i + 1, b)))
    return sorted([e[0][0]] + [q[1] for q in e] for e in by.values())


def compare(ctx, c, ref, want, files, segs, label):
    ctx.check(len(c) == len(ref), "joined-steps", lambda: f"{label}: {len(c)} steps for {len(ref)}")
    for i, (x, y) in enumerate(zip(c, ref)):
        same = all(np.array_equal(x[n], y[n]) for n in ("in", "out", "cost_value"))
        ctx.check(same, "different-links", lambda: f"{label}: step {i}, segments {segs}")
        ids = x["id"].tolist()
        ctx.check(len(set(ids)) == len(ids), "track-number-reused", lambda: f"{label}: step {i} {ids}")
        ctx.check(max(ids, default=-1) < int(c.current_id), "next-number-used", lambda: f"{label}: step {i}, next {int(c.current_id)} ids {ids}")
    by = {}
    for i, x in enumerate(c):
        for a, b, t in zip(x["in"].tolist(), x["out"].tolist(), x["id"].tolist()):
            e = by.setdefault(t, [])
            if e and e[-1][1] != (i, a):
                ctx.check(False, "track-number-reused", f"{label}: number {t} at {e[-1][1]} and {(i, a)}, segments {segs}")
            e.append(((i, a), (i + 1, b)))
    got = chains(c)
    ctx.check(got == want, "different-tracks", lambda: f"{label}, segments {segs}: {[x for x in got if x not in want][:2]} for {[x for x in want if x not in got][:2]}")


def misfit(kind, files, segs, k, s):
    a, end = segs[k]
    last = segs[k - 1][1]
    if kind == "gap" and end - last >= 2:
        fs, st = files[last:end], s
    elif kind == "one" and end - (last - 1) >= 2:
        fs, st = files[last - 1: end], s
    elif kind == "virtual":
        fs, st = files[a:end], dict(s, virtual=2)
    else:
        return None
    c = T.correspondances(list(fs), st)
    c.track()
    return c


def lengths(ctx, case, files, segs, k):
    """Two segments with gap filling, of different lengths."""
    s = case["settings"]
    n = 1 + (case["world"]["order"] + k) % 3
    a, b = (T.correspondances(list(files[slice(*segs[j])]), dict(s, virtual=v)) for j, v in ((k - 1, n), (k, n % 3 + 1)))
    a.track()
    b.track()
    before = a._copy()
    try:
        a.merge_correspondance(b)
    except Exception:
        ctx.fault("misfit rejected (lengths)")
    else:
        ctx.check(False, "misfit-accepted/lengths", f"gaps up to {n % 3 + 1} joined to gaps up to {n}")
    d = T.state_diff(before, a)
    ctx.check(d is None, "rejected-join-changes-state", lambda: f"lengths: {d}")


def _program(paths, out):
    argv = sys.argv
    sys.argv = ["EddyMergeCorrespondances", *paths, out]
    try:
        runpy.run_path(SCRIPT, run_name="__main__")
    finally:
        sys.argv = argv


def shrink(case):
    w = case["world"]
    if len(case["segs"]) > 1:
        for k in range(len(case["segs"]) - 1):
            segs = case["segs"][:k] + [(case["segs"][k][0], case["segs"][k + 1][1])] + case["segs"][k + 2:]
            yield dict(case, segs=segs, form=case["form"][: len(segs)], misfit=case["misfit"][: len(segs)])
    for w2 in W.shrink_world(w, min_steps=4):
        if w2["n_step"] == w["n_step"]:
            yield dict(case, world=w2)
        elif w2["n_step"] - case["segs"][-1][0] >= 2:
            yield dict(case, world=w2, segs=case["segs"][:-1] + [(case["segs"][-1][0], w2["n_step"])],
                       settings=dict(case["settings"], nb_min=min(case["settings"]["nb_min"], w2["n_step"])))
    for k, v in (("program", False), ("resave", False), ("misfit", ["none"] * len(case["segs"])), ("form", ["live"] * len(case["segs"]))):
        if case[k] != v:
            yield dict(case, **{k: v})
    for s in T.shrink_settings(case["settings"]):
        yield dict(case, settings=s)
