"""Every detected eddy ends in exactly one tracking output, unaltered."""
import copy
import os

import numpy as np

from .. import tracklib as T
from .. import world as W

RUNS = dict(quick=360, thorough=6000)
RULE = (
    "A case is an eddy population over 2-14 time steps (appearance, missed detections, re-detections, empty files), and "
    "tracking settings. Non-trivial: at least two of the three outputs are non-empty, or an empty file / empty link step occurred."
)
MEASURE = "distinct (settings, number of tracks, track length multiset, sizes of the three outputs)"
REAL = ["eddies_tracking/track application", "Correspondances", "observation classes and trackers", "netCDF4/HDF5", "zarr"]
STUB = ["identification step (synthetic detections)"]


def gen(rng, tier, i):
    n = rng.randint(2, 14 if rng.random() < 0.3 else 8)
    kind = rng.choice(("sparse", "crowd", "crowd"))
    empty = rng.random() < 0.35
    w = W.gen_world(rng, kind, n, max_eddies=rng.choice((2, 4, 8)), allow_empty=empty)
    s = T.settings(rng, n, trackers=("default", "default", "area", "area", "chelton"))
    if n > 3 and rng.random() < 0.15:
        s["blank"] = rng.randint(1, n - 2)
        s["nb_min"] = min(s["nb_min"], n - s["blank"])
    id_ext = rng.choice(("nc", "nc", "nc", "zarr"))
    if id_ext == "zarr":
        s["memory"] = False  # memory mode reads netCDF files only
    return dict(world=w, settings=s, id_ext=id_ext, glob=rng.random() < 0.5)


def warmup(tmp):
    import random

    from ..core import Ctx

    for k, tr in enumerate(("default", "area", "chelton")):
        w = W.gen_world(random.Random(k), "crowd", 5, 5)
        s = dict(T.settings(random.Random(k), 5), tracker=tr, virtual=2, nb_min=2, zarr=k == 1, raw=True, cli=False)
        ctx = Ctx(os.path.join(tmp, str(k)))
        run(dict(world=w, settings=s, id_ext="nc", glob=False), ctx)


def run(case, ctx):
    w, s = case["world"], case["settings"]
    inp, out = ctx.dir("in"), ctx.dir("out")
    files = W.write_files(w, inp, case["id_ext"])
    used = files[: len(files) - s["blank"]] if s["blank"] else files
    table = T.input_table(used)
    before = {f: _bytes(f) for f in files}
    pattern = os.path.join(inp, f"Eddy_*.{case['id_ext']}") if case["glob"] else list(files)
    if any(len(W.present(w, t)) == 0 for t in range(len(used))):
        ctx.fault("empty identification file", sum(len(W.present(w, t)) == 0 for t in range(len(used))))
    for e in w["eddies"]:
        p = e["pres"][: len(used)].strip("0")
        ctx.fault("missed detection", p.count("0"))
    ctx.sut("track", T.run_track, pattern, out, s)
    zarr = s["zarr"]
    long_, short, untracked = ctx.sut("load outputs", T.load_outputs, out, w["sign"], zarr)
    ctx.simdays += len(used)
    seen = {}
    lengths = []
    for name, o in (("long", long_), ("short", short), ("untracked", untracked)):
        codes = T.code(o)
        flag = o["virtual"].astype(int).tolist() if name != "untracked" else [0] * len(o)
        if len(o):
            ctx.check(int(o.sign_type) == w["sign"], "wrong-sign", f"{name}")
        for row, (c, v) in enumerate(zip(codes, flag)):
            if v:
                ctx.probe("gap-filling observation")
                continue
            ctx.check(c in table, "invented-observation", lambda: f"{name} row {row} {c} is not a detection")
            ctx.check(c not in seen, "duplicated-observation", lambda: f"{c} in {seen[c][0]} and {name}")
            seen[c] = (name, row)
            src, srow = table[c]
            for f in src.fields:
                if f == "cost_association":
                    continue
                ctx.check(f in o.fields, "lost-field", lambda: f"{f} missing in {name}")
                a, b = src.obs[f][srow], o.obs[f][row]
                if not T.same_values(f, a, b):
                    ctx.check(False, "altered-observation", f"{name} field {f} of {c}: {a} -> {b}")
        if name != "untracked":
            tracks = T.split_tracks(o)
            ids = o["track"].tolist()
            ctx.check(len(set(ids)) == len(tracks), "track-not-contiguous", name)
            for rows in tracks:
                lengths.append(len(rows))
                ok = len(rows) >= s["nb_min"] if name == "long" else len(rows) < s["nb_min"]
                ctx.check(ok, "wrong-duration-class", lambda: f"track of {len(rows)} observations in {name}, minimum {s['nb_min']}")
                ctx.check(len(rows) >= 2, "single-observation-track", name)
    missing = sorted(set(table) - set(seen))
    ctx.check(not missing, "lost-observation", lambda: f"{missing[:5]} in no output ({len(table)} detections)")
    for f in files:
        ctx.check(_bytes(f) == before[f], "input-modified", os.path.basename(f))
    sizes = tuple(len(o) for o in (long_, short, untracked))
    ctx.log("sizes", sizes, sorted(lengths))
    for c in sorted(seen):
        ctx.log(c, seen[c][0])
    ctx.cover(s["tracker"], s["virtual"], s["nb_min"], sizes, sorted(lengths))
    empty_step = any(len(W.present(w, t)) == 0 for t in range(len(used)))
    for k, n in zip(("no long track", "no short track", "no untracked"), sizes):
        if n == 0:
            ctx.probe(k)
    if empty_step:
        ctx.probe("run with an empty file")
    ctx.nontrivial = sum(n > 0 for n in sizes) >= 2 or empty_step


def _bytes(path):
    if os.path.isdir(path):
        return sorted((os.path.relpath(os.path.join(b, f), path), open(os.path.join(b, f), "rb").read()) for b, _, fs in os.walk(path) for f in fs)
    with open(path, "rb") as h:
        return h.read()


def shrink(case):
    for w in W.shrink_world(case["world"]):
        c = dict(case, world=w)
        n = w["n_step"]
        c["settings"] = dict(c["settings"], nb_min=min(c["settings"]["nb_min"], n), blank=0)
        yield c
    for s in T.shrink_settings(case["settings"]):
        yield dict(case, settings=s)
    for k, v in (("id_ext", "nc"), ("glob", False)):
        if case[k] != v:
            yield dict(case, **{k: v})
