"""Network groups are the connected components of the overlap relation."""
import os
import shutil
import sys

import numpy as np

from .. import core, faults
from .. import sched
from .. import tracklib as T
from .. import world as W

RUNS = dict(quick=420, thorough=9000)
RULE = (
    "A case is one or two sets of identification files, one to three networks over them (window, contour, memory, overlap rule, "
    "program or library), the interleaving of their constructions, a read failure and retry, and possibly a second version of "
    "the files at the same paths. Non-trivial: a group joins observations of three files, or two networks share the process."
)
MEASURE = "distinct (window, overlap rule, partition of the observations)"
REAL = ["Network, Buffer, build_network program, vertice_overlap, bbox_intersection", "netCDF4/HDF5"]
STUB = ["identification step (synthetic detections)"]
ASSUMPTIONS = ["Observation pairs whose overlap is within 1e-4 of the limit may be linked or not."]


def gen(rng, tier, i):
    n = rng.randint(2, 12 if rng.random() < 0.35 else 7)
    kinds = ("sparse", "crowd", "crowd", "crowd")
    worlds = [W.gen_world(rng, rng.choice(kinds), n, max_eddies=rng.choice((2, 5, 9)), allow_empty=rng.random() < 0.4)]
    if rng.random() < 0.5:
        worlds.append(W.gen_world(rng, rng.choice(kinds), rng.randint(2, 6), max_eddies=5, allow_empty=rng.random() < 0.3))
        worlds[1]["day0"] = worlds[0]["day0"]
    nets = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        nets.append(
            dict(
                ds=rng.randrange(len(worlds)), window=rng.choice((1, 1, 2, 3, 5, 8)), intern=rng.random() < 0.4,
                memory=rng.random() < 0.3, overlap=rng.choice((0, 0.05, 0.2, 0.2, 0.4)),
                rule=rng.choice(("union", "union", "minimal", "hybrid")),
                via=rng.choice(("regex", "regex", "program", "memory")), raw=rng.random() < 0.5,
            )
        )
    return dict(
        worlds=worlds, nets=nets, same_path=rng.random() < 0.6, interleave=rng.random() < 0.6,
        choices=[rng.randrange(6) for _ in range(rng.randint(1, 40))],
        fail=rng.randint(1, 6) if rng.random() < 0.2 else 0, listing=rng.randrange(1 << 20) if rng.random() < 0.5 else 0,
        spread=rng.random() < 0.2,
    )


def warmup(tmp):
    w = dict(kind="sparse", n_step=3, eddies=[dict(x=190, y=30, dx=0, dy=0, r=0.5, amp=0.1, pres="111")], order=0, sign=1, lon0=0,
             nb_sample=6, extra=1)
    one = dict(ds=0, window=1, intern=False, memory=False, overlap=0.2, rule="union", via="regex", raw=True)
    case = dict(worlds=[w], nets=[one, dict(one, rule="hybrid", via="program")], same_path=False, interleave=False, choices=[0],
                fail=0, listing=0)
    run(case, core.Ctx(tmp))


def rule_kw(spec):
    return dict(minimal_area=spec["rule"] == "minimal", hybrid_area=spec["rule"] == "hybrid")


# ---- reference ---------------------------------------------------------------
def pair_state(p, q, rule, limit):
    """1 linked, 0 not linked, None too close to the limit to tell."""
    from Polygon import Polygon

    x0, y0 = p
    x1, y1 = q
    if y0.min() > y1.max() + 1e-3 or y1.min() > y0.max() + 1e-3:
        return 0
    x1 = x1 + 360 * np.round((x0.mean() - x1.mean()) / 360)
    if x0.min() > x1.max() + 1e-3 or x1.min() > x0.max() + 1e-3:
        return 0
    a, b = Polygon(np.stack([x0, y0], 1)), Polygon(np.stack([x1, y1], 1))
    i = (a & b).area()
    if i < 1e-6:
        return None  # touching or nearly
    small = i / min(a.area(), b.area())
    cost = small if rule == "minimal" else i / (a.area() + b.area() - i)
    if abs(cost - limit) < 1e-4 and limit > 0:
        return None
    if cost >= limit:
        return 1
    if rule == "hybrid":
        return None if abs(small - 0.99) < 1e-4 else int(small > 0.99)
    return 0


class Union:
    def __init__(self, n):
        self.p = list(range(n))

    def find(self, a):
        while self.p[a] != a:
            self.p[a] = self.p[self.p[a]]
            a = self.p[a]
        return a

    def join(self, a, b):
        self.p[self.find(a)] = self.find(b)


def reference(obs, spec):
    """(components of the sure links, components of the sure and doubtful links, linked observations)."""
    e = "s" if spec["intern"] else "e"
    polys, step = [], []
    for t, o in enumerate(obs):
        xs, ys = o["contour_lon_" + e].astype("f8"), o["contour_lat_" + e].astype("f8")
        for r in range(len(o)):
            polys.append((xs[r], ys[r]))
            step.append(t)
    n = len(polys)
    sure, wide = Union(n), Union(n)
    for a in range(n):
        for b in range(a + 1, n):
            d = step[b] - step[a]
            if d == 0:
                continue
            if d > spec["window"]:
                break
            s = pair_state(polys[a], polys[b], spec["rule"], spec["overlap"])
            if s == 0:
                continue
            wide.join(a, b)
            if s == 1:
                sure.join(a, b)
    return sure, wide


# ---- run ------------------------------------------------------------------------
def run(case, ctx):
    from py_eddy_tracker.observations import network as N
    from py_eddy_tracker.observations.observation import EddiesObservations

    worlds, nets = case["worlds"], case["nets"]
    same = case["same_path"] and len(worlds) > 1
    folders = [ctx.dir("in0"), ctx.dir("in0") if same else ctx.dir("in1")]
    out = ctx.dir("out")
    phases = [[k for k in range(len(nets)) if nets[k]["ds"] == d] for d in (0, 1)] if same else [list(range(len(nets))), []]
    undo = [sched.hook(EddiesObservations, "load_file")]
    if hasattr(N, "Buffer") and "load_contour" in N.Buffer.__dict__:
        undo.append(sched.hook(N.Buffer, "load_contour"))
    old_scan = os.scandir
    if case["listing"]:
        os.scandir = shuffled(old_scan, case["listing"])
        ctx.fault("shuffled folder listing")
    try:
        files = {}
        for phase, members in enumerate(phases):
            for d in range(len(worlds)):
                if (same and d != phase) or (not same and phase):
                    continue
                for f in os.listdir(folders[d]):
                    (shutil.rmtree if case.get("spread") else os.remove)(os.path.join(folders[d], f))
                    ctx.probe("file rewritten at the same path")
                files[d] = W.write_files(worlds[d], folders[d])
                if case.get("spread"):
                    files[d] = [spread(f) for f in files[d]]
            if members:
                build(case, ctx, members, folders, files, out)
    finally:
        os.scandir = old_scan
        for u in undo:
            u()


def build(case, ctx, members, folders, files, out):
    from py_eddy_tracker.observations.network import Network
    from py_eddy_tracker.observations.observation import EddiesObservations

    nets = case["nets"]
    loaded = {d: [EddiesObservations.load_file(f) for f in files[d]] for d in {nets[k]["ds"] for k in members}}
    made, results = {}, {}

    def construct(k):
        s = nets[k]
        kw = dict(window=s["window"], intern=s["intern"])
        if s["via"] == "memory":
            made[k] = Network.from_eddiesobservations(loaded[s["ds"]], **kw)
        else:
            made[k] = Network(os.path.join(folders[s["ds"]], case_pattern(case)), memory=s["memory"], **kw)

    def group(k):
        s = nets[k]
        if s["via"] == "program":
            return program(s, os.path.join(folders[s["ds"]], case_pattern(case)), os.path.join(out, f"net{k}.nc"))
        g = made[k].group_observations(min_overlap=s["overlap"], **rule_kw(s))
        if s["via"] == "memory":
            return g, None
        return g, made[k].build_dataset(g, raw_data=s["raw"])

    def whole(k):
        if nets[k]["via"] != "program" and k not in made:
            construct(k)
        return group(k)

    if case["fail"]:
        k = members[0]
        faults.arm(folders[nets[k]["ds"]])
        faults.fail_open(case["fail"], "EIO")
        try:
            results[k] = whole(k)
        except Exception as e:
            ctx.log("error", type(e).__name__)
            ctx.fault("read failure during grouping, retried")
        finally:
            faults.disarm()
    if case["interleave"] and len(members) > 1:
        for k in members:
            if nets[k]["via"] != "program" and k not in made:
                ctx.sut("create network", construct, k)
        progs = [k for k in members if nets[k]["via"] == "program"]
        tasks = [k for k in members if nets[k]["via"] != "program"]
        s = sched.Scheduler(case["choices"], log=[])
        ids = {s.add(group, k): k for k in tasks}
        ctx.check(s.run(), "no-progress/grouping", "networks not built after 200000 steps")
        for i, k in ids.items():
            e = s.tasks[i]["error"]
            if e is not None:
                ctx.sut("build network", reraise, e)
            results[k] = s.tasks[i]["result"]
        ctx.fault("switch between network constructions", s.switches)
        ctx.log("schedule", tuple(s.log))
        for k in progs:
            results[k] = ctx.sut("build_network", whole, k)
    else:
        for k in members:
            results[k] = ctx.sut("build network", whole, k)
    if len(nets) > 1:
        ctx.nontrivial = True
    for k in members:
        judge(ctx, nets[k], loaded[nets[k]["ds"]], *results[k])
        ctx.simdays += len(files[nets[k]["ds"]])


def reraise(e):
    raise e


def spread(path):
    """One folder for each file, all with the same file name."""
    d = path[:-3]
    os.mkdir(d)
    new = os.path.join(d, "eddies.nc")
    os.rename(path, new)
    return new


def case_pattern(case):
    return "*/eddies.nc" if case.get("spread") else "*.nc"


def program(s, pattern, out):
    from py_eddy_tracker.appli import network as app
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    argv = ["BuildNetwork", pattern, out, "-w", str(s["window"]), "-p", str(s["overlap"])]
    for flag, on in (("--intern", s["intern"]), ("--memory", s["memory"]), ("--minimal-area", s["rule"] == "minimal"),
                     ("--hybrid-area", s["rule"] == "hybrid")):
        if on:
            argv.append(flag)
    old, sys.argv = sys.argv, argv
    try:
        app.build_network()
    finally:
        sys.argv = old
    return None, TrackEddiesObservations.load_file(out)


def judge(ctx, spec, obs, group, dataset):
    codes = [c for o in obs for c in T.code(o)]
    pos = {c: i for i, c in enumerate(codes)}
    n = len(codes)
    if dataset is not None:
        # every observation once, with its values
        got = T.code(dataset)
        ctx.check(sorted(got) == sorted(codes), "conservation", lambda: f"{len(got)} observations built from {n}")
        by_row = np.array([pos[c] for c in got], "i8")
        for f in obs[0].fields:
            if f not in dataset.fields:
                ctx.check(False, "field-lost", f)
            want = np.concatenate([o[f] for o in obs])[by_row]
            have = dataset[f]
            if spec.get("raw") and spec["via"] == "regex":
                want = raw_of(f, want)
            ok = T.same_values(f, have, want) if not (spec.get("raw") and spec["via"] == "regex") else close_raw(have, want)
            ctx.check(ok, "value", lambda: f"{f} differs in the network file")
        ctx.check(dataset.sign_type == obs[0].sign_type, "sign", f"{dataset.sign_type} built from {obs[0].sign_type}")
        tr = np.zeros(n, "i8")
        tr[by_row] = dataset["track"]
        ctx.check(bool((np.diff(dataset["track"].astype("i8")) >= 0).all()), "not-grouped", "observations not ordered by group")
        if group is not None:
            ctx.check(bool(np.array_equal(tr, np.asarray(group).astype("i8"))), "track-not-group", "track numbers are not the groups")
        group = tr
    group = np.asarray(group).astype("i8")
    ctx.check(group.shape == (n,), "group-shape", f"{group.shape} for {n} observations")
    sure, wide = reference(obs, spec)
    size = {}
    for i in range(n):
        size[sure.find(i)] = size.get(sure.find(i), 0) + 1
    first_of = {}
    for i in range(n):
        g, a, b = int(group[i]), sure.find(i), wide.find(i)
        alone_wide = sum(1 for j in range(n) if wide.find(j) == b) == 1 if g == 0 or size[a] == 1 else False
        if g == 0:
            ctx.check(size[a] == 1, "ungrouped", lambda: f"observation {codes[i]} overlaps others and is not grouped")
        else:
            ctx.check(not alone_wide, "isolated-grouped", lambda: f"observation {codes[i]} overlaps nothing and is in group {g}")
        if g:
            ctx.check(first_of.setdefault(("g", g), b) == b, "joined", lambda: f"group {g} joins observations without a chain of overlaps, {codes[i]}")
            ctx.check(first_of.setdefault(("a", a), g) == g, "separated", lambda: f"observation {codes[i]} is linked to another group")
    biggest = max(size.values(), default=0)
    if biggest >= 3:
        ctx.nontrivial = True
        ctx.probe("group over three observations")
    if any(v == 1 for v in size.values()):
        ctx.probe("isolated observation")
    ctx.probe(f"overlap rule {spec['rule']}")
    part = tuple(group.tolist())
    ctx.cover(spec["window"], spec["rule"], part)
    ctx.log("network", spec["window"], spec["rule"], spec["via"], part)


def raw_of(field, values):
    from py_eddy_tracker.generic import wrap_longitude  # noqa: F401
    from py_eddy_tracker import VAR_DESCR

    d = VAR_DESCR[field]
    if "scale_factor" in d:
        return np.round((values.astype("f8") - d.get("add_offset", 0)) / d["scale_factor"])
    return values


def close_raw(have, want):
    return bool((np.abs(np.asarray(have, "f8") - np.asarray(want, "f8")) <= 1).all())


def shuffled(scan, seed):
    import random

    class Listing:
        def __init__(self, path):
            with scan(path) as it:
                self.items = sorted(it, key=lambda e: e.name)
            random.Random(f"{seed}/{len(self.items)}").shuffle(self.items)
            self.it = iter(self.items)

        def __iter__(self):
            return self.it

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

    return lambda path=".": Listing(path)


def shrink(case):
    for k in range(len(case["nets"])):
        if len(case["nets"]) > 1:
            yield dict(case, nets=case["nets"][:k] + case["nets"][k + 1:])
    for key, v in (("fail", 0), ("listing", 0), ("interleave", False), ("same_path", False), ("spread", False)):
        if case.get(key):
            yield dict(case, **{key: v})
    for c in core.shrink_list(case["choices"], 1):
        yield dict(case, choices=c)
    for k, s in enumerate(case["nets"]):
        for key, v in (("window", 1), ("intern", False), ("memory", False), ("rule", "union"), ("via", "regex"), ("raw", False)):
            if s[key] != v:
                yield dict(case, nets=case["nets"][:k] + [dict(s, **{key: v})] + case["nets"][k + 1:])
    for d in range(len(case["worlds"])):
        for w in W.shrink_world(case["worlds"][d]):
            yield dict(case, worlds=case["worlds"][:d] + [w] + case["worlds"][d + 1:])
    if len(case["worlds"]) > 1 and all(s["ds"] == 0 for s in case["nets"]):
        yield dict(case, worlds=case["worlds"][:1])
