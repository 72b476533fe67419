"""Queries on tracks and networks never answer from stale indexes; derived datasets are isolated."""
import random
import sys

import numpy as np

from .. import core
from .. import netlib as L
from .. import world as W

RUNS = dict(quick=700, thorough=30000)
RULE = (
    "A case is a dataset of tracks (drawn) or of networks (drawn, or made by the real chain) and a history of 4-24 acts on a pool of "
    "datasets derived from it: queries, selections (kept in the pool), insertions, renumberings, sorts, copies, merges, acts with "
    "refused arguments and acts during which a numpy call fails. Non-trivial: a query was asked again after a change of its dataset."
)
MEASURE = "distinct (sequence of acts, outcome)"
REAL = ["TrackEddiesObservations, NetworkObservations, EddiesObservations and their numba kernels"]
STUB = ["numpy calls made by the package can fail with MemoryError (profile hook); drawn tracks replace the tracking step"]

TRACK_ARRAYS = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"]


# ---- drawing --------------------------------------------------------------------
def gen(rng, tier, i):
    kind = rng.choice(("track", "track", "net"))
    c = dict(kind=kind)
    if kind == "track":
        c["tracks"], ident = [], rng.choice((0, 1, 1, 4))
        for _ in range(rng.choice((1, 1, 2, 3, 5, 8))):
            times, t = [], rng.randint(0, 12)
            for _ in range(rng.choice((1, 2, 2, 3, 5, 9))):
                times.append(t)
                t += 1 if rng.random() < 0.75 else rng.randint(2, 4)
            c["tracks"].append(dict(id=ident, t=times, x=round(rng.uniform(-5, 5), 2), y=round(rng.choice((30, 30, -30, 0)) + rng.uniform(-5, 5), 2),
                                    dx=round(rng.uniform(-0.3, 0.3), 3), dy=round(rng.uniform(-0.3, 0.3), 3), v=rng.randrange(512)))
            ident += 1 if rng.random() < 0.7 else rng.randint(2, 5)
        c.update(step=rng.choice((1, 1, 5)), day0=rng.choice((W.DAY0, W.DAY0, 0)), sign=rng.choice((1, -1)), lon0=rng.choice((0, 180, 350)),
                 arrays=rng.random() < 0.5, seed=rng.randrange(1 << 20))
    else:
        while True:
            c["net"] = L.gen_net(rng)
            if c["net"]["kind"] == "drawn" or rng.random() < 0.15:
                break
    names, change = (TRACK_Q, TRACK_C) if kind == "track" else (NET_Q, NET_C)
    acts = []
    for _ in range(rng.choice((4, 8, 12, 24))):
        a = dict(act=rng.choice(sorted(change)) if rng.random() < 0.3 else rng.choice(sorted(names)), src=rng.randrange(6), seed=rng.randrange(1 << 20))
        if rng.random() < 0.12:
            a["fail"] = rng.randint(1, 12)
        if rng.random() < 0.5:
            a["keep"] = True
        acts.append(a)
        if rng.random() < 0.4:  # the same question again
            acts.append(dict(acts[rng.randrange(len(acts))]))
    c["acts"] = acts
    return c


def warmup(tmp):
    r = random.Random(5)
    for kind, table in (("track", {**TRACK_Q, **TRACK_C}), ("net", {**NET_Q, **NET_C})):
        for k, name in enumerate(sorted(table)):
            while True:
                c = gen(r, "quick", 0)
                if c["kind"] == kind and (kind == "track" and len(c["tracks"]) > 2 or kind == "net" and c["net"]["kind"] == "drawn"):
                    break
            c["acts"] = [dict(act=name, src=0, seed=s) for s in range(4)]
            try:
                run(c, core.Ctx(tmp))
            except core.Violation:
                pass


def drawn_tracks(c):
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    n, nb = sum(len(t["t"]) for t in c["tracks"]), 5
    kw = dict(track_array_variables=nb, array_variables=list(TRACK_ARRAYS)) if c["arrays"] else {}
    d = TrackEddiesObservations(n, **kw)
    d.sign_type = c["sign"]
    rnd = np.random.RandomState(c["seed"])
    a = np.linspace(0, 2 * np.pi, nb)
    i = 0
    for t in c["tracks"]:
        for k, day in enumerate(t["t"]):
            v = d.obs[i]
            rank = day - t["t"][0]
            v["lon"], v["lat"] = c["lon0"] + t["x"] + t["dx"] * rank + 0.01 * rnd.rand(), t["y"] + t["dy"] * rank + 0.01 * rnd.rand()
            v["time"], v["track"], v["n"] = c["day0"] + day * c["step"], t["id"], rank
            v["virtual"] = t["v"] >> (k % 9) & 1
            v["amplitude"], v["radius_e"], v["radius_s"] = 0.1 + 0.001 * i, 50000 + i * 100, 40000 + i * 100
            v["speed_area"], v["effective_area"], v["speed_average"] = 1e9 + i, 2e9 + i, 0.1 + 0.001 * i
            v["num_point_e"], v["num_point_s"] = 1 + i % 200, 1 + i // 200
            if c["arrays"]:
                for s, rad in (("e", 0.4), ("s", 0.3)):
                    v["contour_lon_" + s], v["contour_lat_" + s] = v["lon"] + rad * np.cos(a), v["lat"] + rad * np.sin(a)
            i += 1
    return d


# ---- seam: numpy calls of the package may fail -------------------------------------
class Alloc:
    """Fails the at-th numpy call made by the package."""

    def __init__(self, at):
        self.at, self.n, self.fired = at, 0, False

    def __call__(self, frame, event, arg):
        if event != "c_call":
            return
        if not (isinstance(getattr(arg, "__self__", None), np.ndarray) or (getattr(arg, "__module__", None) or "").startswith("numpy")):
            return
        while frame is not None and "/numpy/" in frame.f_code.co_filename:
            frame = frame.f_back
        if frame is None or "py_eddy_tracker/" not in frame.f_code.co_filename:
            return
        self.n += 1
        if self.n == self.at:
            self.fired = True
            raise MemoryError("simulated")


def outcome(call, o, fail=None):
    """("ok", value) or ("error", type of the exception)."""
    try:
        if fail is None:
            v = call(o)
        else:
            sys.setprofile(fail)
            try:
                v = call(o)
            finally:
                sys.setprofile(None)
        if hasattr(v, "__next__"):
            v = list(v)
        return "ok", v
    except core.Violation:
        raise
    except Exception as e:
        return "error", type(e).__name__


# ---- values ---------------------------------------------------------------------
def is_obs(v):
    return hasattr(v, "observations")


def clone(o):
    """The same observations, nothing remembered."""
    new = o.__class__.new_like(o, len(o))
    for f in o.obs.dtype.names:
        new.obs[f] = o.obs[f]
    new.sign_type = o.sign_type
    return new


def canon(v):
    if is_obs(v):
        return ("obs", type(v).__name__, v.sign_type, bool(v.raw_data), tuple((f, canon(v.obs[f])) for f in sorted(v.obs.dtype.names)))
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("objects",) + tuple(canon(i) for i in v)
        return ("array", v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, (list, tuple)):
        return ("list",) + tuple(canon(i) for i in v)
    if isinstance(v, (set, frozenset)):
        return ("set",) + tuple(sorted(repr(canon(i)) for i in v))
    if isinstance(v, dict):
        return ("dict",) + tuple(sorted((repr(canon(k)), canon(x)) for k, x in v.items()))
    if isinstance(v, slice):
        return ("slice", canon(v.start), canon(v.stop), canon(v.step))
    if isinstance(v, np.generic):
        return ("number", v.dtype.str, v.tobytes())
    return ("value", repr(v))


def state(o):
    return o.obs.tobytes(), o.obs.dtype.names, o.sign_type


def rows_of(v, n):
    """A selection as a list of rows."""
    if isinstance(v, slice):
        return list(range(n))[v]
    v = np.asarray(v)
    return np.where(v)[0].tolist() if v.dtype == bool else v.tolist()


class Rows:
    """Expected dataset: these rows of the source, with other values for some fields."""

    def __init__(self, rows, cls=None, skip=(), fields=None, **values):
        self.rows, self.cls, self.values, self.skip, self.fields = list(rows), cls, values, skip, fields

    def differs(self, got, o, a):
        if not is_obs(got):
            return f"no dataset: {type(got).__name__}"
        if type(got).__name__ != (self.cls or type(o).__name__):
            return f"class {type(got).__name__}"
        if got.sign_type != o.sign_type:
            return f"rotation type {got.sign_type}"
        if len(got) != len(self.rows):
            return f"{len(got)} observations, {len(self.rows)} expected"
        names = self.fields or [f for f in a.dtype.names if f not in self.skip]
        pos = {r: k for k, r in enumerate(self.rows)}
        for f in names:
            if f not in got.obs.dtype.names:
                if self.cls or self.fields is None and f in self.skip:
                    continue
                return f"field {f} is lost"
            want = a[f][self.rows]
            if f in self.values:
                want = np.asarray(self.values[f])
            elif f in ("next_obs", "previous_obs") and not self.cls:
                want = np.array([pos.get(int(v), -1) if v != -1 else -1 for v in want], "i8")
            if not np.array_equal(np.asarray(got.obs[f]), want.astype(got.obs[f].dtype), equal_nan=want.dtype.kind == "f"):
                return f"field {f}"


class Near:
    def __init__(self, v, tol):
        self.v, self.tol = np.asarray(v, "f8"), tol

    def differs(self, got, o, a):
        got = np.asarray(got, "f8")
        if got.shape != self.v.shape:
            return f"shape {got.shape}, {self.v.shape} expected"
        if not np.allclose(got, self.v, rtol=self.tol, atol=self.tol, equal_nan=True):
            k = int(np.argmax(~np.isclose(got, self.v, rtol=self.tol, atol=self.tol, equal_nan=True)))
            return f"value {k} is {got.flat[k]:.6g}, {self.v.flat[k]:.6g} expected"


class Test:
    """Expected: fn(got) returns None."""

    def __init__(self, fn):
        self.fn = fn

    def differs(self, got, o, a):
        return self.fn(got)


def differs(got, want, o, a):
    """What is wrong in `got`, or None."""
    if hasattr(want, "differs"):
        return want.differs(got, o, a)
    if isinstance(want, (list, tuple)):
        if len(got) != len(want):
            return f"{len(got)} items, {len(want)} expected"
        for g, w in zip(got, want):
            d = differs(g, w, o, a)
            if d:
                return d
        return None
    if isinstance(want, slice):
        return None if got == want else f"{got}, {want} expected"
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        return f"shape {g.shape}, {w.shape} expected"
    if not np.array_equal(g, w, equal_nan=w.dtype.kind == "f" and g.dtype.kind == "f"):
        return f"{str(g.tolist())[:80]}, {str(w.tolist())[:80]} expected"


class Kit:
    """What a maker needs: a random source, the other datasets, the registered arguments."""

    def __init__(self, r, pool):
        self.r, self.pool, self.args = r, pool, []

    def arg(self, v):
        self.args.append((v, v.copy()))
        return v

    def mask(self, n, p=None):
        p = self.r.choice((0, 0.2, 0.5, 0.8, 1)) if p is None else p
        return self.arg(np.array([self.r.random() < p for _ in range(n)], bool))

    def other(self, o):
        ok = [p for p in self.pool if type(p) is type(o)]
        return self.r.choice(ok)


TRACK_Q, TRACK_C, NET_Q, NET_C = {}, {}, {}, {}


def query(*tables, sorted_=False, empty=True, links=False):
    """Registers a maker: (o, a, kit) -> (call, expected) or None when it cannot be asked."""

    def deco(fn):
        fn.sorted_, fn.empty, fn.links = sorted_ or links, empty, links
        for t in tables:
            t[fn.__name__[2:]] = fn
        return fn

    return deco


def is_sorted(o):
    t = o.obs["track"].astype("i8")
    if (np.diff(t) < 0).any():
        return False
    if "segment" in o.obs.dtype.names:
        s, d = o.obs["segment"].astype("i8"), o.obs["time"].astype("f8")
        same = np.diff(t) == 0
        if (np.diff(s)[same] < 0).any() or (np.diff(d)[same & (np.diff(s) == 0)] < 0).any():
            return False
    return True


def can(maker, o):
    """The question makes sense for this dataset."""
    return (len(o) or maker.empty) and (not maker.sorted_ or is_sorted(o)) and (not maker.links or links_ok(o))


def links_ok(o):
    """Links lead to later and earlier observations of the network (it is not so after an insertion: they are indices)."""
    if "next_obs" not in o.obs.dtype.names:
        return True
    t, d = o.obs["track"], o.obs["time"]
    for f, sign in (("next_obs", 1), ("previous_obs", -1)):
        v = o.obs[f].astype("i8")
        m = v != -1
        if ((v[m] < 0) | (v[m] >= len(o))).any() or (t[v[m]] != t[m]).any() or ((d[v[m]] - d[m]) * sign <= 0).any():
            return False
    return True


# ---- questions to any dataset --------------------------------------------------------
@query(TRACK_Q, NET_Q)
def q_period(o, a, k):
    return (lambda o: o.period), (float("nan"), float("nan")) if not len(a) else (a["time"].min(), a["time"].max())


@query(TRACK_Q, NET_Q, empty=False)
def q_nb_days(o, a, k):
    return (lambda o: o.nb_days), a["time"].max() - a["time"].min() + 1


def some_period(a, r):
    t = np.unique(a["time"]).astype(int).tolist() if len(a) else [3, 7]
    a0, a1 = sorted((r.choice(t), r.choice(t)))
    return (r.choice((a0, a0, -r.randint(1, 4), 0)), r.choice((a1, a1, -r.randint(1, 4), 0)))


def period_mask(a, p):
    t = a["time"]
    m = np.ones(len(a), bool)
    if len(a):
        lo = p[0] if p[0] > 0 else t.min() - p[0] if p[0] < 0 else None
        hi = p[1] if p[1] > 0 else t.max() + p[1] if p[1] < 0 else None
        m &= (t >= lo) if lo is not None else True
        m &= (t <= hi) if hi is not None else True
    return m


def extraction(o, a, k, mask):
    """Options of extract_with_mask and the dataset they should give."""
    kw = {}
    if "n" in a.dtype.names and "segment" not in a.dtype.names and len(a):
        for name in ("full_path", "remove_incomplete", "compress_id", "reject_virtual"):
            if k.r.random() < 0.3 and (is_sorted(o) or name in ("compress_id", "reject_virtual")) and name != "reject_virtual" or (
                name == "reject_virtual" and k.r.random() < 0.3 and "virtual" in a.dtype.names):
                kw[name] = True
    t = a["track"].astype("i8")
    if kw.get("full_path"):
        m = mask & (a["virtual"] == 0) if kw.get("reject_virtual") else mask
        mask = np.isin(t, t[m])
    elif kw.get("remove_incomplete"):
        mask = ~np.isin(t, t[~mask])
    rows = np.where(mask)[0]
    values = {}
    if kw.get("compress_id"):
        values["track"] = np.searchsorted(np.unique(t[rows]), t[rows]) + 1
    return kw, Rows(rows, **values)


@query(TRACK_Q, NET_Q)
def q_mask(o, a, k):
    m = k.mask(len(a))
    kw, want = extraction(o, a, k, m.copy())
    return (lambda o: o.extract_with_mask(m, **kw)), want


@query(TRACK_Q, NET_Q)
def q_with_period(o, a, k):
    p = some_period(a, k.r)
    kw, want = extraction(o, a, k, period_mask(a, p))
    return (lambda o: o.extract_with_period(p, **kw)), want


@query(TRACK_Q, NET_Q)
def q_with_area(o, a, k):
    i = k.r.randrange(max(1, len(a)))
    x, y = (float(a["lon"][i]), float(a["lat"][i])) if len(a) else (0.0, 0.0)
    area = dict(llcrnrlon=x - k.r.choice((0.5, 2)), urcrnrlon=x + k.r.choice((0.5, 3)), llcrnrlat=y - 1, urcrnrlat=y + 2)
    turn = k.r.choice((0, 0, 360, -360))
    area["llcrnrlon"] += turn
    area["urcrnrlon"] += turn
    lon = (a["lon"] - area["llcrnrlon"]) % 360 + area["llcrnrlon"]
    m = (a["lat"] > area["llcrnrlat"]) & (a["lat"] < area["urcrnrlat"]) & (lon > area["llcrnrlon"]) & (lon < area["urcrnrlon"])
    kw, want = extraction(o, a, k, m)
    return (lambda o: o.extract_with_area(area, **kw)), want


@query(TRACK_Q, NET_Q)
def q_sub_sample(o, a, k):
    t0, step = (float(a["time"][0]) if len(a) else 3) + k.r.randint(-2, 2), k.r.choice((1, 2, 3))
    return (lambda o: o.time_sub_sample(t0, step)), Rows(np.where((a["time"] - t0) % step == 0)[0])


@query(TRACK_Q, NET_Q)
def q_copy(o, a, k):
    return (lambda o: o.copy()), Rows(range(len(a)))


@query(TRACK_Q, NET_Q, empty=False)
def q_index(o, a, k):
    n = len(a)
    i, j = sorted((k.r.randrange(n + 1), k.r.randrange(n + 1)))
    kind = k.r.choice(("slice", "array", "int", "reverse"))
    if kind == "slice":
        arg, rows = slice(i, j), range(i, j)
    elif kind == "int":
        arg = k.r.randrange(n)
        rows = [arg]
    else:
        rows = sorted(k.r.sample(range(n), k.r.randint(0, n)))
        arg = k.arg(np.array(rows, "i8"))
        if kind == "reverse":
            rows = [r for r in range(n) if r not in rows]
    if "next_obs" in a.dtype.names:
        # links are those of the source
        return (lambda o: o.index(arg, reverse=kind == "reverse")), Rows(rows, next_obs=a["next_obs"][rows], previous_obs=a["previous_obs"][rows]) \
            if kind != "reverse" else None
    return (lambda o: o.index(arg, reverse=kind == "reverse")), Rows(rows) if kind != "reverse" else None


@query(TRACK_Q, NET_Q, empty=False)
def q_iter_on(o, a, k):
    name = k.r.choice(("time", "track", "time", "n" if "n" in a.dtype.names else "segment"))
    x = a[name].astype("f8")
    if (x % 1 != 0).any():
        return None
    lo, hi = int(x.min()), int(x.max())
    bins = k.r.choice((None, None, list(range(lo + k.r.randint(-3, 2), hi + k.r.randint(2, 6))), list(range(lo - 4, hi + 8, 3))))
    if bins is not None and len(bins) < 3:
        bins = [lo - 1, lo, lo + 1]
    edges = bins if bins is not None else list(range(lo, hi + 2))
    want = []
    for b0, b1 in zip(edges[:-1], edges[1:]):
        r = np.where((x >= b0) & (x < b1))[0]
        if len(r):
            want.append((set(r.tolist()), b0, b1))

    def same(got):
        n = len(a)
        got = [(set(rows_of(i, n)), int(b0), int(b1)) for i, b0, b1 in got]
        got = [g for g in got if g[0]]
        return None if got == want else f"groups {str([sorted(g[0]) for g in got])[:100]}, {str([sorted(w[0]) for w in want])[:100]} expected"

    return (lambda o: list(o.iter_on(name, bins=None if bins is None else np.array(bins)))), Test(same)


@query(TRACK_Q, NET_Q, empty=False)
def q_window(o, a, k):
    half = k.r.choice((0.5, 1, 2.5))
    x = a["time"]
    x0 = np.array(sorted({float(k.r.choice(x.tolist())) + k.r.randint(-2, 2) for _ in range(4)}))
    k.arg(x0)

    def same(got):
        for c, (i, b0, b1) in zip(x0, got):
            want = set(np.where((x > c - half) & (x <= c + half))[0].tolist())
            if set(rows_of(i, len(a))) != want or (b0, b1) != (c - half, c + half):
                return f"window {c}: {sorted(rows_of(i, len(a)))}, {sorted(want)} expected"
        return None if len(got) == len(x0) else f"{len(got)} windows"

    return (lambda o: list(o.iter_on("time", window=half, bins=x0))), Test(same)


@query(TRACK_Q, NET_Q, empty=False)
def q_filters(o, a, k):
    n = len(a)
    filters, keep = [], set(range(n))
    for _ in range(k.r.randint(1, 3)):
        kind = k.r.choice(("mask", "index", "slice", "none", "call"))
        if kind in ("mask", "call"):
            m = k.mask(n)
            filters.append(m if kind == "mask" else (lambda o, m=m: m))
            keep &= set(np.where(m)[0].tolist())
        elif kind == "index":
            i = sorted(k.r.sample(range(n), k.r.randint(1, n)))
            filters.append(k.arg(np.array(i)))
            keep &= set(i)
        elif kind == "slice":
            i, j = sorted((k.r.randrange(n + 1), k.r.randrange(n + 1)))
            filters.append(slice(i, j))
            keep &= set(range(i, j))
        else:
            filters.append(None)

    def same(got):
        got = rows_of(got, n)
        return None if sorted(got) == sorted(keep) else f"{sorted(got)}, {sorted(keep)} expected"

    return (lambda o: o.merge_filters(*filters)), Test(same)


@query(TRACK_Q, NET_Q)
def q_add_fields(o, a, k):
    if "lon_max" in a.dtype.names:
        return None
    return (lambda o: o.add_fields(("lon_max",))), linked(a)


def linked(a, **kw):
    """Every row, links as they are."""
    if "next_obs" in a.dtype.names:
        kw.update(next_obs=a["next_obs"], previous_obs=a["previous_obs"])
    return Rows(range(len(a)), **kw)


@query(TRACK_Q, NET_Q)
def q_remove_fields(o, a, k):
    ok = [f for f in ("amplitude", "speed_average", "lon_max", "contour_lat_s") if f in a.dtype.names]
    gone = sorted(k.r.sample(ok, min(len(ok), k.r.randint(1, 2))))

    def same(got):
        bad = [f for f in gone if f in got.obs.dtype.names]
        return f"fields {bad} are still there" if bad else linked(a, skip=gone).differs(got, o, a)

    return (lambda o: o.remove_fields(*gone)), Test(same)


@query(TRACK_Q, NET_Q)
def q_rotation(o, a, k):
    if "type_cyc" in a.dtype.names:
        return None
    return (lambda o: o.add_rotation_type()), linked(a)


@query(TRACK_Q, NET_Q, empty=False)
def q_by_date(o, a, k):
    if not is_sorted(o):
        return None
    date, nb = float(k.r.choice(a["time"].tolist())), k.r.choice((0, 1, 2, -1, -3))
    t = a["track"]
    ok = [g for g in np.unique(t) if date in a["time"][t == g] and date + nb in a["time"][t == g]]
    return (lambda o: o.keep_tracks_by_date(date, nb)), Rows(np.where(np.isin(t, ok))[0])


@query(TRACK_Q, NET_Q)
def q_equal(o, a, k):
    p = k.other(o)
    want = o.obs.dtype == p.obs.dtype and o.sign_type == p.sign_type and len(o) == len(p) and o.obs.tobytes() == p.obs.tobytes()
    if any(a.dtype[f].kind == "f" and np.isnan(a[f]).any() for f in a.dtype.names):
        return None
    if o.obs.dtype != p.obs.dtype:
        return None
    return (lambda o: o == p), want


@query(TRACK_Q, NET_Q)
def q_print(o, a, k):
    return (lambda o: repr(o)), None


@query(TRACK_Q, NET_Q)
def q_refused(o, a, k):
    """Arguments the dataset refuses: a mask of another size, another kind of dataset."""
    m = k.arg(np.ones(len(a) + 3, bool))

    def call(o):
        try:
            o.extract_with_mask(m)
        except IndexError:
            return "refused"
        return "accepted"

    return call, Test(lambda got: None if got == "refused" else "a mask of another size was accepted")


@query(TRACK_Q, NET_Q)
def q_unlike(o, a, k):
    """Insertion of a dataset with other fields is refused and changes nothing."""
    from py_eddy_tracker.observations.observation import EddiesObservations

    b = EddiesObservations(2, track_array_variables=7, array_variables=["contour_lon_e"])

    def call(o):
        try:
            o.insert_observations(b, 0)
        except Exception:
            return "refused"
        return "accepted"

    return call, Test(lambda got: None if got == "refused" else "accepted")


# ---- questions to tracks ----------------------------------------------------------------
@query(TRACK_Q)
def q_nb_tracks(o, a, k):
    return (lambda o: o.nb_tracks), len(np.unique(a["track"]))


@query(TRACK_Q, empty=False)
def q_nb_obs_by_track(o, a, k):
    return (lambda o: o.nb_obs_by_track), np.bincount(a["track"].astype("i8"))


def first_index(a):
    t = a["track"].astype("i8")
    i = np.full(t.max() + 1, -1)
    for r in range(len(t) - 1, -1, -1):
        i[t[r]] = r
    return i


@query(TRACK_Q, sorted_=True, empty=False)
def q_index_from_track(o, a, k):
    return (lambda o: o.index_from_track), first_index(a)


@query(TRACK_Q, sorted_=True, empty=False)
def q_track_slice(o, a, k):
    t = int(k.r.choice(a["track"].tolist()))
    r = np.where(a["track"] == t)[0]

    def same(s):
        return None if list(range(len(a)))[s] == r.tolist() else f"{s}, {r.tolist()} expected"

    return (lambda o: o.track_slice(t)), Test(same)


@query(TRACK_Q, sorted_=True, empty=False)
def q_iter_track(o, a, k):
    return (lambda o: list(o.iter_track())), [Rows(np.where(a["track"] == t)[0]) for t in np.unique(a["track"])]


def lifetime(a):
    t = a["track"].astype("i8")
    return np.bincount(t)[t]


@query(TRACK_Q, sorted_=True, empty=False)
def q_lifetime(o, a, k):
    return (lambda o: o.lifetime), lifetime(a)


@query(TRACK_Q, sorted_=True, empty=False)
def q_age(o, a, k):
    if (lifetime(a) == 1).any():
        return None
    return (lambda o: o["age"]), Near(a["n"] / (lifetime(a) - 1.0) * 100, 1e-4)


def some_ids(a, r):
    t = np.unique(a["track"]).astype(int).tolist()
    ids = r.sample(t, r.randint(0, len(t)))
    for _ in range(r.choice((0, 0, 1))):
        ids.append(r.choice((max(t) + 1, max(t) + 50, 0)))
    return ids


@query(TRACK_Q, sorted_=True, empty=False)
def q_ids(o, a, k):
    ids = some_ids(a, k.r)
    return (lambda o: o.extract_ids(np.array(ids, "i8"))), Rows(np.where(np.isin(a["track"].astype("i8"), ids))[0])


@query(TRACK_Q, sorted_=True, empty=False)
def q_mask_ids(o, a, k):
    ids = np.array(some_ids(a, k.r), "i8")
    k.arg(ids)
    return (lambda o: o.get_mask_from_id(ids)), np.isin(a["track"].astype("i8"), ids)


@query(TRACK_Q, sorted_=True)
def q_length(o, a, k):
    b0, b1 = k.r.choice(((-1, 3), (2, -1), (0, 2), (3, 5), (1, 1), (-1, 0), (-1, -1)))
    if (b0, b1) == (-1, -1) and len(a):
        return (lambda o: o.extract_with_length((b0, b1))), None
    n = lifetime(a) if len(a) else np.zeros(0)
    m = ((n >= b0) if b0 >= 0 else True) & ((n <= b1) if b1 != -1 else True)
    return (lambda o: o.extract_with_length((b0, b1))), Rows(np.where(np.ones(len(a), bool) & m)[0])


@query(TRACK_Q, empty=False)
def q_longer(o, a, k):
    nb, low, comp = k.arg(lifetime(a)), k.r.randint(1, 5), k.r.random() < 0.7
    rows = np.where(nb >= low)[0]
    t = a["track"].astype("i8")[rows]
    kw = dict(track=np.searchsorted(np.unique(t), t) + 1) if comp else {}
    return (lambda o: o.extract_longer_eddies(low, nb, compress_id=comp)), Rows(rows, **kw)


def ends(a):
    t = a["track"].astype("i8")
    ids = np.unique(t)
    return ids, np.array([np.where(t == i)[0][0] for i in ids]), np.array([np.where(t == i)[0][-1] for i in ids])


@query(TRACK_Q, sorted_=True, empty=False)
def q_toward(o, a, k):
    west = k.r.random() < 0.5
    ids, i0, i1 = ends(a)
    d = a["lon"][i1] - a["lon"][i0]
    rows = np.where(np.isin(a["track"], ids[d < 0 if west else d > 0]))[0]
    return (lambda o: o.extract_toward_direction(west)), Rows(rows)


@query(TRACK_Q, sorted_=True, empty=False)
def q_direction(o, a, k):
    way, value = k.r.choice("NSEW"), k.r.choice((0, 0, 0.1))
    ids, i0, i1 = ends(a)
    if way in "NS":
        d = a["lat"][i1] - a["lat"][i0]
    else:
        x0 = a["lon"][i0]
        d = (a["lon"][i1] - (x0 - 180)) % 360 + x0 - 180 - x0
    m = (d < 0 if way in "SW" else d > 0) & (abs(d) > value)
    return (lambda o: o.extract_in_direction(way, value)), Rows(np.where(np.isin(a["track"], ids[m]))[0])


@query(TRACK_Q, empty=False)
def q_first_in_box(o, a, k):
    res = k.r.choice((0.5, 1, 5))
    seen, rows = set(), []
    for r, (x, y, t) in enumerate(zip(np.float32(a["lon"] - a["lon"] % res), np.float32(a["lat"] - a["lat"] % res), a["track"])):
        if (x, y, t) not in seen:
            seen.add((x, y, t))
            rows.append(r)
    return (lambda o: o.extract_first_obs_in_box(res)), Rows(rows)


@query(TRACK_Q)
def q_first_obs(o, a, k):
    return (lambda o: o.first_obs()), Rows(np.where(a["n"] == 0)[0])


@query(TRACK_Q, empty=False)
def q_last_obs(o, a, k):
    m = np.append(a["n"][1:] == 0, True)
    return (lambda o: o.last_obs()), Rows(np.where(m)[0])


def great_circle(lon, lat):
    x, y = np.radians(lon.astype("f8")), np.radians(lat.astype("f8"))
    h = np.sin(np.diff(y) / 2) ** 2 + np.cos(y[1:]) * np.cos(y[:-1]) * np.sin(np.diff(x) / 2) ** 2
    return 2 * 6370997.0 * np.arcsin(np.sqrt(h))


def distances(a):
    d = np.append(great_circle(a["lon"], a["lat"]), 0.0)
    d[:-1][a["track"][1:] != a["track"][:-1]] = 0
    return d


@query(TRACK_Q, sorted_=True, empty=False)
def q_distance(o, a, k):
    def same(got):
        want = distances(a)
        if got.shape == want.shape and (got[want == 0] != 0).any() and (got[want == 0] > 1).any():
            return "not null where there is no next observation"
        return Near(want, 1e-3).differs(got, o, a)

    return (lambda o: o.distance_to_next()), Test(same)


@query(TRACK_Q, sorted_=True, empty=False)
def q_add_distance(o, a, k):
    if "distance_next" in a.dtype.names:
        return None

    def same(got):
        return Rows(range(len(a))).differs(got, o, a) or Near(distances(a), 1e-3).differs(got.obs["distance_next"], o, a)

    return (lambda o: o.add_distance()), Test(same)


@query(TRACK_Q, sorted_=True, empty=False)
def q_azimuth(o, a, k):
    eq = k.r.random() < 0.5
    _, i0, i1 = ends(a)
    y0, y1, dx = np.radians(a["lat"][i0].astype("f8")), np.radians(a["lat"][i1].astype("f8")), np.radians((a["lon"][i1] - a["lon"][i0]).astype("f8"))
    az = np.degrees(np.arctan2(np.sin(dx) * np.cos(y1), np.cos(y0) * np.sin(y1) - np.sin(y0) * np.cos(y1) * np.cos(dx))) + 90
    moved = i0 != i1
    if eq:
        az[y0 < 0] *= -1

    def same(got):
        if got.shape != az.shape:
            return f"{len(got)} values, {len(az)} expected"
        return Near(az[moved], 0.5).differs(got[moved], o, a)

    return (lambda o: o.get_azimuth(eq)), Test(same)


@query(TRACK_Q, empty=False)
def q_count(o, a, k):
    m = k.mask(len(a))
    t = a["track"].astype("i8")
    return (lambda o: o.count_by_track(m)), np.bincount(t[m], minlength=t.max() + 1)


@query(TRACK_Q, empty=False)
def q_label(o, a, k):
    want = f"{a['time'].min()} {a['time'].max()} {len(a)} {len(np.unique(a['track']))}"
    return (lambda o: o.format_label("{t0} {t1} {nb_obs} {nb_tracks}")), Test(lambda g: None if g == want else f"{g}, {want} expected")


@query(TRACK_Q, empty=False)
def q_merge(o, a, k):
    if not is_sorted(o):
        return None
    p = k.other(o)
    if not len(p):
        return None
    b, n = p.obs.copy(), len(a)

    def same(got):
        if len(got) != n + len(b) or got.sign_type != o.sign_type:
            return f"{len(got)} observations"
        for f in a.dtype.names:
            g = got.obs[f]
            if not np.array_equal(g[:n], a[f], equal_nan=a[f].dtype.kind == "f"):
                return f"field {f} of the first"
            if f == "track":
                if len(np.unique(g[n:])) != len(np.unique(b[f])) or np.isin(g[n:], g[:n]).any():
                    return "tracks of both datasets share numbers"
                if not np.array_equal(np.unique(g[n:], return_inverse=True)[1], np.unique(b[f], return_inverse=True)[1]):
                    return "tracks of the second dataset are mixed"
            elif f in b.dtype.names and not np.array_equal(g[n:], b[f], equal_nan=b[f].dtype.kind == "f"):
                return f"field {f} of the second"

    return (lambda o: o.merge(p)), Test(same)


@query(TRACK_Q, empty=False)
def q_concatenate(o, a, k):
    others = [k.other(o) for _ in range(k.r.randint(1, 2))]
    others = [p for p in others if set(p.obs.dtype.names) == set(a.dtype.names) and p.coherence(o)]
    parts = [p.obs.copy() for p in [o] + others]

    def same(got):
        if len(got) != sum(map(len, parts)):
            return f"{len(got)} observations"
        i, used = 0, set()
        for b in parts:
            g = got.obs[i:i + len(b)]
            i += len(b)
            for f in a.dtype.names:
                if f != "track" and not np.array_equal(g[f], b[f], equal_nan=b[f].dtype.kind == "f"):
                    return f"field {f}"
            if not np.array_equal(np.unique(g["track"], return_inverse=True)[1], np.unique(b["track"], return_inverse=True)[1]):
                return "tracks are mixed"
            ids = set(g["track"].tolist())
            if ids & used:
                return "tracks of two datasets share numbers"
            used |= ids

    return (lambda o: type(o).concatenate([o] + others)), Test(same)


@query(TRACK_Q, NET_Q, links=True, empty=False)
def q_virtual(o, a, k):
    """insert_virtual: missing observations inserted in each track or segment."""
    if "virtual" not in a.dtype.names:
        return None
    net = "segment" in a.dtype.names
    seq = list(zip(a["track"].tolist(), a["segment"].tolist())) if net else a["track"].tolist()
    t = a["time"].astype("f8")
    follow = [i for i in range(len(a) - 1) if seq[i] == seq[i + 1]]
    if not follow:
        return None
    dt = float(np.median([t[i + 1] - t[i] for i in follow]))
    if dt <= 0:
        return None
    src, want_t = [], []
    for i in range(len(a)):
        src.append(i)
        want_t.append(t[i])
        if i in follow and not (net and seq[i][0] == 0):
            d = t[i + 1] - t[i]
            nb = int(d / dt) - 1 if d > dt else 0
            for j in range(nb):
                src.append(-1 - i)
                want_t.append(t[i] + (j + 1) * d / (nb + 1))
    new = np.array([s < 0 for s in src])
    origin = np.array([-1 - s if s < 0 else s for s in src])

    def same(got):
        if len(got) != len(src):
            return f"{len(got)} observations, {len(src)} expected"
        if got.sign_type != o.sign_type:
            return "rotation type"
        for f in ("track", "segment"):
            if f in a.dtype.names and not np.array_equal(got.obs[f], a[f][origin]):
                return f"field {f}"
        for f in a.dtype.names:
            if f not in L.LINKS and not np.array_equal(got.obs[f][~new], a[f], equal_nan=a[f].dtype.kind == "f"):
                return f"field {f} of an observation which was there"
        if not (got.obs["virtual"][new] == 1).all():
            return "inserted observation not flagged"
        if abs(got.obs["time"] - np.array(want_t)).max() > (0.51 if got.obs["time"].dtype.kind != "f" else 1e-3):
            return "date of an inserted observation"
        if net:
            back = {int(p): i for i, p in enumerate(np.where(~new)[0])}
            for f, side in (("next_obs", 1), ("previous_obs", -1)):
                for i in range(len(src)):
                    v = int(got.obs[f][i])
                    inside = 0 <= i + side < len(src) and (new[i] or new[i + side]) and origin[min(i, i + side)] in follow and (
                        new[i + side] or new[i]) and seq[origin[i]] == seq[origin[i + side]]
                    if inside:
                        if v != i + side:
                            return f"{f} of observation {i} is {v}, {i + side} expected"
                    elif (back.get(v) if v != -1 else -1) != int(a[f][origin[i]]):
                        return f"{f} of observation {i} is {v}"

    return (lambda o: o.insert_virtual()), Test(same)


# ---- questions to networks ----------------------------------------------------------------
def segments(a):
    """[(network, segment, rows)] in order."""
    out = []
    for r, key in enumerate(zip(a["track"].tolist(), a["segment"].tolist())):
        if not out or out[-1][:2] != list(key):
            out.append([*key, []])
        out[-1][2].append(r)
    return out


@query(NET_Q, sorted_=True, empty=False)
def q_nb_network(o, a, k):
    return (lambda o: o.nb_network), len(np.unique(a["track"]))


@query(NET_Q, empty=False)
def q_nb_segment(o, a, k):
    return (lambda o: o.nb_segment), len(segments(a))


@query(NET_Q, sorted_=True, empty=False)
def q_network_size(o, a, k):
    t = a["track"].astype("i8")
    n = np.bincount(t)
    if k.r.random() < 0.5:
        return (lambda o: o.network_size()), n[t.min():]
    ids = k.arg(np.array(k.r.sample(np.unique(t).tolist(), 1)))
    return (lambda o: o.network_size(ids)), n[ids]


@query(NET_Q, empty=False)
def q_segment_size(o, a, k):
    return (lambda o: o.segment_size()), [len(s[2]) for s in segments(a)]


@query(NET_Q, sorted_=True, empty=False)
def q_network_segment_size(o, a, k):
    t = [s[0] for s in segments(a)]
    if k.r.random() < 0.5:
        return (lambda o: o.network_segment_size()), np.bincount(t)[min(t):]
    ids = np.array([k.r.choice(t)])
    return (lambda o: o.network_segment_size(ids)), np.bincount(t)[ids]


@query(NET_Q, empty=False)
def q_unique_segment(o, a, k):
    s = segments(a)
    i = k.r.randrange(len(s))
    return (lambda o: o.unique_segment_to_id(np.array([i]))), ([s[i][0]], [s[i][1]])


@query(NET_Q, empty=False)
def q_segment_array(o, a, k):
    want = np.concatenate([[i] * len(s[2]) for i, s in enumerate(segments(a))])
    return (lambda o: o.segment_track_array), want


@query(NET_Q, sorted_=True, empty=False)
def q_network(o, a, k):
    t = a["track"].astype("i8")
    i = k.r.choice(np.unique(t).tolist() + [int(t.max()) + 1, 0, int(t.min()) + 1])
    return (lambda o: o.network(i)), Rows(np.where(t == i)[0])


@query(NET_Q, sorted_=True, empty=False)
def q_networks(o, a, k):
    ids = some_ids(a, k.r)
    kind = k.r.choice(("list", "array"))
    return (lambda o: o.networks(ids if kind == "list" and ids else np.array(ids, "i8"))), Rows(np.where(np.isin(a["track"].astype("i8"), ids))[0])


@query(NET_Q, empty=False)
def q_segment_mask(o, a, k):
    s = segments(a)
    ids = k.r.sample(range(len(s)), k.r.randint(1, len(s)))
    rows = sorted(r for i in ids for r in s[i][2])
    if k.r.random() < 0.5:
        m = np.zeros(len(a), bool)
        m[rows] = True
        return (lambda o: o.segment_mask(ids)), m
    return (lambda o: o.extract_segment(ids, absolute=True)), Rows(rows)


@query(NET_Q, sorted_=True, empty=False)
def q_networks_mask(o, a, k):
    seg = k.r.random() < 0.5
    n = len(segments(a))
    ids = k.arg(np.array(k.r.sample(range(n), k.r.randint(1, n)) if seg else some_ids(a, k.r), "i8"))
    m = np.zeros(len(a), bool)
    for i, s in enumerate(segments(a)):
        m[s[2]] = i in ids if seg else s[0] in ids
    return (lambda o: o.networks_mask(ids, segment=seg)), m


@query(NET_Q, sorted_=True, empty=False)
def q_longer_than(o, a, k):
    lo, hi = k.r.choice(((2, -1), (-1, 4), (3, 6), (1, 1), (-1, -1)))
    t = a["track"]
    ok = [g for g in np.unique(t) if lo <= np.ptp(a["time"][t == g]) + 1 <= (hi if hi >= 0 else 1e12)]
    return (lambda o: o.longer_than(lo, hi)), Rows(np.where(np.isin(t, ok))[0])


@query(NET_Q, links=True, empty=False)
def q_events(o, a, k):
    s = segments(a)
    kind, triplet, only = k.r.choice(("birth", "death", "merging", "splitting")), k.r.random() < 0.5, k.r.random() < 0.5
    nx, pv = a["next_obs"].astype("i8"), a["previous_obs"].astype("i8")
    if kind in ("birth", "death"):
        i = [g[2][0] for g in s if pv[g[2][0]] == -1] if kind == "birth" else [g[2][-1] for g in s if nx[g[2][-1]] == -1]
        alone = all(pv[r] == -1 and nx[r] == -1 for r in s[0][2])
        if alone and s[0][0] != 0:
            return (lambda o: getattr(o, kind + "_event")()), None
        if alone:
            i = i[1:]
        return (lambda o: getattr(o, kind + "_event")()), Rows(i, cls="EddiesObservations")
    if kind == "merging":
        tr = [(nx[g[2][-1]], pv[nx[g[2][-1]]], g[2][-1]) for g in s if nx[g[2][-1]] != -1]
    else:
        tr = [(pv[g[2][0]], nx[pv[g[2][0]]], g[2][0]) for g in s if pv[g[2][0]] != -1]
    if -1 in [i for x in tr for i in x]:
        triplet = False  # an earlier extraction has separated the observations of an event

    def call(o):
        return getattr(o, kind + "_event")(triplet=triplet, only_index=only)

    def same(got):
        if not triplet:
            u = sorted({int(x[0]) for x in tr})
            return differs(got, u, o, a) if only else Rows(u, cls="EddiesObservations").differs(got, o, a)
        times = [a["time"][x[0]] for x in tr]
        if only:
            g = list(zip(*[v.tolist() for v in got]))
            if sorted(g) != sorted(tuple(int(i) for i in x) for x in tr):
                return f"events {g[:5]}, {tr[:5]} expected"
            return None if [a["time"][x[0]] for x in g] == sorted(times) else "events are not in time order"
        if [len(v) for v in got] != [len(tr)] * 3:
            return f"{[len(v) for v in got]} observations, {len(tr)} events"
        g = sorted(zip(*[list(zip(v.obs["num_point_e"].tolist(), v.obs["num_point_s"].tolist())) for v in got]))
        w = sorted(tuple((int(a["num_point_e"][i]), int(a["num_point_s"][i])) for i in x) for x in tr)
        return None if g == w else "observations of the events"

    return call, Test(same)


@query(NET_Q, links=True, empty=False)
def q_connexions(o, a, k):
    s = segments(a)
    rank = {r: i for i, g in enumerate(s) for r in g[2]}
    want = {}
    for i, g in enumerate(s):
        for v in (int(a["previous_obs"][g[2][0]]), int(a["next_obs"][g[2][-1]])):
            if v != -1:
                want.setdefault(i, set()).add(rank[v])
                want.setdefault(rank[v], set()).add(i)

    def same(got):
        got = {int(x): {int(v) for v in y} for x, y in got.items()}
        return None if got == want else f"{str(got)[:80]}, {str(want)[:80]} expected"

    return (lambda o: o.connexions(multi_network=True)), Test(same)


@query(NET_Q, sorted_=True, empty=False)
def q_map_network(o, a, k):
    want = np.array([a["amplitude"][a["track"] == t].max() for t in a["track"]]) if "amplitude" in a.dtype.names else None
    if want is None:
        return None
    if k.r.random() < 0.5:
        return (lambda o: o.map_network(lambda x: x.max(), o.amplitude)), want
    return (lambda o: o.map_network(lambda x: x.max(), o.amplitude, same=False)), [a["amplitude"][a["track"] == t].max() for t in np.unique(a["track"])]


@query(NET_Q, empty=False)
def q_map_segment(o, a, k):
    s = segments(a)
    t = a["time"]
    if k.r.random() < 0.5:
        return (lambda o: o.map_segment(lambda x: x.max(), o.time)), np.concatenate([[t[g[2]].max()] * len(g[2]) for g in s])
    return (lambda o: o.map_segment(lambda x: x.max(), o.time, same=False)), [t[g[2]].max() for g in s]


@query(NET_Q, empty=False)
def q_mean_segment(o, a, k):
    return (lambda o: o.mean_by_segment(o.lat)), Near(np.concatenate([[a["lat"][g[2]].mean()] * len(g[2]) for g in segments(a)]), 1e-4)


@query(NET_Q, sorted_=True, empty=False)
def q_trash(o, a, k):
    s = segments(a)
    if all(a["previous_obs"][r] == -1 and a["next_obs"][r] == -1 for r in s[0][2]) != (s[0][0] == 0):
        return None
    return (lambda o: o.remove_trash()), Rows(np.where(a["track"] != 0)[0])


@query(NET_Q, sorted_=True, empty=False)
def q_light(o, a, k):
    if not all(f in a.dtype.names for f in TRACK_ARRAYS):
        return None
    m = k.mask(len(a))
    rows = np.where(m)[0]
    extra = k.r.choice(([], ["track", "segment", "next_obs", "previous_obs"]))
    return (lambda o: o.extract_light_with_mask(m, track_extra_variables=extra)), Rows(rows, fields=["time"] + TRACK_ARRAYS + extra)


@query(NET_Q, links=True, empty=False)
def q_relatives(o, a, k):
    i, order = k.r.randrange(len(a)), k.r.randint(0, 2)
    return (lambda o: o.relatives([i], order=order)), None


@query(NET_Q, links=True, empty=False)
def q_find_link(o, a, k):
    i, f, b = k.r.randrange(len(a)), k.r.random() < 0.6, k.r.random() < 0.6
    return (lambda o: o.find_link([i], forward=f, backward=b)), None


@query(NET_Q, links=True, empty=False)
def q_close_mask(o, a, k):
    dt = k.r.choice((1, 3))
    return (lambda o: o.mask_obs_close_event(dt=dt)), None


@query(NET_Q, links=True, empty=False)
def q_identify(o, a, k):
    p = k.other(o)
    if not is_sorted(p) or not len(p):
        return None
    p = clone(o) if k.r.random() < 0.5 else p
    return (lambda o: o.identify_in(p)), None


# ---- changes ----------------------------------------------------------------------------------
@query(TRACK_C, NET_C)
def c_insert(o, a, k):
    ok = [p for p in k.pool if type(p) is type(o) and p.obs.dtype == o.obs.dtype and p.coherence(o)]
    if not ok:
        return None
    p = k.r.choice(ok)
    b, n, kind = p.obs.copy(), len(a), k.r.choice(("insert", "append", "plus"))
    at = k.r.choice((0, n, -1, k.r.randrange(n + 1)))
    if "next_obs" in a.dtype.names and kind == "insert":
        kind = "append"  # links are indices
    p = clone(p) if p is o else p
    call = dict(insert=lambda o: o.insert_observations(p, at), append=lambda o: o.append(p), plus=lambda o: o + p)[kind]
    i = at if kind == "insert" else -1
    i = n + i + 1 if i < 0 else i

    def same(o):
        want = np.concatenate((a[:i], b, a[i:])) if len(b) else a
        return None if o.obs.tobytes() == want.tobytes() else "observations"

    return call, Test(same)


@query(TRACK_C, NET_C)
def c_reset(o, a, k):
    if k.r.random() < 0.7:
        return None
    return (lambda o: o.reset()), Test(lambda o: None if len(o) == 0 else "observations remain")


def changed(a, *fields):
    def same(o):
        for f in a.dtype.names:
            if f not in fields and not np.array_equal(o.obs[f], a[f], equal_nan=a[f].dtype.kind == "f"):
                return f"field {f} changed"

    return Test(same)


@query(TRACK_C, NET_C, sorted_=True, empty=False)
def c_normalize(o, a, k):
    lon = a["lon"].astype("f8")

    def same(o):
        d = changed(a, "lon", "lon_max", "contour_lon_e", "contour_lon_s").differs(o, o, a)
        if d:
            return d
        x = o.obs["lon"].astype("f8")
        turn = (x - lon) / 360
        if abs(turn - turn.round()).max() > 1e-5:
            return "longitude"
        for t in np.unique(a["track"]):
            m = a["track"] == t
            if (abs(x[m] - x[m][0]) > 180.001).any():
                return "longitudes of a track are not around the first one"

    return (lambda o: o.normalize_longitude()), Test(same)


@query(TRACK_C, NET_C, sorted_=True, empty=False)
def c_smooth(o, a, k):
    kind, half, f = k.r.choice(("median", "loess")), k.r.choice((1, 3, 10)), k.r.choice(("lon", "lat"))
    if kind == "median":
        return (lambda o: o.median_filter(half, "time", f)), changed(a, f)
    return (lambda o: o.loess_filter(half, "time", f)), changed(a, f)


@query(TRACK_C, NET_C)
def c_scribble(o, a, k):
    """The user changes values of this dataset."""

    def call(o):
        o.obs["lat"] += 0.25
        o.sign_type = -o.sign_type if o.sign_type else 1

    return call, changed(a, "lat")


@query(TRACK_C, sorted_=True, empty=False)
def c_fill(o, a, k):
    m = k.mask(len(a), 0.3)
    if m.all():
        return None

    def same(o):
        for f in a.dtype.names:
            if not np.array_equal(o.obs[f][~m], a[f][~m], equal_nan=a[f].dtype.kind == "f"):
                return f"field {f} of an observation not to fill"
            if f in ("n", "virtual", "track") and not np.array_equal(o.obs[f], a[f]):
                return f"field {f}"

    return (lambda o: o.filled_by_interpolation(m)), Test(same)


@query(NET_C, empty=False)
def c_sort(o, a, k):
    order = k.r.choice((None, None, "time", ("track", "segment", "time"), ("segment", "time")))
    return (lambda o: o.sort() if order is None else o.sort(order)), None


@query(NET_C, sorted_=True, empty=False)
def c_number_segment(o, a, k):
    start = k.r.choice((0, 1, 5))

    def same(o):
        d = changed(a, "segment").differs(o, o, a)
        if d:
            return d
        rank, last = {}, None
        for t, _, rows in segments(a):
            rank[t] = rank.get(t, start - 1) + 1
            if not (o.obs["segment"][rows] == rank[t]).all():
                return "segment numbers"

    return (lambda o: o.numbering_segment(start=start)), Test(same)


@query(NET_C, sorted_=True, empty=False)
def c_number_network(o, a, k):
    start = k.r.choice((0, 1, 1, 7))

    def same(o):
        want = np.unique(a["track"], return_inverse=True)[1] + start
        return changed(a, "track").differs(o, o, a) or (None if np.array_equal(o.obs["track"], want) else "network numbers")

    return (lambda o: o.numbering_network(start=start)), Test(same)


@query(NET_C, links=True, empty=False)
def c_dissociate(o, a, k):
    return (lambda o: o.dissociate_network()), None


@query(NET_C, links=True, empty=False)
def c_dead_end(o, a, k):
    nobs, ndays, rec = k.r.randint(1, 4), k.r.choice((0, 3)), k.r.choice((0, 1))
    return (lambda o: o.remove_dead_end(nobs, ndays, rec)), None


@query(NET_C, links=True, empty=False)
def c_close_events(o, a, k):
    return (lambda o: o.correct_close_events(5)), None


@query(NET_C, links=True, empty=False)
def c_swap(o, a, k):
    return (lambda o: o.swap_track(5, 2, -1)), None


# ---- a run -----------------------------------------------------------------------------------------
QUICK = dict(track=("period", "nb_tracks", "nb_obs_by_track"), net=("period", "nb_segment", "segment_size", "segment_array"))


def run(case, ctx):
    net = case["kind"] == "net"
    first = ctx.sut("build", L.build, case["net"], ctx.dir("in")) if net else drawn_tracks(case)
    queries, changes = (NET_Q, NET_C) if net else (TRACK_Q, TRACK_C)
    pool, asked, trail = [first], {}, []
    for act in case["acts"]:
        if not pool:
            break
        o = pool[act["src"] % len(pool)]
        name, fail = act["act"], act.get("fail")
        change = name in changes
        maker = (changes if change else queries)[name]
        if not can(maker, o):
            continue
        kit = Kit(random.Random(act["seed"]), pool)
        a = o.obs.copy()
        made = maker(o, a, kit)
        if made is None:
            continue
        call, want = made
        before = [state(p) for p in pool]
        ref = clone(o)
        hook = Alloc(fail) if fail else None
        kind, got = outcome(call, o, hook)
        failed = bool(hook and hook.fired)
        ctx.probe(f"{'change' if change else 'question'} {name}")
        if failed:
            ctx.fault("numpy call fails with MemoryError")
        # arguments and every other dataset are as before
        for v, saved in kit.args:
            ctx.check(np.array_equal(v, saved), f"{name}/argument", "an argument of the caller was changed")
        for p, s in zip(pool, before):
            if p is o and change:
                continue
            ctx.check(state(p) == s, f"{name}/{'source' if p is o else 'other'}-changed", lambda: changed_field(p, s))
        if failed:
            ctx.log(name, "failed")
            trail.append(name + "!")
            quick(ctx, o, queries, QUICK[case["kind"]], name + "/failed")
            if change and state(o)[0] != before[[p is o for p in pool].index(True)][0]:
                pool = [p for p in pool if p is not o]  # half done: no dataset any more
            continue
        # the same act on the same observations without any memory
        kind2, got2 = outcome(call, ref)
        ctx.check(kind == kind2, f"{name}/outcome", lambda: f"{kind} {got if kind == 'error' else ''} / {kind2} {got2 if kind2 == 'error' else ''} "
                                                            "without what was asked before")
        if kind == "error":
            ctx.check(want is None, f"{name}/refused/{got}", "refused")
        elif change:
            ctx.check(canon(o) == canon(ref), f"{name}/stale", lambda: difference(o, ref))
            ctx.check(canon(got) == canon(got2), f"{name}/stale-answer", "not the answer of the same dataset without what was asked before")
            if want is not None:
                d = differs(o, want, o, a)
                ctx.check(d is None, f"{name}/result", lambda: d)
        else:
            if name != "print":
                ctx.check(canon(got) == canon(got2), f"{name}/stale", lambda: "not the answer of the same dataset without what was asked before")
            else:
                ctx.check(str(got) == str(got2), f"{name}/stale", "not the text of the same dataset without what was asked before")
            if want is not None:
                d = differs(got, want, o, a)
                ctx.check(d is None, f"{name}/answer", lambda: d)
        trail.append(name)
        ctx.cover(tuple(trail), kind)
        ctx.log(name, kind, digest(o if change else got) if kind == "ok" else got)
        key = id(o)
        if change and kind == "ok":
            if asked.get(key):
                ctx.probe("change after a question")
                asked[key] = 2
        elif not change:
            if asked.get(key) == 2:
                ctx.nontrivial = True
                ctx.probe("question after a change")
            asked[key] = asked.get(key) or 1
        # what was derived lives its own life
        if kind == "ok" and not change:
            for g in [got] if is_obs(got) else [x for x in got if is_obs(x)] if isinstance(got, (list, tuple)) else []:
                if g is o and name in ("trash", "add_distance"):
                    continue  # nothing to do: the source is given back
                ctx.check(not any(g is p for p in pool), f"{name}/same", "the derived dataset is a dataset which exists already")
                for p in pool:
                    ctx.check(not np.shares_memory(g.obs, p.obs), f"{name}/shared", "changing the derived dataset changes its source")
                if act.get("keep") and type(g) is type(o) and name not in ("light",) and len(pool) < 6:
                    if net and name == "index":
                        continue  # links of another dataset
                    pool.append(g)
        elif kind == "ok" and change:
            for p in pool:
                if p is not o:
                    ctx.check(not np.shares_memory(o.obs, p.obs), f"{name}/shared", "two datasets share their observations")
    r = random.Random(case["acts"][-1]["seed"] if case["acts"] else 0)
    for o in pool:
        quick(ctx, o, queries, sorted(queries), "end", r)
    ctx.simdays += float(np.ptp(first.obs["time"])) if len(first) else 0


def quick(ctx, o, queries, names, after, r=None):
    """Questions at rest: same answers as without any memory."""
    for name in names:
        maker = queries[name]
        if not can(maker, o):
            continue
        made = maker(o, o.obs.copy(), Kit(r or random.Random(3), [o]))
        if made is None:
            continue
        call, want = made
        a = o.obs.copy()
        kind, got = outcome(call, o)
        kind2, got2 = outcome(call, clone(o))
        ctx.check(kind == kind2 and (kind == "error" or canon(got) == canon(got2)), f"{after}/{name}/stale",
                  "not the answer of the same dataset without what was asked before")
        if kind == "error":
            ctx.check(want is None, f"{after}/{name}/refused/{got}", "refused")
        elif want is not None:
            d = differs(got, want, o, a)
            ctx.check(d is None, f"{after}/{name}/answer", lambda: d)


def digest(v):
    import hashlib

    return hashlib.sha1(repr(canon(v)).encode()).hexdigest()[:10]


def changed_field(p, s):
    old = np.frombuffer(s[0], p.obs.dtype) if s[1] == p.obs.dtype.names else None
    if old is None or len(old) != len(p.obs):
        return "its observations changed"
    bad = [f for f in sorted(old.dtype.names) if old[f].tobytes() != p.obs[f].tobytes()]
    return f"fields {bad} changed" if bad else "its rotation type changed"


def difference(o, ref):
    if len(o) != len(ref):
        return f"{len(o)} observations, {len(ref)} without what was asked before"
    bad = [f for f in sorted(o.obs.dtype.names) if o.obs[f].tobytes() != ref.obs[f].tobytes()]
    return f"fields {bad} are not what they are without what was asked before"


def shrink(case):
    for acts in core.shrink_list(case["acts"]):
        yield dict(case, acts=acts)
    for k, act in enumerate(case["acts"]):
        for f in ("fail", "keep"):
            if act.get(f):
                yield dict(case, acts=case["acts"][:k] + [{x: y for x, y in act.items() if x != f}] + case["acts"][k + 1:])
        if act["src"]:
            yield dict(case, acts=case["acts"][:k] + [dict(act, src=0)] + case["acts"][k + 1:])
    if case["kind"] == "net":
        for n in L.shrink_net(case["net"]):
            yield dict(case, net=n)
        return
    for t in core.shrink_list(case["tracks"], 1):
        yield dict(case, tracks=t)
    for k, t in enumerate(case["tracks"]):
        if len(t["t"]) > 1:
            yield dict(case, tracks=case["tracks"][:k] + [dict(t, t=t["t"][:-1])] + case["tracks"][k + 1:])
    for f, v in (("step", 1), ("lon0", 0), ("arrays", False), ("sign", 1), ("day0", W.DAY0)):
        if case[f] != v:
            yield dict(case, **{f: v})
