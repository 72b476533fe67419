"""Grid contents do not depend on when or how often they are loaded."""
import os

import numpy as np

from .. import core, faults

RUNS = dict(quick=1500, thorough=40000)
RULE = (
    "A case is one or two drawn grid files (orientation, time dimension, packing, missing values, pixel convention, sub-area, grid or curvilinear "
    "coordinates), grids opened at once or later, and a sequence of 5 to 25 operations on them: request, request at another index, tile, interpolate, "
    "units, coordinates, velocity for advection, advection, speed, spectrum, derived variables (copy, filter, velocity, regrid), write, release, "
    "any of them under a failing read or open. Non-trivial: at least one request follows another operation on the same grid."
)
MEASURE = "distinct (previous operation, operation, fault, outcome, grid layout)"
REAL = ["GridDataset, RegularGridDataset, UnRegularGridDataset", "numba kernels", "netCDF4 and HDF5 libraries"]
STUB = ["contents of the grid files (drawn)"]
FIELDS = ("h", "k", "u", "v")
# operations that change what the grid holds, on purpose
MUTATING = ("copy", "add_uv", "high", "low", "regrid", "land", "array")


def gen(rng, tier, i):
    files = [gen_file(rng) for _ in range(rng.choice((1, 1, 2)))]
    grids = [dict(file=rng.randrange(len(files)), later=rng.random() < 0.3, time=rng.choice((None, 0, 1, 2)), nan=rng.random() < 0.15,
                  area=rng.random() < 0.2, centered=rng.random() < 0.7) for _ in range(rng.choice((1, 1, 2)))]
    ops = [gen_op(rng, files, grids) for _ in range(rng.randint(5, 25))]
    return dict(files=files, grids=grids, ops=ops)


def gen_file(rng):
    return dict(nx=rng.choice((8, 11, 16)), ny=rng.choice((8, 9, 13)), step=rng.choice((0.5, 1)), x0=rng.choice((0, 180, 350, -20)),
                y0=rng.choice((-60, 10, 25)), order=rng.choice(("yx", "yx", "xy")), nt=rng.choice((0, 1, 3)), packed=rng.random() < 0.3,
                holes=rng.choice((0, 0, 0.1, 0.3)), circle=rng.random() < 0.1, kind="curvi" if rng.random() < 0.12 else "regular",
                units=rng.random() < 0.8, seed=rng.randrange(1 << 30))


def gen_op(rng, files, grids):
    g = rng.randrange(len(grids))
    f = rng.choice(FIELDS)
    k = rng.choice(("grid", "grid", "grid", "gridx", "tiles", "interp", "interp", "units", "coords", "clean", "clean", "copy", "written", "uvh", "uvh", "uv",
                    "adv", "add_uv", "high", "low", "speed", "spectrum", "regrid", "time", "near", "array"))
    a = dict(
        grid=[rng.choice(FIELDS + ("c1", "c2", "ua", "va"))], gridx=[f, rng.randrange(3)], tiles=[f, rng.random(), rng.random(), rng.random(), rng.random()],
        interp=[rng.choice(FIELDS + ("c1",)), rng.choice(("bilinear", "nearest")), rng.randrange(1 << 20)], units=[f], coords=[], clean=[],
        copy=[f, rng.choice(("c1", "c2"))], written=[rng.choice(FIELDS + ("c1", "c2"))], uvh=[rng.choice(("h", "k")), rng.random() < 0.3], uv=["u", "v"],
        adv=[rng.choice(("h", "k", "uv")), rng.random() < 0.5, rng.randrange(1 << 20)], add_uv=[rng.choice(("h", "k")), *rng.choice((("ua", "va"), ("u", "v")))],
        high=[f, rng.choice((200, 500))], low=[f, rng.choice((200, 500))], speed=["u", "v"], spectrum=[f],
        regrid=[rng.randrange(len(grids)), f, rng.choice(("c1", f))], time=[], near=[rng.random(), rng.random()], array=["c2", rng.randrange(1 << 20)],
    )[k]
    fault = None
    if rng.random() < 0.3:
        kind = rng.choice(("read", "read", "open"))
        fault = [kind, rng.choice((0, 1, 2, 3, 5, 8, 13, 21, 34, 55)) if kind == "read" else rng.choice((0, 0, 1, 2)), rng.choice(("EIO", "EMFILE" if kind == "open" else "EIO")),
                 rng.random() < 0.4]
    return [g, k, a, fault]


def warmup(tmp):
    import random

    fs = [dict(gen_file(random.Random(1)), kind=k, circle=False, nt=3, holes=h) for k, h in (("regular", 0.1), ("curvi", 0.1))]
    gs = [dict(file=0, later=False, time=1, nan=False, area=False, centered=True), dict(file=1, later=True, time=None, nan=False, area=False, centered=True)]
    ops = [[0, "adv", [h, r, 1], None] for h in ("h", "uv") for r in (True, False)]
    ops += [[0, "interp", ["h", m, 1], None] for m in ("bilinear", "nearest")] + [[0, "high", ["h", 500], None], [0, "speed", ["u", "v"], None]]
    ops += [[0, "spectrum", ["h"], None], [0, "written", ["h"], None], [0, "regrid", [0, "h", "c1"], None], [0, "tiles", ["h", 0.1, 0.9, 0.1, 0.9], None]]
    ops += [[1, "grid", ["h"], None], [1, "low", ["h", 500], None]]
    for j, op in enumerate(ops):
        try:
            run(dict(files=fs, grids=gs, ops=[op]), core.Ctx(os.path.join(tmp, str(j))))
        except core.Violation:
            pass


# ---- files and what they hold ------------------------------------------------------
def model(f):
    rs = np.random.RandomState(f["seed"])
    nt = max(f["nt"], 1)
    nx, ny = f["nx"], f["ny"]
    m = {}
    yy, xx = np.meshgrid(np.arange(ny), np.arange(nx))
    for name in FIELDS:
        a = 0.2 * np.sin(xx * rs.uniform(0.3, 1) + rs.rand(nt, 1, 1) * 6) * np.cos(yy * rs.uniform(0.3, 1)) + 0.05 * rs.rand(nt, nx, ny)
        hole = rs.rand(nt, nx, ny) < f["holes"]
        if f["packed"]:
            a = np.rint(a * 1e4) / 1e4
        m[name] = np.ma.array(a.astype("f8" if f["packed"] else "f4"), mask=hole)
    step = 360 / nx if f["circle"] and f["kind"] == "regular" else f["step"]
    x = f["x0"] + np.arange(nx) * step
    y = f["y0"] + np.arange(ny) * f["step"]
    if f["kind"] == "curvi":
        x, y = x[:, None] + 0.02 * np.arange(ny)[None], y[None] + 0.02 * np.arange(nx)[:, None]
    m["x"], m["y"] = x, y
    return m


def write_grid(f, m, path):
    from netCDF4 import Dataset

    with Dataset(path, "w") as h:
        h.title = "drawn"
        dims = ("lat", "lon") if f["order"] == "yx" else ("lon", "lat")
        h.createDimension("lon", f["nx"])
        h.createDimension("lat", f["ny"])
        if f["nt"]:
            h.createDimension("time", f["nt"])
            h.createVariable("time", "f8", ("time",))[:] = np.arange(f["nt"])
        turn = (lambda a: np.swapaxes(a, -1, -2)) if f["order"] == "yx" else (lambda a: a)
        if f["kind"] == "curvi":
            h.createVariable("x", "f8", dims)[:] = turn(m["x"])
            h.createVariable("y", "f8", dims)[:] = turn(m["y"])
        else:
            h.createVariable("x", "f8", ("lon",))[:] = m["x"]
            h.createVariable("y", "f8", ("lat",))[:] = m["y"]
        for name in FIELDS:
            v = h.createVariable(name, "i2" if f["packed"] else "f4", (("time",) if f["nt"] else ()) + dims, zlib=True, fill_value=-32767 if f["packed"] else 1e20)
            if f["packed"]:
                v.scale_factor = 1e-4
            if f["units"]:
                v.units = "m" if name in "hk" else "m/s"
            v.long_name = "field " + name
            v[:] = turn(m[name]) if f["nt"] else turn(m[name])[0]


def area_of(g, f):
    """Sub-area of the file seen by this grid."""
    if not g["area"] or f["kind"] == "curvi":
        return slice(None), slice(None)
    return slice(1, f["nx"] - 1), slice(2, f["ny"])


def open_grid(case, g, paths, unset=False):
    from py_eddy_tracker.dataset import grid as G

    f = case["files"][g["file"]]
    ind = {}
    if g["time"] is not None and f["nt"]:
        ind["time"] = g["time"] % f["nt"]
    sx, sy = area_of(g, f)
    if g["area"]:
        ind.update(lon=sx, lat=sy)
    cls = G.UnRegularGridDataset if f["kind"] == "curvi" else G.RegularGridDataset
    return cls(paths[g["file"]], "x", "y", centered=True if f["kind"] == "curvi" else g["centered"], indexs=ind, unset=unset, nan_masking=g["nan"])


def truth(case, g, models, name, time=None):
    f, m = case["files"][g["file"]], models[g["file"]]
    t = g["time"] if time is None else time
    t = 0 if t is None or not f["nt"] else t % f["nt"]
    sx, sy = area_of(g, f)
    a = m[name][t][sx, sy]
    return a


# ---- operations ----------------------------------------------------------------------
def apply(o, op, other, scratch, f):
    """Result of one operation on grid o as plain arrays."""
    from py_eddy_tracker.dataset.grid import RegularGridDataset

    k, a = op
    if k == "grid":
        return pack(o.grid(a[0]))
    if k == "gridx":
        return pack(o.grid(a[0], dict(time=a[1] % max(f["nt"], 1))))
    if k == "time":
        return np.asarray(o.grid("time"))
    if k == "tiles":
        nx, ny = (o.x_c.shape if o.x_c.ndim == 2 else (o.x_c.size, o.y_c.size))
        return pack(o.grid_tiles(a[0], slice(*sorted((int(a[1] * nx), int(a[2] * nx)))), slice(*sorted((int(a[3] * ny), int(a[4] * ny))))))
    if k in ("interp", "near", "adv"):
        x0, x1, y0, y1 = o.bounds
    if k == "interp":
        rs = np.random.RandomState(a[2])
        return o.interp(a[0], rs.uniform(x0, x1, 9), rs.uniform(y0, y1, 9), method=a[1])
    if k == "near":
        return np.array(o.nearest_grd_indice(x0 + (x1 - x0) * a[0], y0 + (y1 - y0) * a[1]))
    if k == "units":
        return o.units(a[0])
    if k == "coords":
        r = [o.x_c, o.y_c, np.array(o.bounds), o.is_circular(), sorted(o.variables), sorted(o.dimensions.items())]
        return r + ([o.x_bounds, o.y_bounds, o.xstep, o.ystep] if o.x_c.ndim == 1 else [])
    if k == "uvh":
        return unmask(*o.uv_for_advection(h_name=a[0], backward=a[1]))
    if k == "uv":
        return unmask(*o.uv_for_advection(*a))
    if k == "adv":
        rs = np.random.RandomState(a[2])
        x, y = rs.uniform(x0, x1, 7), rs.uniform(y0, y1, 7)
        kw = dict(u_name="u", v_name="v") if a[0] == "uv" else dict(u_name=None, v_name=None, h_name=a[0])
        p = o.advect(x, y, nb_step=3, rk4=a[1], time_step=3600, **kw)
        next(p)
        next(p)
        return [x, y]
    if k == "speed":
        o.init_speed_coef(*a)
        return pack(o._speed_ev if hasattr(o, "_speed_ev") else o._speed_norm)
    if k == "spectrum":
        x0, x1, y0, y1 = o.bounds
        r = o.spectrum_lonlat(a[0], area=dict(llcrnrlon=x0 + 0.6, llcrnrlat=y0 + 0.6, urcrnrlon=x1 - 0.6, urcrnrlat=y1 - 0.6), nperseg=4)
        return [np.asarray(v) for c in r for v in c]
    if k == "copy":
        o.copy(*a)
    elif k == "add_uv":
        o.add_uv(*a)
    elif k == "high":
        o.high_filter(*a)
    elif k == "low":
        o.low_filter(*a)
    elif k == "array":
        o.add_grid(a[0], np.ma.array(np.random.RandomState(a[1]).rand(3, 3)))
    elif k == "regrid":
        o.regrid(other, a[1], a[2])
    elif k == "written":
        p = os.path.join(scratch, "written.nc")
        if os.path.exists(p):
            os.remove(p)
        mine = pack(o.grid(a[0]))
        o.write(p)
        r = RegularGridDataset if o.x_c.ndim == 1 else type(o)
        back = r(p, "x", "y", centered=o.centered, indexs={k: v for k, v in o.indexs.items() if k not in ("time", "lon", "lat")})
        return [mine, pack(back.grid(a[0]))]
    else:
        raise AssertionError(k)


def unmask(u, v, m):
    # what lies under the mask is never used
    return [np.where(m, 0, u), np.where(m, 0, v), m]


def pack(a):
    m = np.ma.getmaskarray(a)
    return [np.where(m, 0, np.ma.getdata(a)), m]


def same(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    return a == b


class Missing:
    def __init__(self, e):
        self.e = f"{type(e).__name__}: {e}"


def attempt(fn):
    try:
        return fn()
    except Exception as e:
        return Missing(e)


def run(case, ctx):
    top = ctx.dir("disk")
    scratch = ctx.dir("scratch")
    models = [model(f) for f in case["files"]]
    paths = [os.path.join(top, f"grid{k}.nc") for k in range(len(models))]
    for f, m, p in zip(case["files"], models, paths):
        write_grid(f, m, p)
    # which operations change a grid since it was loaded: replayed on a new grid, they are the reference
    hist = [[] for _ in case["grids"]]
    live = [open_grid(case, g, paths, unset=True) if g["later"] else ctx.sut("open", open_grid, case, g, paths) for g in case["grids"]]
    ready = [not g["later"] for g in case["grids"]]

    def fresh(j, h):
        o = open_grid(case, case["grids"][j], paths)
        for op, past in h:
            other = fresh(op[1][0], past) if op[0] == "regrid" else None
            r = attempt(lambda: apply(o, op, other, scratch, case["files"][case["grids"][j]["file"]]))
            assert not isinstance(r, Missing), (op, r.e)
        return o

    last = [None] * len(live)
    for n, (j, k, a, fault) in enumerate(case["ops"]):
        g = case["grids"][j]
        f = case["files"][g["file"]]
        o = live[j]
        if k == "clean":
            o.clean()
            ready[j], hist[j] = False, []
            last[j] = k
            ctx.log(n, k)
            continue
        if not ready[j]:
            guarded(ctx, top, fault if n % 2 else None, o.populate)
            ctx.sut("populate", o.populate)
            ready[j] = True
        other = None
        past = None
        if k == "regrid":
            other, past = live[a[0]], list(hist[a[0]])
            if not ready[a[0]]:
                ctx.sut("populate", other.populate)
                ready[a[0]] = True
        # the reference: the same operation on a grid nothing else happened to
        new = fresh(j, hist[j])
        new_other = new if k == "regrid" and a[0] == j else fresh(a[0], hist[a[0]]) if k == "regrid" else None
        want = attempt(lambda: apply(new, (k, a), new_other, scratch, f))
        if k in MUTATING and isinstance(want, Missing):
            continue  # meaningless here (no such variable, another kind of grid)
        act = lambda: apply(o, (k, a), other, scratch, f)
        got = guarded(ctx, top, fault, act)
        outcome = "not tried"
        if fault:
            outcome = "error" if isinstance(got, Missing) else "result"
            if not isinstance(got, Missing):
                judge(ctx, case, g, models, k, a, got, want, "under a failing read", hist[j])
        if not fault or isinstance(got, Missing):
            got = attempt(act)
            if not isinstance(want, Missing):
                ctx.check(not isinstance(got, Missing), f"refused/{k}", lambda: f"after {[h[0] for h in hist[j]]}: {got.e}")
            judge(ctx, case, g, models, k, a, got, want, "", hist[j])
        if k in MUTATING:
            hist[j].append(((k, a), past))
        if last[j] is not None:
            ctx.nontrivial = True
        ctx.cover(last[j], k, fault and fault[0], outcome, f["order"], f["kind"], isinstance(want, Missing))
        last[j] = k
        ctx.log(n, j, k, outcome, isinstance(want, Missing))
    ctx.simdays += 1


def guarded(ctx, top, fault, fn):
    if not fault:
        return None if fn.__name__ == "populate" else Missing(RuntimeError("not tried"))
    faults.arm(top)
    (faults.fail_read if fault[0] == "read" else faults.fail_open)(fault[1], fault[2], fault[3])
    try:
        r = attempt(fn)
        fired = faults.counts()["fired"]
    finally:
        faults.disarm()
    ctx.fault(f"{fault[0]} failing ({fault[2]})", fired)
    if fired and not isinstance(r, Missing):
        ctx.probe("operation passed over a failing call")
    return r


def judge(ctx, case, g, models, k, a, got, want, how, hist):
    tag = k + ("/failing" if how else "")
    if isinstance(want, Missing):
        ctx.check(isinstance(got, Missing), f"accepted/{tag}", lambda: f"{k}{a} gives a result after other operations, and {want.e} on a new grid")
        return
    ctx.check(same(got, want), f"differs/{tag}", lambda: f"{k}{a} {how} after {[h[0] for h in hist]} differs from the same on a new grid{detail(got, want)}")
    # against what was put in the file
    f = case["files"][g["file"]]
    touched = {x for (op, _) in hist for x in (op[1][1:] if op[0] in ("add_uv", "copy") else op[1][2:] if op[0] == "regrid" else op[1][:1])}
    if k in ("grid", "gridx", "tiles") and a[0] in FIELDS and a[0] not in touched and not (k == "tiles" and f["kind"] == "curvi"):
        t = truth(case, g, models, a[0], a[1] if k == "gridx" else None)
        if f["kind"] == "curvi" and f["order"] == "yx":
            t = t.T
        if k == "tiles":
            nx, ny = t.shape
            t = t[slice(*sorted((int(a[1] * nx), int(a[2] * nx)))), slice(*sorted((int(a[3] * ny), int(a[4] * ny))))]
        m = np.ma.getmaskarray(t)
        ok = got[0].shape == t.shape and np.array_equal(got[1], m) and np.allclose(got[0][~m], t.data[~m], rtol=0, atol=1e-9 if f["packed"] else 0)
        ctx.check(ok, f"wrong/{tag}", lambda: f"{k}{a} is not what the file holds")
    if k == "units" and a[0] in FIELDS and a[0] not in touched:
        ctx.check(got == (("m" if a[0] in "hk" else "m/s") if f["units"] else None), "wrong/units", lambda: str(got))
    if k == "written" and not (f["packed"] and np.abs(got[0][0]).max(initial=0) > 3.2):  # else the packing of the file cannot hold it
        ctx.check(same(got[0][1], got[1][1]) and got[0][0].shape == got[1][0].shape and np.allclose(got[0][0], got[1][0], atol=6e-5 if f["packed"] else 1e-6, equal_nan=True),
                  "wrong/written", lambda: f"{a[0]} written is not what the grid holds")


def detail(a, b):
    try:
        if isinstance(a, list) and len(a) == len(b):
            return "".join(f"; part {i}{detail(x, y)}" for i, (x, y) in enumerate(zip(a, b)) if not same(x, y))
        if a.shape != b.shape:
            return f": shape {a.shape} in place of {b.shape}"
        i = tuple(np.argwhere(~((a == b) | ((a != a) & (b != b))))[0])
        return f": {a[i]} in place of {b[i]} at {tuple(int(x) for x in i)}"
    except Exception:
        return f": {a} in place of {b}"


def shrink(case):
    for c in core.shrink_list(case["ops"], 1):
        yield dict(case, ops=c)
    for n, op in enumerate(case["ops"]):
        if op[3]:
            c = list(case["ops"])
            c[n] = op[:3] + [None]
            yield dict(case, ops=c)
    for n, f in enumerate(case["files"]):
        for key, v in (("kind", "regular"), ("circle", False), ("packed", False), ("holes", 0), ("nt", 0), ("order", "xy"), ("x0", 0), ("nx", 8), ("ny", 8)):
            if f[key] != v:
                c = list(case["files"])
                c[n] = dict(f, **{key: v})
                yield dict(case, files=c)
    for n, g in enumerate(case["grids"]):
        for key, v in (("later", False), ("nan", False), ("area", False), ("centered", True), ("time", None)):
            if g[key] != v:
                c = list(case["grids"])
                c[n] = dict(g, **{key: v})
                yield dict(case, grids=c)
