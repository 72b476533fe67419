"""Identification depends only on the grid and the settings, not on what ran before."""
import datetime as dt
import os
import pickle
import struct
import sys

import numpy as np

from .. import core, faults, sched

RUNS = dict(quick=380, thorough=12000)
RULE = (
    "A case is one or two drawn files (regular or curvilinear, closed or open in longitude, one date or a cube, missing values, packed or not, several heights and "
    "currents) and a history of 3-14 acts on grids opened from them whole, by date, by area, through a collection or from arrays: identifications with drawn "
    "settings, filters, derived currents, copies, interpolations, writings, releases, the program, pairs interleaved in threads, and acts that fail (reads, "
    "opens, interrupted or failing calls). Non-trivial: a grid is identified after another act succeeded or failed."
)
MEASURE = "distinct (kinds of files, sequence of acts and outcomes)"
REAL = ["GridDataset, RegularGridDataset, UnRegularGridDataset, GridCollection", "Contours, Amplitude and matplotlib contouring", "appli.grid program", "netCDF4 and HDF5 libraries"]
STUB = ["heights and currents (drawn); calls made by the package can fail or be interrupted (profile hook)"]
DATE = dt.datetime(2004, 10, 3, 6)


# ---- drawing --------------------------------------------------------------------------
def gen(rng, tier, i):
    files = [gen_file(rng) for _ in range(rng.choice((1, 1, 1, 2)))]
    if rng.random() < 0.25:
        # a twin of the first one at the same place, with another resolution, size or unit
        twin = dict(files[0], seed=rng.randrange(1 << 30))
        twin.update({k: v for k, v in gen_file(rng).items() if k in rng.choice((("step", "nx"), ("nx", "ny"), ("unit", "speed"), ("step", "circle"), ("step",), ("order", "nt")))})
        files = [files[0], twin]
    same = rng.randrange(1 << 20)
    acts = []
    settings = [gen_settings(rng) for _ in range(rng.choice((1, 2, 2, 3)))]
    for _ in range(rng.choice((3, 4, 6, 8, 11, 14))):
        a = dict(act=rng.choice(ACTS), f=rng.randrange(4), o=rng.randrange(8), seed=rng.randrange(1 << 20), s=rng.choice(settings))
        if a["act"] == "filter" and rng.random() < 0.4:
            a["seed"] = same
        if rng.random() < 0.22:
            a["fail"] = rng.choice((["read", rng.randint(0, 6)], ["open", rng.randint(0, 1)], ["call", rng.choice((rng.randint(1, 40), rng.randint(1, 3000)))],
                                    ["stop", rng.choice((rng.randint(1, 40), rng.randint(1, 3000)))]))
        acts.append(a)
    if len(files) == 2 and rng.random() < 0.5:
        # both are filtered the same way before they are identified
        z = rng.randrange(128) + 128 * rng.choice((4, 5, rng.randrange(8)))
        for k in (0, 1):
            acts[3 * k:3 * k] = [dict(act=a, f=k, o=k, seed=z, s=settings[0]) for a in ("open", "filter", "identify")]
    return dict(files=files, acts=acts, choices=[rng.randrange(2) for _ in range(rng.randint(1, 40))])


def gen_file(rng):
    circle = rng.random() < 0.2
    step = rng.choice((0.5, 1.0))
    return dict(kind=rng.choice(("regular", "regular", "regular", "curvilinear")), nx=rng.randint(20, 34), ny=rng.randint(18, 26), step=step, circle=circle,
                x0=rng.choice((0, 170, 345, -30)), y0=rng.choice((-40, 20, 35)), order=rng.choice(("yx", "xy")), nt=rng.choice((0, 2, 3)), seed=rng.randrange(1 << 30),
                n=rng.randint(2, 7), holes=rng.choice((0, 0, 0, 0.01, 0.05)), block=rng.random() < 0.25, packed=rng.random() < 0.2, unit=rng.choice(("m", "m", "cm")),
                speed=rng.choice(("m/s", "m/s", "cm/s")), nan=rng.random() < 0.1)


def gen_settings(rng):
    s = dict(step=rng.choice((0.01, 0.02, 0.02, 0.04)), shape_error=rng.choice((55, 70, 70, 90)), presampling_multiplier=rng.choice((5, 10)), sampling=rng.choice((12, 20, 50)),
             sampling_method=rng.choice(("visvalingam", "uniform")))
    if rng.random() < 0.5:
        s["pixel_limit"] = rng.choice(((3, 60), (5, 2000), (8, 30)))
    if rng.random() < 0.3:
        s["precision"] = rng.choice((0.01, 0.005))
    if rng.random() < 0.3:
        s["nb_step_min"] = rng.choice((1, 2, 3))
    if rng.random() < 0.3:
        s["nb_step_to_be_mle"] = rng.choice((0, 2))
    if rng.random() < 0.2:
        s["mle"] = rng.choice((1, 2))
    if rng.random() < 0.2:
        s["force_height_unit"], s["force_speed_unit"] = rng.choice(("m", "cm")), rng.choice(("m/s", "cm/s"))
    return s


ACTS = ("open", "open", "identify", "identify", "identify", "identify", "filter", "filter", "derive", "copy", "look", "look", "write", "release", "program", "pair",
        "add")


def start(root):
    """Reading the definitions of the units takes longer than an identification: the unit library gives one registry to all."""
    from pint.facets.plain import registry as R

    if hasattr(R.RegistryMeta, "kept"):
        return
    make = R.RegistryMeta.__call__
    R.RegistryMeta.kept = {}

    def call(cls, *a, **k):
        if a or k:
            return make(cls, *a, **k)
        if cls not in R.RegistryMeta.kept:
            R.RegistryMeta.kept[cls] = make(cls)
        return R.RegistryMeta.kept[cls]

    R.RegistryMeta.__call__ = call
    import pint

    pint.UnitRegistry().parse_expression("cm").to("m")


def warmup(tmp):
    import random

    start(tmp)
    n = 0
    for kind, circle, how in (("regular", False, 0), ("regular", True, 1), ("curvilinear", False, 0)):
        for packed in (False, True) if how == 0 else (False,):
            n += 1
            r = random.Random(3)
            c = gen(r, "quick", 0)
            f = dict(gen_file(r), kind=kind, circle=circle, packed=packed, nx=24, ny=20, order="xy" if packed else "yx")
            s = dict(gen_settings(r), shape_error=90)
            acts = [dict(act=a, f=0, o=0, seed=how if a == "open" else k, s=dict(s, mle=k % 2 + 1)) for k, a in enumerate(["open"] + sorted(set(ACTS)) + ["identify"])]
            try:
                run(dict(c, files=[f], acts=acts), core.Ctx(os.path.join(tmp, str(n))), Here)
            except core.Violation:
                pass


# ---- files ----------------------------------------------------------------------------
def fields(f):
    """Axes and {name: array(time, x, y)} of a file."""
    rs = np.random.RandomState(f["seed"])
    nt, nx, ny = f["nt"] or 1, f["nx"], f["ny"]
    step = 360 / nx if f["circle"] and f["kind"] == "regular" else f["step"]
    x, y = f["x0"] + np.arange(nx) * step, f["y0"] + np.arange(ny) * f["step"]
    ix, iy = np.meshgrid(np.arange(nx, dtype="f8"), np.arange(ny, dtype="f8"), indexing="ij")
    out = {}
    for name in ("h", "k"):
        cube = []
        px, py, amp, rad = rs.rand(f["n"]) * nx, rs.rand(f["n"]) * ny, rs.uniform(0.06, 0.25, f["n"]) * rs.choice((-1, 1), f["n"]), rs.uniform(1.8, 4, f["n"])
        for t in range(nt):
            a = 0.1 * iy / ny + 0.004 * rs.rand(nx, ny)
            for k in range(f["n"]):
                dx = ix - px[k] - t * 0.8
                if f["circle"]:
                    dx = (dx + nx / 2) % nx - nx / 2
                a = a + amp[k] * np.exp(-(dx**2 + (iy - py[k]) ** 2) / (2 * rad[k] ** 2))
            cube.append(a)
        out[name] = np.array(cube) * (100 if f["unit"] == "cm" else 1)
    for name, ax in (("u", 2), ("v", 1)):
        out[name] = np.gradient(out["h"], axis=ax) * (3 if name == "v" else -3) * (100 if f["speed"] == "cm/s" else 1) / (100 if f["unit"] == "cm" else 1)
    mask = rs.rand(nt, nx, ny) < f["holes"]
    if f["block"]:
        mask[:, : nx // 6, : ny // 5] = True
    out = {k: np.ma.array(a, mask=mask) for k, a in out.items()}
    if f["kind"] == "curvilinear":
        x2, y2 = np.meshgrid(x, y, indexing="ij")
        return (x2 + 0.1 * np.sin(iy * 0.3), y2 + 0.1 * np.cos(ix * 0.3)), out
    return (x, y), out


def write_file(f, path, t=None, area=None):
    """The whole file, or a file of one date and one area only."""
    from netCDF4 import Dataset

    (x, y), data = fields(f)
    curv = f["kind"] == "curvilinear"
    sx, sy = (slice(*area[0]), slice(*area[1])) if area else (slice(None), slice(None))
    x, y = (x[sx, sy], y[sx, sy]) if curv else (x[sx], y[sy])
    nx, ny = x.shape if curv else (len(x), len(y))
    cube = f["nt"] and t is None
    with Dataset(path, "w") as h:
        h.createDimension("lon", nx), h.createDimension("lat", ny)
        d = ("lon", "lat") if f["order"] == "xy" or curv else ("lat", "lon")
        for name, v in (("lon", x), ("lat", y)):
            h.createVariable(name, "f8", d if curv else (name,))[:] = v
        if cube:
            h.createDimension("time", f["nt"])
            h.createVariable("time", "f8", ("time",))[:] = 20000 + np.arange(f["nt"])
        for name, a in data.items():
            a = (a if cube else a[t or 0])[..., sx, sy]
            a = np.swapaxes(a, -1, -2) if d == ("lat", "lon") else a
            kw = dict(fill_value=-32767) if f["packed"] else dict(fill_value=1e20)
            if f["nan"] and not f["packed"]:
                a, kw = a.filled(np.nan), {}
            v = h.createVariable(name, "i2" if f["packed"] else "f8", (("time",) if cube else ()) + d, **kw)
            if f["packed"]:
                v.scale_factor = 1e-4 * (100 if f["unit"] == "cm" else 1) if name in "hk" else 1e-4 * (100 if f["speed"] == "cm/s" else 1)
            v.units = f["unit"] if name in "hk" else f["speed"]
            v[:] = a


def draw_spec(case, act, folder):
    """Which grid an act opens, and how."""
    k = act["f"] % len(case["files"])
    f, z = case["files"][k], act["seed"]
    t = z % f["nt"] if f["nt"] else 0
    how = ("file", "array", "collection", "file", "file")[z % 5]
    if f["kind"] == "curvilinear":
        how = "file"
    if how == "collection" and not f["nt"]:
        how = "file"
    area = None
    if how == "file" and z // 5 % 3 == 0:
        nx, ny = f["nx"], f["ny"]
        a, b = z // 15 % (nx // 4), z // 60 % (ny // 4)
        area = [[a, nx - z // 240 % (nx // 4)], [b, ny - z // 960 % (ny // 4)]]
    return dict(file=k, t=t, how=how, area=area, later=bool(z // 4000 % 2))


def open_grid(case, spec, folder, arrays, apart=False):
    """A grid on the shared file (or shared arrays); apart: on a file or arrays of its own which hold nothing else."""
    from py_eddy_tracker.dataset import grid as G

    f = case["files"][spec["file"]]
    cls = G.UnRegularGridDataset if f["kind"] == "curvilinear" else G.RegularGridDataset
    if spec["how"] == "array":
        axes, data = arrays[spec["file"]]
        datas = dict({k: a[spec["t"]] for k, a in data.items()}, lon=axes[0], lat=axes[1])
        units = {k: dict(units=f["unit"] if k in "hk" else f["speed"]) for k in data}
        return cls.with_array(("lon", "lat"), datas, variables_description=units, centered=True)
    kw = dict(centered=True, nan_masking=f["nan"])
    if apart:
        path = os.path.join(folder, "apart.nc")
        write_file(f, path, spec["t"], spec["area"])
        return cls(path, "lon", "lat", **kw)
    path = os.path.join(folder, f"f{spec['file']}.nc")
    if spec["how"] == "collection":
        c = G.GridCollection.from_netcdf_cube(path, "lon", "lat", "time", unset=spec["later"], **kw)
        g = c[20000.0 + spec["t"]]
        g.populate()
        return g
    indexs = dict(time=spec["t"]) if f["nt"] else {}
    if spec["area"]:
        indexs.update(lon=slice(*spec["area"][0]), lat=slice(*spec["area"][1]))
    return cls(path, "lon", "lat", indexs=indexs or None, **kw)


# ---- acts on one grid -----------------------------------------------------------------
def chosen(f, act, hist):
    """Names of height and currents that an identification uses."""
    z = act["seed"]
    done = {a[1] for a in hist if a[0] == "derive"}
    h = "hk"[z % 3 == 0]
    pairs = [("u", "v")] + [(n + "u", n + "v") for n in sorted(done)]
    return (h, *pairs[z // 3 % len(pairs)])


def wave(f, z):
    km = 111.2 * f["step"]
    if f["circle"]:
        km = max(km, 111.2 * 360 / f["nx"] * 0.95)
    if f["step"] == 0.5 and not f["circle"] and z // 4 % 2:
        # the scale a twin of half the resolution is filtered at
        return 111.2 * (2.5, 4)[z % 2]
    return km * (2.5, 4, 5, 8)[z % (3 if f["kind"] == "curvilinear" else 4)]


def change(g, f, op):
    """A recorded change of the state of a grid."""
    kind = op[0]
    if kind == "filter":
        _, name, how, w, order = op
        if f["kind"] == "curvilinear":
            (g.low_filter if how in ("bessel_low_filter", "lanczos_low_filter", "low_filter") else g.high_filter)(name, w)
        elif how == "bessel_band_filter":
            g.bessel_band_filter(name, w, 2 * w, order=order)
        elif how in ("low_filter", "high_filter"):
            getattr(g, how)(name, w)
        else:
            getattr(g, how)(name, w, order=order)
    elif kind == "derive":
        name = op[1]
        g.add_uv(name, name + "u", name + "v", stencil_halfwidth=op[2])
    elif kind == "own":
        g.add_uv(op[1])
    elif kind == "copy":
        g.copy(op[1], op[1] + "2")


def draw_change(f, act, hist):
    z, kind = act["seed"], act["act"]
    name = "hk"[z % 4 == 0]
    if kind == "filter":
        how = ("bessel_high_filter", "bessel_low_filter", "bessel_band_filter", "lanczos_high_filter", "lanczos_low_filter", "high_filter", "low_filter",
               "bessel_high_filter")[z // 4 % 8]
        if z // 32 % 4 == 0 and ["copy", "h"] in hist:
            name = "h2"
        return ["filter", name, how, wave(f, z // 128) * (3 if f["kind"] == "curvilinear" else 1), 1 + z // 512 % 2]
    if kind == "derive":
        if f["kind"] == "curvilinear":
            return None
        return ["own", name] if z // 4 % 4 == 0 else ["derive", name, 1 + z // 16 % 4]
    if kind == "copy":
        return ["copy", name]


def identify(g, names, s, date=DATE):
    s = dict(s)
    if "pixel_limit" in s:
        s["pixel_limit"] = tuple(s["pixel_limit"])
    return g.eddy_identification(*names, date, **s)


def eddies(out):
    """Plain content of the two sets of eddies."""
    return [(o.sign_type, sorted(o.obs.dtype.names), {n: np.array(o.obs[n]) for n in o.obs.dtype.names}) for o in out]


def content(g):
    """Plain content of the variables of a grid, mask and visible values."""
    out = {}
    for k, a in g.vars.items():
        if not isinstance(a, np.ndarray):
            continue
        m = np.ma.getmaskarray(a)
        v = np.where(m, 0, np.ma.getdata(a))
        out[k] = (np.packbits(m).tobytes(), v.shape, v.tobytes())
    return out


def look(g, f, z, ctx, folder):
    """Acts that must not matter."""
    kind = z % 6
    names = [n for n in ("h", "k", "u", "v")]
    name = names[z // 6 % 4]
    if kind == 0:
        g.grid(name)
    elif kind == 1 and f["kind"] == "regular":
        rs = np.random.RandomState(z)
        g.interp(name, rs.uniform(f["x0"], f["x0"] + 10, 6), rs.uniform(f["y0"], f["y0"] + 8, 6), "bilinear" if z // 24 % 2 else "nearest")
    elif kind == 2:
        g.init_speed_coef("v", "u")
    elif kind == 3 and f["kind"] == "regular":
        g.uv_for_advection("u", "v", 3600)
    elif kind == 4 and f["kind"] == "regular":
        g.spectrum_lonlat(name, area=dict(llcrnrlon=f["x0"], urcrnrlon=f["x0"] + 12, llcrnrlat=f["y0"], urcrnrlat=f["y0"] + 9))
    elif kind == 5:
        if g.contours is not None:
            from matplotlib.figure import Figure

            g.contours.display(Figure().add_subplot(111), display_criterion=z // 24 % 2)
        else:
            g.units(name)


# ---- what a fresh process answers -----------------------------------------------------
class Fresh:
    """Answers of processes forked when nothing had happened yet, one process per question."""

    def __init__(self, case, folder):
        self.r, w = os.pipe()
        r, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.r), os.close(self.w)
            try:
                serve(r, w, case, folder)
            finally:
                os._exit(0)
        os.close(r), os.close(w)
        self.known = {}

    def ask(self, *q):
        key = pickle.dumps(q)
        if key not in self.known:
            put(self.w, key)
            self.known[key] = get(self.r)
        return pickle.loads(self.known[key])

    def close(self):
        os.close(self.w), os.close(self.r)
        os.waitpid(self.pid, 0)


class Here:
    """Answers of this very process, only to have the code compiled."""

    def __init__(self, case, folder):
        self.case, self.folder, self.k = case, folder, 0

    def ask(self, *q):
        self.k += 1
        d = os.path.join(self.folder, str(self.k))
        os.makedirs(d, exist_ok=True)
        try:
            return answer(self.case, d, *q)
        except Exception as e:
            return "error", type(e).__name__, ""

    def close(self):
        pass


def put(fd, b):
    b = struct.pack("<I", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def get(fd):
    def exactly(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out

    return exactly(struct.unpack("<I", exactly(4))[0])


def serve(r, w, case, folder):
    k = 0
    while True:
        try:
            q = get(r)
        except EOFError:
            return
        k += 1
        pid = os.fork()
        if pid == 0:
            code = 9
            try:
                faults.memory((0, 255, 127, 1)[k % 4])
                d = os.path.join(folder, f"fresh{k}")
                os.makedirs(d, exist_ok=True)
                try:
                    res = answer(case, d, *pickle.loads(q))
                except Exception as e:
                    res = ("error", type(e).__name__, str(e).replace(folder, "")[:100])
                put(w, pickle.dumps(res))
                code = 0
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        if st:
            put(w, pickle.dumps(("died", str(st), "")))


def answer(case, folder, what, spec, hist, *q):
    f = case["files"][spec["file"]]
    arrays = [fields(x) for x in case["files"]] if spec["how"] == "array" else None
    g = open_grid(case, spec, folder, arrays, apart=True)
    for op in hist:
        change(g, f, op)
    if what == "identify":
        names, s = q
        return "ok", eddies(identify(g, names, s))
    if what == "content":
        for n in q[0]:
            g.grid(n)
        return "ok", content(g)
    if what == "files":
        names, s = q
        return "ok", through_files(identify(g, names, s), folder)


def through_files(out, folder):
    from py_eddy_tracker.observations.observation import EddiesObservations

    got = []
    for o in out:
        o.write_file(path=folder, filename="%(path)s/lib_%(sign_type)s.nc")
        got.append(EddiesObservations.load_file(os.path.join(folder, f"lib_{o.sign_legend}.nc")))
    return eddies(got)


# ---- faults ---------------------------------------------------------------------------
class Break:
    """Fails or interrupts the at-th call made by the package."""

    def __init__(self, at, error):
        self.at, self.n, self.error, self.fired = at, 0, error, False

    def __call__(self, frame, event, arg):
        if event == "c_call":
            if "py_eddy_tracker/" not in frame.f_code.co_filename or not isinstance(getattr(arg, "__module__", None), (str, type(None))):
                return
        elif event != "call" or "py_eddy_tracker/" not in frame.f_code.co_filename:
            return
        self.n += 1
        if self.n == self.at:
            self.fired = True
            raise self.error("simulated")


def broken(fail, folder, fn, *a):
    """("ok", result), ("failed", exception) when the fault made it fail; other errors go up."""
    if fail is None:
        return "ok", fn(*a)
    kind, at = fail
    try:
        if kind in ("read", "open"):
            faults.arm(folder)
            (faults.fail_read if kind == "read" else faults.fail_open)(at, "EIO")
            try:
                return "ok", fn(*a)
            except Exception as e:
                if faults.counts()["fired"]:
                    return "failed", e
                raise
            finally:
                faults.disarm()
        b = Break(at, MemoryError if kind == "call" else KeyboardInterrupt)
        sys.setprofile(b)
        try:
            return "ok", fn(*a)
        except (Exception, KeyboardInterrupt) as e:
            sys.setprofile(None)
            if b.fired:
                return "failed", e
            raise
        finally:
            sys.setprofile(None)
    finally:
        pass


# ---- the run --------------------------------------------------------------------------
class Obj:
    def __init__(self, spec, g):
        self.spec, self.g, self.hist = spec, g, []


def run(case, ctx, asked=None):
    folder = ctx.dir("disk")
    for k, f in enumerate(case["files"]):
        write_file(f, os.path.join(folder, f"f{k}.nc"))
    arrays = [fields(f) for f in case["files"]]
    fresh = (asked or Fresh)(case, ctx.dir("fresh"))
    try:
        history(case, ctx, folder, arrays, fresh)
    finally:
        fresh.close()


def history(case, ctx, folder, arrays, fresh):
    pool, trail = [], []

    def opening(act):
        spec = draw_spec(case, act, folder)
        st, g = attempt(act, open_grid, case, spec, folder, arrays)
        if st == "ok":
            pool.append(Obj(spec, g))
        return st

    def attempt(act, fn, *a):
        st, v = broken(act.get("fail"), folder, fn, *a)
        if st == "failed":
            ctx.fault({"read": "read error", "open": "open error", "call": "call fails (MemoryError)", "stop": "interrupted"}[act["fail"][0]])
        return st, v

    for n, act in enumerate(case["acts"]):
        what = act["act"]
        if not pool and what != "open":
            opening(dict(act, fail=None))
        if what == "open":
            st = opening(act)
            trail.append((what, st))
            ctx.log(n, what, st, len(pool))
            continue
        o = pool[act["o"] % len(pool)]
        f = case["files"][o.spec["file"]]
        st = "ok"
        before = None
        try:
            if what == "identify":
                names = chosen(f, act, o.hist)
                load(o.g, names)
                before = content(o.g)
                st = judge(ctx, fresh, n, act, o, names, attempt)
            elif what == "pair":
                if len(pool) < 2:
                    opening(dict(act, seed=act["seed"] // 7, fail=None))
                st = pair(case, ctx, fresh, n, act, pool)
            elif what == "program":
                st = program(case, ctx, fresh, n, act, o, folder, attempt)
            elif what == "release":
                if o.spec["how"] != "array":
                    o.g.clean()
                    o.hist = []
                    st, v = attempt(act, o.g.populate)
                    if st == "failed":
                        o.g.populate()
            elif what == "look":
                before = content(o.g)
                st, v = quietly(attempt, act, look, o.g, f, act["seed"], ctx, folder)
            elif what == "write":
                before = content(o.g)
                st, v = quietly(attempt, act, o.g.write, os.path.join(folder, f"w{n}.nc"))
            elif what == "add":
                p = pool[act["seed"] % len(pool)]
                a = p.g.grid("h")
                if a.shape == o.g.grid("h").shape and f["kind"] == "regular":
                    o.g.add_grid("other", a)
                    quietly(attempt, act, o.g.bessel_high_filter, "other", wave(f, act["seed"]))
                    del o.g.vars["other"]
            else:
                op = draw_change(f, act, o.hist)
                if op is None:
                    continue
                st, v = quietly(attempt, act, change, o.g, f, op)
                if st == "ok":
                    o.hist.append(op)
        except core.Violation:
            raise
        if before is not None:
            after = content(o.g)
            for k, b in before.items():
                ctx.check(after.get(k) == b, "grid-changed", f"{what} changes {k}")
        trail.append((what, st))
        ctx.log(n, what, st, len(o.hist))
        if len(trail) > 1 and what in ("identify", "pair", "program"):
            ctx.nontrivial = True
    # at the end every grid holds what its own changes made of it
    for o in pool:
        w = fresh.ask("content", o.spec, o.hist, ("h", "k", "u", "v"))
        load(o.g, ("h", "k", "u", "v"))
        got = content(o.g)
        if w[0] == "ok":
            bad = sorted(k for k in w[1] if k in ("h", "k", "u", "v", "h2", "k2", "hu", "hv", "ku", "kv", "lon", "lat") and got.get(k) != w[1][k])
            ctx.check(not bad, "grid-altered", lambda: f"{bad} of a grid {describe(o)} are not what its own changes make")
    ctx.cover(tuple((f["kind"], f["circle"], f["nt"] > 0, f["packed"]) for f in case["files"]), tuple(trail))


def load(g, names):
    for n in names:
        g.grid(n)


def quietly(attempt, act, fn, *a):
    """An act whose own refusals are another matter."""
    try:
        return attempt(act, fn, *a)
    except core.Violation:
        raise
    except Exception as e:
        return type(e).__name__, None


def describe(o):
    return f"({o.spec['how']}, date {o.spec['t']}, area {o.spec['area']}, changes {o.hist})"


def outcome(fn, *a):
    try:
        return "ok", eddies(fn(*a))
    except Exception as e:
        return "error", type(e).__name__, str(e)[:100]


def judge(ctx, fresh, n, act, o, names, attempt):
    want = fresh.ask("identify", o.spec, o.hist, names, act["s"])
    st = "ok"
    if "fail" in act:
        try:
            st, v = attempt(act, identify, o.g, names, act["s"])
        except Exception as e:
            got = "error", type(e).__name__, ""
        else:
            got = ("ok", eddies(v)) if st == "ok" else None
        if got is not None:
            compare(ctx, n, o, names, got, want)
    else:
        got = outcome(identify, o.g, names, act["s"])
        compare(ctx, n, o, names, got, want)
    if want[0] == "ok":
        ctx.probe("eddies compared", sum(len(w[2]["lon"]) for w in want[1]))
    else:
        ctx.probe("refused identification")
    return st


def compare(ctx, n, o, names, got, want):
    label = lambda: f"act {n}, {names} of a grid {describe(o)}"
    ctx.check(got[0] == want[0], "identification/outcome", lambda: f"{label()}: {got[:2] if got[0] == 'error' else 'eddies'} instead of {want[:2] if want[0] == 'error' else 'eddies'}")
    if got[0] == "error":
        ctx.check(got[1] == want[1], "identification/error", lambda: f"{label()}: {got[1]} instead of {want[1]}")
        return
    diff = difference(got[1], want[1])
    ctx.check(diff is None, "identification/differs", lambda: f"{label()}: {diff}")


def difference(a, b):
    for (s0, n0, d0), (s1, n1, d1) in zip(a, b):
        kind = "anticyclones" if s1 == 1 else "cyclones"
        if s0 != s1 or n0 != n1:
            return f"{kind}: fields differ"
        for k in d1:
            if d0[k].shape != d1[k].shape:
                return f"{len(d0['lon'])} {kind} instead of {len(d1['lon'])}"
            if d0[k].dtype != d1[k].dtype or not np.array_equal(d0[k], d1[k], equal_nan=d1[k].dtype.kind == "f"):
                i = int(np.nonzero((d0[k] != d1[k]).reshape(len(d0[k]), -1).any(axis=1))[0][0])
                return f"{k} of {kind} {i}: {np.ravel(d0[k][i])[:3].tolist()} instead of {np.ravel(d1[k][i])[:3].tolist()}"
    return None


def pair(case, ctx, fresh, n, act, pool):
    """Two identifications, interleaved at every call of the shared parts."""
    from py_eddy_tracker import eddy_feature as E
    from py_eddy_tracker.dataset import grid as G

    a = pool[act["o"] % len(pool)]
    b = pool[(act["o"] + 1 + act["seed"] % (len(pool) - 1)) % len(pool)] if len(pool) > 1 else a
    if a is b:
        return "alone"
    jobs = []
    for o in (a, b):
        f = case["files"][o.spec["file"]]
        names = chosen(f, dict(act, seed=act["seed"] // (3 if o is a else 7)), o.hist)
        load(o.g, names)
        jobs.append((o, names))
    undo = [sched.hook(E.Contours, "__init__"), sched.hook(E.Contours, "get_index_nearest_path_bbox_contain_pt"), sched.hook(E.Amplitude, "__init__"),
            sched.hook(G.GridDataset, "get_uavg"), sched.hook(G.GridDataset, "grid"), sched.hook(G.RegularGridDataset, "speed_coef_mean"),
            sched.hook(G.UnRegularGridDataset, "speed_coef_mean")]
    s = sched.Scheduler(case["choices"])
    for o, names in jobs:
        s.add(outcome, identify, o.g, names, act["s"])
    try:
        s.run()
    finally:
        for u in undo:
            u()
    ctx.fault("task switches", s.switches)
    for (o, names), t in zip(jobs, s.tasks):
        if t["error"] is not None:
            raise t["error"]
        compare(ctx, n, o, names, t["result"], fresh.ask("identify", o.spec, o.hist, names, act["s"]))
    return "both"


def program(case, ctx, fresh, n, act, o, folder, attempt):
    """The program on the file of a grid, against the library on a fresh grid."""
    from py_eddy_tracker.appli import grid as app
    from py_eddy_tracker.observations.observation import EddiesObservations

    f, z, s = case["files"][o.spec["file"]], act["seed"], act["s"]
    out = os.path.join(folder, f"out{n}")
    os.makedirs(out)
    spec = dict(o.spec, how="file", area=None)
    h = "hk"[z % 3 == 0]
    curv = f["kind"] == "curvilinear"
    own = not curv and z // 3 % 2
    argv = [os.path.join(folder, f"f{spec['file']}.nc"), DATE.strftime("%Y%m%dT%H%M%S"), h] + (["None", "None"] if own else ["u", "v"]) + ["lon", "lat", out]
    hist = [["own", h]] if own else []
    cuts = [0.0]
    if not curv and z // 6 % 3:
        w = wave(f, z // 18)
        order = 1 + z // 54 % 2
        cuts = [round(w * 2, 1)] if z // 6 % 3 == 1 else [round(w, 1), round(w * 2, 1)]
        argv += ["--filter_order", str(order)]
        if len(cuts) == 2:
            hist.append(["filter", h, "bessel_low_filter", cuts[0], order])
        hist.append(["filter", h, "bessel_high_filter", cuts[-1], order])
    argv += ["--cut_wavelength"] + [str(c) for c in cuts]
    kw = dict(step=s["step"], shape_error=s["shape_error"], sampling=s["sampling"], sampling_method=s["sampling_method"], pixel_limit=(5, 2000), nb_step_min=2, nb_step_to_be_mle=0)
    argv += ["--isoline_step", str(s["step"]), "--fit_errmax", str(s["shape_error"]), "--sampling", str(s["sampling"]), "--sampling_method", s["sampling_method"]]
    if "pixel_limit" in s:
        kw["pixel_limit"] = tuple(s["pixel_limit"])
        argv += ["--pixel_limit"] + [str(v) for v in s["pixel_limit"]]
    if "force_height_unit" in s:
        kw["force_height_unit"], kw["force_speed_unit"] = s["force_height_unit"], s["force_speed_unit"]
        argv += ["--height_unit", s["force_height_unit"], "--speed_unit", s["force_speed_unit"]]
    if curv:
        argv.append("--unregular")
    if f["nt"]:
        argv += ["--indexs", f"time={spec['t']}"]
    if f["nan"]:
        return "no masking option"
    want = fresh.ask("files", spec, hist, (h, "u", "v"), kw)

    def go():
        app.eddy_id(argv)
        got = []
        for name in ("Anticyclonic", "Cyclonic"):
            got.append(EddiesObservations.load_file(os.path.join(out, f"{name}_{DATE.strftime('%Y%m%dT%H%M%S')}.nc")))
        return got

    try:
        st, v = attempt(dict(act), go)
        if st != "ok":
            v = go()
    except Exception as e:
        got = "error", type(e).__name__, str(e)[:100]
        st = "refused"
    else:
        got = "ok", eddies(v)
    compare(ctx, n, o, ("program", *argv[1:7]), got, want)
    return st


def shrink(case):
    for a in core.shrink_list(case["acts"], 1):
        yield dict(case, acts=a)
    for k, a in enumerate(case["acts"]):
        if "fail" in a:
            yield dict(case, acts=case["acts"][:k] + [{x: y for x, y in a.items() if x != "fail"}] + case["acts"][k + 1:])
    if len(case["files"]) > 1:
        for k in range(len(case["files"])):
            yield dict(case, files=[case["files"][k]])
    for k, f in enumerate(case["files"]):
        for key, v in (("circle", False), ("holes", 0), ("block", False), ("packed", False), ("nan", False), ("nt", 0), ("unit", "m"), ("speed", "m/s"), ("order", "xy"), ("kind", "regular")):
            if f[key] != v:
                yield dict(case, files=case["files"][:k] + [dict(f, **{key: v})] + case["files"][k + 1:])
        if f["n"] > 1:
            yield dict(case, files=case["files"][:k] + [dict(f, n=f["n"] - 1)] + case["files"][k + 1:])
