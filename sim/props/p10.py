"""Advection through a grid series is independent of memory windows and other users."""
import os

import numpy as np

from .. import core, faults

RUNS = dict(quick=700, thorough=20000)
RULE = (
    "A case is a drawn series of current grids (one file per date or one cube, from u/v or from a height, closed or open in longitude, missing values), and "
    "one to six users of it (advection, filament, path, interpolation, forward or backward, with or without a limit of loaded grids, stopped and continued), "
    "whose steps are interleaved by the drawn schedule with releases, slides of the window and failing reads. Each user is compared with the same user alone "
    "on the full series, in one go. Non-trivial: two users interleave, or a user is stopped and continued, or a grid is released under a user."
)
MEASURE = "distinct (series layout, kinds of users, interleaving prefix, number of releases, slides and failures)"
REAL = ["GridCollection, RegularGridDataset", "numba kernels", "netCDF4 and HDF5 libraries"]
STUB = ["currents (drawn)"]
DAY0 = 20000


def gen(rng, tier, i):
    nt = rng.randint(3, 8)
    f = dict(nx=rng.choice((10, 14)), ny=rng.choice((9, 12)), step=rng.choice((0.5, 1)), x0=rng.choice((0, 180, 350, -20)), y0=rng.choice((-50, 20, 40)),
             order=rng.choice(("yx", "xy")), nt=nt, holes=rng.choice((0, 0, 0.02, 0.08)), circle=rng.random() < 0.2, seed=rng.randrange(1 << 30),
             cube=rng.random() < 0.4, amp=rng.choice((0.3, 1.0, 2.0)), heigth=rng.random() < 0.35, later=rng.random() < 0.5, step_t=rng.choice((1, 1, 1, 2)))
    users = [gen_user(rng, f) for _ in range(rng.choice((1, 2, 2, 3, 3, 4, 6)))]
    if f["step_t"] != 1:
        users = [u for u in users if u["kind"] != "interp"] or [dict(gen_user(rng, f), kind="advect")]
    window = rng.randint(2, nt - 1) if rng.random() < 0.5 and nt > 2 and not f["cube"] else 0
    events = []
    for _ in range(rng.randint(0, 7 if window else 4)):
        kinds = ("release", "release", "release one", "fail read", "fail open") + ("slide",) * (6 if window else 0)
        events.append([rng.randint(0, 30), rng.choice(kinds), rng.randrange(1 << 20)])
    return dict(file=f, users=users, window=window, events=events, choices=[rng.randrange(6) for _ in range(rng.randint(1, 40))])


def gen_user(rng, f):
    kind = rng.choice(("advect", "advect", "advect", "filament", "path", "interp"))
    back = rng.random() < 0.35
    u = dict(kind=kind, back=back, rk4=rng.random() < 0.6, start=rng.randrange(1 << 10), n=rng.randint(1, 9), seed=rng.randrange(1 << 20),
             keep=rng.choice((None, None, 0, 1, 2, 3)), origin=rng.choice(("uv", "uv", "h", "k")), stops=rng.random() < 0.4,
             steps=rng.randint(1, 12), rate=rng.choice(((6, 4), (6, 4), (1, 1), (3, 1), (24, 24), (5, 2), (4, 8))), born=rng.randint(0, 12),
             method=rng.choice(("bilinear", "nearest")), field=rng.choice("huv"))
    return u


def warmup(tmp):
    import random

    n = 0
    for rk4 in (True, False):
        for kind, origin, heigth in (("advect", "uv", True), ("filament", "h", False), ("interp", "uv", False), ("path", "uv", False)):
            c = gen(random.Random(5), "quick", 0)
            c["file"].update(heigth=heigth, step_t=1, nt=4, cube=False)
            u = dict(gen_user(random.Random(1), c["file"]), kind=kind, origin=origin, rk4=rk4, start=0, back=False)
            c.update(users=[u, dict(u, method="nearest")], window=0, events=[])
            n += 1
            run(c, core.Ctx(os.path.join(tmp, str(n))))


# ---- series ------------------------------------------------------------------------
def write_series(f, folder):
    from netCDF4 import Dataset

    rs = np.random.RandomState(f["seed"])
    nt, nx, ny = f["nt"], f["nx"], f["ny"]
    step = 360 / nx if f["circle"] else f["step"]
    x, y = f["x0"] + np.arange(nx) * step, f["y0"] + np.arange(ny) * f["step"]
    ax, ay = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
    data = {}
    for name in ("h", "k", "u", "v"):
        amp = f["amp"] * (0.1 if name in "hk" else 1)
        p = rs.rand(nt, 4) * 6
        a = np.stack([amp * (np.sin(ax * 0.5 + q[0]) * np.cos(ay * 0.4 + q[1]) + 0.2 * np.sin(q[2] + ax * ay * 0.1)) for q in p])
        data[name] = np.ma.array(a, mask=rs.rand(nt, nx, ny) < f["holes"])
    times = DAY0 + np.arange(nt) * f["step_t"]
    parts = [(None, "cube.nc")] if f["cube"] else [(i, f"grid{i}.nc") for i in range(nt)]
    for i, name in parts:
        with Dataset(os.path.join(folder, name), "w") as h:
            h.createDimension("lon", nx), h.createDimension("lat", ny)
            h.createVariable("lon", "f8", ("lon",))[:] = x
            h.createVariable("lat", "f8", ("lat",))[:] = y
            if i is None:
                h.createDimension("time", nt)
                h.createVariable("time", "f8", ("time",))[:] = times
            d = ("lon", "lat") if f["order"] == "xy" else ("lat", "lon")
            for k, a in data.items():
                if f["heigth"] and k in "uv":
                    continue
                a = a if i is None else a[i]
                a = np.swapaxes(a, -1, -2) if f["order"] == "yx" else a
                h.createVariable(k, "f8", (("time",) if i is None else ()) + d, fill_value=1e20)[:] = a
    return times.tolist(), (x, y)


def series(f, folder, times, which=None, later=None):
    from py_eddy_tracker.dataset.grid import GridCollection

    kw = dict(centered=True, unset=f["later"] if later is None else later, heigth="h" if f["heigth"] else None)
    if f["cube"]:
        return GridCollection.from_netcdf_cube(os.path.join(folder, "cube.nc"), "lon", "lat", "time", **kw)
    which = range(len(times)) if which is None else which
    return GridCollection.from_netcdf_list([os.path.join(folder, f"grid{i}.nc") for i in which], [times[i] for i in which], "lon", "lat", **kw)


# ---- users -------------------------------------------------------------------------
class User:
    """One user of the series; each call of step makes it advance once and records what it got."""

    def __init__(self, spec, f, axes, times):
        self.s, self.f = spec, f
        # positions always on the full series, whatever the window at birth
        self.times = times
        self.t = times[spec["start"] % len(times)]
        rs = np.random.RandomState(spec["seed"])
        x, y = axes
        self.x = rs.uniform(x[0] - 0.2, x[-1] + 0.2, spec["n"])
        self.y = rs.uniform(y[0], y[-1], spec["n"])
        if spec["n"] > 5:
            self.x[2] = np.nan
        self.gen = self.now = self.last = None
        self.k = 0
        self.over = False
        self.window = None
        self.restarts = 0

    def kw(self):
        s = self.s
        n, per = s["rate"]
        kw = dict(t_init=self.t, nb_step=n, time_step=86400 / (n * per), rk4=s["rk4"])
        if s["back"]:
            kw["backward"] = True
        if s["kind"] == "filament":
            kw.update(u_name="u", v_name="v")
        elif s["origin"] == "uv":
            kw.update(u_name="u", v_name="v")
        else:
            kw.update(h_name=s["origin"])
        if s["kind"] == "filament":
            kw.update(filament_size=3)
        elif s["keep"] is not None:
            kw["reset_grid"] = s["keep"]
        return kw

    def start(self, c):
        self.window = c.time.tolist()
        if self.s["kind"] == "advect":
            self.gen = c.advect(self.x, self.y, **self.kw())
        elif self.s["kind"] == "filament":
            self.gen = c.filament(self.x, self.y, **self.kw())

    def step(self, c):
        """Next result, or OUT when the series does not hold the dates it needs from the start."""
        s = self.s
        ts = c.time.tolist()
        if s["kind"] == "interp":
            t = self.times[(s["start"] + self.k) % len(self.times)] + (0, 0.25, 0.9)[(s["seed"] + self.k) % 3]
            if int(t) not in ts:
                return OUT
            return c.interp(s["field"], t, self.x, self.y, method=s["method"])
        if self.gen is None and self.t not in ts:
            return OUT
        if s["kind"] == "path":
            r = c.path(self.x, self.y, nb_time=min(s["steps"], 1 + self.k), **self.kw())
            return [np.array(v, copy=True) for v in r]
        if self.gen is None:
            self.start(c)
        t, x, y = next(self.gen)
        if s["kind"] == "advect":
            self.now = t / 86400
            self.last = np.array(x, copy=True), np.array(y, copy=True)
        return [float(t), np.array(x, copy=True), np.array(y, copy=True)]

    def again(self):
        """Forget the advection in progress; the next step starts from the last positions."""
        if self.last is not None:
            self.x, self.y = (v.copy() for v in self.last)
            self.t = self.now
        self.gen = None
        self.restarts += 1

    @property
    def at_grid_date(self):
        return self.gen is None or (self.s["kind"] == "advect" and self.now in self.times)

    def brackets(self):
        """Pairs of dates which the next step needs."""
        s, ts = self.s, self.times
        per = s["rate"][1] * (-1 if s["back"] else 1)
        if s["kind"] == "interp":
            t = ts[(s["start"] + self.k) % len(ts)]
            return [(t, t + 1)]
        t0 = ts[s["start"] % len(ts)]
        n = range(min(s["steps"], 1 + self.k)) if s["kind"] == "path" else [self.k]
        st = self.f["step_t"]
        out = []
        for i in n:
            t = t0 + i / per
            j = (t - ts[0]) / st
            out.append((ts[0] + np.floor(j) * st, ts[0] + (np.floor(j) + 1) * st) if per > 0 else (ts[0] + (np.ceil(j) - 1) * st, ts[0] + np.ceil(j) * st))
        return out


END = (RuntimeError, StopIteration, KeyError)
OUT = "out of the window"


def alone(spec, case, folder, times, axes):
    """What this user gets with the full series, nobody else, in one go, its positions in reverse order."""
    c = series(case["file"], folder, times, later=False)
    u = User(dict(spec, keep=None), case["file"], axes, times)
    flip = spec["kind"] != "filament"
    if flip:
        u.x, u.y = u.x[::-1].copy(), u.y[::-1].copy()
    out = []
    start = u.x.copy(), u.y.copy()
    for u.k in range(spec["steps"]):
        if spec["kind"] in ("path", "interp"):
            u.x, u.y = (v.copy() for v in start)
        try:
            r = u.step(c)
        except END as e:
            r = e
        if flip and isinstance(r, (list, np.ndarray)):
            r = [v[..., ::-1] if np.ndim(v) and not (spec["kind"] == "path" and j == 0) else v for j, v in enumerate(r)] if isinstance(r, list) else r[::-1]
        out.append(r)
        if isinstance(r, Exception) and spec["kind"] != "interp":
            break
    return out


def same(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return np.array_equal(a, b, equal_nan=True)


def run(case, ctx):
    f = case["file"]
    folder = ctx.dir("disk")
    times, axes = write_series(f, folder)
    want = [alone(s, case, folder, times, axes) for s in case["users"]]
    nw = case["window"] or len(times)
    c = ctx.sut("open series", series, f, folder, times, range(nw) if case["window"] else None)
    first = 0
    users = [User(s, f, axes, times) for s in case["users"]]
    events = sorted(case["events"])
    k, turn = 0, 0
    choices = case["choices"]
    armed = None
    order = []
    while not all(u.over for u in users):
        while events and events[0][0] <= turn:
            _, what, z = events.pop(0)
            if what == "release":
                before = c.are_loaded.sum()
                c.reset_grids(z % 3)
                ctx.fault("grids released", int(before - c.are_loaded.sum()))
            elif what == "release one":
                list(c)[z % len(c.datasets)].clean()
                ctx.fault("grids released")
            elif what == "slide" and case["window"] and first + nw < len(times):
                first = slide(ctx, c, f, folder, times, first, nw, z)
            elif what.startswith("fail"):
                armed = what.split()[1], z
            ctx.log("event", what, c.time.tolist())
        live = [j for j, u in enumerate(users) if not u.over and u.s["born"] <= turn]
        turn += 1
        if not live:
            continue
        j = live[choices[k % len(choices)] % len(live)]
        k += 1
        u = users[j]
        s = u.s
        order.append(j)
        if u.gen is not None and s["stops"] and u.at_grid_date and (u.k * 7 + s["seed"]) % 3 == 0:
            u.again()
            ctx.fault("advection stopped and continued")
            ctx.nontrivial = True
        fails = None
        if armed and u.at_grid_date:
            fails, armed = armed, None
        try:
            r = attempt(ctx, c, u, folder, *fails) if fails else u.step(c)
        except END as e:
            r = e
        ctx.log(turn, j, u.k, r if r in (OUT, AGAIN) else type(r).__name__) if isinstance(r, str) else ctx.log(turn, j, u.k, type(r).__name__)
        if isinstance(r, str) and r == AGAIN:
            continue
        judge(ctx, c, u, r, want[j][u.k])
        u.k += 1
        bad = isinstance(r, Exception) or (isinstance(r, str) and s["kind"] != "interp")
        u.over = u.k >= len(want[j]) or (bad and s["kind"] != "interp")
    if len(set(order)) > 1 and order != sorted(order):
        ctx.nontrivial = True
        ctx.probe("users interleaved")
    ctx.simdays += len(times)
    ctx.cover(f["cube"], f["heigth"], f["later"], case["window"], sorted((u["kind"], u["back"], u["origin"]) for u in case["users"]), tuple(order[:6]),
              sorted(ctx.faults.items()))


def slide(ctx, c, f, folder, times, first, nw, z):
    nxt = first + nw
    kw = dict(x_name="lon", y_name="lat", centered=True, unset=f["later"])
    call = lambda: c.shift_files(times[nxt], os.path.join(folder, f"grid{nxt}.nc"), heigth="h" if f["heigth"] else None, **kw)
    if z % 3 == 0:
        before = c.time.tolist()
        faults.arm(folder)
        faults.fail_open(z // 3 % 2, "EIO")
        try:
            call()
            done = True
        except Exception:
            done = False
            ctx.fault("slide with a failing read")
        finally:
            faults.disarm()
        if done:
            return first + 1
        ctx.check(c.time.tolist() == before, "failed-slide", lambda: f"{before} becomes {c.time.tolist()}")
    ctx.sut("slide", call)
    ctx.fault("window moved")
    return first + 1


AGAIN = "again"


def attempt(ctx, c, u, folder, kind, z):
    """One step under a failing read; when it fails, the user starts again from its last positions."""
    if u.gen is not None:
        u.again()
    x, y = u.x.copy(), u.y.copy()
    c.reset_grids(0)
    faults.arm(folder)
    (faults.fail_read if kind == "read" else faults.fail_open)((0, 1, 2, 4, 9, 20)[z % 6] if kind == "read" else z % 3, "EIO")
    r = None
    try:
        r = u.step(c)
    except Exception as e:
        r = e
    finally:
        fired = faults.counts()["fired"]
        faults.disarm()
    ctx.fault(f"{kind} failing", fired)
    if fired and isinstance(r, Exception):
        ctx.nontrivial = True
        ctx.check(same([u.x, u.y], [x, y]), "failed-step-moves", "positions changed by a step which failed")
        u.gen = None
        return AGAIN
    if fired:
        ctx.probe("step passed over a failing call")
    if isinstance(r, Exception):
        raise r
    return r


def judge(ctx, c, u, r, w):
    s = u.s
    if isinstance(r, str):
        return
    tag = s["kind"] + ("/back" if s["back"] and s["kind"] != "interp" else "")
    if isinstance(r, Exception):
        if not isinstance(w, Exception):
            have = set(c.time.tolist())
            if s["kind"] not in ("path", "interp") and u.window is not None:
                have &= set(u.window)
            missing = [t for b in u.brackets() for t in b if t not in have]
            ctx.check(missing, f"refused/{tag}", lambda: f"step {u.k} of {describe(s)}: {type(r).__name__}: {r}")
            ctx.probe("date out of the window")
        return
    ctx.check(not isinstance(w, Exception), f"accepted/{tag}", lambda: f"step {u.k} of {describe(s)} gives a result, alone: {type(w).__name__}: {w}")
    ctx.check(same(r, w), f"differs/{tag}", lambda: f"step {u.k} of {describe(s)}, {u.restarts} restarts{detail(r, w)}")


def describe(s):
    return {k: s[k] for k in ("kind", "back", "rk4", "origin", "keep", "rate", "start")}


def detail(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        x, y = np.asarray(x), np.asarray(y)
        if not np.array_equal(x, y, equal_nan=True):
            m = ~((x == y) | ((x != x) & (y != y)))
            return f"; part {i}: {x[m][:2].tolist()} in place of {y[m][:2].tolist()}"
    return ""


def shrink(case):
    if len(case["users"]) > 1:
        for k in range(len(case["users"])):
            yield dict(case, users=case["users"][:k] + case["users"][k + 1:])
    for k in range(len(case["events"])):
        yield dict(case, events=case["events"][:k] + case["events"][k + 1:])
    for c in core.shrink_list(case["choices"], 1):
        yield dict(case, choices=c)
    if case["window"]:
        yield dict(case, window=0)
    for k, u in enumerate(case["users"]):
        for key, v in (("kind", "advect"), ("back", False), ("rk4", False), ("keep", None), ("stops", False), ("born", 0), ("n", 1), ("steps", 1), ("steps", u["steps"] - 1),
                       ("rate", [1, 1]), ("origin", "uv")):
            if u[key] != v and not (key == "steps" and v < 1):
                yield dict(case, users=case["users"][:k] + [dict(u, **{key: v})] + case["users"][k + 1:])
    for key, v in (("holes", 0), ("circle", False), ("cube", False), ("heigth", False), ("later", False), ("order", "xy"), ("step_t", 1)):
        if case["file"][key] != v and not (key == "step_t" and any(u["kind"] == "interp" for u in case["users"])):
            yield dict(case, file=dict(case["file"], **{key: v}))
