"""Particle coherence is independent of execution order, chunking and window."""
import datetime
import os

import numpy as np

from .. import core, faults
from .p10 import DAY0, same, write_series

RUNS = dict(quick=400, thorough=12000)
RULE = (
    "A case is a drawn set of eddies over 3-8 dates, a drawn series of currents and one to four computations of the coherence: the whole period with deferred "
    "steps, one date after the other on one series, or forward and backward over a sliding window. The steps are executed in the drawn order, cut in chunks, on "
    "drawn workers (each with its own series, whole or restricted to the dates it needs, with released grids), some of them under failing reads and retried. "
    "Every result is compared with each observation computed alone on a new series. Non-trivial: a step out of order, cut, on another worker, or failed and retried."
)
MEASURE = "distinct (kind of computation, direction, contours, order of steps, number of workers, chunks and failures)"
REAL = ["NetworkObservations, TrackEddiesObservations", "GridCollection, RegularGridDataset", "numba kernels", "netCDF4 and HDF5 libraries"]
STUB = ["currents and eddies (drawn)", "executor of the steps (the harness runs them, in the order of the schedule)"]


def gen(rng, tier, i):
    nt = rng.randint(3, 8)
    f = dict(nx=14, ny=12, step=0.5, x0=rng.choice((0, 10, 180, 356, -3)), y0=rng.choice((-50, 20, 40)), order=rng.choice(("yx", "xy")), nt=nt,
             holes=rng.choice((0, 0, 0.01, 0.03)), circle=False, seed=rng.randrange(1 << 30), cube=False, amp=rng.choice((0.3, 1.0, 2.0)),
             heigth=False, later=True, step_t=1)
    eddies = []
    first = rng.choice((0, 0, 0, 1))
    for t in range(first, nt):
        n = rng.choice((0, 1, 1, 2, 3, 4))
        if t in (first, nt - 1) and rng.random() < 0.8:
            n = max(n, 1)
        for _ in range(n):
            eddies.append([t, rng.uniform(1, 5.5), rng.uniform(1, 4.5), rng.choice((0.3, 0.5, 0.8, 1.3)), rng.choice((1, 1, 0.7))])
    if len({e[0] for e in eddies}) < 2:
        eddies += [[first, 3, 3, 0.8, 1], [nt - 1, 3, 3, 0.8, 1]]
    rng.shuffle(eddies)
    jobs = [gen_job(rng, nt) for _ in range(rng.choice((1, 1, 2, 3)))]
    return dict(file=f, eddies=eddies, cls=rng.choice(("net", "net", "track")), jobs=jobs, workers=rng.choice((1, 1, 2, 3)))


def gen_job(rng, nt):
    kind = rng.choice(("atlas", "atlas", "dates", "window", "window", "analysis"))
    j = dict(kind=kind, days=rng.randint(1, min(4, nt - 1)), back=rng.random() < 0.5, mesh=rng.choice((0.1, 0.15, 0.25)),
             start=rng.choice(("speed", "effective")), end=rng.choice(("speed", "effective")), order=[rng.randrange(1 << 16) for _ in range(nt)],
             cut=rng.choice((0, 0, 1, 2)), who=[rng.randrange(3) for _ in range(4)], keep=rng.choice((None, 0, 1, 2)), frac=rng.choice((6, 6, 4, 2)),
             tight=rng.random() < 0.4, release=rng.random() < 0.4, rk4=rng.random() < 0.7, inline=rng.random() < 0.3,
             mode=rng.choice(("both", "both", "forward", "backward")), clean=rng.choice((0, 0, 2, 3)), save=rng.random() < 0.4,
             faults=[[rng.randrange(6 if kind in ("atlas", "dates") else 2), rng.choice(("read", "open", "date")), rng.randrange(40)] for _ in range(rng.choice((0, 0, 1, 2)))])
    return j


def warmup(tmp):
    import random

    for n, kind in enumerate(("atlas", "dates", "window")):
        for rk4 in (True, False):
            c = gen(random.Random(3), "quick", 0)
            j = dict(gen_job(random.Random(n), c["file"]["nt"]), kind=kind, rk4=rk4, days=1, faults=[])
            c.update(jobs=[j])
            run(c, core.Ctx(os.path.join(tmp, f"{n}{rk4}")))


# ---- data --------------------------------------------------------------------------
def build(case):
    from py_eddy_tracker.observations.network import NetworkObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    cls = NetworkObservations if case["cls"] == "net" else TrackEddiesObservations
    f, e = case["file"], case["eddies"]
    names = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"]
    o = cls(size=len(e), track_array_variables=16, array_variables=names)
    o.sign_type = 1
    a = np.linspace(0, 2 * np.pi, 16)
    for k in names:
        o.obs[k] = 0
    for v, (t, x, y, r, q) in zip(o.obs, e):
        x, y = x + f["x0"], y + f["y0"]
        v["time"], v["lon"], v["lat"] = DAY0 + t, x, y
        for s, w in (("e", r), ("s", 0.7 * r)):
            v["contour_lon_" + s] = x + w * np.cos(a)
            v["contour_lat_" + s] = y + w * q * np.sin(a)
    o.obs["track"] = 1
    return o


def series(f, folder, dates):
    from py_eddy_tracker.dataset.grid import GridCollection

    return GridCollection.from_netcdf_list([os.path.join(folder, f"grid{int(t) - DAY0}.nc") for t in dates], list(dates), **UV)


UV = dict(x_name="lon", y_name="lat", centered=True, unset=True)


def one_step(o, src, dst, contours, t, dt, mesh, frac, c, rk4):
    from py_eddy_tracker.observations.groups import particle_candidate_step

    a, b = ([o[k][i] for k in o.intern(w == "speed")] for w, i in zip(contours, (src, dst)))
    return particle_candidate_step(t, a, b, mesh, dt, c, day_fraction=frac, u_name="u", v_name="v", rk4=rk4, **({"backward": True} if dt < 0 else {}))


def alone(o, f, folder, job, tops=False):
    """Targets and percentages of each observation, each computed by itself on its own series."""
    from py_eddy_tracker.observations.groups import particle_candidate

    n = len(o)
    tgt, pct = np.full((n, 2), -1, dtype="i4"), np.zeros((n, 2), dtype="i1")
    dt = -job["days"] if job["back"] else job["days"]
    have = set(range(DAY0, DAY0 + f["nt"]))
    done = np.zeros(n, dtype=bool)
    for i in range(n):
        t = int(o.time[i])
        if t + dt not in have or t not in have:
            continue
        done[i] = True
        dates = sorted(range(t, t + dt + (1 if dt > 0 else -1), 1 if dt > 0 else -1))
        c = series(f, folder, dates)
        end = np.where(o.time == t + dt)[0]
        if job["kind"] == "atlas":
            if not end.size:
                continue
            a, b = one_step(o, np.array([i]), end, (job["start"], job["end"]), t, dt, job["mesh"], job["frac"], c, job["rk4"])
            m = a != -1
            a[m] = end[a[m]]
            tgt[i], pct[i] = a[0], b[0]
        else:
            m = np.zeros(n, dtype=bool)
            m[i] = True
            m[end] = True
            g = np.where(m)[0]
            e = o.extract_with_mask(m)
            a, b = np.full((g.size, 2), -1, dtype="i4"), np.zeros((g.size, 2), dtype="i1")
            particle_candidate(c, e, job["mesh"], t, a, b, contour_start=job["start"], contour_end=job["end"], n_days=dt)
            k = np.where(g == i)[0][0]
            q = a[k] != -1
            tgt[i, q] = g[a[k, q]]
            pct[i] = b[k]
    return tgt, pct, done


def run(case, ctx):
    f = case["file"]
    folder = ctx.dir("disk")
    write_series(f, folder)
    o = build(case)
    before = o.obs.copy()
    workers = {}
    for n, job in enumerate(case["jobs"]):
        if job["kind"] == "analysis":
            analysis(ctx, case, o, folder, job, n)
            continue
        want = alone(o, f, folder, job)
        dt = -job["days"] if job["back"] else job["days"]
        t0, t1 = int(o.time.min()), int(o.time.max())
        got = dict(atlas=atlas, dates=by_date, window=window)[job["kind"]](ctx, case, o, folder, job, dt, t0, t1, workers)
        ctx.check(np.array_equal(o.obs, before) or same(o.obs.tobytes(), before.tobytes()), "observations-changed", "the computation changed the observations")
        if got is None:
            continue
        tgt, pct, asked = got
        judge(ctx, case, o, job, n, tgt, pct, want, asked, t0, t1)
        if (pct > 0).any():
            ctx.probe("particles found in an eddy")
        if (pct[:, 1] > 0).any():
            ctx.probe("two targets")
        ctx.cover(job["kind"], dt, job["start"], job["end"], tuple(np.argsort(job["order"])[:4].tolist()), case["workers"], job["cut"], sorted(ctx.faults.items()))
        ctx.log(n, job["kind"], dt, tgt.tolist(), pct.tolist())
    ctx.simdays += f["nt"]


def judge(ctx, case, o, job, n, tgt, pct, want, asked, t0, t1):
    wt, wp, done = want
    for i in range(len(o)):
        t = int(o.time[i])
        if asked is not None and not asked(t):
            # not asked for: nothing must be there
            ok = (tgt[i] == -1).all() and (pct[i] == 0).all()
            if not ok and np.array_equal(tgt[i], wt[i]) and np.array_equal(pct[i], wp[i]):
                ok = True  # more than asked, and right
            ctx.check(ok, f"{job['kind']}/trace", lambda: f"job {n} observation {i} of date {t}, not computed, has {tgt[i].tolist()} {pct[i].tolist()}")
            continue
        ctx.check(np.array_equal(tgt[i], wt[i]) and np.array_equal(pct[i], wp[i]), f"{job['kind']}/differs",
                  lambda: f"job {n} observation {i} of date {t}: {tgt[i].tolist()} {pct[i].tolist()}, alone {wt[i].tolist()} {wp[i].tolist()}")


class Failing:
    """Failures to inject in the steps of a job: the n-th attempt fails."""

    def __init__(self, ctx, folder, plan):
        self.ctx, self.folder, self.n = ctx, folder, 0
        self.plan = {}
        for at, kind, z in plan:
            self.plan.setdefault(at, (kind, z))

    def call(self, label, fn, series=None):
        """(True, result), or (False, error) when a failure was injected."""
        n = self.n
        self.n += 1
        if n not in self.plan or self.plan[n][0] == "date":
            return self.outcome(label, fn, False)
        kind, z = self.plan[n]
        if series is not None:
            series.reset_grids(0)
        faults.arm(self.folder)
        (faults.fail_read if kind == "read" else faults.fail_open)(z if kind == "read" else z % 3, "EIO")
        try:
            return self.outcome(label, fn, True)
        finally:
            self.ctx.fault(f"{kind} failing", faults.counts()["fired"])
            faults.disarm()

    def outcome(self, label, fn, armed):
        try:
            return True, fn()
        except Exception as e:
            if not isinstance(e, NoFile) and not (armed and faults.counts()["fired"]):
                err = e
            else:
                self.ctx.nontrivial = True
                return False, e

        def again():
            raise err

        self.ctx.sut(label, again)


class NoFile(OSError):
    pass


def worker(case, folder, workers, k, job, dates):
    """Series of one worker."""
    if job["tight"]:
        return series(case["file"], folder, dates)
    if k not in workers:
        workers[k] = series(case["file"], folder, range(DAY0, DAY0 + case["file"]["nt"]))
    return workers[k]


def span(t, dt):
    return sorted(range(int(t), int(t) + dt + (1 if dt > 0 else -1), 1 if dt > 0 else -1))


def atlas(ctx, case, o, folder, job, dt, t0, t1, workers):
    """Period of the observations with one callback by date; the steps are deferred, then executed in the drawn order."""
    from py_eddy_tracker.observations.groups import particle_candidate_step

    f = case["file"]
    fails = Failing(ctx, folder, job["faults"])
    steps = []

    def defer(net, i_target, pct, i0, i1, start_intern, end_intern, **kw):
        steps.append((i0.copy(), i1.copy(), start_intern, end_intern, kw))
        return len(steps)

    def finish(results, indexs, i_target, pct):
        ctx.check(list(results) == list(range(1, len(steps) + 1)), "atlas/steps", "the steps given to the end are not those asked")
        todo = []
        for r, (i0, i1, si, ei, kw) in zip(results, steps):
            j0, j1 = indexs[r]
            ctx.check(np.array_equal(i0, j0) and np.array_equal(i1, j1), "atlas/steps", "indexes of a step are not those of its result")
            cut = job["cut"] or len(i0)
            for a in range(0, len(i0), cut):
                todo.append((r, i0[a:a + cut], i1, si, ei, kw))
        order = sorted(range(len(todo)), key=lambda q: (job["order"][q % len(job["order"])], q))
        if order != list(range(len(todo))) or job["cut"]:
            ctx.nontrivial = True
        todo = [todo[q] for q in order]
        while todo:
            r, i0, i1, si, ei, kw = todo.pop(0)
            k = job["who"][fails.n % len(job["who"])] % case["workers"]
            t = kw["t_start"]
            c = worker(case, folder, workers, k, job, span(t, dt))
            if job["release"]:
                c.reset_grids(0)
                ctx.fault("grids released")
            a, b = ([o[x][i] for x in o.intern(w)] for w, i in zip((si, ei), (i0, i1)))
            kw = dict(kw, c=c)
            done, res = fails.call("step", lambda: particle_candidate_step(contours_start=a, contours_end=b, **kw), c)
            if not done:
                ctx.log("failed", int(t))
                todo.insert(min(len(todo), job["order"][0] % 3), (r, i0, i1, si, ei, kw))
                continue
            o.merge_particle_result(i_target, pct, *res, i0, i1)

    kw = dict(u_name="u", v_name="v", rk4=job["rk4"], day_fraction=job["frac"])
    if dt < 0:
        kw["backward"] = True
    if job["keep"] is not None:
        kw["reset_grid"] = job["keep"]
    c = worker(case, folder, workers, 0, dict(job, tight=False), None)
    if not job["inline"]:
        kw.update(callback_coherence=defer, finalize_coherence=finish)
    args = (c, job["mesh"], dt, job["start"] == "speed", job["end"] == "speed")
    r = ctx.sut("atlas", o.particle_candidate_atlas, *args, **kw)
    # The last date is not always asked for
    asked = (lambda t: t0 <= t < t1 - dt) if dt > 0 else (lambda t: t0 - dt <= t < t1)
    return r[0], r[1], asked


def by_date(ctx, case, o, folder, job, dt, t0, t1, workers):
    from py_eddy_tracker.observations.groups import particle_candidate

    shape = len(o), 2
    tgt, pct = np.full(shape, -1, dtype="i4"), np.zeros(shape, dtype="i1")
    fails = Failing(ctx, folder, job["faults"])
    have = range(DAY0, DAY0 + case["file"]["nt"])
    dates = [t for t in range(t0, t1 + 1) if t + dt in have and (o.time == t).any()]
    order = sorted(dates, key=lambda t: (job["order"][(t - DAY0) % len(job["order"])], t))
    if order != dates:
        ctx.nontrivial = True
    todo = list(order)
    while todo:
        t = todo.pop(0)
        k = job["who"][fails.n % len(job["who"])] % case["workers"]
        c = worker(case, folder, workers, k, job, span(t, dt))
        if job["release"]:
            c.reset_grids(0)
            ctx.fault("grids released")
        before = tgt.copy(), pct.copy()
        call = lambda: particle_candidate(c, o, job["mesh"], t, tgt, pct, contour_start=job["start"], contour_end=job["end"], n_days=dt)
        done, _ = fails.call("date", call, c)
        if not done:
            ctx.check(same(before, (tgt, pct)), "dates/failed-trace", "a failed step changed the result")
            todo.insert(min(len(todo), job["order"][0] % 3), t)
    return tgt, pct, lambda t: t in dates


def window(ctx, case, o, folder, job, dt, t0, t1, workers):
    """Sliding window over the period, again when it fails."""
    if case["cls"] != "net":
        return None
    fails = Failing(ctx, folder, job["faults"])
    uv = dict(UV, unset=job["tight"])
    asked = []
    bad = {n: z for n, k, z in job["faults"] if k == "date"}

    def file_of(day):
        d = datetime.datetime(1950, 1, 1) + datetime.timedelta(days=day)
        asked.append(day)
        if fails.n - 1 in bad and len(asked) > bad[fails.n - 1] % 9:
            del bad[fails.n - 1]
            ctx.fault("date without file")
            raise NoFile(str(d))
        return os.path.join(folder, f"grid{(d - datetime.datetime(1950, 1, 1)).days - DAY0}.nc")

    fn = o.segment_coherence_backward if job["back"] else o.segment_coherence_forward
    kw = dict(date_function=file_of, uv_params=uv, n_days=job["days"], step_mesh=job["mesh"], contour_start=job["start"], contour_end=job["end"])
    for _ in range(20):
        del asked[:]
        done, r = fails.call("window", lambda: fn(**kw))
        if done:
            break
    if t0 + abs(dt) > t1:
        return r[0], r[1], lambda t: False
    return r[0], r[1], (lambda t: t0 <= t <= t1 - dt) if dt > 0 else (lambda t: t0 - dt <= t <= t1)


def analysis(ctx, case, o, folder, job, n):
    """Whole analysis of a network whose segments join eddies of consecutive dates."""
    import zarr
    from py_eddy_tracker.observations.network import NetworkObservations

    if case["cls"] != "net":
        return
    chains = []
    for i in np.argsort(o.time, kind="mergesort"):
        c = next((c for c in chains if o.time[c[-1]] == o.time[i] - 1), None)
        c.append(i) if c is not None else chains.append([i])
    order = [i for c in chains for i in c]
    net = o.extract_with_mask(np.ones(len(o), dtype=bool))
    net.obs[:] = o.obs[order]
    k = 0
    for j, c in enumerate(chains):
        sl = slice(k, k + len(c))
        net.track[sl], net.segment[sl] = 1 + j // 2, 1 + j
        net.next_obs[sl] = [*range(k + 1, k + len(c)), -1]
        net.previous_obs[sl] = [-1, *range(k, k + len(c) - 1)]
        k += len(c)
    fails = Failing(ctx, folder, job["faults"])
    out = os.path.join(ctx.dir(), "result")
    kw = dict(date_function=lambda d: os.path.join(folder, f"grid{d - DAY0}.nc"), uv_params=UV, advection_mode=job["mode"], n_days=job["days"],
              step_mesh=job["mesh"], output_name=out if job["save"] else None, remove_dead_end=job["clean"])
    for _ in range(20):
        done, r = fails.call("analysis", lambda: net.analysis_coherence(**kw))
        if done:
            break
    clean, res = r
    short = {i for c in chains if o.time[c[-1]] - o.time[c[0]] + 1 < job["clean"] for i in c}
    gone = {tuple(o.obs[["time", "lon", "lat"]][i]) for i in short}
    left = clean.obs[clean.track != 0]
    ctx.check(len(left) == len(o) - len(short) and not gone & {tuple(v) for v in left[["time", "lon", "lat"]]}, "analysis/cleaned",
              lambda: f"{len(left)} observations kept, {len(o) - len(short)} expected")
    t0, t1 = int(clean.time.min()), int(clean.time.max())
    modes = dict(both=(False, True), forward=(False,), backward=(True,))[job["mode"]]
    ctx.check(len(res) == 2 * len(modes), "analysis/results", f"{len(res)} arrays for {job['mode']}")
    for q, back in enumerate(modes):
        j = dict(job, back=back, start="speed", end="speed")
        dt = -job["days"] if back else job["days"]
        asked = (lambda t: t0 <= t <= t1 - dt) if dt > 0 else (lambda t: t0 - dt <= t <= t1)
        judge(ctx, case, clean, j, n, res[2 * q], res[2 * q + 1], alone(clean, case["file"], folder, j), asked, t0, t1)
    if job["save"] and job["mode"] == "both":
        z = zarr.open(out + ".zarr", mode="r")
        for name, v in zip(("target_forward", "pct_forward", "target_backward", "pct_backward"), res):
            ctx.check(np.array_equal(z[name][:], v), "analysis/saved", name)
        saved = ctx.sut("read saved", NetworkObservations.load_file, out + ".nc")
        ctx.check(len(saved) == len(clean) and np.array_equal(saved.time, clean.time) and np.array_equal(saved.segment, clean.segment), "analysis/saved", "network")
    ctx.cover("analysis", job["mode"], job["clean"], job["days"], sorted(ctx.faults.items()))


def shrink(case):
    if len(case["jobs"]) > 1:
        for k in range(len(case["jobs"])):
            yield dict(case, jobs=case["jobs"][:k] + case["jobs"][k + 1:])
    for c in core.shrink_list(case["eddies"], 2):
        yield dict(case, eddies=c)
    for n, j in enumerate(case["jobs"]):
        for key, v in (("faults", []), ("cut", 0), ("order", [0]), ("who", [0]), ("keep", None), ("tight", False), ("release", False), ("inline", True), ("days", 1),
                       ("mesh", 0.25), ("frac", 6), ("rk4", True), ("clean", 0), ("save", False), ("mode", "both")):
            if j[key] != v:
                yield dict(case, jobs=case["jobs"][:n] + [dict(j, **{key: v})] + case["jobs"][n + 1:])
    if case["workers"] > 1:
        yield dict(case, workers=1)
    for key, v in (("holes", 0), ("order", "xy")):
        if case["file"][key] != v:
            yield dict(case, file=dict(case["file"], **{key: v}))
