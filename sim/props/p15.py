"""The animation shows the right eddies after any keys, pauses and timer delays."""
import datetime
import os
import sys

import numpy as np

from .. import core, faults

RUNS = dict(quick=1200, thorough=30000)
RULE = (
    "A case is a drawn set of tracks (with dates without observations), the settings of the animation (trailing window, colours, labels, contours, axes), the way it "
    "is played (library, program, movie, frames in any order, two shows of one animation, two animations at once) and the schedule of the event loop: the keys, "
    "resizes and clock jumps which arrive during every wait. The real player runs in this event loop; what it has drawn is compared with a model at every wait and "
    "every drawing, and its pixels with those of a new animation which shows only that date. Non-trivial: a key while paused, a resize, a clock jump, a second show, "
    "a date without observation, or frames out of order."
)
MEASURE = "distinct (way of playing, window, colours, labels, shape of the dates, keys received with the state in which they came)"
REAL = ["appli.gui.Anim and anim", "TrackEddiesObservations", "matplotlib figure, artists and Agg renderer", "netCDF4/HDF5 (program)"]
STUB = ["event loop and window (keys, resizes and delays come from the schedule; the screen is a copy of what was drawn)", "movie encoder", "clock"]
ASSUMPTIONS = ["Dates are whole days.", "Line widths are only required to be positive for shown contours."]

DAY0 = 20000
NB = 6


def gen(rng, tier, i):
    nt = rng.choice((2, 3, 5, 8, 8, 12, 20))
    tracks = []
    for k in range(rng.choice((1, 1, 2, 3, 5))):
        a = rng.randrange(nt)
        b = rng.randrange(a, nt)
        holes = rng.choice((0, 0, 0.3, 0.6))
        tracks.append(dict(id=rng.choice((k + 1, k + 1, 10 * k + 3)), t=[t for t in range(a, b + 1) if t in (a, b) or rng.random() >= holes],
                           x=rng.uniform(0, 8), y=rng.uniform(0, 6), dx=rng.uniform(-0.4, 0.4), dy=rng.uniform(-0.4, 0.4), r=rng.uniform(0.3, 1)))
    how = rng.choice(("show", "show", "show", "infinite", "frames", "frames", "program", "movie"))
    field = rng.choice(("time", "time", "amplitude", "radius_s", "track", None))
    opts = dict(nb_step=rng.choice((1, 2, 3, 4, 5, 8, 25)), intern=rng.random() < 0.5, cmap=rng.choice((None, "jet", "viridis", "magma_r")),
                field=field, txt=rng.choice(("track", "track", "n", "amplitude", None)), rg=rng.choice(((None, None), (None, None), (0, 30), (None, 25.5))),
                info=rng.random() < 0.2, sleep=rng.choice((0.01, 0.1, 1.0, 4.0, 1e-10, 0.0)), own_axes=rng.random() < 0.15)
    opts["info"] &= opts["sleep"] > 0  # shows a number of frames by second
    waits = []
    for _ in range(rng.choice((0, 3, 6, 12, 25))):
        w = []
        r = rng.random()
        if r < 0.45:
            n = rng.choice((1, 1, 2, 3, 6))
            w = [rng.choice((" ", " ", "left", "left", "right", "right", "+", "-", "x", "resize")) for _ in range(n)]
        waits.append(w)
    if waits and rng.random() < 0.5:
        # a visit : pause, some steps, then go on
        k = rng.randrange(len(waits))
        waits[k] = [" "] + [rng.choice(("left", "left", "right", "+", "resize")) for _ in range(rng.randint(1, 10))] + ([" "] if rng.random() < 0.6 else [])
    return dict(nt=nt, tracks=tracks, how=how, opts=opts, waits=waits, x0=rng.choice((0, 100, 178, 355, -170)), seed=rng.randrange(1 << 20),
                frames=[rng.randrange(-2, nt + 4) for _ in range(rng.randint(2, 10))], again=rng.random() < 0.25, two=rng.random() < 0.3,
                clock=[rng.choice((0, 0.001, 0.05, 3, opts["sleep"])), rng.choice((-1, -1, 1, 3, 7, 12)), rng.choice((3600, -3600, 0.5, -2))],
                centered=rng.random() < 0.4, ids=rng.random() < 0.5, pixels=sorted(rng.sample(range(40), 2)) if rng.random() < 0.5 else [],
                escape=rng.random() < 0.1)


def warmup(tmp):
    import random

    for how in ("show", "movie", "program"):
        c = gen(random.Random(1), "quick", 0)
        c.update(how=how, waits=[[" ", "left", " "]], pixels=[1], again=False, escape=False)
        c["opts"].update(field="amplitude", intern=False, own_axes=False)
        try:
            run(c, core.Ctx(os.path.join(tmp, how)))
        except core.Violation:
            pass


def dataset(case):
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    rows = sorted({(tr["id"], t, k) for k, tr in enumerate(case["tracks"]) for t in tr["t"]})
    # two drawn tracks could have the same number
    rows = [r for n, r in enumerate(rows) if not any(q[:2] == r[:2] for q in rows[:n])]
    d = TrackEddiesObservations(
        len(rows), track_extra_variables=["cost_association", "distance_next"], track_array_variables=NB,
        array_variables=["contour_lon_s", "contour_lat_s", "contour_lon_e", "contour_lat_e", "uavg_profile"],
    )
    d.sign_type = 1
    rng = np.random.RandomState(case["seed"])
    a = np.linspace(0, 2 * np.pi, NB)
    for i, (num, t, k) in enumerate(rows):
        tr = case["tracks"][k]
        x, y = case["x0"] + tr["x"] + tr["dx"] * t, tr["y"] + tr["dy"] * t
        for c, f in (("s", 1), ("e", 1.3)):
            d.obs["contour_lon_" + c][i] = x + f * tr["r"] * np.cos(a)
            d.obs["contour_lat_" + c][i] = y + f * tr["r"] * np.sin(a)
        d.obs["lon"][i], d.obs["lat"][i] = x, y
        d.obs["time"][i] = DAY0 + t
        d.obs["track"][i] = num
        d.obs["n"][i] = sum(1 for r in rows[:i] if r[0] == num)
        d.obs["amplitude"][i] = rng.randint(1, 60) / 256
        for f in ("radius_s", "radius_e"):
            d.obs[f][i] = rng.randint(20, 160) * 512
    return d


# ---- model of what has to be shown -------------------------------------------
class Model:
    """Contours, colours and labels of a date, straight from the observations."""

    def __init__(self, obs, opts):
        from matplotlib import pyplot

        c = "s" if opts["intern"] else "e"
        self.t, self.opts = obs["time"].astype("f8"), opts
        self.x, self.y = obs["contour_lon_" + c], obs["contour_lat_" + c]
        self.lon, self.lat = obs["lon"], obs["lat"]
        self.labels = None if opts["txt"] is None else [str(v) for v in obs[opts["txt"]]]
        self.cmap = pyplot.get_cmap(opts["cmap"])
        self.p0, self.p1 = self.t.min(), self.t.max()
        f, (v0, v1) = opts["field"], opts["rg"]
        self.value = None
        if f is not None and not (f == "time" and v0 is None and v1 is None):
            v = obs[f].astype("f4")
            v0, v1 = v.min() if v0 is None else v0, v.max() if v1 is None else v1
            self.value = (v - v0) / (v1 - v0) if v1 != v0 else "constant"

    def window(self, now):
        return np.where((self.t > now - self.opts["nb_step"]) & (self.t <= now))[0]

    def colours(self, i, now):
        """Admitted colours of an observation."""
        if self.opts["field"] is None:
            from matplotlib.colors import to_rgba

            return [to_rgba("gray")]
        if self.value is None:
            v = (self.opts["nb_step"] - now + self.t[i]) / self.opts["nb_step"]
        elif isinstance(self.value, str):
            return None
        else:
            v = float(self.value[i])
        return [self.cmap(v + e) for e in (0, -1e-5, 1e-5)]


def shown(ax):
    """What the artists of the axes show: contours and texts."""
    out = []
    for c in ax.collections:
        paths, lw, col = c.get_paths(), np.atleast_1d(c.get_linewidth()), c.get_edgecolor()
        if not c.get_visible():
            continue
        for k, p in enumerate(paths):
            w = float(lw[k % len(lw)]) if len(lw) else 1.0
            if w == 0 or len(p.vertices) == 0 or not len(col):
                continue
            out.append((p.vertices.astype("f4").tolist(), w, tuple(col[k % len(col)])))
    return out


def expect(ctx, m, ax, now, where, date_text, labels=True):
    got = shown(ax)
    want = {}
    for i in m.window(now):
        want.setdefault(repr(np.stack([m.x[i], m.y[i]], 1).astype("f4").tolist()), []).append(i)
    n_want = sum(len(v) for v in want.values())
    for v, w, col in got:
        k = repr(v)
        if k not in want or not want[k]:
            old = [i for i in range(len(m.t)) if repr(np.stack([m.x[i], m.y[i]], 1).astype("f4").tolist()) == k]
            what = f"contour of day {m.t[old[0]] - DAY0:.0f}" if old else "unknown contour"
            raise core.Violation("shown/stale" if old else "shown/unknown", f"{where}: {what} on day {now - DAY0:.0f} (window {m.opts['nb_step']}), width {w:.3f}")
        i = want[k].pop(0)
        ctx.check(w > 0, "shown/width", lambda: f"{where}: contour of day {m.t[i] - DAY0:.0f} has width {w} on day {now - DAY0:.0f}")
        cols = m.colours(i, now)
        ctx.check(cols is None or any(np.allclose(col, c, atol=2e-3) for c in cols), "shown/colour",
                  lambda: f"{where}: contour of day {m.t[i] - DAY0:.0f} has colour {np.round(col, 3).tolist()}, expected {np.round(cols[0], 3).tolist()}")
    missing = [i for v in want.values() for i in v]
    ctx.check(not missing, "shown/missing",
              lambda: f"{where}: {len(missing)} of {n_want} contours are not shown on day {now - DAY0:.0f}, first is of day {m.t[missing[0]] - DAY0:.0f}")
    texts = [t for t in ax.texts if t.get_visible() and t.get_text()]
    if date_text:
        day = (datetime.datetime(1950, 1, 1) + datetime.timedelta(int(now))).strftime("%Y/%m/%d")
        dates = [t for t in texts if t.get_text().split("-")[0] == day]
        ctx.check(len(dates) == 1, "shown/date", lambda: f"{where}: {[t.get_text() for t in texts]} while {day} is displayed")
        texts.remove(dates[0])
    if labels:
        have = sorted((round(float(t.get_position()[0]), 3), round(float(t.get_position()[1]), 3), t.get_text()) for t in texts)
        today = np.where(m.t == now)[0] if m.labels is not None else []
        need = sorted((round(float(m.lon[i]), 3), round(float(m.lat[i]), 3), m.labels[i]) for i in today)
        ctx.check(have == need, "shown/labels", lambda: f"{where}: labels {have[:4]}, expected {need[:4]} on day {now - DAY0:.0f}")


# ---- simulated window --------------------------------------------------------
class Screen:
    """What a user sees: whole drawings and the regions which were blitted."""

    def __init__(self):
        from matplotlib.backend_bases import FigureCanvasBase
        from matplotlib.backends.backend_agg import FigureCanvasAgg

        self.last, self.loop, self.undo = {}, None, []
        self.blitted = None
        screen = self
        draw = FigureCanvasAgg.draw

        def draw_(canvas, *a, **k):
            r = draw(canvas, *a, **k)
            screen.last[id(canvas)] = np.asarray(canvas.buffer_rgba()).copy()
            screen.blitted = None
            return r

        def blit(canvas, bbox=None):
            cur, new = screen.last.get(id(canvas)), np.asarray(canvas.buffer_rgba())
            if cur is None or cur.shape != new.shape:
                screen.last[id(canvas)] = new.copy()
            else:
                x0, y0, x1, y1 = box(bbox, new.shape)
                cur[y0:y1, x0:x1] = new[y0:y1, x0:x1]
            screen.blitted = canvas

        def start(canvas, timeout=0):
            if screen.loop is None:
                raise core.Violation("wait", "the event loop is entered out of a show")
            return screen.loop(canvas, timeout)

        self.patch(FigureCanvasAgg, "draw", draw_)
        self.patch(FigureCanvasBase, "blit", blit)
        self.patch(FigureCanvasBase, "start_event_loop", start)

    def patch(self, owner, name, fn):
        old = owner.__dict__.get(name)
        setattr(owner, name, fn)
        self.undo.append((owner, name, old))

    def close(self):
        from matplotlib import pyplot

        for owner, name, old in self.undo:
            if old is None:
                delattr(owner, name)
            else:
                setattr(owner, name, old)
        pyplot.close("all")


def box(bbox, shape):
    x0, y0, x1, y1 = (int(v) for v in bbox.extents)
    return max(x0, 0), max(shape[0] - y1, 0), min(x1, shape[1]), min(shape[0] - y0, shape[0])


def make(opts, eddies, figsize=(4, 3), **more):
    from matplotlib import pyplot
    from py_eddy_tracker.appli.gui import Anim

    kw = dict(intern=opts["intern"], sleep_event=opts["sleep"], graphic_information=opts["info"], nb_step=opts["nb_step"], cmap=opts["cmap"],
              field_color=opts["field"], field_txt=opts["txt"], range_color=opts["rg"])
    if opts["own_axes"]:
        fig = pyplot.figure(figsize=figsize, dpi=30)
        ax = fig.add_axes((0.05, 0.05, 0.9, 0.9))
        ax.set_xlim(eddies["lon"].min() - 2, eddies["lon"].max() + 2), ax.set_ylim(eddies["lat"].min() - 2, eddies["lat"].max() + 2)
        kw.update(figure=fig, position=ax)
    else:
        kw.update(figsize=figsize, dpi=30)
    return Anim(eddies, **kw, **more)


class Player:
    """Event loop of one show, and the model of the player's state."""

    def __init__(self, ctx, case, a, m, screen, eddies):
        self.ctx, self.case, self.a, self.m, self.screen, self.eddies = ctx, case, a, m, screen, eddies
        self.ax = a.fig.axes[0]
        self.waits = list(case["waits"])
        self.paused, self.sleep = False, case["opts"]["sleep"]
        self.n = 0
        self.seen = set()
        self.speed = False

    def show(self, infinite):
        self.now, self.drawn, self.infinite, self.over, self.rounds, self.calls = self.m.p0, self.drawn if hasattr(self, "drawn") else None, infinite, False, 0, 0
        self.starting = True
        self.screen.loop = self.wait
        self.stopped = False
        try:
            self.a.show(infinity_loop=infinite)
        except SystemExit:
            self.ctx.check(self.stopped, "show/exit", "the program stopped on its own")
            return
        finally:
            self.screen.loop = None
        self.ctx.check(not infinite and not self.stopped, "show/end", "the show ended although it should go on" if infinite else "escape was ignored")
        self.ctx.check(self.now > self.m.p1, "show/short", lambda: f"the show ended on day {self.now - DAY0:.0f} of {self.m.p1 - DAY0:.0f}")
        self.ctx.check(self.seen >= set(np.arange(self.m.p0 + 1, self.m.p1 + 1)) or self.moved, "show/skipped", "some dates were never displayed")

    moved = False

    def wait(self, canvas, timeout):
        ctx, m = self.ctx, self.m
        self.calls += 1
        ctx.check(self.calls < 400, "show/endless", "the show does not end")
        between = self.infinite and self.now > m.p1 and self.over
        if between:
            # pause between two rounds
            self.over = False
            ctx.check(0 < timeout <= 5, "wait/round", lambda: f"waits {timeout} s between two rounds")
        else:
            if not self.paused:
                self.now += 1
                self.drawn = self.now
            self.check_wait(timeout)
        if self.drawn == self.now and not self.paused:
            self.drawn_sleep = self.a.sleep_event
        self.look("wait")
        events = self.waits.pop(0) if self.waits else None
        if events is None:
            # the user has finished : nothing is paused any more
            events = [" "] if self.paused else []
            if self.infinite and self.rounds >= 2:
                events = ["escape"]
        elif self.case["escape"] and len(self.waits) == 0:
            events = events + ["escape"]
        for e in events:
            self.event(canvas, e)
        if between:
            self.rounds += 1
            self.now = m.p0
        elif self.now > m.p1:
            self.over = True

    def check_wait(self, timeout):
        """Wait after a frame or while paused."""
        from .. import faults

        # a delay which isn't positive would block the event loop until a key
        self.ctx.check(timeout > 0, "wait/blocked", lambda: f"waits {timeout} s, for ever")
        back = self.case["clock"][2] < 0 and self.case["clock"][1] >= 0
        self.ctx.check(timeout <= self.sleep * (1 + 1e-6) + 1e-9 or back, "wait/long", lambda: f"waits {timeout} s, {self.sleep} s asked")
        if self.paused and not back:
            self.ctx.check(timeout >= self.sleep * 0.999, "wait/paused", lambda: f"waits {timeout} s, {self.sleep} s asked")
        elif self.case["clock"][0] == 0 and self.case["clock"][1] < 0:
            self.ctx.check(timeout >= min(self.sleep * 0.999, self.sleep - 0.5), "wait/short", lambda: f"waits {timeout} s, {self.sleep} s asked")

    def look(self, where):
        self.n += 1
        if self.drawn is None:
            return
        if not self.m.p0 - 40 < self.drawn < self.m.p1 + 40:
            return
        expect(self.ctx, self.m, self.ax, self.drawn, where, not self.case["opts"]["own_axes"])
        self.seen.add(self.drawn)
        self.ctx.cover(self.case["how"], self.case["opts"]["nb_step"], self.case["opts"]["field"], len(self.m.window(self.drawn)))
        if self.n in self.case["pixels"] and self.screen.blitted is self.a.fig.canvas:
            self.pixels()

    def pixels(self):
        """The screen is the same as that of a new animation which displays only this date."""
        from matplotlib import pyplot

        canvas = self.a.fig.canvas
        have = self.screen.last[id(canvas)]
        loop, blitted = self.screen.loop, self.screen.blitted
        ref = make(dict(self.case["opts"]), self.eddies, tuple(self.a.fig.get_size_inches()))
        try:
            rax = ref.fig.axes[0]
            rax.set_xlim(*self.ax.get_xlim()), rax.set_ylim(*self.ax.get_ylim())
            ref.sleep_event = self.drawn_sleep
            ref.reset_bliting(None) if not self.case["opts"]["own_axes"] else None
            if self.case["opts"]["own_axes"]:
                ref.fig.canvas.draw()
                ref.bg_cache = ref.fig.canvas.copy_from_bbox(rax.bbox)
            ref.now = self.drawn
            ref.draw_contour()
            want = np.asarray(ref.fig.canvas.buffer_rgba())
            self.ctx.check(want.shape == have.shape, "pixels/size", lambda: f"{have.shape} {want.shape}")
            x0, y0, x1, y1 = box(rax.bbox, want.shape)
            d = np.any(have[y0:y1, x0:x1] != want[y0:y1, x0:x1], axis=-1)
            self.ctx.check(not d.any(), "pixels", lambda: f"{d.sum()} pixels differ from a new animation on day {self.drawn - DAY0:.0f}")
            self.ctx.probe("pixels compared")
        finally:
            pyplot.close(ref.fig)
            self.screen.blitted = blitted

    def event(self, canvas, e):
        from matplotlib.backend_bases import KeyEvent, ResizeEvent

        ctx = self.ctx
        ctx.log(e, self.paused, float(self.now))
        ctx.probe(f"event {e}")
        ctx.cover(e, self.paused, np.sign(self.now - self.m.p0), np.sign(self.now - self.m.p1), bool((self.m.t == self.now).any()))
        if e == "resize":
            ctx.fault("resize")
            ctx.nontrivial = True
            w, h = self.a.fig.get_size_inches()
            self.a.fig.set_size_inches(2.5 + (w * 7 + 1) % 3, 2 + (h * 5 + 0.5) % 2)
            self.send(canvas, "resize_event", ResizeEvent("resize_event", canvas))
            canvas.draw()  # windows are drawn again when they are idle
        else:
            self.stopped = e == "escape"
            if e == " ":
                self.paused = not self.paused
            elif e in ("left", "right") and self.paused:
                ctx.nontrivial = self.moved = True
                self.now += 1 if e == "right" else -1
                self.drawn = self.now
            elif e in "+-":
                self.sleep *= 0.9 if e == "+" else 1.1
            self.send(canvas, "key_press_event", KeyEvent("key_press_event", canvas, e))
            if e in ("left", "right") and self.paused:
                self.drawn_sleep = self.a.sleep_event
        self.look(f"after {e}")

    def send(self, canvas, name, event):
        try:
            canvas.callbacks.process(name, event)
        except (core.Violation, SystemExit):
            raise
        except Exception as x:
            raise core.Violation(f"raised/{name}/{type(x).__name__}", f"{getattr(event, 'key', '')}: {x}") from x


def run(case, ctx):
    eddies = dataset(case)
    opts = dict(case["opts"])
    day = [int(t) - DAY0 for t in eddies.time]
    ctx.simdays = max(day) - min(day) + 1
    ctx.nontrivial = len(set(day)) != ctx.simdays
    step, jump_at, jump = case["clock"]
    screen = Screen()
    faults.clock(1.7e9, step, jump_at, jump)
    if jump_at >= 0:
        ctx.fault("clock jump")
        ctx.nontrivial = True
    try:
        if case["how"] in ("program", "movie"):
            program(ctx, case, eddies, screen)
        elif case["how"] == "frames":
            frames(ctx, case, eddies, screen)
        else:
            before = eddies.obs.copy()
            a = ctx.sut("animation", make, opts, eddies)
            p = Player(ctx, case, a, Model(before, opts), screen, eddies)
            ctx.sut("show", p.show, case["how"] == "infinite")
            if case["again"] and not p.stopped:
                ctx.probe("second show")
                ctx.nontrivial = True
                if p.paused:
                    p.paused = a.pause = False
                p.waits = [w for w in case["waits"][:3]]
                ctx.sut("show again", p.show, False)
            ctx.check(np.array_equal(before, eddies.obs), "observations", "the animation changed the observations")
    finally:
        faults.clock(None)
        screen.close()


def frames(ctx, case, eddies, screen):
    """Frames in any order (movies of the library), one or two animations."""
    ctx.nontrivial = True
    animations = []
    for k in range(1 + case["two"]):
        o = dict(case["opts"], own_axes=False)
        if k:
            o.update(nb_step=3, field="time", intern=not o["intern"], rg=(None, None))
        animations.append((ctx.sut("animation", make, o, eddies), Model(eddies.obs, o), []))
    for n, f in enumerate(case["frames"]):
        a, m, drawn = animations[n % len(animations)]
        now = int(m.p0) + f
        artists = ctx.sut("frame", a.func_animation, now)
        drawn[:] = [now]
        ax = a.fig.axes[0]
        for b, mb, db in animations:
            if db:
                expect(ctx, mb, b.fig.axes[0], db[0], f"frame {n}", True)
        ctx.check(all(any(c is x for x in artists) for c in [*ax.collections, *ax.texts]), "frame/artists", "an artist which changed isn't returned")
        ctx.cover("frames", f < 0, f > case["nt"], m.opts["nb_step"], len(m.window(now)))
    ctx.log("frames", case["frames"])


def program(ctx, case, eddies, screen):
    from matplotlib import animation, pyplot
    from py_eddy_tracker.appli import gui

    path = os.path.join(ctx.dir(), "tracks.nc")
    eddies.write_file(filename=path)
    o = dict(case["opts"], own_axes=False, info=False)
    o["field"] = o["field"] or "time"
    o["txt"] = o["txt"] or "track"
    argv = ["EddyAnim", path, "--keep_step", str(o["nb_step"]), "--field", o["field"], "--txt_field", o["txt"], "--time_sleep", str(o["sleep"])]
    sel = np.ones(len(eddies), dtype=bool)
    if case["ids"]:
        ids = sorted({int(t) for t in eddies.tracks})[:2]
        argv[2:2] = [str(t) for t in ids]
        sel = np.isin(eddies.tracks, ids)
    else:
        argv.append("--all")
    if o["intern"]:
        argv.append("--intern")
    if o["cmap"]:
        argv += ["--cmap", o["cmap"]]
    for v, k in zip(o["rg"], ("--vmin", "--vmax")):
        if v is not None:
            argv += [k, str(v)]
    if case["centered"]:
        argv.append("--first_centered")
    movie = case["how"] == "movie"
    if movie:
        argv += ["--mp4", os.path.join(ctx.root, "film.mp4")]
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    ref = TrackEddiesObservations.load_file(path).obs[sel].copy()
    if case["centered"]:
        x0 = ref["lon"][0]
        c = "contour_lon_s" if o["intern"] else "contour_lon_e"
        lon = (ref["lon"] - x0 + 180) % 360 + x0 - 180
        ref["lon"] = lon
        ref[c] = ((ref[c].T - ref["lon"] + 180) % 360 + ref["lon"] - 180).T
    # the program doesn't give the animation to its caller
    made = []

    class Seen(gui.Anim):
        def __init__(self, *a, **k):
            k.update(figsize=(4, 3), dpi=30)
            super().__init__(*a, **k)
            made.append(self)

        def show(self, infinity_loop=False):
            m = Model(ref, o)
            c = dict(case, pixels=[], opts=o)
            self.show = lambda infinity_loop=False: gui_show(self, infinity_loop=infinity_loop)
            Player(ctx, c, self, m, screen, self.eddy).show(infinity_loop)

    gui_show = gui.Anim.show
    grabbed = []

    class Film(animation.AbstractMovieWriter):
        def __init__(self, *a, **k):
            k.pop("extra_args", None), k.pop("codec", None), k.pop("bitrate", None)
            super().__init__(fps=k.get("fps", 5), metadata=None)

        @classmethod
        def isAvailable(cls):
            return True

        def setup(self, fig, outfile, dpi=None):
            self.fig, self.outfile = fig, outfile

        def grab_frame(self, **k):
            now = int(made[0].now)
            expect(ctx, Model(ref, o), self.fig.axes[0], now, f"picture {len(grabbed)}", True)
            grabbed.append(now)

        def finish(self):
            pass

    old, writers = sys.argv, animation.writers
    anim, reg = gui.Anim, dict(writers._registered)
    sys.argv = argv
    gui.Anim = Seen
    writers._registered["ffmpeg"] = Film
    writers._registered["pillow"] = Film
    try:
        ctx.sut("program", gui.anim)
    finally:
        sys.argv, gui.Anim = old, anim
        writers._registered.clear()
        writers._registered.update(reg)
    if movie:
        t0, t1 = int(ref["time"].min()), int(ref["time"].max())
        ctx.check(grabbed == list(range(t0, t1 + 1)), "movie", lambda: f"pictures of days {[g - t0 for g in grabbed]} of {t1 - t0 + 1} dates")
    ctx.cover(case["how"], case["ids"], case["centered"], o["intern"], o["field"])


def shrink(case):
    for w in core.shrink_list(case["waits"]):
        yield dict(case, waits=w)
    for k, w in enumerate(case["waits"]):
        for v in core.shrink_list(w):
            yield dict(case, waits=case["waits"][:k] + [v] + case["waits"][k + 1:])
    for t in core.shrink_list(case["tracks"], 1):
        yield dict(case, tracks=t)
    for k, tr in enumerate(case["tracks"]):
        for t in core.shrink_list(tr["t"], 1):
            yield dict(case, tracks=case["tracks"][:k] + [dict(tr, t=t)] + case["tracks"][k + 1:])
    if case["how"] == "frames":
        for f in core.shrink_list(case["frames"], 1):
            yield dict(case, frames=f)
    for key, v in (("two", False), ("again", False), ("pixels", []), ("clock", [0, -1, 0]), ("centered", False), ("ids", False), ("x0", 0), ("escape", False)):
        if case[key] != v:
            yield dict(case, **{key: v})
    for key, v in (("own_axes", False), ("info", False), ("rg", (None, None)), ("txt", "track"), ("field", "time"), ("intern", False), ("cmap", None), ("sleep", 0.1),
                   ("nb_step", 1), ("nb_step", 2), ("nb_step", 25)):
        if case["opts"][key] != v and list(case["opts"][key] if isinstance(case["opts"][key], tuple) else [0]) != list(v if isinstance(v, tuple) else [1]):
            yield dict(case, opts=dict(case["opts"], **{key: v}))
