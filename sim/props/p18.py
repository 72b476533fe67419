"""The atlas browser shows what the atlases hold after any sequence of events."""
import datetime
import io
import os
import sys

import numpy as np

from .. import core, faults

RUNS = dict(quick=360, thorough=12000)
RULE = (
    "A case is one to six drawn atlases (sampling of contours, tracks of one observation, dates without observation, atlas without contours), the way the browser is "
    "started (library or program on files), an area, and a schedule of events: keys, wheel, pointer moves and drags on the map and on the time axes, "
    "changes of area, resizes, redraws of the window, pictures saved, hidden paths. The real browser receives these events from a simulated window; everything it shows is compared "
    "with a model after every event, and its pixels with a drawing from scratch. Non-trivial: a drag, a pointer on an eddy, a resize or a change of area."
)
MEASURE = "distinct (event, state in which it came: place of the date in the period, dragging, information shown, number of eddies shown)"
REAL = ["gui.GUI, GUIAxes", "appli.gui.guieddy (program)", "TrackEddiesObservations", "matplotlib figure, artists, hit tests and Agg renderer", "netCDF4/HDF5 (program)"]
STUB = ["event loop and window (events come from the schedule; the screen is a copy of what was drawn)", "clock"]
ASSUMPTIONS = [
    "Dates are whole days.", "The area is the one at the last change of date (events which only change the area don't ask for other eddies).",
    "Pixels are not judged while the line of time is dragged.", "Positions of the pointer less than 1.5 pixel from the limit of detection are not judged.",
    "Share of the life of a track with only one observation is not judged.",
]
DAY0 = 20000


def gen(rng, tier, i):
    nt = rng.choice((1, 2, 4, 6, 10, 30))
    how = rng.choice(("library", "library", "library", "program"))
    # area of the --med option
    x0, y0 = (2.0, 33.0) if how == "program" else (rng.choice((2.0, 2.0, -40.0, 190.0)), rng.choice((33.0, -20.0)))
    many = rng.random() < 0.12
    atlases = []
    for k in range(rng.choice((1, 1, 2, 2, 3, 6))):
        tracks = []
        for j in range(rng.choice((60, 80)) if many and k == 0 else rng.choice((1, 2, 3, 6))):
            a = rng.choice((0, rng.randrange(nt)))
            b = min(nt - 1, a + rng.choice((0, 1, 3, 10, 30, 30)))
            holes = rng.choice((0, 0, 0, 0.4))
            tracks.append(dict(t=[t for t in range(a, b + 1) if t in (a, b) or rng.random() >= holes], x=rng.uniform(0, 10), y=rng.uniform(0, 8),
                               dx=rng.uniform(-0.4, 0.4), dy=rng.uniform(-0.3, 0.3), r=rng.uniform(0.3, 1.2)))
        first = rng.choice((0, 1, 1, 5))
        for j, tr in enumerate(tracks):
            tr["id"] = first + j * rng.choice((1, 1, 3)) if j == 0 else tracks[j - 1]["id"] + rng.choice((1, 1, 3))
        if k and rng.random() < 0.5:
            # the same eddies in another version of the atlas
            tracks = [dict(t, x=t["x"] + rng.choice((0, 0.1)), r=t["r"] * rng.choice((1, 1.1))) for t in atlases[0]["tracks"]]
        atlases.append(dict(tracks=tracks, nb=rng.choice((50, 50, 20, 7)), contour=rng.random() > 0.12, t0=rng.choice((0, 0, 2)), n0=rng.choice((0, 0, 0, 1))))
    events = []
    for _ in range(rng.choice((3, 6, 10, 16, 24))):
        r = rng.random()
        if r < 0.25:
            events.append(["key", rng.choice(("up", "down", "pageup", "pagedown", "home", "end", "up", "down", "home", "x", None))])
        elif r < 0.33:
            events.append(["wheel", rng.choice(("up", "down")), rng.choice(("map", "map", "map", "time", "out"))])
        elif r < 0.62:
            # on an eddy shown (a point of its contour), next to it, or anywhere
            events.append(["point", rng.choice(("on", "on", "on", "near", "far", "time", "out", "param")), rng.randrange(1 << 16), rng.uniform(-14, 14)])
        elif r < 0.78:
            events.append(["press", rng.choice(("line", "line", "line", "away", "map"))])
            for _ in range(rng.choice((0, 1, 2, 3))):
                events.append(rng.choice((["drag", rng.random()], ["drag", rng.random()], ["point", rng.choice(("on", "out", "far")), rng.randrange(1 << 16), 2.0],
                                          ["key", rng.choice(("up", "end"))])))
            if rng.random() < 0.85:
                events.append(["release", rng.choice(("there", "there", "out", "map"))])
        elif r < 0.84:
            events.append(["area", rng.uniform(-1, 6), rng.uniform(6, 12), rng.uniform(-1, 4), rng.uniform(4, 10)])
        elif r < 0.90:
            events.append(["resize", rng.uniform(3, 6), rng.uniform(2.5, 5)])
        elif r < 0.93:
            events.append(["redraw"])
        elif r < 0.96:
            events.append(["save"])
        else:
            events.append(["paths", rng.random() < 0.5])
    return dict(nt=nt, how=how, atlases=atlases, events=events, x0=x0, y0=y0, nopath=rng.random() < 0.5, seed=rng.randrange(1 << 20), pixels=rng.random() < 0.6,
                area=rng.choice(("all", "all", "part")))


def warmup(tmp):
    import random

    for how in ("library", "program"):
        c = gen(random.Random(1), "quick", 0)
        c.update(how=how, x0=2.0, y0=33.0, events=[["key", "up"], ["point", "on", 1, 0.0], ["press", "line"], ["drag", 0.4], ["release", "there"]])
        try:
            run(c, core.Ctx(os.path.join(tmp, how)))
        except core.Violation:
            pass


def atlas(case, k):
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    d = case["atlases"][k]
    rows = [(tr, t, n) for tr in d["tracks"] for n, t in enumerate(tr["t"])]
    names = ["contour_lon_s", "contour_lat_s", "contour_lon_e", "contour_lat_e"] if d["contour"] else []
    o = TrackEddiesObservations(len(rows), track_array_variables=d["nb"] if d["contour"] else 0, array_variables=names)
    o.sign_type = 1
    rng = np.random.RandomState(case["seed"] + k)
    a = np.linspace(0, 2 * np.pi, d["nb"])
    for i, (tr, t, n) in enumerate(rows):
        x, y = case["x0"] + tr["x"] + tr["dx"] * t, case["y0"] + tr["y"] + tr["dy"] * t
        v = o.obs[i : i + 1]
        v["lon"], v["lat"], v["time"], v["track"], v["n"] = round(x, 3), round(y, 3), DAY0 + d["t0"] + t, tr["id"], n + d["n0"]
        v["amplitude"] = rng.randint(1, 60) / 256
        for f in ("radius_s", "radius_e"):
            v[f] = rng.randint(20, 160) * 512
        for c, f in (("s", 1), ("e", 1.25)) if d["contour"] else ():
            v["contour_lon_" + c] = x + f * tr["r"] * np.cos(a)
            v["contour_lat_" + c] = y + f * tr["r"] * np.sin(a)
    return o


# ---- simulated window --------------------------------------------------------
class Window:
    """What a user sees: whole drawings and the regions which were blitted."""

    def __init__(self):
        from matplotlib import pyplot
        from matplotlib.backend_bases import FigureCanvasBase
        from matplotlib.backends.backend_agg import FigureCanvasAgg

        self.seen, self.undo, self.loop = {}, [], None
        w = self
        draw = FigureCanvasAgg.draw

        def draw_(canvas, *a, **k):
            r = draw(canvas, *a, **k)
            w.seen[id(canvas)] = np.asarray(canvas.buffer_rgba()).copy()
            return r

        def blit(canvas, bbox=None):
            cur, new = w.seen.get(id(canvas)), np.asarray(canvas.buffer_rgba())
            if cur is None or cur.shape != new.shape:
                w.seen[id(canvas)] = new.copy()
            else:
                x0, y0, x1, y1 = box(bbox, new.shape)
                cur[y0:y1, x0:x1] = new[y0:y1, x0:x1]

        def show(*a, **k):
            if w.loop is not None:
                w.loop()

        self.patch(FigureCanvasAgg, "draw", draw_)
        self.patch(FigureCanvasBase, "blit", blit)
        self.patch(pyplot, "show", show)

    def patch(self, owner, name, fn):
        old = owner.__dict__.get(name)
        setattr(owner, name, fn)
        self.undo.append((owner, name, old))

    def close(self):
        from matplotlib import pyplot

        for owner, name, old in self.undo:
            if old is None:
                delattr(owner, name)
            else:
                setattr(owner, name, old)
        pyplot.close("all")


def box(bbox, shape):
    x0, y0, x1, y1 = (int(v) for v in bbox.extents)
    return max(x0, 0), max(shape[0] - y1, 0), min(x1, shape[1]), min(shape[0] - y0, shape[0])


def lines_of(x, y):
    """Lines separated by nan, as a sorted list"""
    x, y = np.atleast_1d(np.asarray(x, dtype="f8")), np.atleast_1d(np.asarray(y, dtype="f8"))
    out, cur = [], []
    for a, b in zip(x, y):
        if np.isnan(a) or np.isnan(b):
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append((round(float(a), 4), round(float(b), 4)))
    if cur:
        out.append(cur)
    return sorted(out)


class Browser:
    """Sends events to the real browser, and compares it with what it has to show."""

    def __init__(self, ctx, case, g, window, obs):
        self.ctx, self.case, self.g, self.window = ctx, case, g, window
        self.obs = obs
        self.fig = g.figure
        self.p0 = min(o["time"].min() for o in obs.values())
        self.p1 = max(o["time"].max() for o in obs.values())
        self.now, self.paths = float(self.p1), True
        self.drag, self.dragged = False, None
        self.info = None
        self.fresh = True
        self.selection()

    # model
    def selection(self):
        (x0, x1), (y0, y1) = self.g.map.get_xlim(), self.g.map.get_ylim()
        self.shown = {}
        for name, o in self.obs.items():
            self.shown[name] = np.where((o["lon"] > x0) & (o["lon"] < x1) & (o["lat"] > y0) & (o["lat"] < y1) & (o["time"] == self.now))[0]

    def changed(self, now):
        self.now = float(now)
        self.selection()
        self.info = None

    def text(self, name, i):
        """Information about one observation"""
        o = self.obs[name]
        v, tr = o[i], o[o["track"] == o["track"][i]]
        day = lambda t: datetime.datetime(1950, 1, 1) + datetime.timedelta(days=float(t))
        nb = len(tr) - 1
        out = [f"--{name}--", f"    {day(tr['time'][0])} -> {day(tr['time'][-1])}"]
        out.append(f"    Tracks : {v['track']}  {v['n']}/{nb} (" + (f"{v['n'] / nb * 100:.2f} %)" if nb else ""))
        for label, k, f, u in (("Amp.", "amplitude", 100, "cm"), ("S. radius", "radius_s", 1e-3, "km"), ("E. radius", "radius_e", 1e-3, "km")):
            a = tr[k] * f
            out.append(f"    {label} : {v[k] * f:.1f} {u} ({a.min():.1f} <-{a.mean():.1f}+-{a.std():.1f}-> {a.max():.1f})")
        return out

    # checks
    def look(self, where):
        ctx, g = self.ctx, self.g
        day = self.now - DAY0
        past = lambda name: self.where_path(name, lambda t: t <= self.now)
        future = lambda name: self.where_path(name, lambda t: t >= self.now)
        texts = []
        for name, o in self.obs.items():
            i, m = self.shown[name], g.m[name]
            for c in "se":
                if "contour_lon_" + c not in o.dtype.names:
                    want = []
                else:
                    want = lines_of(*(np.concatenate([np.append(o[f"contour_{k}_" + c][j], np.nan) for j in i]) if len(i) else [] for k in ("lon", "lat")))
                have = lines_of(*m["contour_" + c].get_data())
                ctx.check(have == want, "contours", lambda: f"{where}: {len(have)} contours ({c}) of {name} are shown on day {day:.0f}, {len(want)} expected")
                ctx.check(m["contour_" + c].get_visible(), "contours/hidden", "contours are hidden")
            for k, want in (("path_previous", past(name)), ("path_future", future(name))):
                have = lines_of(*m[k].get_data())
                ctx.check(have == want, k, lambda: f"{where}: {k} of {name} is {str(have)[:150]}, expected {str(want)[:150]} on day {day:.0f}")
                ctx.check(m[k].get_visible() == self.paths, "paths/hidden", lambda: f"{where}: {k} visible {m[k].get_visible()}, expected {self.paths}")
            texts += [(round(float(o["lon"][j]), 3), round(float(o["lat"][j]), 3), int(o["n"][j])) for j in i]
        if len(texts) > 50:
            low = sorted(t[2] for t in texts)[-50]
            texts = [t for t in texts if t[2] >= low]
            ctx.probe("more than fifty eddies")
        have = sorted((round(float(t.get_position()[0]), 3), round(float(t.get_position()[1]), 3), int(t.get_text())) for t in g.map.texts
                      if t is not g.m["annotate"] and t.get_visible() and t.get_text())
        ctx.check(have == sorted(texts), "numbers", lambda: f"{where}: numbers {have[:4]} are shown on day {day:.0f}, expected {sorted(texts)[:4]}")
        legend = [t.get_text() for t in g.map.get_legend().get_texts()]
        want = [f"{name} {len(i)} eddies" for name, i in self.shown.items()]
        ctx.check(legend == want, "legend", lambda: f"{where}: legend {legend}, expected {want}")
        want = [(datetime.datetime(1950, 1, 1) + datetime.timedelta(int(self.now))).strftime("%d/%m/%Y")] + [str(len(i)) for i in self.shown.values()]
        have = g.m["time_text"].get_text().split("\n")
        ctx.check(have == want, "date", lambda: f"{where}: {have} is shown, expected {want}")
        line = self.dragged if self.drag and self.dragged is not None else self.now
        have = np.unique(np.asarray(g.m["time_vline"].get_xdata(orig=False), dtype="f8"))
        ctx.check(len(have) == 1 and abs(have[0] - line) < 1e-6, "line", lambda: f"{where}: line of time at {have - DAY0}, expected {line - DAY0}")
        ctx.check(float(g.now) == self.now, "now", lambda: f"{where}: date is {g.now}, expected {self.now}")
        self.look_info(where)
        ctx.cover(where.split()[0], np.sign(self.now - self.p0), np.sign(self.now - self.p1), self.drag, self.info is not None, min(len(texts), 4))

    def where_path(self, name, keep):
        o = self.obs[name]
        out = []
        for tr in np.unique(o["track"][self.shown[name]]):
            sel = o[(o["track"] == tr) & keep(o["time"])]
            if len(sel):
                out.append(lines_of(sel["lon"], sel["lat"])[0])
        return sorted(out)

    def look_info(self, where):
        ctx, g = self.ctx, self.g
        a, ax = g.m["annotate"], g.m["mini_ax"]
        if self.info == "any":
            return
        on = self.info is not None
        ctx.check(a.get_visible() == on and ax.get_visible() == on, "information/" + ("missing" if on else "stale"),
                  lambda: f"{where}: information visible {a.get_visible()} {ax.get_visible()}, expected {on}: {a.get_text()[:80]!r}")
        if not on:
            return
        blocks, cur = {}, None
        for l in a.get_text().split("\n"):
            if l.strip().startswith("--") and l.strip()[2:-2] in self.obs:
                cur = l.strip()[2:-2]
                blocks[cur] = []
            ctx.check(cur is not None, "information/text", lambda: f"{where}: {a.get_text()!r}")
            blocks[cur].append(l.rstrip() if l.startswith(" ") else l.strip())
        sure = {k for k, (must, may) in self.info.items() if must}
        could = {k for k, (must, may) in self.info.items() if may}
        ctx.check(sure <= set(blocks) <= could, "information/atlas", lambda: f"{where}: information about {sorted(blocks)}, pointer is on {sorted(sure)}")
        for name in self.obs:
            x, y = g.m[name]["mini_line"].get_data()
            if name not in blocks:
                ctx.check(len(np.atleast_1d(x)) == 0, "information/curve", lambda: f"{where}: curve of {name} is shown, the pointer isn't on it")
                continue
            ok = False
            for i in self.info[name][1]:
                want, have = self.text(name, i), blocks[name]
                if len(want) == len(have) and all(h == w or not w.endswith(")") and h.startswith(w) for w, h in zip(want, have)):
                    o = self.obs[name]
                    tr = o[o["track"] == o["track"][i]]
                    ok = True
                    good = np.array_equal(np.asarray(x, "f8"), tr["time"].astype("f8")) and np.allclose(np.asarray(y, "f8"), tr["radius_s"] / 1e3, rtol=1e-6)
                    ctx.check(good, "information/curve", lambda: f"{where}: curve of {name} isn't the radius of track {o['track'][i]}")
                    break
            ctx.check(ok, "information/eddy", lambda: f"{where}: {blocks[name]} is not about an eddy under the pointer: {[self.text(name, i) for i in self.info[name][1]][:2]}")

    def pixels(self, where):
        """The window is the same as a drawing from scratch."""
        from matplotlib.backends.backend_agg import FigureCanvasAgg

        if self.drag or not self.case["pixels"]:
            return
        ctx, g, old = self.ctx, self.g, self.fig.canvas
        have = self.window.seen[id(old)]
        a, ax = g.m["annotate"], g.m["mini_ax"]
        states = [(z, z.get_visible()) for z in (a, ax)]
        with old.callbacks.blocked():
            try:
                new = FigureCanvasAgg(self.fig)
                for z, _ in states:
                    z.set_visible(False)
                new.draw()
                for z, v in states:
                    z.set_visible(v)
                    if v:
                        g.map.draw_artist(z) if z is a else z.draw(new.get_renderer())
                want = np.asarray(new.buffer_rgba()).copy()
            finally:
                for z, v in states:
                    z.set_visible(v)
                self.fig.set_canvas(old)
        self.window.seen.pop(id(new), None)
        ctx.check(want.shape == have.shape, "pixels/size", lambda: f"{where}: {have.shape} {want.shape}")
        x0, y0, x1, y1 = box(g.map.bbox, want.shape)
        d = np.any(have[y0:y1, x0:x1] != want[y0:y1, x0:x1], axis=-1)
        ctx.check(not d.any(), "pixels", lambda: f"{where}: {d.sum()} pixels of the map differ from a drawing from scratch on day {self.now - DAY0:.0f}, information {bool(self.info)}")
        ctx.probe("pixels compared")

    # events
    def send(self, name, **k):
        from matplotlib.backend_bases import KeyEvent, MouseEvent, ResizeEvent

        canvas = self.fig.canvas
        if name == "key_press_event":
            e = KeyEvent(name, canvas, k["key"])
        elif name == "resize_event":
            e = ResizeEvent(name, canvas)
        else:
            e = MouseEvent(name, canvas, k["x"], k["y"], button=k.get("button"), step=k.get("step", 0))
        self.at = k.get("x"), k.get("y")
        try:
            e._process()
        except (core.Violation, SystemExit):
            raise
        except Exception as x:
            import traceback

            raise core.Violation(f"raised/{name}/{type(x).__name__}", f"{k}: {x} {traceback.format_exc().splitlines()[-3:]}") from x
        return e

    def pixel(self, ax, x, y):
        return tuple(float(v) for v in ax.transData.transform((x, y)))

    def under(self, px, py):
        """By atlas, observations whose speed contour is under the pointer (surely, and possibly)"""
        r = 5 * self.fig.dpi / 72
        out = {}
        for name, o in self.obs.items():
            must, may = [], []
            if "contour_lon_s" in o.dtype.names:
                for i in self.shown[name]:
                    p = self.g.map.transData.transform(np.stack([o["contour_lon_s"][i], o["contour_lat_s"][i]], 1).astype("f8"))
                    a, b = p[:-1], p[1:]
                    ab, q = b - a, np.array([px, py]) - a
                    n = (ab**2).sum(axis=1)
                    u = np.clip((q * ab).sum(axis=1) / np.where(n > 0, n, 1), 0, 1)
                    d = np.sqrt(((q - u[:, None] * ab) ** 2).sum(axis=1)).min()
                    if d < r + 1.5:
                        may.append(i)
                        if d < r - 1.5:
                            must.append(i)
            out[name] = must, may
        return out

    def inside(self, px, py):
        for ax, k in ((self.g.map, "map"), (self.g.time_ax, "time"), (self.g.param_ax, "param")):
            if ax.bbox.contains(px, py):
                return k

    def event(self, e):
        ctx, g, fig = self.ctx, self.g, self.fig
        w, h = fig.bbox.width, fig.bbox.height
        kind = e[0]
        ctx.log(*[str(v) for v in e], self.now)
        ctx.probe(f"event {kind}")
        places = {"map": (g.map.bbox.x0 + 3, g.map.bbox.y0 + 3), "time": (g.time_ax.bbox.x0 + w * 0.31, (g.time_ax.bbox.y0 + g.time_ax.bbox.y1) / 2), "out": (-5.0, -5.0),
                  "param": (w / 2, g.param_ax.bbox.y0 + 2)}
        if kind == "key":
            step = dict(down=-1, up=1, pagedown=-5, pageup=5).get(e[1])
            if step is not None:
                self.changed(self.now + step)
            elif e[1] in ("home", "end"):
                self.changed(self.p0 if e[1] == "home" else self.p1)
            if step is not None or e[1] in ("home", "end"):
                self.dragged = self.now if self.drag else None
            self.send("key_press_event", key=e[1])
        elif kind == "wheel":
            x, y = places[e[2]]
            if e[2] == "map":
                self.changed(self.now + (1 if e[1] == "up" else -1))
                self.dragged = self.now if self.drag else None
            self.send("scroll_event", x=x, y=y, step=1 if e[1] == "up" else -1, button=e[1])
        elif kind == "point":
            self.point(e, places)
        elif kind == "press":
            if e[1] == "line":
                x, y = self.pixel(g.time_ax, self.dragged if self.drag and self.dragged is not None else self.now, g.time_ax.get_ylim()[0])
                y = places["time"][1]
            elif e[1] == "away":
                x, y = places["time"]
                if abs(self.pixel(g.time_ax, self.now, 0)[0] - x) < 12:
                    x += 40
            else:
                x, y = places["map"]
            ins = self.inside(x, y)
            if ins == "time":
                xl = self.pixel(g.time_ax, self.dragged if self.drag and self.dragged is not None else self.now, 0)[0]
                if abs(xl - x) < 3:
                    self.drag = True
                    ctx.nontrivial = True
            self.send("button_press_event", x=x, y=y, button=1)
        elif kind == "drag":
            x = g.time_ax.bbox.x0 + 1 + e[1] * (g.time_ax.bbox.width - 2)
            y = places["time"][1]
            ev = self.send("motion_notify_event", x=x, y=y)
            if self.drag:
                self.dragged = float(ev.xdata)
        elif kind == "release":
            x, y = {"there": places["time"], "out": places["out"], "map": places["map"]}[e[1]]
            if self.drag:
                self.drag = False
                at = self.dragged if self.dragged is not None else self.now
                self.dragged = None
                self.send("button_release_event", x=x, y=y, button=1)
                now = float(g.now)
                ctx.check(now == int(now) and abs(now - at) <= 1, "release", lambda: f"line of time dropped at {at - DAY0}, date is {now - DAY0}")
                self.changed(now)
            else:
                self.send("button_release_event", x=x, y=y, button=1)
        elif kind == "area":
            ctx.nontrivial = True
            g.bbox = (self.case["x0"] + e[1], self.case["x0"] + e[2], self.case["y0"] + e[3], self.case["y0"] + e[4])
            fig.canvas.draw()
            # pointer didn't move, information could be erased or not
            self.info = "any" if self.info else None
        elif kind == "resize":
            ctx.fault("resize")
            ctx.nontrivial = True
            fig.set_size_inches(e[1], e[2])
            self.send("resize_event")
            fig.canvas.draw()
            self.info = "any" if self.info else None
        elif kind == "redraw":
            fig.canvas.draw()
            self.info = "any" if self.info else None
        elif kind == "save":
            # a picture of the figure, the window isn't concerned
            fig.savefig(io.BytesIO(), format="svg")
            ctx.nontrivial = True
        elif kind == "paths":
            g.hide_path(e[1])
            self.paths = e[1]
            fig.canvas.draw()
            self.info = "any" if self.info else None
        self.look(f"{kind} {e[1:]}")
        if self.info != "any":
            self.pixels(f"{kind} {e[1:]}")

    def point(self, e, places):
        g, ctx = self.g, self.ctx
        if e[1] in places:
            x, y = places[e[1]]
        else:
            cands = [(n, i) for n, o in self.obs.items() if "contour_lon_s" in o.dtype.names for i in self.shown[n]]
            if e[1] == "far" or not cands:
                b = g.map.bbox
                x, y = b.x0 + 2 + (e[2] % 97) / 97 * (b.width - 4), b.y0 + 2 + (e[2] % 89) / 89 * (b.height - 4)
            else:
                n, i = cands[e[2] % len(cands)]
                o = self.obs[n]
                j = (e[2] // 7) % o["contour_lon_s"].shape[1]
                x, y = self.pixel(g.map, o["contour_lon_s"][i][j], o["contour_lat_s"][i][j])
                if e[1] == "near":
                    x += e[3]
        ins = self.inside(x, y)
        ev = self.send("motion_notify_event", x=x, y=y)
        if self.drag and ins == "time":
            self.dragged = float(ev.xdata)
        if ins == "map" and self.window_of(ev) is g.map:
            u = self.under(x, y)
            if any(must for must, _ in u.values()):
                self.info = u
                ctx.nontrivial = True
                ctx.probe("pointer on an eddy")
                if sum(bool(m) for m, _ in u.values()) > 1:
                    ctx.probe("pointer on eddies of several atlases")
            elif any(may for _, may in u.values()):
                self.info = "any"
            else:
                self.info = None
        elif self.info is not None:
            # the pointer is not on the map, the last information could stay
            self.info = "any"

    def window_of(self, ev):
        return ev.inaxes


def run(case, ctx):
    from matplotlib import pyplot

    pyplot.rcParams.update({"figure.dpi": 40, "figure.figsize": (5, 4), "xtick.labelbottom": False, "ytick.labelleft": False, "axes.titley": 1.0})
    data = {f"atlas{k}": atlas(case, k) for k in range(len(case["atlases"]))}
    obs = {k: o.obs.copy() for k, o in data.items()}
    ctx.simdays = case["nt"]
    window = Window()
    faults.clock(1.7e9, 0, -1, 0)
    try:
        if case["how"] == "program":
            program(ctx, case, data, window)
        else:
            g = launch(ctx, case, data)
            play(ctx, case, g, window, obs, True)
        for k, o in data.items():
            ctx.check(np.array_equal(obs[k], o.obs), "observations", f"the browser changed the observations of {k}")
    finally:
        faults.clock(None)
        window.close()


def launch(ctx, case, data):
    from py_eddy_tracker.gui import GUI

    g = ctx.sut("browser", GUI, **data)
    s = 14 if case["area"] == "all" else 5
    g.bbox = case["x0"] - 3, case["x0"] + s, case["y0"] - 3, case["y0"] + s - 2
    return g


def play(ctx, case, g, window, obs, show, paths=True):
    b = Browser(ctx, case, g, window, obs)
    b.paths = paths

    def loop():
        b.selection()
        b.look("start")
        b.pixels("start")
        for e in case["events"]:
            b.event(e)

    if show:
        window.loop = loop
        try:
            ctx.sut("show", g.show)
        finally:
            window.loop = None
    else:
        loop()


def program(ctx, case, data, window):
    from py_eddy_tracker.appli import gui
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    folder = ctx.dir()
    files = []
    for k, o in data.items():
        files.append(os.path.join(folder, k + ".nc"))
        o.write_file(filename=files[-1])
    obs = {f: TrackEddiesObservations.load_file(f).obs.copy() for f in files}
    made = []
    real = gui.GUI

    class Seen(real):
        __slots__ = ()

        def __init__(self, **k):
            super().__init__(**k)
            made.append(self)

    def loop():
        window.loop = None
        ctx.check(len(made) == 1, "program", "no browser")
        play(ctx, case, made[0], window, obs, False, not case["nopath"])

    old = sys.argv
    sys.argv = ["GUIEddy", *files, "--med"] + (["--nopath"] if case["nopath"] else [])
    gui.GUI = Seen
    window.loop = loop
    try:
        ctx.sut("program", gui.guieddy)
    finally:
        sys.argv, gui.GUI, window.loop = old, real, None


def shrink(case):
    for e in core.shrink_list(case["events"]):
        yield dict(case, events=e)
    for a in core.shrink_list(case["atlases"], 1):
        yield dict(case, atlases=a)
    for k, a in enumerate(case["atlases"]):
        for t in core.shrink_list(a["tracks"], 1):
            yield dict(case, atlases=case["atlases"][:k] + [dict(a, tracks=t)] + case["atlases"][k + 1:])
    for k, a in enumerate(case["atlases"]):
        for j, tr in enumerate(a["tracks"]):
            for t in core.shrink_list(tr["t"], 1):
                yield dict(case, atlases=case["atlases"][:k] + [dict(a, tracks=a["tracks"][:j] + [dict(tr, t=t)] + a["tracks"][j + 1:])] + case["atlases"][k + 1:])
        for key, v in (("nb", 50), ("contour", True), ("t0", 0), ("n0", 0)):
            if a[key] != v:
                yield dict(case, atlases=case["atlases"][:k] + [dict(a, **{key: v})] + case["atlases"][k + 1:])
    for key, v in (("pixels", False), ("area", "all"), ("how", "library"), ("nopath", False)):
        if case[key] != v and (key != "how" or (case["x0"], case["y0"]) == (2.0, 33.0)):
            yield dict(case, **{key: v})
