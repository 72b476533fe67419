"""Synthetic eddy populations over time steps: the workload of the tracking properties.

A world is plain JSON: eddies with position, drift, size and a presence string (one character per
step: 1 detected, 0 missed).  Every observation carries a code (eddy number, step) so that each copy
found in any output is attributable to one detection.
"""
import os
from datetime import datetime, timedelta

import numpy as np

FIELDS_ARRAY = ["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s", "uavg_profile"]
EXTRA = ["height_max_speed_contour", "height_external_contour", "height_inner_contour", "lon_max", "lat_max"]
DAY0 = 20000


def presence(rng, n, style):
    """Presence history of one eddy."""
    if style == "full":
        return "1" * n
    if style == "span":
        a = rng.randrange(n)
        b = rng.randrange(a, n)
        return "0" * a + "1" * (b - a + 1) + "0" * (n - b - 1)
    if style == "dropout":
        p = rng.choice((0.1, 0.25, 0.5))
        return "".join("0" if rng.random() < p else "1" for _ in range(n))
    if style == "bursts":
        out = ""
        while len(out) < n:
            out += "1" * rng.randint(1, 4) + "0" * rng.randint(1, 5)
        k = rng.randrange(0, 4)
        return (out[k:] + "1" * k)[:n]
    raise ValueError(style)


def gen_world(rng, kind, n_step, max_eddies=7, allow_empty=False, dense=False):
    """kind: "sparse" (unambiguous) or "crowd" (eddies compete)."""
    ne = rng.randint(1, max_eddies)
    eddies = []
    styles = rng.sample(["full", "span", "dropout", "bursts"], rng.randint(1, 4))
    if kind == "sparse":
        cells = [(i, j) for i in range(6) for j in range(4)]
        rng.shuffle(cells)
        for k in range(ne):
            i, j = cells[k]
            eddies.append(
                dict(
                    x=round(187 + 5 * i + rng.uniform(-0.5, 0.5), 3), y=round(26 + 5 * j + rng.uniform(-0.5, 0.5), 3),
                    dx=round(rng.uniform(-0.04, 0.04), 3), dy=round(rng.uniform(-0.03, 0.03), 3),
                    r=round(rng.uniform(0.45, 0.6), 3), amp=round(rng.uniform(0.05, 0.3), 3),
                    pres=presence(rng, n_step, rng.choice(styles)),
                )
            )
        lon0 = rng.choice((0, 0, 0, 170, -190, -20))
    else:
        lon0 = rng.choice((0, 0, 170))
        for k in range(ne):
            eddies.append(
                dict(
                    x=round(196 + rng.uniform(-1.2, 1.2), 3), y=round(35 + rng.uniform(-1.2, 1.2), 3),
                    dx=round(rng.uniform(-0.25, 0.25), 3), dy=round(rng.uniform(-0.25, 0.25), 3),
                    r=round(rng.uniform(0.3, 0.8), 3), amp=round(rng.uniform(0.05, 0.3), 3),
                    pres=presence(rng, n_step, rng.choice(styles)),
                )
            )
    w = dict(kind=kind, n_step=n_step, eddies=eddies, order=rng.randrange(1 << 30), sign=rng.choice((1, -1)), lon0=lon0,
             nb_sample=rng.choice((6, 8, 12)), extra=rng.randint(0, len(EXTRA)), wrap=rng.random() < 0.3,
             day0=rng.choice((DAY0, DAY0, DAY0, DAY0, 0)))
    if not allow_empty:
        fill_empty(w)
    return w


def fill_empty(w):
    """Give every step at least one eddy."""
    for t in range(w["n_step"]):
        if not any(e["pres"][t] == "1" for e in w["eddies"]):
            e = w["eddies"][t % len(w["eddies"])]
            e["pres"] = e["pres"][:t] + "1" + e["pres"][t + 1:]


def present(w, t):
    return [k for k, e in enumerate(w["eddies"]) if e["pres"][t] == "1"]


def order_at(w, t):
    """Order of the observations inside the file of step t (a permutation decided by the world)."""
    import random

    p = present(w, t)
    random.Random(f"{w['order']}/{t}").shuffle(p)
    return p


def step_obs(w, t):
    from py_eddy_tracker.observations.observation import EddiesObservations

    ids = order_at(w, t)
    n = w["nb_sample"]
    o = EddiesObservations(
        size=len(ids), track_array_variables=n, array_variables=list(FIELDS_ARRAY), track_extra_variables=EXTRA[: w["extra"]]
    )
    o.sign_type = w["sign"]
    a = np.linspace(0, 2 * np.pi, n)
    for row, k in enumerate(ids):
        e = w["eddies"][k]
        # drift bounces so that long worlds stay inside their cell
        x, y = e["x"] + e["dx"] * _saw(t), e["y"] + e["dy"] * _saw(t)
        x = x + w["lon0"]
        if w.get("wrap"):
            x = x % 360
        v = o.obs[row]
        v["lon"], v["lat"], v["time"] = x, y, w.get("day0", DAY0) + t
        wob = 1 + 0.02 * ((k * 7 + t * 3) % 5)
        v["amplitude"] = e["amp"] * wob
        v["radius_s"], v["radius_e"] = e["r"] * 80000 * wob, e["r"] * 111000 * wob
        v["speed_average"] = 0.1 + 0.01 * k
        v["speed_area"], v["effective_area"] = 1e9 * e["r"] + t, 2e9 * e["r"] + t
        v["shape_error_e"], v["shape_error_s"] = 10 + (k % 20), 20 + (t % 20)
        v["num_point_e"], v["num_point_s"], v["nb_contour_selected"] = k + 1, t + 1, 3
        for f in EXTRA[: w["extra"]]:
            v[f] = {"lon_max": x + 0.01, "lat_max": y - 0.01}.get(f, 0.5 + k + 0.01 * t)
        for s, r in (("e", e["r"]), ("s", 0.8 * e["r"])):
            cx = x + r * np.cos(a)
            v["contour_lon_" + s] = cx
            v["contour_lat_" + s] = y + r * np.sin(a)
        v["uavg_profile"] = np.linspace(0.1, 0.2, n)
    return o


def _saw(t, p=12):
    t = t % (2 * p)
    return t if t <= p else 2 * p - t


def date_of(t, day0=DAY0):
    return (datetime(1950, 1, 1) + timedelta(days=day0 + t)).strftime("%Y%m%d")


def write_files(w, folder, ext="nc", steps=None, name="Eddy"):
    os.makedirs(folder, exist_ok=True)
    out = []
    for t in range(w["n_step"]) if steps is None else steps:
        f = os.path.join(folder, f"{name}_{date_of(t, w.get('day0', DAY0))}.{ext}")
        # small zarr chunks: the default (2.5M values) costs 10 ms per variable and read
        step_obs(w, t).write_file(filename=f, **(dict(chunck_size=1000) if ext == "zarr" else {}))
        out.append(f)
    return out


def shrink_world(w, min_steps=2, keep_full=True):
    import copy

    n = w["n_step"]
    for k in range(len(w["eddies"])):
        if len(w["eddies"]) > 1:
            c = copy.deepcopy(w)
            del c["eddies"][k]
            yield c
    for m in (n // 2, n - 1):
        if min_steps <= m < n:
            c = copy.deepcopy(w)
            c["n_step"] = m
            for e in c["eddies"]:
                e["pres"] = e["pres"][:m]
            yield c
    if n > min_steps:
        c = copy.deepcopy(w)
        c["n_step"] = n - 1
        for e in c["eddies"]:
            e["pres"] = e["pres"][1:]
        yield c
    for k, e in enumerate(w["eddies"]):
        for v in ("dx", "dy"):
            if e[v]:
                c = copy.deepcopy(w)
                c["eddies"][k][v] = 0
                yield c
    for k, v in (("lon0", 0), ("extra", 0), ("nb_sample", 6), ("order", 0), ("wrap", False)):
        if w[k] != v:
            yield dict(copy.deepcopy(w), **{k: v})


TRACKERS = {
    "default": ("py_eddy_tracker.observations.observation", "EddiesObservations"),
    "area": ("py_eddy_tracker.featured_tracking.area_tracker", "AreaTracker"),
    "chelton": ("py_eddy_tracker.featured_tracking.old_tracker_reference", "CheltonTracker"),
}


def tracker_class(name):
    import importlib

    m, c = TRACKERS[name]
    return getattr(importlib.import_module(m), c)


def tracks_model(w, nb_virtual, upto=None):
    """Reference model: tracks of an unambiguous world.

    An eddy seen at two consecutive steps is linked.  A linked eddy stays alive through at most
    `nb_virtual` undetected steps; a sighting after that, or of an unlinked eddy, starts afresh.
    Returns a list of tracks, each a list of (step, eddy, flag) with flag 1 for a filled step.
    """
    n = w["n_step"] if upto is None else upto
    tracks = []
    for k, e in enumerate(w["eddies"]):
        seen = [t for t in range(n) if e["pres"][t] == "1"]
        cur = []
        for t in seen:
            if cur:
                gap = t - cur[-1][0] - 1
                linked = len(cur) >= 2
                if gap == 0:
                    cur.append((t, k, 0))
                    continue
                if linked and gap <= nb_virtual:
                    cur += [(s, k, 1) for s in range(cur[-1][0] + 1, t)]
                    cur.append((t, k, 0))
                    continue
                if linked:
                    tracks.append(cur)
            cur = [(t, k, 0)]
        if len(cur) >= 2:
            tracks.append(cur)
    return tracks
