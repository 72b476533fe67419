"""Drives the real tracking chain and reads its outputs as plain rows."""
import glob
import io
import os
import sys

import numpy as np

from . import world as W


def loadable(path):
    return os.path.exists(path)


def run_track(files, out, s):
    """The tracking application, through its Python entry or its command line with a yaml file."""
    from py_eddy_tracker.appli import eddies as app

    os.makedirs(out, exist_ok=True)
    kw = {}
    if s["tracker"] != "default":
        kw["class_method"] = W.tracker_class(s["tracker"])
    if s["tracker"] == "area":
        kw["class_kw"] = dict(cmin=s.get("cmin", 0.2))
    if s.get("cli"):
        import yaml

        cfg = dict(PATHS=dict(FILES_PATTERN=files, SAVE_DIR=out, CORRESPONDANCES_OUT=os.path.join(out, "corr.nc")),
                   VIRTUAL_LENGTH_MAX=s["virtual"], TRACK_DURATION_MIN=s["nb_min"])
        if s["tracker"] != "default":
            m, c = W.TRACKERS[s["tracker"]]
            cfg["CLASS"] = dict(MODULE=m, CLASS=c, OPTIONS=kw.get("class_kw", {}))
        y = os.path.join(out, "conf.yaml")
        with open(y, "w") as h:
            yaml.safe_dump(cfg, h)
        argv = ["EddyTracking", y]
        if s.get("zarr"):
            argv.append("--zarr")
        if not s.get("raw", True):
            argv.append("--unraw")
        if s.get("memory"):
            argv.append("--memory")
        if s.get("blank", 0):
            argv += ["--blank_period", str(s["blank"])]
        old = sys.argv
        sys.argv = argv
        try:
            app.eddies_tracking()
        finally:
            sys.argv = old
    else:
        app.track(files, out, os.path.join(out, "corr.nc"), nb_obs_min=s["nb_min"], raw=s.get("raw", True),
                  zarr=s.get("zarr", False), blank_period=s.get("blank", 0), virtual=s["virtual"],
                  memory=s.get("memory", False), **kw)


def load_outputs(out, sign, zarr=False):
    from py_eddy_tracker.observations.observation import EddiesObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    name = "Anticyclonic" if sign == 1 else "Cyclonic"
    ext = "zarr" if zarr else "nc"
    return (
        TrackEddiesObservations.load_file(f"{out}/{name}.{ext}"),
        TrackEddiesObservations.load_file(f"{out}/{name}_track_too_short.{ext}"),
        EddiesObservations.load_file(f"{out}/{name}_untracked.{ext}"),
    )


def code(obs):
    """(step, eddy) of each observation, from the code the world wrote into it."""
    return list(zip((obs["num_point_s"].astype(int) - 1).tolist(), (obs["num_point_e"].astype(int) - 1).tolist()))


LON_FIELDS = ("lon", "lon_max", "contour_lon_e", "contour_lon_s")


def same_values(field, a, b):
    if field in LON_FIELDS:
        d = (np.asarray(a, "f8") - np.asarray(b, "f8") + 180) % 360 - 180
        return bool((np.abs(d) < 1e-3).all())
    return bool(np.array_equal(a, b, equal_nan=np.asarray(a).dtype.kind == "f"))


def input_table(files):
    """(step, eddy) -> (observations, row) for every detection in the identification files."""
    from py_eddy_tracker.observations.observation import EddiesObservations

    table = {}
    for f in files:
        o = EddiesObservations.load_file(f)
        for row, c in enumerate(code(o)):
            assert c not in table
            table[c] = (o, row)
    return table


def split_tracks(obs):
    """Rows of each track, in file order."""
    out, prev = [], None
    for row, t in enumerate(obs["track"].tolist()):
        if t != prev:
            out.append([])
            prev = t
        out[-1].append(row)
    return out


def settings(rng, n_step, trackers=("default", "area"), virtual=None):
    return dict(
        tracker=rng.choice(trackers), virtual=rng.choice((0, 0, 1, 2, 3, 4)) if virtual is None else virtual,
        nb_min=rng.randint(1, min(n_step, 8)), zarr=rng.random() < 0.1, raw=rng.random() < 0.7,
        memory=rng.random() < 0.25, cli=rng.random() < 0.5, cmin=rng.choice((0.05, 0.1, 0.2, 0.3)),
        blank=0,
    )


def shrink_settings(s):
    base = dict(tracker="default", virtual=0, zarr=False, raw=True, memory=False, cli=False, blank=0)
    for k, v in base.items():
        if s.get(k) != v:
            yield dict(s, **{k: v})
    if s["virtual"] > 1:
        yield dict(s, virtual=s["virtual"] - 1)
    if s["nb_min"] > 1:
        yield dict(s, nb_min=1)
        yield dict(s, nb_min=s["nb_min"] - 1)


# ---- tracking states (links between files) ---------------------------------
def correspondances(files, s, previous=None, memory=None):
    from py_eddy_tracker.tracking import Correspondances

    kw = dict(virtual=s["virtual"], memory=s.get("memory", False) if memory is None else memory)
    if s["tracker"] != "default":
        kw["class_method"] = W.tracker_class(s["tracker"])
    if s["tracker"] == "area":
        kw["class_kw"] = dict(cmin=s.get("cmin", 0.2))
    if previous is not None:
        kw["previous_correspondance"] = previous
    if s.get("bytes"):
        files = np.array(files).astype("S500")
    return Correspondances(datasets=files, **kw)


def names(datasets):
    return [os.path.basename(d.decode() if isinstance(d, bytes) else str(d)) for d in datasets]


def state_diff(a, b, label="", files=True):
    """First difference between two tracking states, None when there is none."""
    if files and names(a.datasets) != names(b.datasets):
        return f"file list {names(a.datasets)} / {names(b.datasets)}"
    if len(a) != len(b):
        return f"{len(a)} / {len(b)} link steps"
    for i, (x, y) in enumerate(zip(a, b)):
        if x.dtype.names != y.dtype.names:
            return f"step {i} fields {x.dtype.names} / {y.dtype.names}"
        if x.shape != y.shape:
            return f"step {i}: {x.shape[0]} / {y.shape[0]} links"
        for n in x.dtype.names:
            u, v = x[n], y[n]
            if n == "virtual_length" and "virtual" in x.dtype.names:
                m = x["virtual"].astype(bool)  # only defined where the previous is virtual
                u, v = u[m], v[m]
            if not np.array_equal(u, v, equal_nan=u.dtype.kind == "f"):
                return f"step {i} field {n}: {u.tolist()[:8]} / {v.tolist()[:8]}"
    if int(a.current_id) != int(b.current_id):
        return f"next track number {int(a.current_id)} / {int(b.current_id)}"
    if int(a.nb_virtual) != int(b.nb_virtual) or bool(a.virtual) != bool(b.virtual):
        return f"gap filling {a.nb_virtual} / {b.nb_virtual}"
    if a.class_method is not b.class_method:
        return f"tracker {a.class_method} / {b.class_method}"
    if dict(a.class_kw) != dict(b.class_kw):
        return f"tracker options {a.class_kw} / {b.class_kw}"
    return None


def finish(c, nb_min, raw=True):
    """Untracked, short and long outputs of a state (as the tracking application does)."""
    c.prepare_merging()
    untracked = c.get_unused_data(raw_data=raw)
    short = c._copy()
    short.shorter_than(size_max=nb_min)
    short = short.merge(raw_data=raw)
    if c.longer_than(size_min=nb_min) is False:
        long_ = short.empty_dataset()
    else:
        long_ = c.merge(raw_data=raw)
    if c.virtual:
        for t in (long_, short):
            t.normalize_longitude()
            t.filled_by_interpolation(t["virtual"] == 1)
    return long_, short, untracked


def obs_diff(a, b, skip=()):
    """First difference between two sets of observations, None when there is none."""
    if len(a) != len(b):
        return f"{len(a)} / {len(b)} observations"
    if sorted(a.fields) != sorted(b.fields):
        return f"fields {sorted(set(a.fields) ^ set(b.fields))}"
    if int(a.sign_type) != int(b.sign_type):
        return f"sign {a.sign_type} / {b.sign_type}"
    for f in sorted(a.fields):
        if f in skip:
            continue
        x, y = a.obs[f], b.obs[f]
        if x.dtype != y.dtype or x.shape != y.shape:
            return f"field {f}: {x.dtype}{x.shape} / {y.dtype}{y.shape}"
        if not np.array_equal(x, y, equal_nan=x.dtype.kind == "f"):
            k = np.where(np.any((x != y).reshape(len(x), -1), axis=1))[0]
            return f"field {f} row {k[:1].tolist()}: {x[k[:1]].tolist()} / {y[k[:1]].tolist()}"[:200]
    return None


def outputs_diff(a, b):
    for n, x, y in zip(("long", "short", "untracked"), a, b):
        d = obs_diff(x, y)
        if d:
            return f"{n}: {d}"
    return None
