"""Networks under test: made by the real chain from identification files, or drawn link by link."""
import copy
import os

import numpy as np

from . import tracklib as T
from . import world as W

LINKS = ("next_obs", "previous_obs", "next_cost", "previous_cost", "track", "segment")


# ---- drawing ------------------------------------------------------------------
def gen_net(rng, big=1):
    """A case of network: {"kind": "real", world, window, ...} or {"kind": "drawn", nets: [...]}."""
    if rng.random() < 0.4:
        n = rng.randint(3, 12)
        w = W.gen_world(rng, "crowd", n, max_eddies=rng.choice((5, 9, 12)))
        if rng.random() < 0.6:
            o = W.gen_world(rng, "crowd", n, max_eddies=rng.choice((2, 5)))
            for e in o["eddies"]:
                e["x"] = round(e["x"] + 9, 3)
            w["eddies"] += o["eddies"]
        return dict(kind="real", world=w, window=rng.choice((1, 2, 3, 5)), intern=rng.random() < 0.3,
                    overlap=rng.choice((0.05, 0.2, 0.3)), build=rng.choice(("api", "api", "program")))
    return dict(kind="drawn", day0=rng.choice((W.DAY0, W.DAY0, 0, 3)), step=rng.choice((1, 1, 1, 2, 5)), sign=rng.choice((1, -1)),
                trash=rng.randint(1, 6) if rng.random() < 0.4 else 0, lon0=rng.choice((0, 170, -120, 350)), order=rng.randrange(1 << 30),
                virtual=rng.random() < 0.3,
                nets=[gen_segments(rng) for _ in range(rng.randint(1, 3 * big))])


def gen_segments(rng):
    """Segments of one network: times of the observations, previous and next link (segment, rank) or None."""
    segs = []
    for _ in range(rng.choice((1, 2, 2, 3, 4, 5, 7))):
        s, n = rng.randint(0, 12), rng.choice((1, 1, 2, 3, 4, 6, 9))
        times, t = [], s
        for _ in range(n):
            times.append(t)
            t += 1 if rng.random() < 0.8 else rng.randint(2, 4)
        segs.append(dict(t=times, p=None, n=None))
    for k, g in enumerate(segs):
        for side in ("p", "n"):
            if rng.random() < 0.6:
                ok = [(j, r) for j, o in enumerate(segs) if j != k for r, t in enumerate(o["t"])
                      if (t < g["t"][0] and t > g["t"][0] - 5 if side == "p" else g["t"][-1] < t < g["t"][-1] + 5)]
                if ok:
                    g[side] = list(rng.choice(ok))
    # an observation reached by the end of a segment does not come from the middle of it (the closest overlap in time is linked)
    for k, g in enumerate(segs):
        if g["p"] and segs[g["p"][0]]["n"] == [k, 0]:
            g["p"] = None
    return segs


def prune(segs, k):
    """The same network without its segment k."""
    out = []
    for j, g in enumerate(segs):
        if j == k:
            continue
        g = copy.deepcopy(g)
        for side in ("p", "n"):
            if g[side] and g[side][0] == k:
                g[side] = None
            elif g[side] and g[side][0] > k:
                g[side][0] -= 1
        out.append(g)
    return out


def shrink_net(c):
    if c["kind"] == "real":
        for w in W.shrink_world(c["world"]):
            yield dict(c, world=w)
        for k, v in (("window", 1), ("intern", False), ("overlap", 0.2), ("build", "api")):
            if c[k] != v:
                yield dict(c, **{k: v})
        return
    for k in range(len(c["nets"])):
        if len(c["nets"]) > 1:
            yield dict(c, nets=c["nets"][:k] + c["nets"][k + 1:])
    for k, v in (("trash", 0), ("trash", 1), ("lon0", 0), ("day0", W.DAY0), ("step", 1), ("virtual", False)):
        if c[k] != v and not (k == "trash" and c[k] < v):
            yield dict(c, **{k: v})
    for k, segs in enumerate(c["nets"]):
        for j in range(len(segs)):
            if len(segs) > 1:
                yield dict(c, nets=c["nets"][:k] + [prune(segs, j)] + c["nets"][k + 1:])
        for j, g in enumerate(segs):
            for side in ("p", "n"):
                if g[side]:
                    s = copy.deepcopy(segs)
                    s[j][side] = None
                    yield dict(c, nets=c["nets"][:k] + [s] + c["nets"][k + 1:])
            if len(g["t"]) > 1 and not any(o[s] and o[s][0] == j and o[s][1] == len(g["t"]) - 1 for o in segs for s in ("p", "n")):
                s = copy.deepcopy(segs)
                s[j]["t"].pop()
                yield dict(c, nets=c["nets"][:k] + [s] + c["nets"][k + 1:])


# ---- building -----------------------------------------------------------------
def build(c, folder):
    """The NetworkObservations of a case."""
    return real(c, folder) if c["kind"] == "real" else drawn(c)


def real(c, folder):
    from py_eddy_tracker.observations.network import Network, NetworkObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    W.write_files(c["world"], folder)
    pattern = os.path.join(folder, "Eddy_*.nc")
    if c["build"] == "program":
        import sys

        from py_eddy_tracker.appli import network as app

        g, n = os.path.join(folder, "group.nc"), os.path.join(folder, "network.nc")
        for argv, fn in (
            (["EddyNetworkGroup", pattern, g, "-w", str(c["window"]), "-p", str(c["overlap"])] + ["--intern"] * c["intern"], app.build_network),
            (["EddyNetworkBuildPath", g, n, "-w", str(c["window"]), "-p", str(c["overlap"])] + ["--intern"] * c["intern"], app.divide_network),
        ):
            old, sys.argv = sys.argv, argv
            try:
                fn()
            finally:
                sys.argv = old
        return NetworkObservations.load_file(n)
    net = Network(pattern, window=c["window"], intern=c["intern"])
    data = net.build_dataset(net.group_observations(min_overlap=c["overlap"]), raw_data=False)
    assert isinstance(data, TrackEddiesObservations)
    ids = data.split_network(intern=c["intern"], window=c["window"], min_overlap=c["overlap"])
    return NetworkObservations.from_split_network(data, ids)


def drawn(c):
    from py_eddy_tracker.observations.network import NetworkObservations

    rows = []  # (track, segment, time, code eddy, code step, previous, next), links given by (track, segment, rank)
    if c["trash"]:
        for k in range(c["trash"]):
            rows.append(dict(track=0, segment=0, t=(k * 7) % 15, key=(0, 0, k), p=None, n=None))
        rows.sort(key=lambda r: r["t"])
    for g, segs in enumerate(c["nets"]):
        for j, s in enumerate(segs):
            last = len(s["t"]) - 1
            for r, t in enumerate(s["t"]):
                p = (g + 1, j, r - 1) if r else (s["p"] and (g + 1, s["p"][0], s["p"][1]))
                n = (g + 1, j, r + 1) if r < last else (s["n"] and (g + 1, s["n"][0], s["n"][1]))
                rows.append(dict(track=g + 1, segment=j + 1, t=t, key=(g + 1, j, r), p=p, n=n))
    where = {r["key"]: i for i, r in enumerate(rows)}
    nb = 6
    net = NetworkObservations(
        len(rows), track_array_variables=nb, array_variables=["contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s"],
        track_extra_variables=["virtual"] if c["virtual"] else [],
    )
    net.sign_type = c["sign"]
    a = np.linspace(0, 2 * np.pi, nb)
    rnd = np.random.RandomState(c["order"] % (1 << 31))
    for i, r in enumerate(rows):
        v = net.obs[i]
        x, y = c["lon0"] + 3 * r["track"] + 0.2 * r["t"] + 0.3 * r["segment"], 30 + 0.4 * r["segment"]
        v["lon"], v["lat"], v["time"] = x, y, c["day0"] + r["t"] * c["step"]
        v["amplitude"], v["radius_e"], v["radius_s"] = 0.1 + 0.001 * i, 50000 + i * 100, 40000 + i * 100
        v["speed_average"] = 0.1 + 0.001 * (i % 100)
        v["track"], v["segment"] = r["track"], r["segment"]
        v["num_point_e"], v["num_point_s"] = 1 + i % 200, 1 + i // 200
        for side, link, cost in (("p", "previous_obs", "previous_cost"), ("n", "next_obs", "next_cost")):
            v[link] = where[tuple(r[side])] if r[side] else -1
            v[cost] = 0.3 + 0.6 * rnd.rand() if r[side] else 0
        for s, rad in (("e", 0.4), ("s", 0.3)):
            v["contour_lon_" + s], v["contour_lat_" + s] = x + rad * np.cos(a), y + rad * np.sin(a)
        if c["virtual"]:
            v["virtual"] = i % 5 == 3
    return net


# ---- model ----------------------------------------------------------------------
class Model:
    """What a network is: observations in order, their links, network and segment."""

    def __init__(self):
        self.order, self.next, self.prev, self.track, self.seg, self.time = [], {}, {}, {}, {}, {}

    @classmethod
    def of(cls, net):
        """Read the arrays; raises AssertionError when a link leads out of the dataset."""
        m = cls()
        m.order = T.code(net)
        n = len(m.order)
        nx, pv = net.next_obs.tolist(), net.previous_obs.tolist()
        for i, c in enumerate(m.order):
            for links, v in ((m.next, nx[i]), (m.prev, pv[i])):
                if not -1 <= v < n:
                    raise AssertionError(f"observation {i} of {n} has a link to {v}")
                links[c] = m.order[v] if v != -1 else None
            m.track[c], m.seg[c], m.time[c] = int(net.track[i]), int(net.segment[i]), int(net.time[i])
        return m

    def take(self, keep):
        m = Model()
        keep = set(keep)
        m.order = [c for c in self.order if c in keep]
        for c in m.order:
            m.next[c] = self.next[c] if self.next[c] in keep else None
            m.prev[c] = self.prev[c] if self.prev[c] in keep else None
            m.track[c], m.seg[c], m.time[c] = self.track[c], self.seg[c], self.time[c]
        return m

    def clone(self):
        return copy.deepcopy(self)

    def sort(self, key=("track", "segment", "time")):
        tab = dict(track=self.track, segment=self.seg, time=self.time)
        self.order.sort(key=lambda c: tuple(tab[k][c] for k in key))
        return self

    def segments(self):
        """[(label, observations)] in order; a segment is a run of one label."""
        out = []
        for c in self.order:
            k = (self.track[c], self.seg[c])
            if not out or out[-1][0] != k:
                out.append((k, []))
            out[-1][1].append(c)
        return out

    def networks(self):
        out = []
        for c in self.order:
            if not out or out[-1][0] != self.track[c]:
                out.append((self.track[c], []))
            out[-1][1].append(c)
        return out

    def ranks(self):
        """rank of the segment of each observation."""
        return {c: k for k, (_, obs) in enumerate(self.segments()) for c in obs}

    def adjacency(self):
        """Segments in interaction: from the previous of a first and the next of a last observation."""
        rank = self.ranks()
        adj = {}
        for k, (_, obs) in enumerate(self.segments()):
            for o in (self.prev[obs[0]], self.next[obs[-1]]):
                if o is not None:
                    adj.setdefault(k, set()).add(rank[o])
                    adj.setdefault(rank[o], set()).add(k)
        return adj

    def merges(self):
        """(after, before, end) of each segment that ends in another observation."""
        return [(self.next[o[-1]], self.prev[self.next[o[-1]]], o[-1]) for _, o in self.segments() if self.next[o[-1]] is not None]

    def splits(self):
        return [(self.prev[o[0]], self.next[self.prev[o[0]]], o[0]) for _, o in self.segments() if self.prev[o[0]] is not None]

    def broken(self):
        """Pairs that follow each other in a segment without being chained (cut by an extraction)."""
        out = set()
        for _, obs in self.clone().sort().segments():
            for a, b in zip(obs, obs[1:]):
                if self.next[a] != b or self.prev[b] != a:
                    out.add((a, b))
        return out


def differences(want, got):
    """First difference between two models, or None."""
    if want.order != got.order:
        if sorted(want.order) != sorted(got.order):
            return "observations", f"{len(got.order)} observations instead of {len(want.order)}"
        return "order", "observations in another order"
    for name, a, b in (("next", want.next, got.next), ("previous", want.prev, got.prev), ("network", want.track, got.track),
                       ("segment", want.seg, got.seg), ("time", want.time, got.time)):
        for c in want.order:
            if a[c] != b[c]:
                return name, f"observation {c}: {name} is {b[c]} instead of {a[c]}"
    return None


def invariant(m, cut=()):
    """First broken rule of a network, or None. `cut`: pairs separated by an earlier extraction."""
    for links, sign, name in ((m.next, 1, "next"), (m.prev, -1, "previous")):
        for c in m.order:
            o = links[c]
            if o is None:
                continue
            if m.track[o] != m.track[c]:
                return "other-network", f"{name} of {c} is in network {m.track[o]} instead of {m.track[c]}"
            if (m.time[o] - m.time[c]) * sign <= 0:
                return "time", f"{name} of {c} at {m.time[c]} is at {m.time[o]}"
    seen = set()
    for k, obs in m.segments():
        if k in seen:
            return "segment-twice", f"segment {k} in two places"
        seen.add(k)
        if k[0] == 0:
            bad = [c for c in obs if m.next[c] is not None or m.prev[c] is not None]
            if bad:
                return "trash-linked", f"ungrouped observation {bad[0]} has links"
            continue
        for a, b in zip(obs, obs[1:]):
            if m.time[b] <= m.time[a]:
                return "segment-time", f"{a} and {b} of segment {k} at {m.time[a]} and {m.time[b]}"
            if (m.next[a] != b or m.prev[b] != a) and (a, b) not in cut:
                return "chain", f"{a} and {b} follow each other in segment {k}, next {m.next[a]} previous {m.prev[b]}"
    return None


def values_differ(base, index, net, fields=None, skip=LINKS):
    """First field whose values are not those of the same observations in `base`."""
    rows = np.array([index[c] for c in T.code(net)], "i8")
    for f in fields or base.fields:
        if f in skip:
            continue
        if f not in net.fields:
            return f
        if not T.same_values(f, net[f], base[f][rows]):
            return f
    return None
