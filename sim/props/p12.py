"""Network links stay consistent through any sequence of operations."""
import os
import random

import numpy as np

from .. import core, faults
from .. import netlib as L
from .. import tracklib as T

RUNS = dict(quick=1000, thorough=40000)
RULE = (
    "A case is a network (made by the real grouping and segmentation from identification files, or drawn segment by segment) and a "
    "history of 1-12 operations on a pool of networks derived from it: extractions, sorts, numberings, cleanings, splittings, saves "
    "with failing system calls and reloads. Non-trivial: the network has a merging or a splitting and an operation changed it."
)
MEASURE = "distinct (operation history, link structure reached)"
REAL = ["NetworkObservations, Network, TrackEddiesObservations.split_network", "subset program, netCDF4/HDF5, zarr"]
STUB = ["identification step (synthetic detections); drawn networks replace the segmentation in a part of the cases"]

NEW = ("mask", "mask", "slice", "period", "longer", "network", "networks", "trash", "segments", "find_link", "find_link", "relatives", "relatives",
       "find_segments", "date", "area", "copy", "astype", "light", "file", "program", "sample")
PLACE = ("sort", "number_segment", "number_network", "dissociate", "dead_end", "dead_end", "close_events", "close_events", "swap",
         "normalize")


def gen(rng, tier, i):
    ops = []
    for _ in range(rng.choice((1, 2, 3, 5, 8, 12))):
        name = rng.choice(NEW if rng.random() < 0.5 else PLACE)
        ops.append(dict(op=name, src=rng.randrange(4), seed=rng.randrange(1 << 20)))
    return dict(net=L.gen_net(rng), ops=ops)


def warmup(tmp):
    from .. import world as W

    w = dict(kind="crowd", n_step=4, eddies=[dict(x=190, y=30, dx=0, dy=0, r=0.5, amp=0.1, pres="1101"),
             dict(x=190.3, y=30, dx=0, dy=0, r=0.5, amp=0.1, pres="0011")], order=0, sign=1, lon0=0, nb_sample=6, extra=0, day0=W.DAY0)
    drawn = dict(kind="drawn", day0=W.DAY0, step=1, sign=1, trash=2, lon0=0, order=5, virtual=True,
                 nets=[[dict(t=[0, 1, 2, 4], p=None, n=None), dict(t=[1, 2], p=[0, 0], n=[0, 3]), dict(t=[5], p=[0, 3], n=None)]])
    for net in (dict(kind="real", world=w, window=2, intern=False, overlap=0.2, build="api"), drawn):
        for name in sorted(set(NEW + PLACE)):
            try:
                run(dict(net=net, ops=[dict(op=name, src=0, seed=3)]), core.Ctx(tmp))
            except core.Violation:
                pass


class Item:
    def __init__(self, net, model, cut=(), sorted_=True):
        self.net, self.model, self.cut, self.sorted = net, model, set(cut), sorted_


def run(case, ctx):
    c = case["net"]
    net = ctx.sut("segmentation", L.build, c, ctx.dir("in"))
    if any(o["op"] in ("file", "program") for o in case["ops"]):
        # values on the grid of the packed types
        path = os.path.join(ctx.dir(), "packed.nc")
        net.write_file(filename=path)
        net = ctx.sut("file", type(net).load_file, path)
    base = net.copy()
    codes = T.code(base)
    ctx.check(len(set(codes)) == len(codes), "duplicated", "an observation appears twice after segmentation")
    index = {k: i for i, k in enumerate(codes)}
    state = Run(ctx, base, index)
    m = state.read(net)
    state.rules(m, ())
    if c["kind"] == "real":
        segmented(ctx, c, net, m)
    # costs of absent links are not part of the property: a fixed starting point
    if m.merges() or m.splits():
        ctx.nontrivial = True
        ctx.probe("network with events")
    pool = [Item(net, m)]
    history = []
    for op in case["ops"]:
        it = pool[op["src"] % len(pool)]
        if not it.model.order:
            continue
        done = state.apply(op, it, pool)
        if done is None:
            continue
        history.append(op["op"])
        ctx.probe(f"operation {op['op']}")
        ctx.log(op["op"], done)
        # every network of the pool, not only the one worked on
        for x in pool:
            got = state.read(x.net)
            d = L.differences(x.model, got)
            ctx.check(d is None, f"{op['op']}/{d and d[0]}", lambda: d[1])
            if x.sorted:
                state.rules(got, x.cut, op["op"])
        ctx.cover(tuple(history), structure(it.model))
    for x in pool:
        f = L.values_differ(base, index, x.net)
        ctx.check(f is None, "value", lambda: f"{f} of an observation changed")
        ctx.check(x.net.sign_type == base.sign_type, "sign", "rotation type changed")
    ctx.simdays += len(set(m.time.values()))


def structure(m):
    pos = {c: i for i, c in enumerate(m.order)}
    return tuple((m.track[c], m.seg[c], pos.get(m.next[c]), pos.get(m.prev[c])) for c in m.order)


def segmented(ctx, c, net, m):
    """Segmentation keeps every observation of the groups, none of the ungrouped ones gets a link."""
    n = sum(e["pres"].count("1") for e in c["world"]["eddies"])
    ctx.check(len(m.order) == n, "segmentation/observations", f"{len(m.order)} observations from {n}")
    for c_ in m.order:
        if m.track[c_] == 0:
            ctx.check(m.seg[c_] == 0, "segmentation/trash", "ungrouped observation with a segment")
        else:
            ctx.check(m.seg[c_] > 0, "segmentation/no-segment", "grouped observation without segment")


class Run:
    def __init__(self, ctx, base, index):
        self.ctx, self.base, self.index = ctx, base, index

    def read(self, net):
        try:
            return L.Model.of(net)
        except AssertionError as e:
            raise core.Violation("dangling-link", str(e))

    def rules(self, m, cut, after="segmentation"):
        d = L.invariant(m, cut)
        self.ctx.check(d is None, f"{after}/rule/{d and d[0]}", lambda: d[1])

    def derive(self, pool, it, net, keep, name):
        """A new network that must hold exactly `keep`, in order."""
        ctx = self.ctx
        want = it.model.take(keep)
        got = self.read(net)
        d = L.differences(want, got)
        ctx.check(d is None, f"{name}/{d and d[0]}", lambda: d[1])
        for f in ("next_cost", "previous_cost"):
            if f in net.fields:
                a = dict(zip(T.code(it.net), it.net[f].tolist()))
                ctx.check([a[c] for c in got.order] == net[f].tolist(), f"{name}/{f}", "a link cost changed")
        f = L.values_differ(self.base, self.index, net)
        ctx.check(f is None, f"{name}/value", lambda: f"{f} of an observation changed")
        cut = set(p for p in it.cut if p[0] in keep and p[1] in keep) | want.broken()
        pool.append(Item(net, want, cut, it.sorted))
        if len(pool) > 4:
            pool.pop(1)
        return len(want.order)

    def apply(self, op, it, pool):
        ctx, r, name = self.ctx, random.Random(op["seed"]), op["op"]
        net, m = it.net, it.model
        order = m.order
        n = len(order)
        times = [m.time[c] for c in order]
        t0, t1 = min(times), max(times)
        call = lambda fn, *a, **k: ctx.sut(name, fn, *a, **k)
        extract = lambda res, keep: self.derive(pool, it, res, keep, name)
        if name in ("mask", "light"):
            p = r.choice((0.1, 0.5, 0.8, 0.95))
            mask = np.array([r.random() < p for _ in order])
            keep = {c for c, k in zip(order, mask) if k}
            if name == "mask":
                return extract(call(net.extract_with_mask, mask), keep)
            return self.light(it, mask, keep, r)
        if name == "sample":
            step, first = r.choice((1, 2, 3)), t0 + r.randint(-2, 3)
            return extract(call(net.time_sub_sample, first, step), {c for c in order if (m.time[c] - first) % step == 0})
        if name == "slice":
            a = r.randrange(n)
            b = r.randint(a + 1, n)
            return extract(call(net.extract_with_mask, slice(a, b)), set(order[a:b]))
        if name == "period":
            p0 = r.choice((0, t0 + r.randint(-1, t1 - t0 + 1), -r.randint(1, 4)))
            p1 = r.choice((0, t0 + r.randint(-1, t1 - t0 + 2), -r.randint(1, 4)))
            lo = p0 if p0 > 0 else t0 - p0 if p0 < 0 else t0
            hi = p1 if p1 > 0 else t1 + p1 if p1 < 0 else t1
            return extract(call(net.extract_with_period, (p0, p1)), {c for c in order if lo <= m.time[c] <= hi})
        if name == "longer":
            lo, hi = r.choice((-1, 1, 3, 6, 10)), r.choice((-1, -1, 4, 8))
            if not it.sorted:
                return None
            keep = set()
            for _, obs in m.networks():
                d = max(m.time[c] for c in obs) - min(m.time[c] for c in obs) + 1
                if lo <= d and (hi < 0 or d <= hi):
                    keep |= set(obs)
            return extract(call(net.longer_than, lo, hi), keep)
        if name == "area":
            x0, y0 = float(net.lon.min()) - 1, 30 + r.choice((-1, 0.2, 0.5, 1))
            area = dict(llcrnrlon=x0, urcrnrlon=x0 + r.choice((4, 8, 359)), llcrnrlat=y0, urcrnrlat=y0 + 20)
            lon, lat = (net.lon - x0) % 360 + x0, net.lat
            mask = (lat > y0) & (lat < y0 + 20) & (lon > x0) & (lon < area["urcrnrlon"])
            return extract(call(net.extract_with_area, area), {c for c, k in zip(order, mask) if k})
        if name == "copy":
            return extract(call(net.copy), set(order))
        if name == "astype":
            return extract(call(net.astype, type(net)), set(order))
        if name == "file":
            return self.save(it, pool, r)
        if name == "sort" or not it.sorted:
            return self.sort(it, r)
        # ---- the rest needs the default order
        ids = sorted({m.track[c] for c in order})
        segs = m.segments()
        if name == "network":
            k = r.choice(ids)
            return extract(call(net.network, k), {c for c in order if m.track[c] == k})
        if name == "networks":
            k = sorted(set(r.choices(ids, k=2)))
            return extract(call(net.networks, k), {c for c in order if m.track[c] in k})
        if name == "trash":
            keep = {c for c in order if m.track[c] != 0}
            res = call(net.remove_trash)
            if res is net:
                ctx.check(keep == set(order), "trash/kept", "trash not removed")
                return len(order)
            return extract(res, keep)
        if name == "segments":
            k = sorted(set(r.choices(range(len(segs)), k=2)))
            return extract(call(net.extract_segment, k, absolute=True), {c for i in k for c in segs[i][1]})
        if name == "date":
            date, nb = r.choice(times), r.randint(-3, 3)
            keep = {c for _, obs in m.networks() for c in obs if {date, date + nb} <= {m.time[o] for o in obs}}
            return extract(call(net.keep_tracks_by_date, date, nb), keep)
        if name == "program":
            return self.program(it, pool, r)
        if name in ("find_link", "relatives", "find_segments"):
            # ungrouped observations are in no segment
            grouped = [i for i, c in enumerate(order) if m.track[c]]
            if not grouped:
                return None
            if name == "find_segments":
                i = r.choice(grouped)
                mine = {k for k, (lab, _) in enumerate(segs) if lab[0] == m.track[order[i]]}
                stopped = r.choice([j for j in grouped if m.track[order[j]] == m.track[order[i]]]) if r.random() < 0.5 else None
                o = r.randint(0, 3)
                start = {k for k in mine if order[i] in segs[k][1] or (stopped is not None and order[stopped] in segs[k][1])}
                keep = {c for k in near(m, start, o) for c in segs[k][1]}
                return extract(call(net.find_segments_relative, i, stopped=stopped, order=o), keep)
            k = sorted(set(r.choices(grouped, k=r.choice((1, 1, 3)))))
            arg = k if len(k) > 1 or r.random() < 0.5 else k[0]
            if name == "relatives":
                o = r.randint(0, 3)
                rank = m.ranks()
                keep = {c for s in near(m, {rank[order[i]] for i in k}, o) for c in segs[s][1]}
                return extract(call(net.relatives, arg, order=o), keep)
            fwd, back = r.choice(((True, False), (False, True), (True, True), (True, False)))
            keep = reach(m, [order[i] for i in k], fwd, back)
            return extract(call(net.find_link, arg, forward=fwd, backward=back), keep)
        # ---- in place; on a copy now and then, so that the pool keeps diverse networks
        if r.random() < 0.3:
            net = call(net.copy)
            it = Item(net, m.clone(), it.cut, it.sorted)
            pool.append(it)
            if len(pool) > 4:
                pool.pop(1)
            m = it.model
        if name == "number_segment":
            k = r.choice((0, 1, 5))
            call(net.numbering_segment, start=k)
            for _, group in group_by(segs, lambda s: s[0][0]):
                for j, (_, obs) in enumerate(group):
                    for c in obs:
                        m.seg[c] = k + j
            return k
        if name == "number_network":
            k = 0 if 0 in ids else r.choice((1, 1, 4))
            call(net.numbering_network, start=k)
            for j, (_, obs) in enumerate(m.networks()):
                for c in obs:
                    m.track[c] = k + j
            return k
        if name == "normalize":
            call(net.normalize_longitude)
            return 0
        if name == "dissociate":
            # an ungrouped observation would be taken for a network of its own
            label = components(m, segs)
            shift = 0 if segs[0][0][0] == 0 else 1
            res = call(net.dissociate_network)
            for k, (_, obs) in enumerate(segs):
                for c in obs:
                    m.track[c] = label[k] + shift if m.track[c] else 0
            before = list(m.order)
            m.sort()
            self.orders(res, before, m.order, name)
            return len(set(label))
        if name == "dead_end":
            nobs, ndays, rec = r.choice((0, 1, 2, 3, 5)), r.choice((0, 2, 4)), r.choice((0, 0, 1, 2))
            mask = None
            if r.random() < 0.4:
                mask = np.array([r.random() < 0.1 for _ in order])
            marked = {c for c, k in zip(order, mask) if k} if mask is not None else set()
            call(net.remove_dead_end, nobs=nobs, ndays=ndays, recursive=rec, mask=mask)
            for _ in range(rec + 1):
                dead_end(m, nobs, ndays, marked)
            if any(v is None for v in m.next.values()):
                for f, links in (("next_cost", m.next), ("previous_cost", m.prev)):
                    cost = dict(zip(T.code(net), net[f].tolist()))
                    bad = [c for c in m.order if m.track[c] == 0 and cost.get(c)]
                    ctx.check(not bad, "dead_end/cost", "a removed observation keeps a link cost")
            return nobs, ndays, rec
        if name == "close_events":
            days = r.choice((2, 4, 8, 20))
            before = m.clone()
            call(net.correct_close_events, days)
            return self.relabelled(it, before, name, m)
        if name == "swap":
            before = m.clone()
            call(net.swap_track, r.choice((0, 1, 2, 4)), r.choice((1, 2, 4)), r.choice((-0.2, -1, 0.1)))
            return self.relabelled(it, before, name, m)
        return None

    def relabelled(self, it, before, name, m):
        """Segments exchange their ends: same observations and networks, links still consistent."""
        got = self.read(it.net)
        ctx = self.ctx
        ctx.check(sorted(got.order) == sorted(before.order), f"{name}/observations", "observations lost or repeated")
        ctx.check(got.track == before.track, f"{name}/network", "an observation changed of network")
        ctx.check(got.time == before.time, f"{name}/time", "an observation changed of time")
        # which observations are in interaction does not change: only the side of the branch does
        a, b = edges(before), edges(got)
        ctx.check(a == b, f"{name}/interaction", lambda: f"links lost {sorted(a - b)[:2]} or gained {sorted(b - a)[:2]}")
        self.rules(got, it.cut, name)
        for k in ("order", "next", "prev", "track", "seg", "time"):
            setattr(m, k, getattr(got, k))
        return got.seg != before.seg

    def orders(self, res, before, after, name):
        """(order, translation) returned by the sort."""
        index, translate = res
        self.ctx.check([before[i] for i in index] == after, f"{name}/returned-order", "returned order is not the one applied")
        self.ctx.check([after[i] for i in translate[:-1]] == before and translate[-1] == -1, f"{name}/returned-translation",
                       "returned translation is not the one applied")

    def sort(self, it, r):
        key = ("track", "segment", "time")
        if it.sorted and r.random() < 0.7:
            key = r.choice((("time", "track", "segment"), ("segment", "time", "track"), ("track", "time", "segment")))
        before = list(it.model.order)
        res = self.ctx.sut("sort", it.net.sort, key) if key[0] != "track" or r.random() < 0.5 or key[1] != "segment" else self.ctx.sut("sort", it.net.sort)
        it.model.sort(key)
        it.sorted = key == ("track", "segment", "time")
        self.orders(res, before, it.model.order, "sort")
        return key

    def light(self, it, mask, keep, r):
        extra = ["next_obs", "previous_obs", "track", "segment"][: r.choice((0, 2, 4))]
        new = self.ctx.sut("light", it.net.extract_light_with_mask, mask, track_extra_variables=list(extra))
        want = it.model.take(keep)
        rows = np.where(mask)[0]
        self.ctx.check(len(new) == len(rows), "light/observations", f"{len(new)} instead of {len(rows)}")
        for f in ["time"] + list(it.net.array_variables) + [e for e in extra if e in ("track", "segment")]:
            self.ctx.check(np.array_equal(new[f], it.net[f][rows]), "light/value", f)
        if len(extra) >= 2:
            pos = {c: i for i, c in enumerate(want.order)}
            for f, links in (("next_obs", want.next), ("previous_obs", want.prev)):
                exp = [pos[links[c]] if links[c] is not None else -1 for c in want.order]
                self.ctx.check(new[f].tolist() == exp, f"light/{f}", "links of the extracted observations")
        return len(rows)

    def save(self, it, pool, r):
        """Written, with a system call that fails the first time, and read back."""
        ctx = self.ctx
        ext = r.choice(("nc", "nc", "zarr"))
        d = ctx.dir()
        path = os.path.join(d, f"net.{ext}")
        kw = dict(zarr_flag=True) if ext == "zarr" else {}
        fail = r.random() < 0.4
        if fail:
            faults.arm(d)
            faults.fail_mut(r.randint(1, 12), r.choice(("ENOSPC", "EIO")))
            try:
                it.net.write_file(filename=path, **kw)
            except Exception:
                ctx.fault("failing system call while a network is written")
            finally:
                faults.disarm()
        ctx.sut("file", it.net.write_file, filename=path, **kw)
        cls = type(it.net)
        if r.random() < 0.3:
            faults.arm(d)
            faults.fail_read(r.randint(1, 20))
            try:
                cls.load_file(path)
            except Exception:
                ctx.fault("read failure while a network is loaded")
            finally:
                faults.disarm()
        if r.random() < 0.3:
            n = len(it.model.order)
            a = r.randrange(n)
            whole = ctx.sut("file", cls.load_file, path)
            return self.derive(pool, it, ctx.sut("file", whole.extract_with_mask, slice(a, n)), set(it.model.order[a:]), "file")
        return self.derive(pool, it, ctx.sut("file", cls.load_file, path), set(it.model.order), "file")

    def program(self, it, pool, r):
        """The subset program on a saved network."""
        import sys

        from py_eddy_tracker.appli import network as app

        ctx, m = self.ctx, it.model.clone()
        d = ctx.dir()
        src, out = os.path.join(d, "in.nc"), os.path.join(d, "out.nc")
        ctx.sut("program", it.net.write_file, filename=src)
        argv = ["EddyNetworkSubSetter", src, out]
        if r.random() < 0.4:
            ids = sorted(set(r.choices(sorted({m.track[c] for c in m.order}), k=2)))
            argv += ["-i"] + [str(k) for k in ids]
            m = m.take({c for c in m.order if m.track[c] in ids})
        if r.random() < 0.4:
            lo, hi = r.choice((-1, 2, 4)), -1
            argv += ["-l", str(lo), str(hi)]
            keep = set()
            for _, obs in m.networks():
                span = max(m.time[c] for c in obs) - min(m.time[c] for c in obs) + 1
                if lo <= span:
                    keep |= set(obs)
            m = m.take(keep)
            if not m.order:
                return None
        if r.random() < 0.5:
            nobs, ndays = r.choice((0, 2, 3)), r.choice((0, 2, 4))
            argv += ["--remove_dead_end", str(nobs), str(ndays)]
            dead_end(m, nobs, ndays, set())
        if r.random() < 0.4:
            argv.append("--remove_trash")
            m = m.take({c for c in m.order if m.track[c] != 0})
            if not m.order:
                return None
        if r.random() < 0.3:
            t0 = min(m.time.values())
            p = t0 + r.randint(0, 4)
            if p <= 0:
                return None
            argv += ["-p", str(p), "0"]
            m = m.take({c for c in m.order if m.time[c] >= p})
        cut = m.broken()
        if not m.order:
            return None

        def go():
            old, sys.argv = sys.argv, argv
            try:
                app.subset_network()
            finally:
                sys.argv = old

        ctx.sut("program", go)
        net = ctx.sut("program", type(it.net).load_file, out)
        d = L.differences(m, self.read(net))
        ctx.check(d is None, f"program/{d and d[0]}", lambda: f"{' '.join(argv[3:])}: {d[1]}")
        pool.append(Item(net, m, cut))
        if len(pool) > 4:
            pool.pop(1)
        return argv[3:]


def group_by(items, key):
    out = []
    for x in items:
        if not out or out[-1][0] != key(x):
            out.append((key(x), []))
        out[-1][1].append(x)
    return out


def edges(m):
    """Unordered pairs of linked observations."""
    out = set()
    for links in (m.next, m.prev):
        for a, b in links.items():
            if b is not None:
                out.add((a, b) if a < b else (b, a))
    return out


def near(m, start, order):
    """Segments at most `order` interactions away."""
    adj = m.adjacency()
    seen, front = set(start), set(start)
    for _ in range(order):
        front = {k for s in front for k in adj.get(s, ())} - seen
        seen |= front
    return seen


def reach(m, start, fwd, back):
    nxt, prv = {}, {}
    for _, obs in m.segments():
        for a, b in zip(obs, obs[1:]):
            nxt.setdefault(a, set()).add(b)
            prv.setdefault(b, set()).add(a)
        p, n = m.prev[obs[0]], m.next[obs[-1]]
        if p is not None:
            nxt.setdefault(p, set()).add(obs[0])
            prv.setdefault(obs[0], set()).add(p)
        if n is not None:
            nxt.setdefault(obs[-1], set()).add(n)
            prv.setdefault(n, set()).add(obs[-1])
    keep = set(start)
    for go, on in ((nxt, fwd), (prv, back)):
        if not on:
            continue
        seen, todo = set(start), list(start)
        while todo:
            for o in go.get(todo.pop(), ()):
                if o not in seen:
                    seen.add(o)
                    todo.append(o)
        keep |= seen
    return keep


def components(m, segs):
    """For each segment, the rank of its connected set, in order of first appearance."""
    adj, label, k = m.adjacency(), {}, 0
    for s in range(len(segs)):
        if s in label:
            continue
        todo, label[s] = [s], k
        while todo:
            for o in adj.get(todo.pop(), ()):
                if o not in label:
                    label[o] = k
                    todo.append(o)
        k += 1
    return [label[s] for s in range(len(segs))]


def dead_end(m, nobs, ndays, marked):
    segs, adj = m.segments(), m.adjacency()
    gone = set()
    for k, (_, obs) in enumerate(segs):
        if m.time[obs[-1]] - m.time[obs[0]] + 1 >= ndays and len(obs) >= nobs:
            continue
        if len(adj.get(k, ())) >= 2 or marked & set(obs):
            continue
        gone |= set(obs)
    for c in m.order:
        if c in gone:
            m.track[c], m.seg[c], m.next[c], m.prev[c] = 0, 0, None, None
        else:
            for links in (m.next, m.prev):
                if links[c] in gone:
                    links[c] = None
    m.sort()


def shrink(case):
    for ops in core.shrink_list(case["ops"]):
        yield dict(case, ops=ops)
    for net in L.shrink_net(case["net"]):
        yield dict(case, net=net)
    for k, op in enumerate(case["ops"]):
        if op["src"]:
            yield dict(case, ops=case["ops"][:k] + [dict(op, src=0)] + case["ops"][k + 1:])
