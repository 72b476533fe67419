"""Observations read back identical through every source, slice and I/O behaviour."""
import io
import os
import random
import shutil
import tarfile

import numpy as np

from .. import core, faults

RUNS = dict(quick=900, thorough=20000)
RULE = (
    "A case is a dataset (drawn in storage units: fields, number of observations down to zero, sign, packed or not), a chain of one to "
    "three write/read hops over netCDF and zarr with drawn chunk and buffer sizes, and a list of reads of one of the stored forms: source "
    "kind, slice, choice of variables, packed or not, arguments reused, each under no fault, a failing read or open (once or lasting), short or "
    "interrupted reads, a file cut short, or a file not there yet. Non-trivial: at least one observation or one fault."
)
MEASURE = "distinct (carrier, source kind, slice shape, variable choice, packed?, fault, outcome)"
REAL = ["write_file / to_netcdf / to_zarr", "load_file / load_from_netcdf / load_from_zarr", "tarfile, netCDF4, HDF5, zarr, Blosc"]
STUB = ["values of the observations (drawn)"]
ASSUMPTIONS = [
    "values lie inside the range of the storage type, its reserved fill value excluded",
    "a zarr chunk is never cut short (the Blosc library does not check its input)",
]
SOURCES = dict(nc=("path", "path", "npbytes", "bytes", "bytesio", "buffered", "tar"), zarr=("path", "path", "npbytes", "bytes", "group", "store"))
EXTRA = ("track", "n", "virtual", "cost_association", "lon_max", "lat_max", "segment", "previous_obs", "next_obs", "index_other", "score",
         "distance_next", "dlon", "i", "month", "eke")
ARRAYS = ("contour_lon_e", "contour_lat_e", "contour_lon_s", "contour_lat_s", "uavg_profile")


def gen(rng, tier, i):
    n = rng.choice((0, 1, 2, 5, 9, 17, 33, 64))
    ns = rng.choice((0, 5, 8, 20))
    d = dict(n=n, ns=ns, arrays=sorted(rng.sample(ARRAYS, rng.randint(1, 5))) if ns else [],
             extra=sorted(rng.sample(EXTRA, rng.randint(0, 6))), sign=rng.choice((1, -1)), raw=rng.random() < 0.5, edge=rng.random() < 0.3,
             seed=rng.randrange(1 << 30))
    hops = [dict(form=rng.choice(("nc", "nc", "zarr")), raw=rng.random() < 0.5, chunk=rng.choice((3, 7, 50, 1000)), buf=rng.choice((1, 3, 7, 1000)))
            for _ in range(rng.choice((1, 1, 2, 3)))]
    reads = []
    for _ in range(rng.randint(2, 6)):
        form = rng.choice(("nc", "zarr"))
        reads.append(dict(
            form=form, src=rng.choice(SOURCES[form]), raw=rng.random() < 0.5, cls=rng.choice(("obs", "tracks")),
            sl=slice_of(rng, n), names=rng.choice((None, None, "include", "remove")), pick=rng.random(), buf=rng.choice((1, 3, 7, 1000)),
            args=rng.choice(("own", "own", "shared")), fault=fault_of(rng, form), pos=rng.choice((0, 0, 17)),
        ))
    return dict(data=d, hops=hops, reads=reads, chunk=rng.choice((3, 7, 50, 1000)))


def slice_of(rng, n):
    k = rng.choice(("all", "all", "both", "both", "stop", "start", "none", "beyond", "empty", "neg", "step"))
    a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
    return dict(all=None, both=[a, b, None], stop=[None, b, None], start=[a, None, None], none=[None, None, None], beyond=[a, n + 5, None],
                empty=[a, a, None], neg=[-min(n, 3) or None, None, None], step=[a, b, 2])[k]


def fault_of(rng, form):
    k = rng.choice(("none", "none", "read", "read", "open", "short", "eintr", "cut", "missing"))
    if k in ("read", "open"):
        return [k, rng.random(), "EIO" if k == "read" else rng.choice(("EIO", "EMFILE", "EACCES")), rng.random() < 0.3]
    if k == "cut":
        return [k, rng.random()] if form == "nc" else ["none"]
    if k in ("short", "eintr"):
        return [k, rng.choice((200, 600, 900)), rng.randrange(1 << 30)]
    return [k]


def warmup(tmp):
    c = dict(data=dict(n=3, ns=5, arrays=["contour_lon_e"], extra=["track", "n"], sign=1, raw=True, edge=False, seed=1),
             hops=[dict(form=f, raw=r, chunk=3, buf=3) for f in ("nc", "zarr") for r in (True, False)],
             reads=[dict(form=f, src=s, raw=False, cls="obs", sl=None, names=None, pick=0, buf=3, args="own", fault=["none"], pos=0)
                    for f in SOURCES for s in sorted(set(SOURCES[f]))], chunk=3)
    try:
        run(c, core.Ctx(os.path.join(tmp, "w")))
    except core.Violation:
        pass


# ---- the dataset, in storage units --------------------------------------------------
def descr(f):
    from py_eddy_tracker import VAR_DESCR

    return VAR_DESCR[f]


def storage(d):
    """field -> array in storage units (the reference)."""
    from py_eddy_tracker.observations.observation import EddiesObservations

    rs = np.random.RandomState(d["seed"])
    out = {}
    for f in list(EddiesObservations.ELEMENTS) + d["arrays"] + d["extra"]:
        t = np.dtype(descr(f)["output_type"])
        shape = (d["n"], d["ns"]) if f in d["arrays"] else (d["n"],)
        if t.kind == "f":
            v = rs.uniform(-180, 360, shape).astype(t)
        else:
            i = np.iinfo(t)
            # the library reserves one value per type for "missing"
            lo, hi = (max(i.min, -32000) if t.itemsize > 1 else max(i.min, -100), i.max - 1)
            if not d["edge"]:
                lo, hi = max(lo, -500), min(hi, 100 if t.itemsize == 1 else 20000)
            v = rs.randint(lo, hi, shape, dtype="i8").astype(t)
        out[f] = v
    return out


def scaled(f, r):
    x = descr(f)
    if x.get("scale_factor") is None:
        return r
    return r.astype("f8") * x["scale_factor"] + (x.get("add_offset") or 0)


def build(d, ref):
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations
    from py_eddy_tracker.observations.observation import EddiesObservations

    cls = TrackEddiesObservations if "track" in d["extra"] and "n" in d["extra"] else EddiesObservations
    o = cls(size=d["n"], track_array_variables=d["ns"], array_variables=list(d["arrays"]), track_extra_variables=list(d["extra"]), raw_data=d["raw"])
    for f, r in ref.items():
        if f in o.fields:
            o.obs[f] = r if d["raw"] else scaled(f, r)
    o.sign_type = d["sign"]
    return o


def compare(ctx, where, o, ref, raw, sign, sl=slice(None), fields=None):
    """o must hold the reference values."""
    n = len(next(iter(ref.values()))[sl])
    ctx.check(len(o) == n, f"{where}/size", lambda: f"{len(o)} observations read, {n} stored")
    ctx.check(o.sign_type == sign, f"{where}/sign", lambda: f"sign {o.sign_type}, stored {sign}")
    for f, r in ref.items():
        if fields is not None and f not in fields:
            continue
        ctx.check(f in o.fields, f"{where}/field-missing", f)
        got, want = np.ma.filled(o.obs[f], 0), r[sl]
        if raw or descr(f).get("scale_factor") is None:
            bad = got != want
        else:
            x = descr(f)
            bad = ~(np.abs((got.astype("f8") - (x.get("add_offset") or 0)) / x["scale_factor"] - want) < 0.1)
        ctx.check(not bad.any(), f"{where}/value",
                  lambda: f"{f}: {got[bad][:3].tolist()} in place of {want[bad][:3].tolist()} ({'stored' if raw else 'scaled'})")
    return n


def write(o, path, chunk):
    if path.endswith("zarr"):
        o.write_file(filename=path, chunck_size=chunk)
    else:
        o.write_file(filename=path)


def run(case, ctx):
    from py_eddy_tracker.observations.observation import EddiesObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    d = case["data"]
    if not (set(d["extra"]) >= {"track", "n"}):
        d = dict(d, extra=[f for f in d["extra"] if f not in ("n",)])
    ref = storage(d)
    o = build(d, ref)
    ref = {f: r for f, r in ref.items() if f in o.fields}
    disk = ctx.dir("disk")
    ctx.nontrivial = d["n"] > 0 or any(r["fault"][0] != "none" for r in case["reads"])
    ctx.simdays += 1
    # hops: each generation keeps every value
    cur = o
    for k, h in enumerate(case["hops"]):
        p = os.path.join(disk, f"hop{k}.{h['form']}")
        ctx.sut("write", write, cur, p, h["chunk"])
        compare(ctx, "source-after-write", cur, ref, cur.raw_data, d["sign"])
        kw = dict(buffer_size=h["buf"]) if h["form"] == "zarr" else {}
        cur = ctx.sut("read", type(o).load_file, p, raw_data=h["raw"], **kw)
        compare(ctx, "hop", cur, ref, h["raw"], d["sign"])
        ctx.log("hop", k, h["form"], h["raw"], len(cur))
    # reads of the two stored forms
    paths = {}
    for form in ("nc", "zarr"):
        paths[form] = os.path.join(disk, "data." + form)
        ctx.sut("write", write, o, paths[form], case["chunk"])
    tar = os.path.join(disk, "data.tar")
    with tarfile.open(tar, "w") as h:
        h.add(paths["nc"], "some/data.nc")
    before = faults.Disk(disk).files
    shared = {}
    for k, r in enumerate(case["reads"]):
        cls = TrackEddiesObservations if r["cls"] == "tracks" else EddiesObservations
        one_read(case, ctx, k, r, cls, d, ref, paths, tar, disk, shared)
    after = faults.Disk(disk).files
    ctx.check(before == after, "read-writes", lambda: f"reading changed {sorted(os.path.relpath(f, disk) for f in set(before) ^ set(after))[:4]}")


def names_of(r, ref):
    rng = random.Random(r["pick"])
    fields = sorted(ref)
    some = rng.sample(fields, rng.randint(1, len(fields)))
    nc = [descr(f)["nc_name"] for f in some]
    if r["names"] == "include":
        # names of the file or names of the library
        from py_eddy_tracker import VAR_DESCR_inv

        inner = rng.random() < 0.4
        return dict(include_vars=[f if inner and f in VAR_DESCR_inv and rng.random() < 0.7 else v for f, v in zip(some, nc)]), set(some)
    if r["names"] == "remove":
        # something stays
        return dict(remove_vars=nc[:-1]), set(fields) - set(some[:-1])
    return {}, set(fields)


def one_read(case, ctx, k, r, cls, d, ref, paths, tar, disk, shared):
    import zarr

    kind = r["fault"][0]
    path = paths[r["form"]]
    kw, fields = names_of(r, ref)
    kw["raw_data"] = r["raw"]
    if r["form"] == "zarr":
        kw["buffer_size"] = r["buf"]
    sl = slice(None)
    if r["sl"] is not None:
        start, stop, _ = slice(*r["sl"]).indices(d["n"])
        sl = slice(start, max(start, stop))  # the step is documented as ignored
        if r["args"] == "shared":
            # the caller keeps one dictionary and passes it again and again
            kw["indexs"] = shared.setdefault(str(r["sl"]), dict(obs=slice(*r["sl"])))
        else:
            kw["indexs"] = dict(obs=slice(*r["sl"]))
    opened = []

    def source():
        if r["src"] in ("path", "bytes", "npbytes"):
            return dict(path=str, bytes=str.encode, npbytes=np.bytes_)[r["src"]](path)
        if r["src"] == "group":
            return zarr.open(path, "r")
        if r["src"] == "store":
            return zarr.DirectoryStore(path)
        if r["src"] == "bytesio":
            with open(path, "rb") as h:
                s = io.BytesIO(h.read())
        elif r["src"] == "buffered":
            s = open(path, "rb")
            opened.append(s)
        else:
            t = tarfile.open(tar)
            opened.append(t)
            s = t.extractfile("some/data.nc")
        s.read(r["pos"])  # the position of the caller's file does not matter
        return s

    def go(s=None):
        return cls.load_file(source() if s is None else s, **kw)

    def good(where, o):
        args = {a: (dict(obs=slice(*r["sl"])) if a == "indexs" else v) for a, v in kw.items()}
        ctx.check(kw == args, "caller-arguments", lambda: f"{kw} was {args}")
        return compare(ctx, where, o, ref, r["raw"], d["sign"], sl, fields)

    target = tar if r["src"] == "tar" else path
    outcome = "right"
    try:
        if kind in ("read", "open"):
            faults.arm(disk)
            ctx.sut("read", go)
            n = faults.counts()[kind]
            faults.arm(disk)
            (faults.fail_read if kind == "read" else faults.fail_open)(int(r["fault"][1] * n), r["fault"][2], r["fault"][3])
            try:
                o = go()
            except Exception as e:
                outcome = type(e).__name__
            else:
                good("read-under-failure", o)
            fired = faults.counts()["fired"]
            faults.disarm()
            ctx.fault(f"{kind} failing ({r['fault'][2]})", fired)
        elif kind in ("short", "eintr"):
            faults.arm(disk)
            faults.transfers(*(r["fault"][1:2] + [0] if kind == "short" else [0] + r["fault"][1:2]), r["fault"][2])
            good("read-in-pieces", ctx.sut("read in pieces", go))
            c = faults.counts()
            faults.disarm()
            ctx.fault("short reads", c["short"])
            ctx.fault("interrupted reads", c["eintr"])
        elif kind in ("cut", "missing"):
            aside = target + ".aside"
            os.rename(target, aside)
            try:
                if kind == "cut":
                    with open(aside, "rb") as h:
                        b = h.read()
                    with open(target, "wb") as h:
                        h.write(b[: int(r["fault"][1] * len(b))])
                try:
                    o = go()
                except Exception as e:
                    outcome = type(e).__name__
                else:
                    ctx.check(kind == "cut", "read-of-nothing", "a read of a file which does not exist succeeded")
                    good("read-of-cut-file", o)
                ctx.check(kind == "cut" or not os.path.lexists(target), "read-creates", "a failed read created the file it did not find")
            finally:
                if os.path.isdir(target):
                    shutil.rmtree(target)
                os.rename(aside, target)
            ctx.fault("file cut short" if kind == "cut" else "file missing")
        # and once reads work again
        s = source()
        good("read", ctx.sut("read", go, s))
        if r["src"] not in ("path", "bytes", "npbytes"):
            good("read-again", ctx.sut("read again from the same source", go, s))
    finally:
        faults.disarm()
        for h in opened:
            h.close()
    shape = None if r["sl"] is None else [x if x is None else (x > 0) - (x < 0) for x in r["sl"]]
    ctx.cover(r["form"], r["src"], shape, r["names"], r["raw"], kind, outcome)
    ctx.log("read", k, r["form"], r["src"], kind, outcome)


def shrink(case):
    for key in ("hops", "reads"):
        for c in core.shrink_list(case[key]):
            if c or case["hops" if key == "reads" else "reads"]:
                yield dict(case, **{key: c})
    d = case["data"]
    for n in core.shrink_int(d["n"]):
        yield dict(case, data=dict(d, n=n))
    for key in ("arrays", "extra"):
        for c in core.shrink_list(d[key]):
            yield dict(case, data=dict(d, **{key: c}, ns=0 if key == "arrays" and not c else d["ns"]))
    for key, v in (("edge", False), ("raw", False), ("sign", 1)):
        if d[key] != v:
            yield dict(case, data=dict(d, **{key: v}))
    for k, r in enumerate(case["reads"]):
        for key, v in (("fault", ["none"]), ("names", None), ("sl", None), ("src", "path"), ("raw", False), ("args", "own"), ("pos", 0), ("buf", 1000)):
            if r[key] != v:
                c = list(case["reads"])
                c[k] = dict(r, **{key: v})
                yield dict(case, reads=c)
    for k, r in enumerate(case["hops"]):
        for key, v in (("chunk", 1000), ("buf", 1000), ("raw", False)):
            if r[key] != v:
                c = list(case["hops"])
                c[k] = dict(r, **{key: v})
                yield dict(case, hops=c)
    if case["chunk"] != 1000:
        yield dict(case, chunk=1000)
