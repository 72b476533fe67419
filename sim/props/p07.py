"""An interrupted or failed save never leaves a file that reads as something else."""
import os
import signal

import numpy as np

from .. import core, faults
from .. import tracklib as T
from .. import world as W

RUNS = dict(quick=330, thorough=7000)
RULE = (
    "A case is a dataset or tracking state, a destination (new, older content of another size or format, unrelated neighbours), a "
    "form (netCDF, zarr, state file) and interruptions: process killed after a sampled operation (last write torn or whole), "
    "failing system call (once or until the end), short and interrupted transfers. Every run is non-trivial: at least one "
    "interruption is applied."
)
MEASURE = "distinct (form, destination, kind of interruption, operation it falls on, what was found afterwards)"
REAL = ["write_file (netCDF and zarr)", "Correspondances.save", "load_file / load", "netCDF4, HDF5 and zarr libraries"]
STUB = ["identification step (synthetic detections)", "disk after a kill (rebuilt operation by operation from the recorded calls)"]
UNCOMPARED = object()
FORMS = ("obs-nc", "obs-nc", "obs-nc", "tracks-nc", "obs-zarr", "tracks-zarr", "state", "state", "state")


def gen(rng, tier, i):
    n = rng.randint(2, 6)
    # real datasets go from nothing to far beyond one library buffer
    w = W.gen_world(rng, "crowd", n, max_eddies=8, allow_empty=rng.random() < 0.3)
    form = rng.choice(FORMS)
    return dict(
        world=w, form=form, tracker=rng.choice(("default", "area")), virtual=rng.choice((0, 2, 3)), raw=rng.random() < 0.4,
        copies=rng.choice((1, 1, 1, 20, 200)) if "zarr" not in form else rng.choice((1, 1, 20)),
        before=rng.choice(("none", "none", "older", "older", "longer", "same", "other-format")),
        link=rng.random() < 0.1,
        kills=[[rng.random(), rng.choice((None, None, 0, 0.5))] for _ in range(10)],
        fails=[dict(at=rng.random(), err=rng.choice(("ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EACCES")), sticky=rng.random() < 0.5) for _ in range(4)],
        transfers=rng.choice((0, 0, 300, 700)), eintr=0, seed=rng.randrange(1 << 30),
    )


def warmup(tmp):
    import random

    for k, form in enumerate(("state", "tracks-nc", "obs-zarr")):
        c = gen(random.Random(k), "quick", 0)
        c.update(form=form, before="older", copies=1, kills=c["kills"][:1], fails=c["fails"][:1])
        run(c, core.Ctx(os.path.join(tmp, str(k))))


# ---- the thing saved ------------------------------------------------------------
def make(case, ctx, folder, variant=0):
    """The object to save; variant 1 is the older content found at the destination."""
    from py_eddy_tracker.observations.observation import EddiesObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations

    w = dict(case["world"])
    form = case["form"]
    if variant:
        w = dict(w, eddies=w["eddies"] + [dict(w["eddies"][0], x=w["eddies"][0]["x"] + 3, pres="1" * w["n_step"])], order=1)
        if case["before"] == "older":
            w["n_step"] = max(2, w["n_step"] - 1)
    if form == "state":
        files = W.write_files(w, folder)
        s = dict(tracker=case["tracker"], virtual=case["virtual"])
        c = T.correspondances(files, s)
        c.track()
        c.prepare_merging()
        return c
    if form.startswith("tracks"):
        files = W.write_files(w, folder)
        c = T.correspondances(files, dict(tracker="default", virtual=case["virtual"]))
        c.track()
        c.prepare_merging()
        o = c.merge(raw_data=case["raw"])
        cls = TrackEddiesObservations
    else:
        f = W.write_files(w, folder, steps=[0])[0]
        o = EddiesObservations.load_file(f, raw_data=case["raw"])
        cls = EddiesObservations
    k = case["copies"] * (3 if variant and case["before"] == "longer" else 1)
    if k > 1 and len(o):
        big = cls.new_like(o, len(o) * k)
        big.sign_type = o.sign_type
        for f in o.fields:
            big[f][:] = np.concatenate([o[f]] * k)
        o = big
    return o


def save(case, obj, dst):
    if case["form"] == "state":
        obj.save(dst)
    elif "zarr" in case["form"]:
        obj.write_file(filename=dst, chunck_size=2000)
    else:
        obj.write_file(filename=dst)


def load(case, dst):
    """What the destination reads as, None when it does not read."""
    from py_eddy_tracker.observations.observation import EddiesObservations
    from py_eddy_tracker.observations.tracking import TrackEddiesObservations
    from py_eddy_tracker.tracking import Correspondances

    if not os.path.lexists(dst):
        return None
    try:
        if case["form"] == "state":
            c = Correspondances.load(dst)
            c.prepare_merging()
            return c
        cls = TrackEddiesObservations if case["form"].startswith("tracks") else EddiesObservations
        return cls.load_file(dst, raw_data=case["raw"])
    except Exception:
        return None


def differ(case, a, b):
    if b is UNCOMPARED:
        return None
    if a is None or b is None:
        return "absent"
    return T.state_diff(a, b) if case["form"] == "state" else T.obs_diff(a, b)


def reference(case, obj):
    """What a save without interruption must read as (scaled data is rounded on the way: P13's business, not compared here)."""
    return obj if case["form"] == "state" or (case["raw"] and "nc" in case["form"]) else UNCOMPARED


def run(case, ctx):
    obj = make(case, ctx, ctx.dir("in"))
    ext = "zarr" if "zarr" in case["form"] else "nc"
    top = ctx.dir("disk")
    dst = os.path.join(top, "result." + ext)
    neighbour = os.path.join(top, "neighbour.nc")
    with open(neighbour, "wb") as h:
        h.write(b"untouched")
    if case["before"] in ("older", "longer", "same"):
        old = obj if case["before"] == "same" else make(case, ctx, ctx.dir("in_old"), variant=1)
        save(case, old, dst)
    elif case["before"] == "other-format" and ext == "nc":
        with open(dst, "wb") as h:
            h.write(b"CDF\x01" + bytes(200))
    if case["link"] and ext == "nc" and os.path.exists(dst):
        os.rename(dst, os.path.join(top, "target.nc"))
        os.symlink(os.path.join(top, "target.nc"), dst)
        ctx.probe("destination is a link")
    previous = load(case, dst)
    start = faults.Disk(top)
    ctx.nontrivial = True
    ctx.simdays += 1
    # the whole save, recorded
    journal = os.path.join(ctx.root, "journal")
    faults.arm(top, journal)
    try:
        ctx.sut("save", save, case, obj, dst)
    finally:
        n_ops = faults.counts()["mut"]
        faults.disarm()
    ops = faults.read_journal(journal)
    whole = load(case, dst)
    ctx.check(whole is not None, "save-unreadable", "the destination does not read after a save without error")
    d = differ(case, whole, reference(case, obj))
    ctx.check(d is None, "save-incomplete", lambda: str(d))
    left = sorted(os.listdir(top))
    want = sorted(["neighbour.nc", "result." + ext] + (["target.nc"] if os.path.islink(dst) or os.path.exists(os.path.join(top, "target.nc")) else []))
    ctx.check(left == want, "debris", lambda: f"folder holds {left} after a save")
    with open(neighbour, "rb") as h:
        ctx.check(h.read() == b"untouched", "neighbour", "another file was changed")
    ctx.log("ops", [o[0] for o in ops][:60], len(ops))
    kill_points(case, ctx, start, ops, top, dst, whole, previous, obj)
    failing_calls(case, ctx, start, n_ops, top, dst, whole, previous, obj)
    odd_transfers(case, ctx, start, top, dst, whole, obj)


def judge(case, ctx, where, dst, whole, previous, returned=None):
    got = load(case, dst)
    if got is None:
        found = "unreadable"
    elif differ(case, got, whole) is None:
        found = "new"
    elif previous is not None and differ(case, got, previous) is None:
        found = "previous"
    else:
        d = differ(case, got, whole)
        ctx.check(False, f"partial-read/{where}", lambda: f"the destination reads as something else: {d}")
    if returned:
        ctx.check(found == "new", "silent-failure", lambda: f"the save returned without error but the destination is {found}")
    ctx.probe(f"found {found} after {where}")
    return found


def rebuild(start, top):
    d = faults.Disk.__new__(faults.Disk)
    d.src = start.src
    d.files = {k: bytearray(v) for k, v in start.files.items()}
    d.dirs = set(start.dirs)
    return d


def kill_points(case, ctx, start, ops, top, dst, whole, previous, obj):
    if case["link"] and os.path.islink(dst):
        return  # the simulated disk has no links
    for x, torn in case["kills"]:
        if not ops:
            return
        k = min(int(x * len(ops)), len(ops) - 1)
        disk = rebuild(start, top)
        for o in ops[:k]:
            disk.apply(o)
        if torn is not None and ops[k][0] == "write":
            disk.apply(ops[k], torn=int(torn * len(ops[k][4])))
            ctx.fault("kill inside a write")
        else:
            ctx.fault(f"kill before {ops[k][0]}")
        disk.materialise(top)
        found = judge(case, ctx, "kill", dst, whole, previous)
        ctx.log("kill", k, torn, found)
        ctx.cover(case["form"], case["before"], "kill", ops[k][0], found)
    # once nothing fails any more the same save works on what is left
    ctx.sut("save after a kill", save, case, obj, dst)
    d = differ(case, load(case, dst), whole)
    ctx.check(d is None, "save-after-kill", lambda: str(d))


def forked(fn):
    """fn in a child: 'ok', 'error' or 'died'."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.alarm(100)
            fn()
            code = 0
        except BaseException:
            code = 4
        os._exit(code)
    st = os.waitpid(pid, 0)[1]
    if os.WIFEXITED(st):
        return {0: "ok", 4: "error"}.get(os.WEXITSTATUS(st), "died")
    return "died"


def failing_calls(case, ctx, start, n_ops, top, dst, whole, previous, obj):
    if case["link"]:
        return
    for f in case["fails"]:
        at = int(f["at"] * n_ops)
        rebuild(start, top).materialise(top)

        def go():
            faults.arm(top)
            faults.fail_mut(at, f["err"], f["sticky"])
            save(case, obj, dst)

        got = forked(go)
        ctx.fault(f"{f['err']}{' from then on' if f['sticky'] else ' once'}")
        found = judge(case, ctx, "failed call", dst, whole, previous, returned=got == "ok")
        ctx.log("fail", at, f["err"], f["sticky"], got, found)
        ctx.cover(case["form"], case["before"], f["err"], f["sticky"], got, found)
    ctx.sut("save after a failure", save, case, obj, dst)
    d = differ(case, load(case, dst), whole)
    ctx.check(d is None, "save-after-failure", lambda: str(d))


def odd_transfers(case, ctx, start, top, dst, whole, obj):
    if not case["transfers"] or case["link"]:
        return
    rebuild(start, top).materialise(top)

    def go():
        faults.arm(top)
        faults.transfers(case["transfers"], case["eintr"], case["seed"])
        save(case, obj, dst)

    got = forked(go)
    ctx.fault("save with short writes")
    ctx.check(got == "ok", "short-writes", f"save under short writes: {got}")
    d = differ(case, load(case, dst), whole)
    ctx.check(d is None, "short-writes-incomplete", lambda: str(d))


def shrink(case):
    for key in ("kills", "fails"):
        for c in core.shrink_list(case[key]):
            if c or case["kills" if key == "fails" else "fails"] or case["transfers"]:
                yield dict(case, **{key: c})
    for key, v in (("transfers", 0), ("copies", 1), ("before", "none"), ("link", False), ("raw", False), ("virtual", 0),
                   ("tracker", "default")):
        if case[key] != v:
            yield dict(case, **{key: v})
    for w in W.shrink_world(case["world"]):
        yield dict(case, world=w)
