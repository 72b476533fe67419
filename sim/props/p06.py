"""Results do not depend on listing order, clock, hash seed or process history."""
import os

from .. import core, jobs, zygote
from .. import tracklib as T
from .. import world as W

RUNS = dict(quick=160, thorough=5000)
RULE = (
    "A case is a tracking or network-building workload and one to two environments: hash seed, folder listing order, wall clock "
    "(start, rate, jump), time zone, modification times of the files, contents of fresh memory, workloads run before in the same process (failing ones included, possibly on other files at "
    "the same paths) and a workload interleaved with it. Every case is compared with a fresh interpreter. Non-trivial: the "
    "results hold at least one observation."
)
MEASURE = "distinct (workload kind, environment kinds, digest of the results)"
REAL = ["tracking and network programs", "netCDF4/HDF5, zarr", "interpreters with different hash seeds"]
STUB = ["identification step (synthetic detections)", "wall clock and folder listing (simulated)"]
CLOCK0 = dict(now=1700000000, step=0.0)
WHEN = {"date_created", "date_prod"}


def gen_work(rng, small=False):
    kind = rng.choice(("track", "track", "network"))
    n = rng.randint(2, 5 if small else 9)
    w = W.gen_world(rng, rng.choice(("sparse", "crowd", "crowd")), n, max_eddies=4 if small else 8, allow_empty=rng.random() < 0.3)
    if kind == "track":
        s = T.settings(rng, n, trackers=("default",) * 4 + ("area",) * 3 + ("chelton",))
    else:
        s = dict(window=rng.choice((1, 2, 4)), overlap=rng.choice((0.05, 0.2)), intern=rng.random() < 0.4, memory=rng.random() < 0.3)
    return dict(kind=kind, world=w, settings=s, glob=rng.random() < 0.75, reverse=False)


def gen(rng, tier, i):
    task = gen_work(rng)
    variants = []
    for _ in range(rng.choice((1, 1, 2))):
        env = {}
        if rng.random() < 0.6:
            env["listing"] = rng.randrange(1, 1 << 20)
        if rng.random() < 0.5:
            env["clock"] = dict(now=rng.choice((0, 86399, 946684799, 1709164800, 2147483646, 4102444800)),
                                step=rng.choice((0.0, 0.3, 3600.0, -0.7)), jump_at=rng.randint(1, 6), jump=rng.choice((-1e8, 1e8, 86400.0)))
            if env["clock"]["now"] < 1e9:
                env["clock"].update(jump=abs(env["clock"]["jump"]), step=abs(env["clock"]["step"]))
        if rng.random() < 0.3:
            env["tz"] = rng.choice(("Pacific/Auckland", "America/St_Johns", "XXX-13:30"))
        if rng.random() < 0.6:
            env["touch"] = rng.randrange(1 << 20)
        if rng.random() < 0.6:
            env["memory"] = rng.choice((255, 127, 1))
        prior = []
        if rng.random() < 0.6:
            for _ in range(rng.choice((1, 1, 2))):
                p = gen_work(rng, small=True)
                p["same_path"] = rng.random() < 0.5
                if p["same_path"]:
                    p["world"]["day0"] = task["world"]["day0"]
                if rng.random() < 0.25:
                    p["spoil"] = rng.randint(1, 5)
                if rng.random() < 0.3:
                    p["settings"] = dict(task["settings"]) if p["kind"] == task["kind"] else p["settings"]
                prior.append(p)
        v = dict(env=env, prior=prior, hashseed=rng.choice(zygote.SEEDS), reverse=rng.random() < 0.4)
        if rng.random() < 0.25:
            v["beside"] = gen_work(rng, small=True)
            v["choices"] = [rng.randrange(4) for _ in range(rng.randint(1, 12))]
        variants.append(v)
    return dict(task=task, variants=variants)


SCRATCH = None


def warmup(tmp):
    import random

    w = W.gen_world(random.Random(3), "crowd", 4, 5)
    jobs.workload(dict(kind="network", world=w, settings=dict(window=2, overlap=0.05, intern=False, memory=False)), tmp)


def wave(case, scratch):
    jobs.workload(case["task"], scratch)


def start(root):
    global SCRATCH
    SCRATCH = root
    zygote.start(root)


def run(case, ctx):
    base = call(ctx, "reference", "0", dict(task=case["task"], env=dict(clock=CLOCK0)))
    ref = base["results"]
    ctx.nontrivial = any(k[1] == "dimensions" and max(list(v.values()) or [0]) > 0 for k, v in ref.items() if len(k) == 2)
    ctx.simdays += case["task"]["world"]["n_step"]
    for k, v in enumerate(case["variants"]):
        env = dict(v["env"])
        env.setdefault("clock", CLOCK0)
        task = dict(case["task"], reverse=v["reverse"])
        out = call(ctx, f"variant{k}", v["hashseed"],
                   dict(task=task, env=env, prior=v["prior"], beside=v.get("beside"), choices=v.get("choices")))
        for what in ("listing", "clock", "tz", "memory", "touch"):
            if what in v["env"]:
                ctx.fault(dict(listing="shuffled folder listing", clock="wall clock moved", tz="other time zone", memory="other contents of fresh memory", touch="other modification times of the files")[what])
        if v["hashseed"] != "0":
            ctx.fault("other hash seed")
        if v["reverse"] and not task["glob"]:
            ctx.fault("file list handed over backwards")
        ctx.fault("workload before in the same process", len(v["prior"]))
        ctx.fault("failed workload before", len(out["failures"]))
        ctx.fault("switch with another workload", out["switches"])
        compare(ctx, ref, out["results"])
        ctx.cover(task["kind"], sorted(v["env"]), v["hashseed"], len(v["prior"]), digest(ref))
    ctx.log("results", digest(ref))


def digest(r):
    import hashlib

    h = hashlib.sha1()
    for k in sorted(r):
        v = r[k]
        if k[1] == "attributes":
            v = {a: b for a, b in v.items() if a not in WHEN}
        h.update(repr((k, sorted(v.items()) if isinstance(v, dict) else v)).encode())
    return h.hexdigest()


def call(ctx, name, hashseed, job):
    job["dir"] = ctx.dir(name)
    out = zygote.call(SCRATCH, hashseed, job)
    if out.get("died"):
        ctx.check(False, f"process-died/{name[:7]}", "the workload ended its process")
    if "error" in out:
        if out["inside"]:
            last = [x for x in out["error"].splitlines() if "py_eddy_tracker" in x][-1:]
            ctx.check(False, f"raised/{name[:7]}/{out['kind']}", str(last)[:150])
        raise RuntimeError(out["error"])
    return out


def compare(ctx, ref, got):
    ctx.check(sorted(ref) == sorted(got), "contents", lambda: f"{sorted(set(ref) ^ set(got))[:4]}")
    for k in sorted(ref):
        a, b = ref[k], got[k]
        if k[1] == "attributes":
            ctx.check(sorted(a) == sorted(b), "attributes", lambda: f"{k[0]}: {sorted(set(a) ^ set(b))}")
            for x in a:
                if x not in WHEN:
                    ctx.check(a[x] == b[x], "attribute", lambda: f"{k[0]} {x}: {str(a[x])[:60]} / {str(b[x])[:60]}")
        elif k[1] == "dimensions":
            ctx.check(a == b, "size", lambda: f"{k[0]}: {a} / {b}")
        else:
            ctx.check(a[:2] == b[:2], "type", lambda: f"{k[0]} {k[2]}: {a[:2]} / {b[:2]}")
            ctx.check(a[2] == b[2], "values", lambda: f"{k[0]} {k[2]} differs{where(a[2], b[2])}")
            ctx.check(a[3] == b[3], "variable-attribute", lambda: f"{k[0]} {k[2]}: {[x for x in a[3] if a[3].get(x) != b[3].get(x)]}")


def where(a, b):
    import numpy as np

    if not isinstance(a, tuple) or a[:2] != b[:2]:
        return ""
    x, y = (np.frombuffer(v[2], v[0]).reshape(v[1]) for v in (a, b))
    m = (x != y) & ~((x != x) & (y != y))
    return f" at {np.argwhere(m)[:2].tolist()}: {x[m][:2].tolist()} / {y[m][:2].tolist()}"


def shrink(case):
    if len(case["variants"]) > 1:
        for v in case["variants"]:
            yield dict(case, variants=[v])
    for k, v in enumerate(case["variants"]):
        rest = case["variants"][:k], case["variants"][k + 1:]
        cands = []
        for e in v["env"]:
            cands.append(dict(v, env={a: b for a, b in v["env"].items() if a != e}))
        if "beside" in v:
            cands.append({a: b for a, b in v.items() if a not in ("beside", "choices")})
        for j in range(len(v["prior"])):
            cands.append(dict(v, prior=v["prior"][:j] + v["prior"][j + 1:]))
            for w in W.shrink_world(v["prior"][j]["world"]):
                cands.append(dict(v, prior=v["prior"][:j] + [dict(v["prior"][j], world=w)] + v["prior"][j + 1:]))
        if v["hashseed"] != "0":
            cands.append(dict(v, hashseed="0"))
        if v["reverse"]:
            cands.append(dict(v, reverse=False))
        for c in cands:
            yield dict(case, variants=rest[0] + [c] + rest[1])
    t = case["task"]
    if t["kind"] == "track":
        for s in T.shrink_settings(t["settings"]):
            yield dict(case, task=dict(t, settings=s))
    for w in W.shrink_world(t["world"]):
        if t["kind"] == "track" and t["settings"]["nb_min"] > w["n_step"]:
            continue
        yield dict(case, task=dict(t, world=w))
