"""Seeded search over simulated runs, in forked workers, with minimisation and exact replay."""
import argparse
import faulthandler
import importlib
import json
import logging
import os
import pickle
import select
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback

from .core import Ctx, Violation, case_digest, rng_for

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = 180.0


class HarnessError(Exception):
    pass


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as h:
        return [e for e in json.load(h)["findings"] if e["property"] == pid and e.get("status") == "known"]


def matches(entry, case, cls, msg):
    if entry["class"] != cls:
        return False
    if "message" in entry and entry["message"] not in msg:
        return False
    for k, v in entry.get("case", {}).items():
        if case.get(k) != v:
            return False
    return True


def execute(mod, case, scratch):
    """Run one case. Returns a plain summary dict (violation or not)."""
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    ctx = Ctx(scratch)
    from . import faults

    # what fresh memory holds is part of the run: a function of the case
    faults.memory((0, 255, 127, 1)[int(case_digest(case), 16) % 4])
    t0 = time.monotonic()
    out = dict(violation=None, error=None)
    try:
        mod.run(case, ctx)
    except Violation as v:
        out["violation"] = (v.cls, v.msg)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        out["error"] = traceback.format_exc()
    finally:
        try:
            faults.disarm()
            faults.memory()
        except Exception:
            pass
    out.update(
        faults=ctx.faults, probes=ctx.probes, covered=ctx.covered, simdays=ctx.simdays,
        nontrivial=ctx.nontrivial, digest=ctx.digest(), nevents=len(ctx.events),
        tail=[list(map(str, e)) for e in ctx.events[-40:]], wall=time.monotonic() - t0,
    )
    shutil.rmtree(scratch, ignore_errors=True)
    return out


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


class Reader:
    def __init__(self, fd):
        self.fd, self.buf = fd, b""

    def feed(self):
        """Messages available now; None at end of file."""
        c = os.read(self.fd, 1 << 16)
        if not c:
            return None
        self.buf += c
        out = []
        while len(self.buf) >= 4:
            n = struct.unpack("<I", self.buf[:4])[0]
            if len(self.buf) < 4 + n:
                break
            out.append(pickle.loads(self.buf[4:4 + n]))
            self.buf = self.buf[4 + n:]
        return out


def quiet_child():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("SIM_KEEP"):
        os.dup2(dn, 2)


def in_child(mod, case, scratch, timeout=RUN_TIMEOUT):
    """Run a case in a forked child; a dead or stuck child is itself an outcome."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        quiet_child()
        code = 0
        try:
            send(w, execute(mod, case, scratch))
        except BaseException:
            code = 7
        os._exit(code)
    os.close(w)
    rd, res, end = Reader(r), None, time.monotonic() + timeout
    stuck = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            stuck = True
            os.kill(pid, signal.SIGKILL)
            break
        if select.select([r], [], [], left)[0]:
            m = rd.feed()
            if m is None:
                break
            if m:
                res = m[0]
                break
    os.close(r)
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    if res is None:
        empty = dict(error=None, faults={}, probes={}, covered=set(), simdays=0, nontrivial=True, digest="", nevents=0, tail=[], wall=0)
        if stuck:
            return dict(empty, violation=("no-progress", f"run still going after {timeout:.0f} s (usual: below 5 s)"))
        return dict(empty, violation=("process-died", f"status {st & 0x7f}"))
    return res


def worker(mod, pid_, seed, tier, indexes, wfd, scratch):
    quiet_child()
    for i in indexes:
        case = mod.gen(rng_for(seed, pid_, i), tier, i)
        case = json.loads(json.dumps(case))
        send(wfd, ("start", i))
        # each run gets its own process: nothing a run leaves in memory can decide another run
        out = in_child(mod, case, scratch, timeout=RUN_TIMEOUT)
        out["case_digest"] = case_digest(case)
        send(wfd, ("done", i, out))
    send(wfd, ("end",))
    os._exit(0)


def minimise(mod, case, cls, scratch, budget, known):
    t_end = time.monotonic() + budget
    tried, done = 0, False
    seen = {case_digest(case)}
    while not done and time.monotonic() < t_end:
        done = True
        for cand in mod.shrink(case):
            cand = json.loads(json.dumps(cand))
            d = case_digest(cand)
            if d in seen:
                continue
            seen.add(d)
            if time.monotonic() > t_end:
                break
            tried += 1
            res = in_child(mod, cand, scratch, timeout=60)
            v = res["violation"]
            if v and v[0] == cls and not any(matches(k, cand, *v) for k in known):
                case, done = cand, False
                break
    return case, tried


def replay_path(pid_, seed, i):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{pid_}-s{seed}-r{i}.json")


def write_replay(path, pid_, seed, i, case, res, original):
    with open(path, "w") as h:
        json.dump(
            dict(
                property=pid_, seed=seed, run=i, case=case,
                violation=dict(cls=res["violation"][0], msg=res["violation"][1]),
                digest=res["digest"], trace=res["tail"], unminimised_case=original,
            ),
            h, indent=1,
        )


def fresh_replay(path, pid_):
    """Execute the replay file in a fresh interpreter; True when it fails the same way."""
    env = {k: v for k, v in os.environ.items() if k not in ("SIM_CHILD", "LD_PRELOAD", "NUMBA_CACHE_DIR")}
    env["SIM_HASHSEED"] = os.environ.get("PYTHONHASHSEED", "0")
    # the compiled code of this very tree may be shared with the fresh interpreter
    env["SIM_NUMBA_CACHE"] = os.environ["NUMBA_CACHE_DIR"]
    p = subprocess.run(
        [sys.executable, os.path.join(VERIF, "sim", "main.py"), pid_, "--replay", path],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=400,
    )
    out = p.stdout.decode(errors="replace")
    return "REPLAY-SAME" in out, out


def do_replay(mod, pid_, path, scratch):
    with open(path) as h:
        rec = json.load(h)
    res = in_child(mod, rec["case"], scratch, timeout=RUN_TIMEOUT * 1.5)
    if res["error"]:
        print(res["error"])
        return 2
    v = res["violation"]
    if v is None:
        print("REPLAY-PASSED (the recorded violation does not happen on this tree)")
        return 0
    want = rec["violation"]
    if v[0] == want["cls"]:
        exact = v[1] == want["msg"] and res["digest"] == rec["digest"]
        print("REPLAY-SAME", "exact" if exact else "class")
    else:
        print("REPLAY-OTHER")
    for e in res["tail"]:
        print("  ", *e)
    print(f"{v[0]}: {v[1]}")
    print(f"VIOLATION property={pid_} replay={path}")
    return 1


def start(mod, root):
    from .zygote import preload

    preload()
    if hasattr(mod, "start"):
        mod.start(root)


def wave(mod, pid_, seed, tier, root, nw):
    """Compile what the workload needs: a few unjudged cases in parallel, in processes of their own.

    The runs then find the compiled code instead of each compiling it; nothing but that code remains.
    """
    kids = []
    for w in range(nw):
        pid = os.fork()
        if pid == 0:
            quiet_child()
            signal.alarm(150)
            try:
                for k in range(2):
                    case = json.loads(json.dumps(mod.gen(rng_for("wave", pid_, w + k * 100), tier, w)))
                    getattr(mod, "wave", lambda c, s: execute(mod, c, s))(case, os.path.join(root, f"v{w}"))
            except BaseException:
                pass
            os._exit(0)
        kids.append(pid)
    for pid in kids:
        os.waitpid(pid, 0)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--digests")
    ap.add_argument("--survey", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args(argv)
    t_begin = time.monotonic()
    faulthandler.enable()
    pid_ = args.property
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    root = os.environ["SIM_SCRATCH"]
    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    try:
        from numcodecs import blosc

        blosc.use_threads = False
    except ImportError:
        pass
    mod = importlib.import_module(f"sim.props.{pid_.lower()}")
    known = load_known(pid_)
    try:
        mod.warmup(os.path.join(root, "warm"))
    except Exception:
        # The system cannot even do the plain warm-up workload: the runs will tell how.
        if args.verbose:
            traceback.print_exc()
    if args.replay:
        start(mod, root)
        return do_replay(mod, pid_, args.replay, os.path.join(root, "w0"))
    n_runs = args.runs or int(os.environ.get("SIM_RUNS", 0)) or mod.RUNS[tier]
    cap = float(os.environ.get("SIM_CAP", 0)) or (480.0 if tier == "quick" else 3 * 3600.0)
    nw = args.workers or max(1, min(8, os.cpu_count() or 1))
    nw = min(nw, n_runs)
    t1 = time.monotonic()
    wave(mod, pid_, seed, tier, root, nw)
    t2 = time.monotonic()
    start(mod, root)
    if args.verbose:
        print(f'warm-up {t1 - t_begin:.1f} wave {t2 - t1:.1f} start {time.monotonic() - t2:.1f}')
    t_warm = time.monotonic() - t_begin
    # ---- workers -------------------------------------------------------
    workers = {}

    def spawn(w, indexes):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for o in workers.values():
                os.close(o["r"])
            try:
                worker(mod, pid_, seed, tier, indexes, wr, os.path.join(root, f"w{w}"))
            except BaseException:
                try:
                    send(wr, ("crash", traceback.format_exc()))
                finally:
                    os._exit(9)
        os.close(wr)
        workers[w] = dict(r=r, pid=pid, rd=Reader(r), idx=indexes, cur=None, t0=time.monotonic())

    for w in range(nw):
        spawn(w, list(range(args.start + w, args.start + n_runs, nw)))
    agg = dict(faults={}, probes={}, covered=set(), simdays=0.0, done=0, nontriv=set(), digests={}, busy=0.0)
    violations, known_hits, errors = [], {}, []
    capped = False

    def absorb(i, out):
        agg["done"] += 1
        agg["busy"] += out["wall"]
        for k in ("faults", "probes"):
            for a, b in out[k].items():
                agg[k][a] = agg[k].get(a, 0) + b
        agg["covered"] |= out["covered"]
        agg["simdays"] += out["simdays"]
        if out["nontrivial"]:
            agg["nontriv"].add(out.get("case_digest", str(i)))
        agg["digests"][i] = (out["digest"], out["violation"])
        if out["error"]:
            errors.append((i, out["error"]))
        if out["violation"]:
            case = json.loads(json.dumps(mod.gen(rng_for(seed, pid_, i), tier, i)))
            hit = [k for k in known if matches(k, case, *out["violation"])]
            if hit:
                known_hits.setdefault(hit[0]["id"], []).append(i)
            else:
                violations.append((i, case, out))

    def reap(w):
        o = workers.pop(w)
        os.close(o["r"])
        try:
            os.kill(o["pid"], signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(o["pid"], 0)
        return o

    def suspicious(w, what):
        """A worker died or hangs inside a run: judge that run alone, then go on with the rest."""
        o = reap(w)
        i = o["cur"]
        if i is None:
            errors.append((-1, f"worker {w} {what} outside of a run"))
            return
        case = json.loads(json.dumps(mod.gen(rng_for(seed, pid_, i), tier, i)))
        res = in_child(mod, case, os.path.join(root, f"s{w}"), timeout=RUN_TIMEOUT * 1.3)
        absorb(i, res)
        if res["violation"] is None and res["error"] is None:
            errors.append((i, f"worker {what} in run {i}, which passes alone"))
        rest = [j for j in o["idx"] if j > i]
        if rest and (args.survey or not violations):
            spawn(w, rest)

    while workers:
        if violations and not args.survey:
            break
        if time.monotonic() - t_begin > cap:
            capped = True
            break
        fds = {o["r"]: w for w, o in workers.items()}
        ready = select.select(list(fds), [], [], 1.0)[0]
        now = time.monotonic()
        for fd in ready:
            w = fds[fd]
            o = workers[w]
            msgs = o["rd"].feed()
            if msgs is None:
                suspicious(w, "died")
                continue
            for m in msgs:
                if m[0] == "start":
                    o["cur"], o["t0"] = m[1], now
                elif m[0] == "done":
                    o["cur"] = None
                    absorb(m[1], m[2])
                elif m[0] == "crash":
                    errors.append((-1, m[1]))
                elif m[0] == "end":
                    reap(w)
                    break
        for w in [w for w, o in workers.items() if o["cur"] is not None and now - o["t0"] > RUN_TIMEOUT]:
            suspicious(w, "stuck")
    for w in list(workers):
        reap(w)
    t_search = time.monotonic() - t_begin
    # ---- report --------------------------------------------------------
    if args.digests:
        with open(args.digests, "w") as h:
            for i in sorted(agg["digests"]):
                h.write(f"{i} {agg['digests'][i]}\n")
    if args.survey:
        from collections import Counter

        c = Counter(out["violation"][0] + " | " + out["violation"][1][:110] for _, _, out in violations)
        first = {}
        for i, _, out in sorted(violations, key=lambda v: v[0]):
            first.setdefault(out["violation"][0] + " | " + out["violation"][1][:110], i)
        for k, n in c.most_common(40):
            print(f"{n:5d}  run {first[k]}: {k}")
        for i, e in errors[:3]:
            print(f"HARNESS-ERROR run {i}: {e}")
        print(json.dumps(dict(done=agg["done"], viol=len(violations), errors=len(errors), faults=agg["faults"], probes=agg["probes"],
                              states=len(agg["covered"]), nontriv=len(agg["nontriv"]), warm=t_warm, wall=time.monotonic() - t_begin,
                              mean_run=agg["busy"] / max(1, agg["done"])), indent=1))
        return 0
    rc = 0
    reported = []
    for i, case, out in sorted(violations, key=lambda v: v[0])[:1]:
        cls = out["violation"][0]
        small, tried = minimise(mod, case, cls, os.path.join(root, "min"), 90 if tier == "quick" else 600, known)
        res = in_child(mod, small, os.path.join(root, "min"), timeout=RUN_TIMEOUT * 1.3)
        if not res["violation"] or res["violation"][0] != cls:
            small, res = case, out
        path = replay_path(pid_, seed, i)
        write_replay(path, pid_, seed, i, small, res, case)
        same, text = fresh_replay(path, pid_)
        if not same and small != case:
            write_replay(path, pid_, seed, i, case, out, case)
            same, text = fresh_replay(path, pid_)
        print(f"run {i} of seed {seed}: {res['violation'][0]}: {res['violation'][1]}")
        print(f"minimised with {tried} candidate runs; replay in a fresh process: {'same violation' if same else 'NOT reproduced'}")
        if same:
            print(f"VIOLATION property={pid_} replay={path}")
            reported.append(path)
            rc = 1
        else:
            print(text)
            errors.append((i, "violation does not replay"))
    for k, runs in known_hits.items():
        e = next(x for x in known if x["id"] == k)
        print(f"KNOWN-FINDING: property={pid_} {e['what']} (seen in {len(runs)} runs)")
    # Known findings are re-demonstrated even when the search did not meet them
    for e in known:
        if e["id"] not in known_hits and "replay_case" in e:
            res = in_child(mod, e["replay_case"], os.path.join(root, "kf"))
            if res["violation"]:
                print(f"KNOWN-FINDING: property={pid_} {e['what']}")
    wall = time.monotonic() - t_begin
    if rc == 0 and errors:
        for i, e in errors[:3]:
            print(f"HARNESS-ERROR run {i}: {e}")
        rc = 2
    if rc == 0 and agg["done"] == 0:
        print("HARNESS-ERROR no run completed")
        rc = 2
    samples = []
    for i in list(range(args.start, args.start + 3)):
        samples.append(json.loads(json.dumps(mod.gen(rng_for(seed, pid_, i), tier, i))))
    ev = dict(
        property=pid_, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=agg["done"], distinct_nontrivial=len(agg["nontriv"]), rule=mod.RULE, samples=samples,
            runs_planned=n_runs, stopped_by_time_cap=capped,
            runs_per_hour=round(agg["done"] / max(t_search - t_warm, 1e-3) * 3600),
            seeds_per_hour=round(agg["done"] / max(t_search - t_warm, 1e-3) * 3600),
            simulated_days=round(agg["simdays"], 2), faults_fired=dict(sorted(agg["faults"].items())),
            probes=dict(sorted(agg["probes"].items())),
            distinct_schedules_or_states=len(agg["covered"]), state_measure=getattr(mod, "MEASURE", ""),
            real_components=mod.REAL, stub_components=mod.STUB, workers=nw, warmup_s=round(t_warm, 1),
            known_findings=sorted(known_hits), harness_errors=len(errors),
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2), violations=len(reported),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid_}.json"), "w") as h:
        json.dump(ev, h, indent=1)
    print(
        f"{pid_}: {agg['done']}/{n_runs} runs, {len(agg['nontriv'])} distinct non-trivial, "
        f"{sum(agg['faults'].values())} faults, {len(agg['covered'])} states, warm-up {t_warm:.0f} s, wall {wall:.0f} s, rc {rc}"
    )
    if args.verbose:
        print(json.dumps(dict(faults=agg["faults"], probes=agg["probes"]), indent=1))
    return rc
