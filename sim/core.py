"""Objects shared by every simulated run."""
import hashlib
import json
import os
import random
import shutil
import traceback


class Violation(Exception):
    """The property is broken: class (stable, used to minimise) and message (deterministic)."""

    def __init__(self, cls, msg=""):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg = cls, msg


class Ctx:
    """Record of one run: event log, faults fired, rare conditions hit, simulated time."""

    def __init__(self, scratch):
        self.root = scratch
        self.events = []
        self.faults = {}
        self.probes = {}
        self.covered = set()
        self.simdays = 0.0
        self.nontrivial = False
        self._n = 0

    def dir(self, name=None):
        self._n += 1
        d = os.path.join(self.root, name or f"d{self._n}")
        os.makedirs(d, exist_ok=True)
        return d

    def log(self, *event):
        self.events.append(tuple(event))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def cover(self, *key):
        self.covered.add(hashlib.sha1(repr(key).encode()).hexdigest()[:12])

    def digest(self):
        return hashlib.sha1(repr(self.events).encode()).hexdigest()

    def sut(self, label, fn, *a, **k):
        """Call into the system under test where the property requires it to succeed."""
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "py_eddy_tracker" in f.filename), "?")
            text = str(e).replace(self.root, "<scratch>")[:200]
            raise Violation(f"raised/{label}/{type(e).__name__}", f"{where}: {text}") from e

    def check(self, cond, cls, msg=""):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)


def rng_for(seed, pid, i):
    return random.Random(f"{seed}/{pid}/{i}")


def case_digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def fresh_dir(path):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def shrink_list(lst, minimum=0):
    """Candidates with chunks removed, biggest first."""
    n = len(lst)
    size = n - minimum
    size = max(1, size // 2) if size > 0 else 0
    while size >= 1:
        for i in range(0, n, size):
            new = lst[:i] + lst[i + size:]
            if len(new) >= minimum and len(new) < n:
                yield new
        size //= 2


def shrink_int(v, low=0):
    if v > low:
        yield low
        if (v + low) // 2 not in (v, low):
            yield (v + low) // 2
        if v - 1 > low:
            yield v - 1
