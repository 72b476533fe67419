"""Cooperative scheduling of real threads: exactly one runs, a recorded choice decides who goes on.

Each task runs the real code in its own thread.  It hands control back at every yield point (the
harness puts them at the seams the tasks share: contour and file loading, grid access).  The next
task is taken from the case's list of choices, so the interleaving is part of the replay file.
"""
import threading

_local = threading.local()


class Killed(BaseException):
    pass


class Scheduler:
    def __init__(self, choices, log=None):
        self.choices, self.pos, self.log = list(choices), 0, log
        self.tasks, self.steps, self.switches = [], 0, 0

    def add(self, fn, *a, **k):
        self.tasks.append(dict(fn=lambda: fn(*a, **k), go=threading.Semaphore(0), back=threading.Semaphore(0), done=False,
                               result=None, error=None, dead=False))
        return len(self.tasks) - 1

    def _body(self, t):
        t["go"].acquire()
        _local.task = (self, t)
        try:
            if t["dead"]:
                return
            t["result"] = t["fn"]()
        except Killed:
            pass
        except BaseException as e:
            t["error"] = e
        finally:
            _local.task = None
            t["done"] = True
            t["back"].release()

    def run(self, max_steps=200000):
        for t in self.tasks:
            t["thread"] = threading.Thread(target=self._body, args=(t,), daemon=True)
            t["thread"].start()
        last = None
        try:
            while True:
                alive = [k for k, t in enumerate(self.tasks) if not t["done"]]
                if not alive:
                    return True
                if self.steps >= max_steps:
                    return False
                c = self.choices[self.pos % len(self.choices)] if self.choices else 0
                self.pos += 1
                k = alive[c % len(alive)]
                self.steps += 1
                if last is not None and k != last:
                    self.switches += 1
                last = k
                if self.log is not None:
                    self.log.append(k)
                t = self.tasks[k]
                t["go"].release()
                t["back"].acquire()
        finally:
            for t in self.tasks:
                if not t["done"]:
                    t["dead"] = True
                    t["go"].release()
                    t["back"].acquire()
                t["thread"].join(5)


def yield_point():
    """Called at a seam; does nothing outside of a scheduled task."""
    cur = getattr(_local, "task", None)
    if cur is None:
        return
    _, t = cur
    t["back"].release()
    t["go"].acquire()
    if t["dead"]:
        raise Killed()


def hook(owner, name):
    """Replace owner.name by itself preceded by a yield point. Returns an undo function."""
    import functools

    raw = owner.__dict__[name]
    fn = raw.__func__ if isinstance(raw, (classmethod, staticmethod)) else raw

    @functools.wraps(fn)
    def wrapped(*a, **k):
        yield_point()
        return fn(*a, **k)

    new = type(raw)(wrapped) if isinstance(raw, (classmethod, staticmethod)) else wrapped
    setattr(owner, name, new)
    return lambda: setattr(owner, name, raw)
