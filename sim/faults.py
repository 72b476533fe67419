"""Python side of the system-call seam (see shim.c), and the simulated crash disk."""
import ctypes
import errno
import os
import shutil

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.sim_count.restype = ctypes.c_long
        _lib.sim_arm.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
        for f in (_lib.sim_fail_mut, _lib.sim_fail_read, _lib.sim_fail_open):
            f.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int]
        _lib.sim_die_at.argtypes = [ctypes.c_long]
        _lib.sim_transfers.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_ulong]
    return _lib


ERR = dict(ENOSPC=errno.ENOSPC, EIO=errno.EIO, EDQUOT=errno.EDQUOT, EACCES=errno.EACCES, EMFILE=errno.EMFILE, ENOENT=errno.ENOENT)


def arm(prefix, journal=""):
    lib().sim_arm(prefix.encode(), journal.encode())


def disarm():
    lib().sim_disarm()


def fail_mut(at, err, sticky=False):
    lib().sim_fail_mut(at, ERR[err], int(sticky))


def fail_read(at, err="EIO", sticky=False):
    # netCDF-C 4.9 frees pointers it never set when reading an attribute fails: harmless with zeroed memory only
    memory(0)
    lib().sim_fail_read(at, ERR[err], int(sticky))


def fail_open(at, err="EIO", sticky=False):
    memory(0)
    lib().sim_fail_open(at, ERR[err], int(sticky))


def die_at(at):
    lib().sim_die_at(at)


def transfers(short_permille=0, eintr_permille=0, seed=1):
    lib().sim_transfers(short_permille, eintr_permille, seed)


def counts():
    n = [lib().sim_count(i) for i in range(6)]
    return dict(mut=n[0], read=n[1], open=n[2], fired=n[3], short=n[4], eintr=n[5])


def read_journal(path):
    ops, p = [], 0
    with open(path, "rb") as h:
        b = h.read()
    while p < len(b):
        e = b.index(b"\n", p)
        op, off, ln, l1, l2 = b[p:e].split(b" ")
        off, ln, l1, l2 = int(off), int(ln), int(l1), int(l2)
        p = e + 1
        a = b[p:p + l1].decode()
        p += l1
        a2 = b[p:p + l2].decode()
        p += l2
        d = b""
        if op == b"write":
            d = b[p:p + ln]
            p += ln
        p += 1
        ops.append((op.decode(), a, a2, off, d))
    return ops


class Disk:
    """Files below a folder, rebuilt operation by operation (what a killed process leaves behind)."""

    def __init__(self, src):
        self.src = src
        self.files, self.dirs = {}, set()
        for base, dirs, files in os.walk(src):
            for d in dirs:
                self.dirs.add(os.path.join(base, d))
            for f in files:
                with open(os.path.join(base, f), "rb") as h:
                    self.files[os.path.join(base, f)] = bytearray(h.read())

    def apply(self, op, torn=None):
        kind, a, b, off, d = op
        if kind == "mkdir":
            self.dirs.add(a)
        elif kind == "rmdir":
            self.dirs.discard(a)
        elif kind == "trunc0":
            self.files[a] = bytearray()
        elif kind == "create":
            self.files.setdefault(a, bytearray())
        elif kind == "write":
            if torn is not None:
                d = d[:torn]
            x = self.files.setdefault(a, bytearray())
            if len(x) < off + len(d):
                x.extend(bytes(off + len(d) - len(x)))
            x[off:off + len(d)] = d
        elif kind == "truncate":
            x = self.files[a]
            if len(x) > off:
                del x[off:]
            else:
                x.extend(bytes(off - len(x)))
        elif kind == "rename":
            if a in self.files:
                self.files[b] = self.files.pop(a)
            else:
                pa, pb = a + "/", b + "/"
                for f in [f for f in self.files if f.startswith(pa)]:
                    self.files[pb + f[len(pa):]] = self.files.pop(f)
                for f in [f for f in self.dirs if f.startswith(pa)]:
                    self.dirs.discard(f)
                    self.dirs.add(pb + f[len(pa):])
                self.dirs.discard(a)
                self.dirs.add(b)
        elif kind == "unlink":
            self.files.pop(a, None)

    def materialise(self, dst):
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        tr = lambda p: dst + p[len(self.src):]
        for d in sorted(self.dirs):
            os.makedirs(tr(d), exist_ok=True)
        for f, x in self.files.items():
            os.makedirs(os.path.dirname(tr(f)), exist_ok=True)
            with open(tr(f), "wb") as h:
                h.write(x)


def clock(now=None, step=0.0, jump_at=-1, jump=0.0):
    """Simulated wall clock (seconds since 1970); None gives the real one back."""
    f = lib().sim_clock
    f.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64, ctypes.c_long, ctypes.c_int64]
    if now is None:
        f(0, 0, 0, -1, 0)
    else:
        f(1, int(now * 1e9), int(step * 1e9), jump_at, int(jump * 1e9))


def clock_reads():
    lib().sim_clock_reads.restype = ctypes.c_long
    return lib().sim_clock_reads()


def memory(byte=-1):
    """What newly allocated memory holds; -1 leaves it to chance."""
    lib().sim_memory(byte)
