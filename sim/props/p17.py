"""Remote samples are returned whole or refused."""
import io
import lzma
import os
import random
import socket
import ssl
import tarfile
import tempfile

import numpy as np

from .. import core, faults
from .. import world as W

RUNS = dict(quick=2500, thorough=80000)
RULE = (
    "A case is one to three published samples (single files or archives of drawn identification files) and one to six fetches of them: for each, what the server "
    "answers (status, redirection, length announced, chunks or end of connection), how the bytes arrive, and the fault (address unknown, connection refused, TLS "
    "failure, connection reset, silence or end of the transfer at a drawn byte, damaged, lost or doubled byte, failing read of a local copy). The real HTTP client "
    "runs above the simulated connection. Non-trivial: a fetch failed, or was split or redirected."
)
MEASURE = "distinct (kind of sample, status, framing, redirection, fault, place of the fault in the transfer, result)"
REAL = ["get_remote_demo_sample", "requests, urllib3, http.client", "lzma, tarfile", "EddiesObservations.load_file, netCDF4/HDF5 (from memory)"]
STUB = ["network connection and TLS below the HTTP client", "server (serves the published samples, faults from the schedule)"]
ASSUMPTIONS = [
    "A file which is not in an archive carries no checksum and its transfer is protected by TLS: damage is only injected in archives.",
    "A server which announces no length and is cut short can't be told from a complete one, except for archives; nor can one which is cut inside of the header.",
]
HOST = "github.com"
ROOT = "/AntSimi/py-eddy-tracker-sample-id/raw/master/"
CDN = "raw.githubusercontent.com"


def gen(rng, tier, i):
    samples = []
    for k in range(rng.choice((1, 1, 2, 3))):
        arch = rng.random() < 0.6
        samples.append(dict(kind="archive" if arch else "nc", files=[rng.randrange(POOL) for _ in range(rng.choice((1, 2, 3, 5)) if arch else 1)], name=f"set{k}/Anticyclonic" if rng.random() < 0.4 else f"eddies_{k}",
                            folder=rng.choice(("", "", "set/")), fmt=rng.choice(("gnu", "pax", "ustar")), check=rng.choice(("crc32", "crc64", "sha256"))))
    fetches = []
    for _ in range(rng.choice((1, 2, 3, 4, 6))):
        s = rng.randrange(len(samples))
        arch = samples[s]["kind"] == "archive"
        fault = "none"
        if rng.random() < 0.6:
            fault = rng.choice(("status", "status", "cut", "cut", "reset", "silence", "dns", "refused", "tls") + (("damage", "damage", "lost", "doubled", "page") if arch else ()))
        local = rng.random() < 0.12
        if local:
            fault = rng.choice(("none", "eio", "short"))
        framing = rng.choice(("length", "length", "chunked", "close"))
        if framing == "close" and fault == "cut" and not arch:
            framing = "length"
        where = rng.choice(("body", "body", "body", "head")) if arch or fault != "cut" else "body"
        if arch and fault == "cut" and rng.random() < 0.5:
            # at the end of one of the files of the archive, where what is decoded looks complete
            where, framing = "edge", "close"
        fetches.append(dict(sample=s, fault=fault, local=local, framing=framing, status=rng.choice((404, 403, 429, 500, 502, 503, 400, 410)),
                            redirect=rng.random() < 0.6, at=rng.choice((0, rng.random(), rng.random(), rng.random() ** 4, 1 - rng.random() ** 4 * 0.2)),
                            where=where, pieces=rng.choice((0, 0, 60, 700, 9000)), bit=rng.randrange(1, 256),
                            body=rng.choice(("page", "sample", "empty"))))
    return dict(samples=samples, fetches=fetches, seed=rng.randrange(1 << 30), load=rng.random() < 0.5)


def warmup(tmp):
    for k in range(POOL):
        drawn_file(k)
    for k in range(3):
        c = gen(random.Random(k), "quick", 0)
        c["load"] = True
        for f in c["fetches"]:
            f.update(fault="none", local=False)
        try:
            run(c, core.Ctx(os.path.join(tmp, str(k))))
        except core.Violation:
            pass


# ---- published samples -------------------------------------------------------
POOL = 12
FILES = {}


def drawn_file(k):
    """Bytes of a file of the pool."""
    if k not in FILES:
        rng = random.Random(f"sample {k}")
        w = W.gen_world(rng, ("sparse", "crowd")[k % 2], 1, max_eddies=3, allow_empty=False)
        w["nb_sample"] = (4, 6, 10)[k % 3]
        with tempfile.TemporaryDirectory() as d:
            with open(W.write_files(w, d)[0], "rb") as h:
                FILES[k] = h.read()
    return FILES[k]


def publish(s):
    """(name asked, name of the resource, bytes of the resource, [(member, bytes)])."""
    if s["kind"] == "nc":
        data = drawn_file(s["files"][0])
        return s["name"] + ".nc", s["name"] + ".nc", data, [(None, data)]
    out, members = io.BytesIO(), []
    fmt = dict(gnu=tarfile.GNU_FORMAT, pax=tarfile.PAX_FORMAT, ustar=tarfile.USTAR_FORMAT)[s["fmt"]]
    with tarfile.open(fileobj=out, mode="w", format=fmt) as t:
        for k, f in enumerate(s["files"]):
            name, data = f"{s['folder']}Anticyclonic_{(k * 7 + 3) % 10}_{k}.nc", drawn_file(f)
            info = tarfile.TarInfo(name)
            info.size = len(data)
            t.addfile(info, io.BytesIO(data))
            members.append((name, data))
    check = dict(crc32=lzma.CHECK_CRC32, crc64=lzma.CHECK_CRC64, sha256=lzma.CHECK_SHA256)[s["check"]]
    return s["name"], s["name"] + ".tar.xz", lzma.compress(out.getvalue(), check=check, preset=0), members


# ---- simulated network -------------------------------------------------------
class Raw(io.RawIOBase):
    """Bytes which come from the network, in pieces, until an end which is not always the expected one."""

    def __init__(self, data, piece, rng, end):
        self.data, self.pos, self.piece, self.rng, self.end = data, 0, piece, rng, end

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), len(self.data) - self.pos)
        if n == 0:
            if self.end == "reset":
                raise ConnectionResetError(104, "Connection reset by peer")
            if self.end == "silence":
                raise TimeoutError("timed out")
            return 0
        if self.piece:
            n = min(n, self.rng.randint(1, self.piece))
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Sock:
    def __init__(self, net, host):
        self.net, self.host, self.sent = net, host, b""

    def sendall(self, data, *a):
        self.sent += bytes(data)

    def makefile(self, mode="rb", *a, **k):
        data, end = self.net.answer(self.host, self.sent)
        return io.BufferedReader(Raw(data, self.net.plan["pieces"], self.net.rng, end), 1 if self.net.plan["pieces"] == 1 else 8192)

    def settimeout(self, *a):
        pass

    setsockopt = shutdown = settimeout

    def close(self):
        pass

    def fileno(self):
        return -1


class Net:
    def __init__(self, ctx, published, rng):
        self.ctx, self.published, self.rng, self.plan, self.undo = ctx, published, rng, None, []
        self.asked = []

    def __enter__(self):
        import http.client

        import urllib3.connection as u

        net = self

        def connect(conn):
            f = net.plan["fault"]
            if f == "dns":
                raise u.NameResolutionError(conn.host, conn, socket.gaierror(-3, "Temporary failure in name resolution"))
            if f == "refused":
                raise u.NewConnectionError(conn, "Failed to establish a new connection: [Errno 111] Connection refused")
            if f == "tls":
                raise ssl.SSLCertVerificationError(1, "certificate verify failed")
            conn.sock = Sock(net, conn.host)
            conn.is_verified = True

        def connect_std(conn):
            f = net.plan["fault"]
            if f == "dns":
                raise socket.gaierror(-3, "Temporary failure in name resolution")
            if f == "refused":
                raise ConnectionRefusedError(111, "Connection refused")
            if f == "tls":
                raise ssl.SSLCertVerificationError(1, "certificate verify failed")
            conn.sock = Sock(net, conn.host)

        for owner, fn in ((u.HTTPSConnection, connect), (u.HTTPConnection, connect), (http.client.HTTPSConnection, connect_std), (http.client.HTTPConnection, connect_std)):
            self.undo.append((owner, owner.__dict__["connect"]))
            owner.connect = fn
        return self

    def __exit__(self, *a):
        for owner, fn in self.undo:
            owner.connect = fn

    def answer(self, host, request):
        """Bytes sent for a request, and how the connection ends."""
        p = self.plan
        verb, target = request.split(b"\r\n", 1)[0].decode().split(" ")[:2]
        self.asked.append(target)
        head = ["Server: GitHub.com", "Content-Type: application/octet-stream"]
        if p["redirect"] and host == HOST:
            if not target.startswith(ROOT):
                return http(404, head, b"<html>Not Found</html>", "length", self.rng), "close"
            return http(302, head + [f"Location: https://{CDN}{target}"], b"", "length", self.rng), "close"
        name = target[len(ROOT):] if target.startswith(ROOT) else None
        if name not in self.published:
            return http(404, head, b"<html>Not Found</html>", "length", self.rng), "close"
        body = self.published[name]
        page = b"<!DOCTYPE html><html><body>Error</body></html>"
        f = p["fault"]
        if f == "status":
            return http(p["status"], head, dict(page=page, sample=body, empty=b"")[p["body"]], p["framing"], self.rng), "close"
        k = min(int(p["at"] * len(body)), len(body) - 1)
        if f == "page":
            body = page
        elif f == "damage":
            body = body[:k] + bytes([body[k] ^ p["bit"]]) + body[k + 1:]
        elif f == "lost":
            body = body[:k] + body[k + 1:]
        elif f == "doubled":
            body = body[:k + 1] + body[k:]
        data = http(200, head, body, p["framing"], self.rng)
        start = data.index(b"\r\n\r\n") + 4
        if f in ("cut", "reset", "silence"):
            if p["where"] == "head":
                data = data[:int(p["at"] * start)]
            else:
                k = min(int(p["at"] * (len(data) - start)), len(data) - start - 1)
                if p["where"] == "edge" and name.endswith(".xz"):
                    k = edge(body, p["at"])
                data = data[:start + k]
        return data, f if f in ("reset", "silence") else "close"


def edge(body, at):
    """Bytes of the archive (less than all) needed to decode exactly up to the end of one of its files."""
    with tarfile.open(fileobj=io.BytesIO(lzma.decompress(body))) as t:
        ends = [m.offset_data + (m.size + 511) // 512 * 512 for m in t][:-1] or [0]
    want = ends[int(at * len(ends)) % len(ends)]
    lo, hi = 0, len(body) - 1
    while lo < hi:
        k = (lo + hi) // 2
        if len(lzma.LZMADecompressor().decompress(body[:k])) < want:
            lo = k + 1
        else:
            hi = k
    return lo


def http(status, head, body, framing, rng):
    from http.client import responses

    h = list(head)
    if framing == "length":
        h.append(f"Content-Length: {len(body)}")
    elif framing == "close":
        h.append("Connection: close")
    else:
        h.append("Transfer-Encoding: chunked")
        out, k = b"", 0
        while k < len(body):
            n = rng.randint(1, max(1, len(body) // 3))
            out += b"%x\r\n" % len(body[k:k + n]) + body[k:k + n] + b"\r\n"
            k += n
        body = out + b"0\r\n\r\n"
    return f"HTTP/1.1 {status} {responses.get(status, 'X')}\r\n".encode() + "".join(x + "\r\n" for x in h).encode() + b"\r\n" + body


# ---- run ---------------------------------------------------------------------
def run(case, ctx):
    from py_eddy_tracker import data as lib

    published, samples = {}, []
    for s in case["samples"]:
        d = ctx.dir()
        ask, name, body, members = publish(s)
        published[name] = body
        samples.append((ask, name, body, members, d))
    rng = random.Random(case["seed"])
    kept = []
    with Net(ctx, published, rng) as net:
        for n, p in enumerate(case["fetches"]):
            ask, name, body, members, d = samples[p["sample"]]
            net.plan = p
            ctx.simdays += 1
            if p["local"]:
                local = os.path.join(d, os.path.basename(name))
                with open(local, "wb") as h:
                    h.write(body)
                ask = local
                if p["fault"] == "eio":
                    faults.arm(d)
                    faults.fail_read(0, "EIO", True)
                elif p["fault"] == "short":
                    faults.arm(d)
                    faults.transfers(300, 300, case["seed"])
            try:
                got, err = lib.get_remote_demo_sample(ask), None
            except (KeyboardInterrupt, MemoryError):
                raise
            except Exception as e:
                got, err = None, e
            finally:
                fired = faults.counts() if p["local"] else None
                faults.disarm()
            bad = p["fault"] not in ("none", "short")
            if p["fault"] != "none":
                ctx.fault(p["fault"] if p["fault"] != "status" else "error status")
            ctx.nontrivial |= bad or bool(p["pieces"]) or p["redirect"]
            what = f"fetch {n} ({p['fault']}{' ' + str(p['status']) if p['fault'] == 'status' else ''}, {p['framing']})"
            if err is not None:
                ctx.check(bad, f"refused/{p['fault']}/{type(err).__name__}", lambda: f"{what}: {str(err)[:150]}")
                ctx.probe(f"refused with {type(err).__name__}")
            else:
                compare(ctx, what, p, got, members)
                kept.append((what, p, got, members, d))
            ctx.cover(samples[p["sample"]][3][0][0] is None, p["status"] if p["fault"] == "status" else 0, p["framing"], p["redirect"], p["fault"], p["local"],
                      int(p["at"] * 4), err is None)
            ctx.log(n, p["fault"], type(err).__name__ if err else "data")
        # the buffers which were returned are still whole, and independent
        for what, p, got, members, d in kept:
            compare(ctx, what + ", later", p, got, members)
        if case["load"] and kept:
            load(ctx, kept, rng)


def compare(ctx, what, p, got, members):
    # damage, loss or doubling are not always visible in what is decoded: data has to be the one published
    if members[0][0] is None:
        got = [got]
        ctx.check(isinstance(got[0], io.BytesIO), "type", lambda: f"{what}: {type(got[0])}")
    ctx.check(isinstance(got, list), "type", lambda: f"{what}: {type(got)}")
    have = []
    for g in got:
        g.seek(0)
        have.append((getattr(g, "filename", None) if members[0][0] is not None else None, g.read()))
    cls = "wrong/" + p["fault"]
    ctx.check(len(have) == len(members), cls, lambda: f"{what}: {len(have)} files of {len(members)}")
    for k, ((n0, b0), (n1, b1)) in enumerate(zip(have, members)):
        ctx.check(n0 == n1, cls, lambda: f"{what}: file {k} is {n0}, expected {n1}")
        ctx.check(b0 == b1, cls, lambda: f"{what}: {len(b0)} bytes returned, {len(b1)} published, {b0[:20]!r}")


def load(ctx, kept, rng):
    """The library reads the buffers in any order, several times."""
    from py_eddy_tracker.observations.observation import EddiesObservations

    todo = [(g, m, d) for what, p, got, members, d in kept for g, m in zip(got if isinstance(got, list) else [got], members)]
    todo = [t for t in todo for _ in range(rng.choice((1, 1, 2)))]
    rng.shuffle(todo)
    for g, (name, data), d in todo[:6]:
        g.seek(rng.choice((0, 3, len(data))))
        have = ctx.sut("load", EddiesObservations.load_file, g)
        path = os.path.join(d, "published.nc")
        with open(path, "wb") as h:
            h.write(data)
        want = EddiesObservations.load_file(path)
        ctx.check(have.dtype == want.dtype and np.array_equal(have.obs, want.obs) and have.sign_type == want.sign_type, "load", f"observations of {name} differ")
        ctx.probe("loaded")


def shrink(case):
    for f in core.shrink_list(case["fetches"], 1):
        yield dict(case, fetches=f)
    for k, f in enumerate(case["fetches"]):
        for key, v in (("fault", "none"), ("redirect", False), ("framing", "length"), ("pieces", 0), ("status", 404), ("body", "page"), ("where", "body"), ("at", 0.5), ("local", False)):
            if f[key] != v and not (key == "local" and f["fault"] in ("eio", "short")):
                yield dict(case, fetches=case["fetches"][:k] + [dict(f, **{key: v})] + case["fetches"][k + 1:])
    if case["load"]:
        yield dict(case, load=False)
    for k, s in enumerate(case["samples"]):
        for f in core.shrink_list(s["files"], 1):
            yield dict(case, samples=case["samples"][:k] + [dict(s, files=f)] + case["samples"][k + 1:])
