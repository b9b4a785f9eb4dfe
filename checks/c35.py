"""
C35: the same bytes give the same results whatever kind of stream they come from.

Enumerated on the real code: every sequence of stream elements up to the bound, offered by every kind of
stream the documentation allows - objects with nothing but read and readline, memory, files opened in all
ways, compressed files and archives, pipes, terminals, sockets of all families and types and files made of
them, HTTP responses, memory maps, streams which are false, equal to everything or sparing with data,
delegating or subclassed ones - under every error policy and way of reading. Oracle: the element model.
Afterwards the stream must be as the program left it: open, with no attributes added, nothing but read,
readline and (sockets) recv called on it, in the same blocking mode.
"""

import bz2
import gzip
import io
import itertools
import lzma
import mmap
import os
import pty
import shutil
import socket
import tarfile
import tempfile
import threading
import tty
import zipfile

from mc import core
from mc import stream as S

ID = "C35"
LEVEL = "exploration"
RULE = (
    "all sequences of elements up to length 2 (in memory 3; thorough: 3 and 4) x kinds of streams x policies x read / iterate; "
    "state = (kind, position in the stream), transition = element read; non-trivial = the stream holds a sentence"
)
ASSUMPTIONS = [
    "a stream is an object with read(n) and readline() which return bytes, or a socket (documentation)",
    "a call to the stream which cannot change it (seekable, fileno, in_waiting, peek, ...) is permitted",
]

ELS = [S.GLL, S.SHORT, S.GSV, S.PUBX, S.BADCK, S.BADFLD, S.UNK, S.UBXD, S.DOL, S.DOL2, S.CRLF, S.LF, S.TEXT, S.HI]
CONFIGS = [dict(policy=p, validate=v, handler=h) for p, v, h in ((S.RAISE, 1, False), (S.LOG, 3, True), (S.LOG, 1, False), (S.IGNORE, 0, True))]


class Minimal:
    """read and readline, nothing else."""

    __slots__ = ("_d", "_p", "asked")

    def __init__(self, data):
        self._d, self._p, self.asked = data, 0, []

    def read(self, size):
        out = self._d[self._p : self._p + size]
        self._p += len(out)
        return out

    def readline(self):
        e = self._d.find(b"\n", self._p) + 1 or len(self._d)
        out, self._p = self._d[self._p : e], e
        return out


class Falsy(Minimal):
    __slots__ = ()

    def __bool__(self):
        return False


class Empty(Minimal):
    __slots__ = ()

    def __len__(self):
        return 0


class Equal(Minimal):
    __slots__ = ()

    def __eq__(self, other):
        return True

    __hash__ = None


class Raises(Minimal):
    """Can neither be compared, printed nor tested."""

    __slots__ = ()

    def _no(self, *_):
        raise RuntimeError("not for this stream")

    __eq__ = __ne__ = __bool__ = __len__ = __iter__ = __repr__ = __str__ = __hash__ = __next__ = __enter__ = __exit__ = _no


class Strict(Minimal):
    """Takes positional arguments only and returns an own subclass of bytes."""

    class Bytes(bytes):
        pass

    __slots__ = ()

    def read(self, size, /):
        return self.Bytes(Minimal.read(self, size))

    def readline(self, /):
        return self.Bytes(Minimal.readline(self))


class Serial:
    """Like a serial port: further methods, all of which are recorded if they change something."""

    def __init__(self, data):
        self._s = Minimal(data)
        self.asked = []
        self.timeout = 3
        self.is_open = True

    @property
    def in_waiting(self):
        return 0  # nothing is known to be there yet

    def inWaiting(self):
        return 0

    def read(self, size=1):
        return self._s.read(size)

    def readline(self, size=-1):
        return self._s.readline() if size < 0 else self.read(size)

    def _record(name):  # pylint: disable=no-self-argument
        def method(self, *a, **kw):
            self.asked.append(name)

        return method

    for _n in ("close", "flush", "reset_input_buffer", "reset_output_buffer", "flushInput", "flushOutput", "open", "write", "seek",
               "truncate", "cancel_read", "send_break", "detach", "shutdown", "settimeout", "setblocking", "connect", "bind"):
        locals()[_n] = _record(_n)


class Proxy:
    """Delegates everything to another stream."""

    def __init__(self, data):
        object.__setattr__(self, "_to", Serial(data))

    def __getattr__(self, name):
        return getattr(self._to, name)

    def __setattr__(self, name, value):
        self._to.asked.append(f"set {name}")


class Recv(Serial):
    """Has a recv method, but is no socket."""

    def recv(self, n):
        self.asked.append("recv")
        return b""


class InstanceMethods:
    """read and readline are attributes of the object, not of the class."""

    def __init__(self, data):
        s = Minimal(data)
        self.asked = s.asked
        self.read, self.readline = s.read, s.readline


class Raw(io.RawIOBase):
    """Implements readinto only; gives few bytes at a time."""

    def __init__(self, data, step):
        super().__init__()
        self._d, self._p, self._step = data, 0, step

    def readable(self):
        return True

    def readinto(self, b):
        out = self._d[self._p : self._p + min(len(b), self._step)]
        b[: len(out)] = out
        self._p += len(out)
        return len(out)


class ReadSub(io.BytesIO):
    """A subclass which counts and lets nothing but read and readline through."""

    def _no(self, *_a):
        raise AssertionError("not to be used")

    read1 = readinto = readinto1 = readlines = getvalue = getbuffer = seek = truncate = write = writelines = _no


def memory_kinds():
    def sub(cls, *a):
        return lambda data: cls(data, *a)

    def mapped(data):
        m = mmap.mmap(-1, max(1, len(data)))
        m.write(data)
        m.seek(0)
        return m

    return {
        "read and readline only": Minimal, "false": Falsy, "length 0": Empty, "equal to everything": Equal, "not comparable": Raises,
        "positional only": Strict, "like a serial port": Serial, "delegating": Proxy, "recv": Recv, "methods of the object": InstanceMethods,
        "raw, 1 byte at a time": sub(Raw, 1), "raw, 7 bytes at a time": sub(Raw, 7), "buffered raw": lambda d: io.BufferedReader(Raw(d, 5), 3),
        "buffered pair": lambda d: io.BufferedRWPair(io.BytesIO(d), io.BytesIO()), "BytesIO": io.BytesIO, "BytesIO subclass": ReadSub,
        "buffered memory": lambda d: io.BufferedReader(io.BytesIO(d), 8), "random access": lambda d: io.BufferedRandom(io.BytesIO(d)),
        "memory map": mapped,
    }


def file_kinds():
    """kind -> (write(data, path), open(path))"""

    def plain(path, data):
        with open(path, "wb") as f:
            f.write(data)

    def packed(mod):
        def write(path, data):
            with mod.open(path, "wb") as f:
                f.write(data)

        return write, lambda path: mod.open(path, "rb")

    def zwrite(path, data):
        with zipfile.ZipFile(path, "w") as z:
            z.writestr("x", data)

    def twrite(path, data):
        with tarfile.open(path, "w") as t:
            i = tarfile.TarInfo("x")
            i.size = len(data)
            t.addfile(i, io.BytesIO(data))

    def spool(path):
        t = tempfile.SpooledTemporaryFile(max_size=20, dir=os.path.dirname(path))
        with open(path, "rb") as f:
            t.write(f.read())
        t.seek(0)
        return t

    def named(path):
        t = tempfile.NamedTemporaryFile(dir=os.path.dirname(path))
        with open(path, "rb") as f:
            t.write(f.read())
        t.seek(0)
        return t

    return {
        "file": (plain, lambda p: open(p, "rb")),
        "unbuffered file": (plain, lambda p: open(p, "rb", buffering=0)),
        "file with a small buffer": (plain, lambda p: open(p, "rb", buffering=2)),
        "file to read and write": (plain, lambda p: open(p, "r+b")),
        "gzip": packed(gzip), "bz2": packed(bz2), "lzma": packed(lzma),
        "zip": (zwrite, lambda p: zipfile.ZipFile(p).open("x")),
        "tar": (twrite, lambda p: tarfile.open(p).extractfile("x")),
        "spooled": (plain, spool), "temporary": (plain, named),
    }


def system_kinds():
    """kind -> open(data) -> (stream, closers)"""

    def fill(fun, data):
        t = threading.Thread(target=fun, args=(data,), daemon=True)
        t.start()
        return t

    def pipe(**kw):
        def make(data):
            r, w = os.pipe()
            os.write(w, data)
            os.close(w)
            f = os.fdopen(r, "rb", **kw)
            return f, [f]

        return make

    def pair(family, typ, part=None):
        def make(data):
            a, b = socket.socketpair(family, typ)
            for i in range(0, len(data), part or len(data) or 1):
                a.send(data[i : i + (part or len(data))])
            if typ == socket.SOCK_DGRAM:
                b.settimeout(0.0)  # the end of the data looks like a timeout
                return b, [a, b]
            a.close()
            return b, [b]

        return make

    def tcp(family, addr):
        def make(data):
            with socket.socket(family, socket.SOCK_STREAM) as srv:
                srv.bind((addr, 0))
                srv.listen(1)
                b = socket.create_connection(srv.getsockname()[:2], timeout=20)
                a, _ = srv.accept()
            a.sendall(data)
            a.close()
            return b, [b]

        return make

    def made(mode, **kw):
        def make(data):
            b, cl = pair(socket.AF_UNIX, socket.SOCK_STREAM, 11)(data)
            f = b.makefile(mode, **kw)
            return f, [f, *cl]

        return make

    def udp(data):
        a, b = (socket.socket(socket.AF_INET, socket.SOCK_DGRAM) for _ in "ab")
        b.bind(("127.0.0.1", 0))
        for i in range(0, len(data), 30):
            a.sendto(data[i : i + 30], b.getsockname())
        b.settimeout(0.0)
        return b, [a, b]

    class Sub(socket.socket):
        """A subclass (like ssl.SSLSocket)."""

    def subclass(data):
        a, b = socket.socketpair()
        a.sendall(data)
        a.close()
        s = Sub(fileno=b.detach())
        return s, [s]

    def terminal(data):
        m, sl = pty.openpty()
        tty.setraw(sl)
        f = os.fdopen(sl, "rb", buffering=0)
        g = os.fdopen(m, "wb", buffering=0)
        t = fill(lambda d: (g.write(d)), data)
        t.join(20)

        class Limited:  # the end of the data is known to the program only
            asked = []
            n = 0

            def read(self, n):
                n = min(n, len(data) - self.n)
                out = f.read(n) if n else b""
                self.n += len(out)
                return out

            def readline(self):
                out = b""
                while self.n < len(data) and out[-1:] != b"\n":
                    out += self.read(1)
                return out

        return Limited(), [f, g]

    def http(data):
        a, b = socket.socketpair()
        a.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
        for i in range(0, len(data), 23):
            a.sendall(b"%x\r\n%s\r\n" % (len(data[i : i + 23]), data[i : i + 23]))
        a.sendall(b"0\r\n\r\n")
        a.close()
        import http.client

        resp = http.client.HTTPResponse(b)
        resp.begin()
        return resp, [resp, b]

    out = {
        "pipe": pipe(), "unbuffered pipe": pipe(buffering=0), "terminal": terminal, "HTTP response": http,
        "socket pair": pair(socket.AF_UNIX, socket.SOCK_STREAM), "datagrams": pair(socket.AF_UNIX, socket.SOCK_DGRAM, 17),
        "packets": pair(socket.AF_UNIX, socket.SOCK_SEQPACKET, 17), "TCP": tcp(socket.AF_INET, "127.0.0.1"), "UDP": udp,
        "socket subclass": subclass, "file of a socket": made("rb"), "unbuffered file of a socket": made("rb", buffering=0),
        "two-way file of a socket": made("rwb"),
    }
    return out


def sequences(tier, kind):
    for n in range((3 if tier == "quick" else 4) + (kind == "memory")):
        yield from itertools.product(ELS, repeat=n)


def shards(tier):
    parts = 1 if tier == "quick" else 4
    out = [["memory", k, i, parts * 4] for k in range(len(memory_kinds())) for i in range(parts * 4)]
    out += [["file", k, i, parts] for k in range(len(file_kinds())) for i in range(parts)]
    return out + [["system", k, i, parts] for k in range(len(system_kinds())) for i in range(parts)]


def state_of(st):
    """What must not change, as far as it can be observed."""
    out = {}
    if isinstance(st, (Serial, InstanceMethods, socket.socket)):
        out["attributes"] = sorted(vars(st)) if hasattr(st, "__dict__") else None
    if isinstance(st, socket.socket):
        out["timeout"] = st.gettimeout()
        out["open"] = st.fileno() >= 0
        out["options"] = [st.getsockopt(socket.SOL_SOCKET, o) for o in (socket.SO_KEEPALIVE, socket.SO_REUSEADDR, socket.SO_RCVBUF)]
        out["inheritable"] = st.get_inheritable()
    elif isinstance(st, (io.IOBase, mmap.mmap)) or hasattr(type(st), "closed"):
        out["closed"] = st.closed
        if not st.closed and hasattr(st, "fileno"):
            try:
                out["blocking"] = os.get_blocking(st.fileno())
            except (OSError, io.UnsupportedOperation, AttributeError):
                pass
    return out


def judge(P, ctx, kind, els, make):
    """make() -> (stream, closers)"""
    cfgs = CONFIGS if len(els) < 2 else CONFIGS[:2]
    for cfg in cfgs:
        for iterate in (False, True):
            ctx.case([kind, [e.name for e in els], cfg, "iterate" if iterate else "read"])
            exp = S.want(els, cfg["policy"], cfg["validate"])
            st, close = make()
            try:
                before = state_of(st)
                got = S.run(P, st, iterate=iterate, **cfg)
                after = state_of(st)
                asked = object.__getattribute__(st, "_to").asked if isinstance(st, Proxy) else getattr(st, "asked", [])
            finally:
                for c in close:
                    c.close()
            d = S.diff(got, exp)
            if d:
                ctx.violation(f"{kind}: {els}: {d}")
            if kind != "HTTP response" and before != after:  # which closes itself at the end
                ctx.violation(f"{kind}: {els}: the stream was {before} and is {after}")
            if asked:
                ctx.violation(f"{kind}: {els}: the reader called {asked}")
            ctx.add(states=len(els) + 1, transitions=len(els), evaluations=1, distinct_nontrivial=int(any(e.is_sentence() for e in els)))
    ctx.outcome((kind, len(els)))


def run_shard(shard, ctx):
    P = core.use_repo()
    table = {"memory": memory_kinds, "file": file_kinds, "system": system_kinds}[shard[0]]()
    kind, how = list(table.items())[shard[1]]
    seqs = list(sequences(ctx.tier, shard[0]))[shard[2] :: shard[3]]
    tmp = tempfile.mkdtemp(prefix="verif-c35-")
    try:
        for els in seqs:
            data = b"".join(e.data for e in els)
            if shard[0] == "memory":
                if kind == "memory map" and not data:
                    continue
                judge(P, ctx, kind, els, lambda: (how(data), []))
            elif shard[0] == "file":
                path = os.path.join(tmp, "x")
                how[0](path, data)

                def opened():
                    st = how[1](path)
                    return st, [st]

                judge(P, ctx, kind, els, opened)
            else:
                judge(P, ctx, kind, els, lambda: how(data))
    finally:
        shutil.rmtree(tmp)
