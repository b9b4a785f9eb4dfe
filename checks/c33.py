"""
C33: sentences are delivered as soon as they are complete, and nothing behind them is consumed.

Enumerated on the real code: every sequence of stream elements up to the bound, under all error
policies and validation settings, read from a source which observes every request for data; every
handover of the stream to another reader, or to the program itself, after each delivered sentence; every
segmentation of socket data (plain, chunked, chunked and compressed); and pipes, sockets, terminals and files of
the operating system, in which just the bytes up to the end of a sentence are available. Oracle: the
element model. Whenever more data are requested, every sentence which is complete in the data consumed
or received so far must have been delivered, or its error reported; after each delivery the stream stands
exactly behind the sentence.
"""

import io
import itertools
import os
import signal
import socket
import tempfile
import tty
import zlib

from mc import core, ref
from mc import stream as S

ID = "C33"
LEVEL = "exploration"
RULE = (
    "all sequences of elements up to length 3 (thorough: 4) x configurations on a source which observes requests; all "
    "handovers; all divisions of the data of a socket into up to 3 segments, buffer sizes, chunks; real pipes, sockets, "
    "pseudo terminals, files; state = (position in the stream, events so far), transition = request for data or delivery; "
    "non-trivial = the stream holds at least one sentence"
)
ASSUMPTIONS = [
    "foreign data hold no dollar sign followed by the first letter of a talker id (see C01)",
    "a chunk of a chunked transfer is complete when its line end was received",
]

GOOD = [S.GLL, S.SHORT, S.GSV, S.PUBX]
BAD = [S.BADCK, S.BADFLD, S.UNK, S.TALK]
FOREIGN = [S.UBX, S.UBXD, S.TEXT, S.CRLF, S.LF, S.DOL, S.DOL2, S.DOLX, S.STAR, S.HI]
ALPHABET = GOOD[:3] + BAD + FOREIGN
CONFIGS = [
    {"policy": p, "validate": v, "nmeaonly": n}
    for p, v, n in ((0, 1, False), (1, 1, False), (2, 1, False), (2, 3, False), (1, 0, True), (2, 3, True), (0, 3, True))
]


class Violation(Exception):
    pass


def due(els, validate, policy):
    """[(end position, event)] of the sentences: event is the raw data, or "err"."""
    out, pos = [], 0
    for e in els:
        pos += len(e.data)
        if e.is_sentence():
            if not e.is_error(validate):
                out.append((pos, e.data))
            elif policy:
                out.append((pos, "err"))
    return out


class Source:
    """A stream which offers read(n) and readline() only and checks every request."""

    def __init__(self, data, ends, events, nmeaonly):
        self.data, self.ends, self.events, self.nmeaonly = data, ends, events, nmeaonly
        self.pos = 0
        self.requests = 0

    def complete(self, upto):
        want = [ev for end, ev in self.ends if end <= upto]
        got = [e for e in self.events if e != "foreign"] if self.nmeaonly else self.events
        if len(got) < len(want):
            raise Violation(f"byte {upto} is requested before {want[len(got)]!r}, which is complete, was delivered or reported")

    def read(self, n):
        self.requests += 1
        out = self.data[self.pos : self.pos + n]
        # on a device which has just the bytes requested so far, the last byte of the request is awaited
        self.complete(self.pos + max(n, 1) - 1 if self.pos + n <= len(self.data) else self.pos)
        self.pos += len(out)
        return out

    def readline(self):
        self.requests += 1
        self.complete(self.pos)
        end = self.data.find(b"\n", self.pos)
        end = len(self.data) if end < 0 else end + 1
        out = self.data[self.pos : end]
        self.pos = end
        return out


def drive(P, rdr, events, cfg, position, ends, total, iterate):
    """Read until the end; checks events and positions. Returns the number of deliveries."""
    errs = (P.NMEAParseError, P.NMEAMessageError, P.NMEATypeError, P.NMEAStreamError)
    n = 0
    while True:
        try:
            if iterate:
                try:
                    raw, _ = next(rdr)
                except StopIteration:
                    raw = None
            else:
                raw, _ = rdr.read()
        except errs as err:
            note(events, err)
            continue
        if raw is None:
            break
        events.append(raw)
        n += 1
        k = sum(1 for e in events if e != "foreign")
        if k > len(ends) or ends[k - 1][1] != raw:
            raise Violation(f"delivered {raw!r}, should be {ends[k - 1] if k <= len(ends) else None}")
        if position is not None and position() != ends[k - 1][0]:
            raise Violation(f"after {raw!r} the stream stands at {position()}, the sentence ends at {ends[k - 1][0]}")
        if n > 1000:
            raise Violation("endless")
    got = [e for e in events if e != "foreign"]
    if got != [e for _, e in ends]:
        raise Violation(f"events {got}, should be {[e for _, e in ends]}")
    if position is not None and position() != total:
        raise Violation(f"at the end the stream stands at {position()} of {total}")
    return n


def note(events, err):
    events.append("foreign" if "Unknown protocol" in str(err) else "err")


def kwargs(cfg, events):
    kw = {"quitonerror": cfg["policy"], "validate": cfg["validate"], "nmeaonly": cfg["nmeaonly"]}
    if cfg["policy"] == 1:
        kw["errorhandler"] = lambda err: note(events, err)
    return kw


def shards(tier):
    quick = tier == "quick"
    n = len(ALPHABET)
    out = [["source", i, c] for i in range(n) for c in range(len(CONFIGS))]
    if not quick:
        out += [["source4", i, j, c] for i in range(n) for j in range(n) for c in range(len(CONFIGS))]
    out += [["handover", i] for i in range(n)]
    nst = len(STREAMS)
    out += [["socket", i, c] for i in range(nst) for c in range(3)]
    out += [["chunked", i, e] for i in range(nst) for e in (1, 3, 5, 9)]
    out += [["system", k] for k in range(len(KINDS))]
    n = len(ref.all_defs())
    step = 30
    out += [["defs", i, min(n, i + step)] for i in range(0, n, step)]
    return out


STREAMS = [
    [S.SHORT, S.SHORT], [S.GLL, S.SHORT], [S.SHORT, S.BADCK, S.SHORT], [S.DOL, S.SHORT, S.UBXD, S.SHORT],
    [S.TEXT, S.UNK, S.SHORT, S.LF], [S.SHORT, S.BADFLD, S.CRLF, S.UNKP], [S.SHORT, S.DOL2, S.SHORT], [S.HI, S.SHORT, S.RTCM],
]


def run_source(P, ctx, seqs, c):
    cfg = CONFIGS[c]
    for els in seqs:
        data = b"".join(e.data for e in els)
        ends = due(els, cfg["validate"], cfg["policy"])
        for iterate in (False, True):
            ctx.case([[e.name for e in els], cfg, "iterate" if iterate else "read"])
            events = []
            src = Source(data, ends, events, cfg["nmeaonly"])
            try:
                rdr = P.NMEAReader(src, **kwargs(cfg, events))
                if src.requests:
                    raise Violation("data are requested when the reader is created")
                n = drive(P, rdr, events, cfg, lambda src=src: src.pos, ends, len(data), iterate)
            except Violation as err:
                ctx.violation(f"{err} (stream {data!r})")
                continue
            ctx.add(states=src.requests + 1, transitions=src.requests + n, evaluations=1, distinct_nontrivial=int(bool(ends)))
        ctx.outcome((len(ends), len(events)))


def run_handover(P, ctx, first):
    """Each sentence is read by another reader, foreign data by a reader or by the program itself."""
    files = {
        "BytesIO": lambda data, _: io.BytesIO(data),
        "buffered": lambda data, _: io.BufferedReader(io.BytesIO(data), 16),
        "file": lambda data, name: open(name, "rb"),
        "unbuffered": lambda data, name: open(name, "rb", buffering=0),
    }
    tmp = tempfile.mkdtemp(prefix="verif-c33-")
    name = os.path.join(tmp, "x")
    try:
        for rest in itertools.product(ALPHABET, repeat=2):
            els = [first, *rest]
            data = b"".join(e.data for e in els)
            with open(name, "wb") as f:
                f.write(data)
            for kind, make in files.items():
                for own in (False, True):
                    for cfg in (CONFIGS[0], CONFIGS[2]):
                        ctx.case([[e.name for e in els], kind, "own reads" if own else "readers only", cfg])
                        ends = due(els, cfg["validate"], 0)
                        bad = None
                        with make(data, name) as st:
                            got, k = [], 0
                            if own:
                                for e in els:
                                    if not e.is_sentence():
                                        if st.read(len(e.data)) != e.data:
                                            bad = f"the program itself does not find {e} behind {els[:k]}"
                                            break
                                    elif not e.is_error(cfg["validate"]):
                                        raw, _ = P.NMEAReader(st, **kwargs(cfg, [])).read()
                                        got.append(raw)
                                    else:
                                        st.readline()
                                    k += 1
                            else:
                                while k < 50:
                                    k += 1
                                    rdr = P.NMEAReader(st, **kwargs(cfg, []))
                                    try:
                                        raw, _ = rdr.read()
                                    except (P.NMEAParseError, P.NMEATypeError, P.NMEAMessageError):
                                        continue
                                    if raw is None:
                                        break
                                    got.append(raw)
                            want = [ev for _, ev in ends]
                            if bad is None and got != want:
                                bad = f"readers in turn deliver {got}, should be {want}"
                        ctx.add(states=k, transitions=k, evaluations=1, distinct_nontrivial=int(bool(ends)))
                        if bad:
                            ctx.violation(f"{bad} (stream {data!r})")
            ctx.outcome((len(ends), k))
    finally:
        if os.path.exists(name):
            os.unlink(name)
        os.rmdir(tmp)


class Sock(S.FakeSocket):
    """Checks at every receive that what was complete before has been delivered."""

    def __init__(self, segs, avail, ends, events, nmeaonly):
        super().__init__(segs)
        self.avail, self.ends, self.events, self.nmeaonly = avail, ends, events, nmeaonly
        self.got = 0

    def recv(self, n, flags=0):
        have = self.avail(self.got)
        want = [ev for end, ev in self.ends if end <= have]
        got = [e for e in self.events if e != "foreign"]
        if len(got) < len(want):
            raise Violation(f"more data are received before {want[len(got)]!r}, which is complete in the {self.got} bytes received, was delivered or reported")
        out = super().recv(n, flags)
        self.got += len(out)
        return out


def run_segments(P, ctx, raw, cuts, avail, ends, total, cfg, bufsize, encoding, what):
    segs = [raw[a:b] for a, b in zip((0, *cuts), (*cuts, len(raw))) if b > a]
    ctx.case([what, cuts, bufsize, encoding, cfg])
    events = []
    sock = Sock(segs, avail, ends, events, cfg["nmeaonly"])
    try:
        rdr = P.NMEAReader(sock, bufsize=bufsize, encoding=encoding, **kwargs(cfg, events))
        n = drive(P, rdr, events, cfg, None, ends, total, False)
    except Violation as err:
        ctx.violation(f"{err} (segments {segs!r})"[:1500])
        return
    ctx.add(states=sock.calls, transitions=sock.calls + n, evaluations=1, distinct_nontrivial=1)


def run_socket(P, ctx, i, c):
    els = STREAMS[i]
    cfg = CONFIGS[(1, 2, 4)[c]]
    data = b"".join(e.data for e in els)
    ends = due(els, cfg["validate"], cfg["policy"])
    quick = ctx.tier == "quick"
    for a in range(len(data) + 1):
        for b in range(a, len(data) + 1) if not quick or len(data) < 60 or a % 3 == 0 else (a, min(len(data), a + 1), len(data)):
            run_segments(P, ctx, data, (a, b), lambda got: got, ends, len(data), cfg, 4096, 0, [e.name for e in els])
        for z in (1, 2, 3, 7, 64):
            run_segments(P, ctx, data, (a,), lambda got: got, ends, len(data), cfg, z, 0, [e.name for e in els])
    ctx.outcome((i, len(ends)))


def run_chunked(P, ctx, i, enc):
    els = STREAMS[i]
    cfg = CONFIGS[1]
    data = b"".join(e.data for e in els)
    ends = due(els, cfg["validate"], cfg["policy"])
    quick = ctx.tier == "quick"

    def pack(b):
        if enc == 1 or not b:
            return b
        co = zlib.compressobj(wbits={3: 31, 5: 15, 9: -15}[enc])
        return co.compress(b) + co.flush()

    edges = sorted({0, *itertools.accumulate(len(e.data) for e in els)})
    for cut in sorted({*edges, *[e - d for e in edges for d in (1, 2, 5)], *[e + 1 for e in edges], len(data) // 2}):
        if not 0 < cut <= len(data):
            continue
        raw, marks, done = b"", [], 0
        for part in [p for p in (data[:cut], data[cut:]) if p]:
            z = pack(part)
            raw += b"%x\r\n" % len(z) + z + b"\r\n"
            done += len(part)
            marks.append((len(raw), done))
        raw += b"0\r\n\r\n"

        def avail(got, marks=marks):
            return max([d for at, d in marks if at <= got], default=0)

        for a in range(1, len(raw) + 1, 1 if enc == 1 or not quick else 3):
            run_segments(P, ctx, raw, (a,), avail, ends, len(data), cfg, 4096, enc, [[e.name for e in els], "chunks at", cut])
        for z in (1, 5, 32):
            run_segments(P, ctx, raw, (), avail, ends, len(data), cfg, z, enc, [[e.name for e in els], "chunks at", cut])
    ctx.outcome((i, enc, len(ends)))


KINDS = ("pipe unbuffered", "pipe buffered", "socket", "socket file", "terminal", "chunked socket", "growing file")


def run_system(P, ctx, kind):
    """Just the bytes up to the end of a sentence are available: it must be delivered."""

    def alarm(_s, _f):
        raise Violation("the reader waits for more data although a sentence is complete")

    for els in itertools.product(ALPHABET, ALPHABET, GOOD[:2] + [S.UNK]):
        if ctx.tier == "quick" and els[0] not in ALPHABET[::2] and kind != "pipe unbuffered":
            continue
        ctx.case([kind, [e.name for e in els]])
        closers = []
        st = None
        try:
            if kind.startswith("pipe"):
                r, w = os.pipe()
                st = os.fdopen(r, "rb", buffering=0 if "unbuffered" in kind else -1)
                put = lambda b, w=w: os.write(w, b)
                closers = [st.close, lambda w=w: os.close(w)]
            elif kind == "terminal":
                m, s = os.openpty()
                tty.setraw(s)
                st = os.fdopen(s, "rb", buffering=0)
                put = lambda b, m=m: os.write(m, b)
                closers = [st.close, lambda m=m: os.close(m)]
            elif kind == "growing file":
                f, name = tempfile.mkstemp(prefix="verif-c33-")
                st = open(name, "rb")
                put = lambda b, f=f: os.write(f, b)
                closers = [st.close, lambda f=f: os.close(f), lambda name=name: os.unlink(name)]
            else:
                a, b = socket.socketpair()
                put = b.sendall
                closers = [a.close, b.close]
                st = a
                if kind == "socket file":
                    st = a.makefile("rb")
                    closers.insert(0, st.close)
                elif kind == "chunked socket":
                    put = lambda x, b=b: b.sendall(b"%x\r\n%s\r\n" % (len(x), x))
            signal.signal(signal.SIGALRM, alarm)
            signal.setitimer(signal.ITIMER_REAL, 10)
            rdr, pending, n = None, b"", 0
            for e in els:
                pending += e.data
                if not e.is_sentence() or e.is_error(1):
                    continue
                put(pending)
                pending = b""
                n += 1
                if rdr is None:  # a socket stream receives when it is created
                    rdr = P.NMEAReader(st, quitonerror=0, encoding=1 if kind == "chunked socket" else 0)
                raw, _ = rdr.read()
                if raw != e.data:
                    raise Violation(f"delivered {raw!r}, should be {e.data!r}")
            signal.setitimer(signal.ITIMER_REAL, 0)
            ctx.add(states=n, transitions=2 * n, evaluations=1, distinct_nontrivial=1)
            ctx.outcome(n)
        except Violation as err:
            ctx.violation(f"{kind}: {err}")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, core._alarm)  # pylint: disable=protected-access
            for f in closers:
                f()


def run_defs(P, ctx, lo, hi):
    """Every definition between a foreign and another sentence."""
    for d in ref.all_defs()[lo:hi]:
        for cls in ("plain", "odd", "empty"):
            raws = [f[2] for f in ref.fields_for(d, cls, 2)]
            e = S.El(f"{d} {cls}", ref.sentence(ref.content_of(d, raws)), "good")
            try:
                P.NMEAReader.parse(e.data, msgmode=d.mode)
            except (P.NMEAParseError, P.NMEAMessageError, P.NMEATypeError):
                e.kind = "badfield"  # whether it can be parsed is decided by C11
            els = [S.UBXD, e, S.SHORT]
            data = b"".join(x.data for x in els)
            ends = due(els, 1, 2)
            if d.mode:
                try:
                    P.NMEAReader.parse(S.SHORT.data, msgmode=d.mode)
                except (P.NMEAParseError, P.NMEAMessageError, P.NMEATypeError):
                    ends[-1] = (ends[-1][0], "err")
            ctx.case([repr(d), cls])
            events = []
            src = Source(data, ends, events, False)
            try:
                n = drive(P, P.NMEAReader(src, msgmode=d.mode, quitonerror=2), events, CONFIGS[2], lambda src=src: src.pos, ends, len(data), False)
            except Violation as err:
                ctx.violation(f"{d}: {err}")
                continue
            ctx.add(states=src.requests + 1, transitions=src.requests + n, evaluations=1, distinct_nontrivial=1)
        ctx.outcome((d.mode, n))


def run_shard(shard, ctx):
    P = core.use_repo()
    kind = shard[0]
    if kind == "source":
        first = ALPHABET[shard[1]]
        seqs = [[first]] + [[first, *r] for k in (1, 2) for r in itertools.product(ALPHABET, repeat=k)]
        run_source(P, ctx, seqs, shard[2])
    elif kind == "source4":
        head = [ALPHABET[shard[1]], ALPHABET[shard[2]]]
        run_source(P, ctx, [[*head, *r] for r in itertools.product(ALPHABET, repeat=2)], shard[3])
    elif kind == "handover":
        run_handover(P, ctx, ALPHABET[shard[1]])
    elif kind == "socket":
        run_socket(P, ctx, *shard[1:])
    elif kind == "chunked":
        run_chunked(P, ctx, *shard[1:])
    elif kind == "system":
        run_system(P, ctx, KINDS[shard[1]])
    else:
        run_defs(P, ctx, *shard[1:])
