"""
C07: timeouts, socket errors and end of data lose at most the interrupted sentence.

Enumerated: every placement of one fault and of two faults (receive timeout, connection error,
end of data; empty or short read on a serial-style stream) over every byte position of several
streams, plain, segmented and chunk encoded, x error policy x read/iterate; reading is resumed
until the stream is exhausted. Oracle: the sentences which contain no fault strictly inside.
"""

import itertools

from mc import core
from mc import stream as S

ID = "C07"
LEVEL = "fault_enumeration"
RULE = (
    "every fault position x fault kind (and every pair of positions x kinds) x stream x policy x "
    "stream type, resumed until exhausted; non-trivial = a fault lies inside a sentence"
)
ASSUMPTIONS = [
    "a fault interrupts one receive or read, afterwards the data continue where they stopped",
    "serial-style streams signal faults by empty or short reads (exceptions of the stream itself are passed on)",
]
STREAMS = [
    [S.SHORT, S.GLL, S.ACK],
    [S.DOL, S.SHORT, S.UBXD, S.ACK, S.CRLF, S.UNKP],
    [S.ACK, S.BADCK, S.TEXT, S.UNK],
    [S.SHORT, S.TXT, S.NUL, S.DOLX, S.PUBX, S.DOL],
]
FAULTS = ["timeout", "reset", "eof"]


def fault(kind):
    return {"timeout": TimeoutError("timed out"), "reset": ConnectionResetError(104, "reset"), "eof": b""}[kind]


class Serial:
    """Serial-style stream: read(n) and readline() return what is there when a fault comes up."""

    def __init__(self, segs):
        self.segs = list(segs)

    def read(self, n=1):
        if n == 0:
            return b""
        return self._serve(n, False)

    def readline(self):
        return self._serve(None, True)

    def _serve(self, n, line):
        # segments are separated by faults: a request never reaches over one
        if not self.segs:
            return b""
        data = self.segs[0]
        if line:
            i = data.find(b"\n")
            k = len(data) if i < 0 else i + 1
        else:
            k = min(n, len(data))
        out, rest = data[:k], data[k:]
        satisfied = out[-1:] == b"\n" if line else len(out) == n
        if satisfied:
            self.segs[0] = rest  # an empty rest makes the next request time out once
        else:
            self.segs.pop(0)
        return out


def shards(tier):
    out = [["one", i, t] for i in range(len(STREAMS)) for t in ("socket", "serial", "chunked", "small")]
    out += [["two", i, t, j] for i in range(len(STREAMS)) for t in ("socket", "serial", "chunked") for j in range(4)]
    out += [["raw", j] for j in range(8)]
    return out


def drive(P, stream, policy, iterate, left, **kw):
    """Reads, resuming after every end of stream report, until nothing is left."""
    events, ends, errs = [], 0, 0
    ERRS = (P.NMEAParseError, P.NMEAMessageError, P.NMEATypeError, P.NMEAStreamError)

    def hnd(_e):
        nonlocal errs
        errs += 1

    rdr = P.NMEAReader(stream, quitonerror=policy, validate=1, errorhandler=hnd, **kw)
    for _ in range(500):
        try:
            if iterate:
                raw, msg = next(rdr)
            else:
                raw, msg = rdr.read()
        except StopIteration:
            raw = msg = None
        except ERRS:
            errs += 1
            if policy != S.RAISE:
                return events, errs, "error raised"
            continue
        if raw is None:
            ends += 1
            if msg is not None:
                return events, errs, "message without raw data"
            if not left():
                return events, errs, None
        else:
            events.append(S.event(P, raw, msg))
    return events, errs, "does not end"


def chunk_transfer(data, size=9):
    out = b""
    for i in range(0, len(data), size):
        c = data[i : i + size]
        out += b"%X\r\n" % len(c) + c + b"\r\n"
    return out + b"0\r\n\r\n"


def chunk_pos(off, size=9, total=10**9):
    """How many content bytes are complete when the transfer is cut after off bytes."""
    done, pos = 0, 0
    while done < total:
        n = min(size, total - done)
        head = len(b"%X\r\n" % n)
        if off < pos + head + n:
            return done
        done += n
        pos += head + n + 2
    return done


def check(ctx, P, els, kind, cuts, kinds, policy, iterate):
    data = b"".join(e.data for e in els)
    wire = chunk_transfer(data) if kind == "chunked" else data
    cuts, kinds = zip(*sorted(zip(cuts, kinds)))
    segs, last = [], 0
    script = []
    for c, k in zip(cuts, kinds):
        seg = wire[last:c]
        segs.append(seg)
        if seg:
            script.append(seg)
        script.append(fault(k))
        last = c
    segs.append(wire[last:])
    script.append(wire[last:])
    ctx.case([repr(els), kind, cuts, kinds, policy, iterate])
    if kind == "serial":
        st = Serial(segs)
        left = lambda: any(st.segs)
        kw = {}
    else:
        st = S.FakeSocket(script)
        left = lambda: bool(st.script)
        kw = {"bufsize": 3 if kind == "small" else 4096, "encoding": 1 if kind == "chunked" else 0}
    got, errs, bad = drive(P, st, policy, iterate, left, **kw)
    # sentences with a fault strictly inside may be lost
    pos, must, may, berr, ncut = 0, [], [], 0, set()
    fpos = [chunk_pos(c, total=len(data)) if kind == "chunked" else c for c in cuts]
    for e in els:
        end = pos + len(e.data)
        hit = [f for f in fpos if pos < f < end]
        if e.is_sentence():
            if e.is_error(1):
                berr += 1
            else:
                ev = ("msg", e.data, e.text, e.data)
                may.append(ev)
                must.append(not hit)
            if hit:
                ncut.add(pos)
        pos = end
    ctx.add(evaluations=1, distinct_nontrivial=int(bool(ncut)))
    ctx.outcome((len(got), errs, kind))
    if bad:
        ctx.violation(f"{els} {kind} faults {kinds} at {cuts} policy {policy}: {bad}")
        return
    # got must be may with some of the interrupted ones removed
    j = 0
    for ev, needed in zip(may, must):
        if j < len(got) and got[j] == ev:
            j += 1
        elif needed:
            ctx.violation(f"{els} {kind} faults {kinds} at {cuts} policy {policy}: {ev[1]!r} not delivered or out of order: {S.short(got)}")
            return
    if j != len(got):
        ctx.violation(f"{els} {kind} faults {kinds} at {cuts} policy {policy}: unexpected delivery {got[j]}")
        return
    if policy != S.IGNORE and not berr - len(ncut) <= errs <= berr + len(cuts):
        ctx.violation(f"{els} {kind} faults {kinds} at {cuts} policy {policy}: {errs} errors for {berr} bad sentences and {len(cuts)} faults")


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    if shard[0] == "raw":
        return raw_check(ctx, P, shard[1])
    els, kind = STREAMS[shard[1]], shard[2]
    data = b"".join(e.data for e in els)
    wire = chunk_transfer(data) if kind == "chunked" else data
    kinds = ["eof"] if kind == "serial" else FAULTS
    if shard[0] == "one":
        for c in range(0, len(wire) + 1):
            for k in kinds:
                for policy in (S.IGNORE, S.LOG, S.RAISE):
                    for iterate in (False, True):
                        check(ctx, P, els, kind, [c], [k], policy, iterate)
                        # the same fault three times in a row
                        check(ctx, P, els, kind, [c] * 3, [k] * 3, policy, iterate)
        return None
    step = 1 if not quick or kind != "chunked" else 2
    for a in range(shard[3], len(wire) + 1, 4):
        for b in range(a + 1, len(wire) + 1, step):
            for ka, kb in itertools.product(kinds, repeat=2) if not quick else [(k, k) for k in kinds] + [("timeout", "eof")][: len(kinds) - 1]:
                check(ctx, P, els, kind, [a, b], [ka, kb], S.RAISE if (a + b) % 2 else S.LOG, False)
    return None


def raw_check(ctx, P, j):
    """Socket wrapper reads around faults: what is returned is a prefix of what is to come."""
    from pynmeagps.socketwrapper import SocketWrapper

    data = b"$G\r\nab\rc\n\r\nxy"
    ops = [("read", 1), ("read", 2), ("read", 4), ("readline", 0)]
    depth = 4 if ctx.tier == "quick" else 5
    for a in range(0, len(data) + 1):
        for b in range(a, len(data) + 1):
            for k in FAULTS:
                for seq in itertools.islice(itertools.product(ops, repeat=depth), j, None, 8):
                    script = [s for s in (data[:a],) if s] + [fault(k)] + [s for s in (data[a:b],) if s] + [fault(k), data[b:]]
                    ctx.case([a, b, k, seq])
                    ctx.add(evaluations=1, distinct_nontrivial=1)
                    w = SocketWrapper(S.FakeSocket(script))
                    pos = 0
                    for name, n in seq:
                        got = w.read(n) if name == "read" else w.readline()
                        if name == "read" and len(got) not in (0, n) or not data[pos:].startswith(got):
                            ctx.violation(f"{data!r} faults {k} at {a},{b} ops {seq}: {name}({n}) gave {got!r}, {data[pos:]!r} to come")
                            break
                        pos += len(got)
                    ctx.outcome(pos)
