"""
C05: socket delivery is independent of how TCP segments the data.

Enumerated on the real reader and socket wrapper: every segmentation of short streams, every
placement of up to k cuts in longer streams x receive buffer sizes; and every sequence of
read(n)/readline operations up to a depth under every segmentation of a short byte string,
against a byte queue model; sentences of up to 100 kB with buffers and segments around their length.
"""

import itertools

from mc import core
from mc import stream as S

ID = "C05"
LEVEL = "model_checking"
RULE = (
    "every one of the 2^(n-1) segmentations of short streams; all cut placements up to k in longer "
    "streams x buffer sizes; all operation sequences read(n)/readline up to the depth x all "
    "segmentations x small buffer sizes; state = (segmentation, operations so far), transition = operation or delivery"
)
ASSUMPTIONS = ["a receive returns one scripted segment, or at most buffer size bytes of it"]
BUFS = [1, 2, 3, 5, 7, 16, 31, 64, 4096]
TINY = S.El("TINY", S.ref.sentence("GNZZ"), "unknown", "<NMEA(GNZZ, NOMINAL)>", "GNZZ")
TINY2 = S.El("TINY2", S.ref.sentence("GNQ,1"), "unknown", "<NMEA(GNQ, NOMINAL, field_01=1)>", "GNQ")
SHORTS = [[TINY, S.DOL], [S.DOL, TINY], [S.CRLF, TINY2, S.NUL], [TINY2, S.DOLX, S.LF]]
LONG = [
    [S.GLL, S.UBXD, S.SHORT, S.BADCK, S.TXT],
    [S.DOL, S.RMC, S.CRLF, S.ACK, S.TEXT, S.SHORT, S.DOL],
    [S.PUBX, S.UNKP, S.BADFLD, S.GSV],
]
LONGS = [[TINY, S.DOL2, TINY2], [TINY2, TINY2], [S.HI, TINY, S.DOL, TINY2, S.LF]]
SIZES = [82, 83, 255, 256, 257, 1023, 1024, 1025, 4079, 4095, 4096, 4097, 8192, 8193, 20000, 65536]
BYTES = [b"ab\r\nc\rd\n\r\n", b"\r\n\r\nxyz\r", b"$G*5A\r\n$", b"\n\r\r\n\n1234"]


def shards(tier):
    out = [["all", i, j] for i in range(len(SHORTS)) for j in range(16)]
    out += [["two", i, j] for i in range(len(LONGS)) for j in range(16)]
    out += [["cuts", i, j] for i in range(len(LONG)) for j in range(16)]
    out += [["ops", i, j] for i in range(len(BYTES)) for j in range(16)]
    out += [["bufs", i] for i in range(len(LONG))]
    out += [["long", i] for i in range(len(SIZES))]
    return out


def split(data, cuts):
    out, last = [], 0
    for c in cuts:
        out.append(data[last:c])
        last = c
    return out + [data[last:]]


def by_mask(data, mask):
    return split(data, [i + 1 for i in range(len(data) - 1) if mask >> i & 1])


def check(ctx, P, els, segs, bufsize=4096, policy=S.RAISE, exp=None):
    ctx.case([repr(els), [len(s) for s in segs], bufsize])
    if exp is None:
        exp = S.want(els, policy, 1)
    got = S.run(P, S.FakeSocket(segs), policy, 1, bufsize=bufsize)
    ctx.add(states=1, transitions=len(exp), traces_validated_against_impl=1)
    d = S.diff(got, exp)
    if d:
        ctx.violation(f"stream {els} segments {segs} bufsize {bufsize}: {d}")


def ops_check(ctx, P, data, mask, depth, bufsize=4096):
    """All operation sequences up to the depth, as a tree walked with re-execution."""
    segs = by_mask(data, mask)
    ops = [("read", n) for n in (0, 1, 2, 3, 5)] + [("readline", 0)]

    def run(seq):
        """Runs a sequence on a fresh wrapper against the byte queue; returns bytes consumed."""
        w = P.SocketWrapper(S.FakeSocket(segs), bufsize=bufsize)
        pos = 0
        for name, n in seq:
            ctx.add(transitions=1)
            rest = data[pos:]
            if name == "read":
                got = w.read(n)
                if len(rest) >= n:
                    ok = got == rest[:n]
                else:  # more than there is: nothing, or what there is
                    ok = got in (b"", rest)
            else:
                got = w.readline()
                i = rest.find(b"\r\n")
                ok = got == (rest if i < 0 else rest[: i + 2])
            pos += len(got)
            if not ok or not isinstance(got, bytes):
                ctx.violation(f"{data!r} in {segs}: {seq}: {name}({n}) gave {got!r} with {rest!r} to come")
                return
            if w.in_waiting() != len(w.buffer) or not data[pos:].startswith(bytes(w.buffer)):
                ctx.violation(f"{data!r} in {segs}: {seq}: buffer {bytes(w.buffer)!r} with {data[pos:]!r} to come")
                return

    for seq in itertools.product(ops, repeat=depth):
        ctx.case([data, mask, bufsize, seq])
        run(seq)
        ctx.add(states=1, traces_validated_against_impl=1)


def run_shard(shard, ctx):
    P = core.use_repo()
    from pynmeagps.socketwrapper import SocketWrapper

    P.SocketWrapper = SocketWrapper
    quick = ctx.tier == "quick"
    kind, i = shard[:2]
    if kind in ("all", "two"):
        els = (SHORTS if kind == "all" else LONGS)[i]
        data = b"".join(e.data for e in els)
        exp = S.want(els, S.RAISE, 1)
        n = len(data) - 1
        ctx.outcome(len(data))
        if kind == "two" and quick:
            # every segmentation with at most 4 cuts or at most 2 joints
            for k in range(0, 5):
                for cuts in itertools.islice(itertools.combinations(range(1, n + 1), k), shard[2], None, 16):
                    check(ctx, P, els, split(data, cuts), exp=exp)
            for k in range(0, 3):
                for joints in itertools.islice(itertools.combinations(range(1, n + 1), k), shard[2], None, 16):
                    check(ctx, P, els, split(data, [c for c in range(1, n + 1) if c not in joints]), exp=exp)
            return
        for mask in range(shard[2], 1 << n, 16):
            check(ctx, P, els, by_mask(data, mask), exp=exp)
        return
    if kind == "cuts":
        els = LONG[i]
        data = b"".join(e.data for e in els)
        n = len(data)
        for policy in (S.RAISE, S.LOG) if not quick else (S.RAISE,):
            exp = S.want(els, policy, 1)
            for k in range(0, 3):
                for cuts in itertools.islice(itertools.combinations(range(1, n), k), shard[2], None, 16):
                    check(ctx, P, els, split(data, cuts), 4096, policy, exp)
            if not quick:  # three neighbouring cuts
                for c in range(1 + shard[2], n - 4, 16):
                    for cuts in itertools.combinations(range(c, min(c + 12, n)), 3):
                        check(ctx, P, els, split(data, cuts), 4096, policy, exp)
        ctx.outcome(("cuts", n))
        return
    if kind == "bufs":
        els = LONG[i]
        data = b"".join(e.data for e in els)
        for buf in BUFS + list(range(8, 40)):
            for step in list(range(1, 25)) + [50, 100, 1000]:
                for off in range(0, min(step, 6)):
                    cuts = list(range(off, len(data), step))
                    check(ctx, P, els, [s for s in split(data, cuts) if s], buf)
            ctx.outcome(buf)
        return
    if kind == "long":
        # sentence of exactly this many bytes, receive buffers and segments around its size
        size = SIZES[i]
        for body in ("a", "\r"):
            raws = [body * (size - len(b"$GNTXT,01,01,02,*00\r\n"))]
            long = S.sent(f"TXT of {size}", "GET", "TXT", raws=["01", "01", "02"] + raws)
            els = [S.SHORT, S.DOL, long, S.GLL, long, S.UBXD, S.SHORT]
            data = b"".join(e.data for e in els)
            exp = S.want(els, S.RAISE, 1)
            assert len(long.data) == size
            for buf in sorted({64, 4096, size - 1, size, size + 1}):
                for step in sorted({64, 1000, 4096, size - 1, size, size + 1} if body == "a" else {1000, size}):
                    if min(buf, step) * 2000 < len(data):
                        continue
                    for off in (0, 13) if quick else (0, 1, 12, 13, 14):
                        cuts = [c for c in range(off, len(data), step) if c]
                        check(ctx, P, els, split(data, cuts), buf, exp=exp)
            ctx.outcome(("long", size, body))
        return
    data = BYTES[i]
    n = len(data) - 1
    depth = 4 if quick else 5
    for mask in range(shard[2], 1 << n, 16):
        if quick and bin(mask).count("1") not in (0, 1, 2, n - 1, n):
            continue
        if not quick and bin(mask).count("1") not in (0, 1, 2, 3, n - 1, n):
            continue
        ops_check(ctx, P, data, mask, depth)
        if bin(mask).count("1") in ((0, n) if quick else (0, 1, n)):
            for bufsize in (1, 2, 3, 4):
                ops_check(ctx, P, data, mask, depth, bufsize)
    ctx.outcome(("ops", n, i))
