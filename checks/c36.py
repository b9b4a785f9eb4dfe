"""
C36: a damaged chunk costs only itself.

Chunked transfers with (a) chunks whose content is damaged - every byte position x kinds of change,
every truncation, extra bytes, text never coded - in every single coding and in combined codings,
under whole, bytewise, one-cut and two-cut segmentations; oracle: each chunk decoded on its own by
zlib, or passed as it is and logged once; (b) invalid length lines of many kinds at every chunk
boundary x all segmentations at chunk boundaries and inside the line; oracle: every chunk before the
line, and every one which begins a later segment, is delivered; both also read as sentences.
"""

import itertools
import logging
import zlib

from checks.c06 import split
from mc import core
from mc import stream as S

ID = "C36"
LEVEL = "model_checking"
RULE = (
    "(a) coding x which of three chunks is damaged x damage (every byte position and length) x segmentation; "
    "(b) invalid length line x place x segmentation; state = (transfer, segmentation), transition = chunk"
)
ASSUMPTIONS = ["each chunk is coded on its own; a damaged chunk keeps the length its length line gives"]
TAILS = [b"", b"5\r\nab", b"5", b"\r\n", b"0\r\n\r\n"]  # what else is in the segment
WBITS = ((2, 31), (4, 15), (8, -15))
ENCODINGS = [1 | 2, 1 | 4, 1 | 8, 1 | 2 | 4, 1 | 4 | 8, 1 | 2 | 4 | 8]
PLAIN = [b"ab\r\n", b"\r\n$b" * 3, b"xyz"]
LENGTHS = [b"zz", b"-1", b"-5", b"g", b"\xff", b"5 5", b"5;a", b"1.0", b"0x", b"--", b"$GNSTN,1*5D", b"8" + b"0" * 15, b"f" * 17, b"f" * 40, b"HTTP/1.1 200 OK", b" x "]


def encode(data, enc):
    for flag, wbits in reversed(WBITS):
        if enc & flag:
            c = zlib.compressobj(6, zlib.DEFLATED, wbits)
            data = c.compress(data) + c.flush()
    return data


def decode(data, enc):
    """(what is delivered, damaged)"""
    for flag, wbits in WBITS:
        if enc & flag:
            try:
                data = zlib.decompress(data, wbits=wbits)
            except zlib.error:
                return data, True
    return data, False


def wire(coded):
    return [b"%X\r\n%s\r\n" % (len(c), c) for c in coded]


def damages(c):
    for i in range(len(c)):
        for x in (0x01, 0x80, 0xFF):
            yield c[:i] + bytes([c[i] ^ x]) + c[i + 1 :]
    for n in range(1, len(c)):
        yield c[:n]
        yield c[n:]
    for x in (b"\x00", b"\r\n", b"$", b"\xff" * 4):
        yield x + c
        yield c + x
        yield x
    yield c + c
    yield b"$GNSTN,12*5C\r\n"
    yield bytes(len(c))


class Errors(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.n = 0

    def emit(self, record):
        record.getMessage()
        self.n += 1


def read(P, segs, enc, buf, how):
    w = P.SocketWrapper(S.FakeSocket(segs), encoding=enc, bufsize=buf)
    got = b""
    for _ in range(100000):
        c = w.readline() if how == "line" else w.read(1)
        if not c:
            return got
        got += c
    return ("endless", got[:100])


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    lg, log = logging.getLogger("pynmeagps"), Errors()
    lg.addHandler(log)
    try:
        {"content": content, "length": length, "sentences": sentences}[shard[0]](ctx, P, shard[1:], quick, log)
    finally:
        lg.removeHandler(log)


def shards(tier):
    out = [["content", e, k, j] for e in ENCODINGS for k in range(3) for j in range(2)]
    out += [["length", i] for i in range(len(LENGTHS))]
    return out + [["sentences", e] for e in [1, *ENCODINGS]]


def content(ctx, P, args, quick, log):
    enc, k, j = args
    good = [encode(c, enc) for c in PLAIN]
    for d in list(damages(good[k]))[j::2]:
        coded = list(good)
        coded[k] = d
        data = b"".join(wire(coded)) + b"0\r\n\r\n"
        dec = [decode(c, enc) for c in coded]
        want, nerr = b"".join(x for x, _ in dec), sum(b for _, b in dec)
        n = len(data)
        cuts = [(), tuple(range(1, n))] + [(i,) for i in range(1, n)]
        if not quick:
            cuts += [(a, b) for a in range(1, n, 4) for b in range(a + 1, n, 3)]
        for c in cuts:
            segs = split(data, c)
            for buf, how in ((4096, "read"),) if len(c) == 1 else ((4096, "read"), (5, "line")):
                ctx.case(["content", enc, k, d, c, buf, how])
                log.n = 0
                try:
                    got = read(P, segs, enc, buf, how)
                except Exception as err:  # pylint: disable=broad-except
                    got = err
                ctx.add(states=1, transitions=len(coded), traces_validated_against_impl=1)
                if got != want or log.n != nerr:
                    ctx.violation(
                        f"encoding {enc}, chunk {k} is {d!r}, cuts {c[:5]} buffer size {buf}: {got!r} with {log.n} errors logged, "
                        f"should be {want!r} with {nerr}"
                    )
        ctx.outcome((enc, nerr, len(want)))


def length(ctx, P, args, quick, log):
    for tail in TAILS:
        lengths(ctx, P, LENGTHS[args[0]] + b"\r\n", tail, quick)


def lengths(ctx, P, line, tail, quick):
    junk = line + tail
    plain = [b"ab\r\n", b"cd", b"$e\r\n\r\n", b"fgh"] if quick else [b"ab\r\n", b"cd", b"$e\r\n\r\n", b"fgh", b"\n", b"0\r\n\r\n"]
    chunks = wire(plain)
    for at in range(len(chunks) + 1):
        parts = [("chunk", i) for i in range(at)] + [("junk", None)] + [("chunk", i) for i in range(at, len(chunks))]
        raws = [junk if p[0] == "junk" else chunks[p[1]] for p in parts]
        for mask in range(1 << (len(raws) - 1)):
            # segments: lists of parts
            segs, cur = [], [0]
            for i in range(1, len(raws)):
                if mask >> (i - 1) & 1:
                    segs.append(cur)
                    cur = []
                cur.append(i)
            segs.append(cur)
            home = next(i for i, s in enumerate(segs) if at in s)
            before = b"".join(plain[:at])
            rest = [plain[parts[i][1]] for i in segs[home] if i > at]
            after = b"".join(plain[parts[i][1]] for s in segs[home + 1 :] for i in s)
            # what follows in the same segment may be lost
            may = {before + b"".join(rest[m:]) + after for m in range(len(rest) + 1)}
            flat = [b"".join(raws[i] for i in s) for s in segs]
            # also cut anywhere inside the line
            off = sum(len(raws[i]) for i in segs[home] if i < at)
            for cut in [0, *range(off + 1, off + len(line) + (1 if not rest and not tail else 0))]:
                two = flat[:home] + [x for x in (flat[home][:cut], flat[home][cut:]) if x] + flat[home + 1 :]
                for how in ("read", "line"):
                    ctx.case(["length", junk, at, mask, cut, how])
                    try:
                        got = read(P, two, 1, 4096, how)
                    except Exception as err:  # pylint: disable=broad-except
                        got = err
                    ctx.add(states=1, transitions=len(raws), traces_validated_against_impl=1)
                    if got not in may:
                        ctx.violation(f"invalid length line {junk!r} in segments {two}: {got!r}, should be {sorted(may, key=len)[0]!r}")
        ctx.outcome(at)


def sentences(ctx, P, args, quick, log):
    """Sentences in chunks of their own, between damaged ones."""
    enc = args[0]
    els = [S.GLL, S.SHORT, S.GSV, S.TXT, S.UNK]
    bad = [b"\x00\x01\x02", b"\xb5b\x00\r\n", b"ab\r\n", b"\xff" * 30] if enc != 1 else [b""]
    for places in itertools.product((False, True), repeat=len(els)):
        for d in bad:
            segs, junk = [], 0
            for e, p in zip(els, places):
                if p and enc == 1:
                    segs.append(b"zz\r\n")
                elif p:
                    segs += wire([d])
                    junk += decode(d, enc)[1]
                segs += wire([encode(e.data, enc)])
            exp = S.want(els, S.RAISE, 1)
            joined = b"".join(segs)
            ways = [segs]
            if enc != 1:
                ways += [[joined], [joined[i : i + 1] for i in range(len(joined))]]
                ways += [[joined[i : i + s] for i in range(0, len(joined), s)] for s in ((7, 64) if quick else range(2, 130, 3))]
            for way in ways:
                ctx.case(["sentences", enc, places, d, [len(x) for x in way]])
                log.n = 0
                try:
                    got = S.run(P, S.FakeSocket(way), S.RAISE, 1, encoding=enc)
                    # what is logged about the chunk
                    got = [e for e in got if e not in (("err",), ("logged",))]
                except Exception as err:  # pylint: disable=broad-except
                    got = [("raised", repr(err))]
                ctx.add(states=1, transitions=len(way), traces_validated_against_impl=1)
                bad_ = S.diff(got, exp)
                if not bad_ and log.n != junk:
                    bad_ = f"{log.n} errors are logged, should be {junk}"
                if bad_:
                    ctx.violation(f"encoding {enc}, damaged chunk {d!r} before {[str(e) for e, p in zip(els, places) if p]}: {bad_}")
        ctx.outcome(places)
