"""
C06: chunked and compressed transfer decoding is independent of segmentation.

Enumerated: every segmentation of short transfers, every placement of up to two cuts and every
fixed segment size in longer ones, x ways of dividing the content into chunks x codings x length
line spellings x buffer sizes, read as raw bytes from the socket wrapper and as sentences from the
reader; chunks of up to 1 MB (every number of length digits); oracle: the concatenation of the chunk
contents.
"""

import itertools
import zlib

from mc import core
from mc import stream as S

ID = "C06"
LEVEL = "model_checking"
RULE = (
    "every segmentation of short transfers; all placements of one and two cuts, all segment sizes "
    "and buffer sizes for longer transfers x chunk divisions x coding (plain, gzip, compress, "
    "deflate) x hex case; state = (transfer, segmentation), transition = chunk"
)
ASSUMPTIONS = ["each chunk is coded on its own; length lines carry no chunk extension; no trailer"]
CHUNKED, GZIP, COMPRESS, DEFLATE = 1, 2, 4, 8
CODINGS = {"plain": (CHUNKED, None), "gzip": (CHUNKED | GZIP, 31), "compress": (CHUNKED | COMPRESS, 15), "deflate": (CHUNKED | DEFLATE, -15)}
BIG = [127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 32768, 65535, 65536, 65537, 100003, 1048577]
SHORTS = [
    [b"\r\n"], [b"ab", b"\r\n"], [b"\n\r"], [b"0\r\n"], [b"\r", b"\n"], [b"1\r\n", b"x"], [b"ab\r\nc"], [b"\n"], [b"\r\n0\r\n\r\n"],
]


def contents():
    sent = S.GLL.data + S.SHORT.data
    return [
        [sent],
        [sent[:20], sent[20:21], sent[21:]],
        [S.SHORT.data[:-1], S.SHORT.data[-1:] + S.SHORT.data],
        [S.SHORT.data[:-2], S.SHORT.data[-2:], S.UBX.data, S.SHORT.data],
        [b"\r\n", b"0\r\n\r\n", b"5\r\nabcde\r\n", S.SHORT.data],
        [bytes([c]) for c in S.SHORT.data + S.SHORT.data],
        [b"\r" * 3, b"\n" * 3, b"\r\n" * 20, S.SHORT.data],
        [S.TXT.data + S.RMC.data, S.DOL.data, S.SHORT.data * 3],
    ]


def code(chunk, wbits):
    if wbits is None:
        return chunk
    c = zlib.compressobj(6, zlib.DEFLATED, wbits)
    return c.compress(chunk) + c.flush()


def transfer(chunks, wbits, style=0, final=True):
    out = b""
    for c in chunks:
        c = code(c, wbits)
        size = (f"{len(c):x}", f"{len(c):X}", f"0{len(c):X}", f"000{len(c):x}")[style]
        out += size.encode() + b"\r\n" + c + b"\r\n"
    return out + (b"0\r\n\r\n" if final else b"")


def shards(tier):
    out = [["all", i, j] for i in range(len(SHORTS)) for j in range(8)]
    out += [["cuts", i, c, j] for i in range(len(contents())) for c in CODINGS for j in range(4)]
    out += [["sizes", i, c] for i in range(len(contents())) for c in CODINGS]
    out += [["big", n, c] for n in BIG for c in CODINGS]
    out += [["reader", c, j] for c in CODINGS for j in range(4)]
    return out


def check(ctx, P, data, segs, want, enc, buf, how):
    ctx.case([data, [len(s) for s in segs], enc, buf, how])
    try:
        w = P.SocketWrapper(S.FakeSocket(segs), encoding=enc, bufsize=buf)
        got = b""
        if how == "line":
            while True:
                line = w.readline()
                got += line
                if not line:
                    break
        else:
            while True:
                c = w.read(1)
                if not c:
                    break
                got += c
    except Exception as err:  # pylint: disable=broad-except
        got = err
    ctx.add(states=1, traces_validated_against_impl=1)
    if got != want:
        ctx.violation(f"transfer {data!r} in segments {[len(s) for s in segs]} bufsize {buf} encoding {enc}: {got!r}, should be {want!r}")


def split(data, cuts):
    out, last = [], 0
    for c in cuts:
        out.append(data[last:c])
        last = c
    return [s for s in out + [data[last:]] if s]


def run_shard(shard, ctx):
    P = core.use_repo()
    from pynmeagps.socketwrapper import SocketWrapper

    P.SocketWrapper = SocketWrapper
    quick = ctx.tier == "quick"
    kind = shard[0]
    if kind == "all":
        chunks = SHORTS[shard[1]]
        for final in (True, False):
            for style in (0, 2):
                data = transfer(chunks, None, style, final)
                n = len(data) - 1
                if quick and n > 17 or n > 22:
                    continue
                ctx.add(transitions=len(chunks) << n >> 3)
                for mask in range(shard[2], 1 << n, 8):
                    segs = split(data, [i + 1 for i in range(n) if mask >> i & 1])
                    check(ctx, P, data, segs, b"".join(chunks), CHUNKED, 4096, "read")
        ctx.outcome(repr(chunks))
        return
    if kind == "cuts":
        chunks = contents()[shard[1]]
        enc, wbits = CODINGS[shard[2]]
        want = b"".join(chunks)
        for style in (0, 1, 2) if not quick else (1,):
            data = transfer(chunks, wbits, style)
            n = len(data)
            ctx.outcome((shard[2], n))
            for k in (0, 1, 2):
                it = itertools.islice(itertools.combinations(range(1, n), k), shard[3], None, 4)
                for cuts in it:
                    if k == 2 and n > (90 if quick else 260) and not (cuts[1] - cuts[0] <= 5 or (cuts[0] % 7 == 0 and not quick)):
                        continue
                    check(ctx, P, data, split(data, cuts), want, enc, 4096, "line" if sum(cuts) % 2 else "read")
                    ctx.add(transitions=len(chunks))
            if not quick:
                for c in range(1 + shard[3], n, 4):
                    for cuts in itertools.combinations(range(c, min(c + 9, n)), 3):
                        check(ctx, P, data, split(data, cuts), want, enc, 4096, "read")
        return
    if kind == "sizes":
        chunks = contents()[shard[1]]
        enc, wbits = CODINGS[shard[2]]
        want = b"".join(chunks)
        for style in range(4):
            for final in (True, False):
                data = transfer(chunks, wbits, style, final)
                for size in list(range(1, 40)) + [64, 100, 4096]:
                    check(ctx, P, data, [data], want, enc, size, "read")
                    check(ctx, P, data, split(data, range(size, len(data), size)), want, enc, 7, "line")
                    for off in range(1, min(size, 8)):
                        check(ctx, P, data, split(data, range(off, len(data), size)), want, enc, 4096, "read")
                    ctx.add(transitions=len(chunks))
                    ctx.outcome((shard[2], size))
        return
    if kind == "big":
        # chunks of this size, before and after small ones; and this many small chunks
        size = shard[1]
        enc, wbits = CODINGS[shard[2]]
        x = size * 7919
        body = bytearray()
        for _ in range(size):  # hard to compress
            x = (x * 1103515245 + 12345) & 0x7FFFFFFF
            body.append(x >> 16 & 255)
        body = bytes(body)
        divisions = [[body], [b"ab", body, b"\r\n", body], [b"\r\n" * (size // 2), b"x"]]
        if size <= 8192:
            divisions.append([bytes([c]) for c in body])
        for chunks in divisions:
            want = b"".join(chunks)
            for style in (0, 1, 3):
                data = transfer(chunks, wbits, style)
                segsizes = {size - 1, size, size + 1, size + 5, size + 8, 4096, 65536, len(data)}
                for seg in sorted(z for z in segsizes if z * 400 >= len(data)):
                    segs = split(data, range(seg, len(data), seg))
                    for buf in (4096, 65536, seg, seg + 1, 1 << 21):
                        if buf * 400 < len(data):
                            continue
                        ctx.case([size, shard[2], style, seg, buf, len(chunks)])
                        w = P.SocketWrapper(S.FakeSocket(segs), encoding=enc, bufsize=buf)
                        got = w.read(len(want))
                        rest = w.read(1)
                        ctx.add(states=1, transitions=len(chunks), traces_validated_against_impl=1)
                        if got != want or rest:
                            ctx.violation(f"chunks {[len(c) for c in chunks][:9]} {shard[2]} segments of {seg} bufsize {buf}: "
                                          f"{len(got)} bytes {got[:40]!r}, should be {len(want)} bytes {want[:40]!r}; then {rest!r}")
            ctx.outcome((size, shard[2], len(chunks)))
        return
    # sentences through the reader; the content divided at every position
    enc, wbits = CODINGS[shard[1]]
    els = [S.SHORT, S.DOL, S.GLL, S.BADCK, S.CRLF, S.ACK]
    content = b"".join(e.data for e in els)
    exp = S.want(els, S.RAISE, 1)
    for c in range(1 + shard[2], len(content), 4):
        for chunks in ([content[:c], content[c:]], [content[i : i + c] for i in range(0, len(content), c)]):
            data = transfer(chunks, wbits, 1)
            for size in (1, 2, 3, 5, 11, 16, 50, 4096) if quick else range(1, 60):
                segs = split(data, range(size, len(data), size))
                ctx.case([chunks, enc, size])
                got = S.run(P, S.FakeSocket(segs), S.RAISE, 1, encoding=enc)
                ctx.add(states=1, transitions=len(exp), traces_validated_against_impl=1)
                d = S.diff(got, exp)
                if d:
                    ctx.violation(f"chunks {[len(x) for x in chunks]} coding {shard[1]} segments of {size}: {d}")
        ctx.outcome(("reader", shard[1], c))
