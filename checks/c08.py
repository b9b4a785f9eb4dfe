"""
C08: NMEA-only mode reports foreign data and still delivers the sentences.

Enumerated: every sequence of sentences and foreign elements up to the depth, and every short
foreign byte string, x error policy x mode; oracle: one error per dollar sign which starts no
sentence. Foreign data without any dollar sign is expected to be reported, too; that the reader
skips it silently is a recorded finding, reported only for exactly that outcome.
"""

import itertools

from mc import core, ref
from mc import stream as S

ID = "C08"
LEVEL = "model_checking"
RULE = (
    "all element sequences up to the depth and all foreign byte strings up to the length x policy "
    "x handler x nmeaonly x validation; state = model position, transition = element"
)
ASSUMPTIONS = ["a foreign header is a dollar sign followed by a byte which is not the first letter of a talker"]
ELS = [S.GLL, S.TXT, S.PUBX, S.BADCK, S.UNK, S.UBXD, S.DOL, S.DOL2, S.DOLX, S.CRLF]
NODOLLAR = [S.UBX, S.RTCM, S.TEXT, S.NUL, S.BANG, S.HI]
ALPHA = [b"$", b"G", b"x", b"*", b"\r", b"\n", b"\x00", b"\xff"]
FINDING = "nmeaonly-skips-data-without-dollar"


def configs():
    for nmeaonly in (True, False):
        for policy, handler in ((S.IGNORE, True), (S.LOG, True), (S.LOG, False), (S.RAISE, False)):
            for validate in (1, 3):
                yield dict(validate=validate, policy=policy, handler=handler, nmeaonly=nmeaonly)


def shards(tier):
    n = len(ELS)
    out = [["seq", i, j] for i in range(n) for j in range(n)]
    out += [["bytes", a, b] for a in range(len(ALPHA)) for b in range(len(ALPHA))]
    out += [["second", i] for i in range(8)]
    out += [["nodollar", i] for i in range(len(NODOLLAR))]
    return out


def check(ctx, P, els, **kw):
    data = b"".join(e.data for e in els)
    ctx.case([repr(els), kw])
    exp = S.want(els, kw["policy"], kw["validate"], kw["nmeaonly"])
    got = S.run(P, S.bio(data), **kw)
    ctx.add(transitions=len(els), traces_validated_against_impl=1)
    d = S.diff(got, exp)
    if d:
        ctx.violation(f"stream {els} {kw} {data[:300]!r}: {d}")
    return exp


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    if shard[0] == "seq":
        for n in range(0, 2 if quick else 3):
            for t in itertools.product(ELS, repeat=n):
                els = [ELS[shard[1]], ELS[shard[2]], *t]
                ctx.add(states=1)
                for kw in configs():
                    exp = check(ctx, P, els, **kw)
                    check(ctx, P, els, iterate=True, **kw)
                    ctx.outcome(repr([e[0] for e in exp]))
        for t in itertools.product(ELS, repeat=3 if quick else 4):
            els = [ELS[shard[1]], ELS[shard[2]], *t]
            ctx.add(states=1)
            check(ctx, P, els, policy=S.RAISE, validate=1, nmeaonly=True)
        return
    if shard[0] == "bytes":
        for n in range(0, 4 if quick else 5):
            for t in itertools.product(ALPHA, repeat=n):
                data = ALPHA[shard[1]] + ALPHA[shard[2]] + b"".join(t)
                if b"$G" in data or b"$" not in data:
                    continue
                f = S.foreign(repr(data), data)
                ctx.add(states=1)
                for kw in (
                    dict(policy=S.RAISE, validate=1, nmeaonly=True),
                    dict(policy=S.LOG, validate=1, nmeaonly=True),
                    dict(policy=S.RAISE, validate=1, nmeaonly=False),
                ):
                    check(ctx, P, [S.GLL, f, S.TXT, f], **kw)
                ctx.outcome(len(data))
        return
    if shard[0] == "second":
        # every byte which can follow a dollar sign without starting a sentence
        hdr1 = {ord(t[0]) for t in ref.SPEC["TALKERS"]}
        for b in range(shard[1], 256, 8):
            if b in hdr1:
                continue
            for tail in (b"", b"\r\n", b"\n", b"5.00,*2A\r\n", b"GN", b"$" + bytes([b])):
                if b == 0x24 and tail[:1] == b"G":
                    continue
                data = b"$" + bytes([b]) + tail
                f = S.foreign(repr(data), data)
                ctx.add(states=1)
                ctx.outcome(data[1:2].isalpha())
                for kw in configs():
                    check(ctx, P, [f, S.GLL], **kw)
                    check(ctx, P, [S.TXT, f, S.BADCK, f, S.GLL, f], **kw)
        return
    f = NODOLLAR[shard[1]]
    for kw in configs():
        for els in ([f, S.GLL], [S.GLL, f, S.TXT], [S.GLL, f], [f, f, S.TXT, f, S.GLL]):
            data = b"".join(e.data for e in els)
            ctx.case([repr(els), kw])
            ctx.add(states=1, transitions=len(els), traces_validated_against_impl=1)
            got = S.run(P, S.bio(data), **kw)
            quiet = S.want(els, kw["policy"], kw["validate"], kw["nmeaonly"])
            ctx.outcome(repr([e[0] for e in quiet]))
            if not kw["nmeaonly"] or kw["policy"] == S.IGNORE:
                d = S.diff(got, quiet)
                if d:
                    ctx.violation(f"stream {els} {kw} {data[:300]!r}: {d}")
            elif got == quiet:
                ctx.violation(f"stream {els} {kw}: foreign data without a dollar sign raises no error", key=FINDING)
            else:
                # reported: the sentences must still all be delivered, the rest being errors
                rest = [e for e in got if e != ("err",)]
                if rest != quiet or not any(e == ("err",) for e in got):
                    ctx.violation(f"stream {els} {kw} {data[:300]!r}: {S.short(got)}")
