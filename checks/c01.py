"""
C01: every well-formed sentence in a mixed stream is delivered exactly once.

Model: a stream is a sequence of elements; each good sentence causes one delivery, foreign data
none. Enumerated: every element sequence up to the depth, every foreign byte string up to a
length over a structural alphabet before, between and after sentences, every published layout in
one stream with every foreign element in between, every talker of the NMEA standard, every character within a sentence, every kind of
malformed line between two sentences, sentences of up to tens of kilobytes, streams of tens of
thousands of sentences; each model trace is replayed on the reader.
"""

import itertools

from mc import core, ref
from mc import stream as S

ID = "C01"
LEVEL = "model_checking"
RULE = (
    "all element sequences up to the depth (sentences, UBX, RTCM3, text, dollar signs, line ends) "
    "x read/iterate x stream type; all foreign byte strings up to the length over the alphabet in "
    "three positions; all layouts x all foreign neighbours; state = model position (sequence so "
    "far), transition = element consumed"
)
ASSUMPTIONS = [
    "sentences end in CRLF and are parsed in the reader's mode; foreign data contains no dollar "
    "sign followed by the first letter of a talker id",
]
GOOD = [S.GLL, S.RMC, S.TXT, S.GSV, S.PUBX, S.SHORT, S.UNK]
FOREIGN = [S.UBX, S.UBXD, S.RTCM, S.TEXT, S.CRLF, S.LF, S.NUL, S.DOL, S.DOL2, S.DOLX, S.BANG, S.STAR, S.HI]
ELS = GOOD + FOREIGN
# lines which start like a sentence, but are none; they end with their own line end
MALFORMED = [
    S.foreign("malformed " + repr(x), x)
    for x in (b"$GNGLL\r\n", b"$GN\xff,1*00\r\n", b"$P\r\n", b"$G\n", b"$GNGLL,,\n", b"$PUBX,\xe9\r\n", b"$G$GNGLL\r\n", b"$GLL,1\r\n")
]
ALPHA = [b"$", b"G", b"x", b"*", b"\r", b"\n", b"\x00", b"\xb5", b",", b"P", b"\xff"]


def shards(tier):
    n = len(ELS)
    out = [["seq", i, j] for i in range(n) for j in range(n)]
    out += [["opt", i] for i in range(n)]
    out += [["bytes", a, b] for a in range(len(ALPHA)) for b in range(len(ALPHA))]
    out += [["defs", m, i] for m in range(3) for i in range(len(FOREIGN))]
    out += [["long", i] for i in range(8)]
    out += [["history", i] for i in range(4)]
    out += [["talkers", i] for i in range(8)]
    out += [["chars", i] for i in range(4)]
    out += [["malformed", i] for i in range(len(MALFORMED))]
    return out


def check(ctx, P, els, **kw):
    data = b"".join(e.data for e in els)
    ctx.case([repr(els), kw])
    st = S.FakeSocket([data]) if kw.pop("sock", False) else S.bio(data)
    exp = S.want(els, kw.get("policy", S.RAISE), kw.get("validate", 1))
    got = S.run(P, st, limit=10000 + 2 * len(els), **kw)
    ctx.add(transitions=len(els), traces_validated_against_impl=1)
    d = S.diff(got, exp)
    if d:
        ctx.violation(f"{d[:600]}: stream {els} {kw} {data[:300]!r}")
    return exp


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    kind = shard[0]
    if kind == "talkers":
        els = []
        for t in ref.SPEC["TALKERS"][shard[1] :: 8]:
            if len(t) != 2:
                continue
            e = S.sent(f"GLL of {t}", "GET", "GLL", talker=t)
            u = S.unknown(f"unknown of {t}", "XXX", ["a", "b"], t)
            els += [e, S.UBXD, u]
            for f in FOREIGN:
                ctx.add(states=1)
                check(ctx, P, [f, e, u, f, S.GLL, u, e])
            ctx.outcome(t)
        check(ctx, P, els, iterate=True)
        return
    if kind == "chars":
        # sentences which contain every character, and pairs of the structural ones
        texts = [chr(c) for c in range(0, 256) if chr(c) not in "\n*,"] + list("€\u2028\u0085\u3042😀\ufeff")
        odd = "\x00\r$ \t\x0b\x0c\x1a\x1b\x7f\xa0é"
        texts += [a + b for a in odd for b in odd]
        for c in texts[shard[1] :: 4]:
            els = []
            for text in (c, "a" + c, c + "a", "a" + c + "b", c * 3):
                if "*" in text or text.endswith("\r"):
                    continue
                els.append(S.sent(f"TXT {text!r}", "GET", "TXT", raws=["01", "01", "02", text]))
                els.append(S.unknown(f"unknown {text!r}", "XXX", [text, "", text]))
            for e in els:
                ctx.add(states=1)
                check(ctx, P, [S.UBXD, e, S.TEXT, e, e, S.GLL])
                check(ctx, P, [S.DOL, e, S.GLL, e], sock=True, iterate=True, policy=S.IGNORE)
            check(ctx, P, els + els[::-1])
            ctx.outcome(c)
        return
    if kind == "history":
        # far more sentences than 16 bits count
        many = 70000 if quick else 300000
        sock, iterate = shard[1] & 1, shard[1] >> 1
        data = [ref.sentence(f"GNSTN,{i}") for i in range(many)]
        fill = (b"", b"\xb5b$", b"$$", b"\r\n", b"ab")
        st = (S.FakeSocket if sock else lambda segs: S.bio(b"".join(segs)))([fill[i % 5] + raw for i, raw in enumerate(data)])
        rdr = P.NMEAReader(st, quitonerror=S.RAISE)
        ctx.case(["history", many, "socket" if sock else "plain", "iterate" if iterate else "read"])
        n = 0
        for i in range(many):
            raw, msg = next(rdr, (None, None)) if iterate else rdr.read()
            if raw != data[i] or msg is None or msg.talkerId != str(i):
                ctx.violation(f"sentence {i} of {many}: {raw!r} {msg} instead of {data[i]!r}")
                break
            n += 1
        ctx.add(states=n, transitions=n, traces_validated_against_impl=1)
        ctx.outcome(("history", sock, iterate))
        return
    if kind == "malformed":
        # delivered without a message or reported, as the parser decides, at no other cost
        m = MALFORMED[shard[1]]
        els2 = [S.GLL, S.ACK, S.UNK, S.UBXD, S.DOL, S.DOLX] + MALFORMED
        for n in range(0, 3):
            for t in itertools.product(els2, repeat=n):
                for els in ([m, *t], [*t, m], [S.SHORT, *t, m, S.SHORT]):
                    data = b"".join(e.data for e in els)
                    if m.data[:1] == b"$" and b"$" + m.data in data:
                        continue  # a dollar sign directly before it changes its first bytes
                    exp = [e for e in S.want(els, S.RAISE, 1) if e[0] != "err"]
                    for kw in (
                        {"iterate": True},
                        {"policy": S.LOG},
                        {"policy": S.LOG, "iterate": True},
                        {"policy": S.IGNORE},
                        {"policy": S.IGNORE, "iterate": True},
                        {"sock": True, "iterate": True},
                    ):
                        kw = dict(kw)
                        if kw.get("sock") and b"\n" in data.replace(b"\r\n", b""):
                            continue
                        ctx.case([repr(els), kw])
                        st = S.FakeSocket([data]) if kw.pop("sock", False) else S.bio(data)
                        got = [e for e in S.run(P, st, **kw) if e[0] not in ("none", "err")]
                        ctx.add(states=1, transitions=len(els), traces_validated_against_impl=1)
                        d = S.diff(got, exp)
                        if d:
                            ctx.violation(f"stream {els} {kw} {data!r}: {d}")
            ctx.outcome((m.name, n))
        return
    if kind == "seq":
        depth = 4 if quick else 5
        # the last element of a deep sequence is a sentence or the end of the stream
        for n in range(0, depth - 1):
            for t in itertools.product(ELS, repeat=n):
                els = [ELS[shard[1]], ELS[shard[2]], *t]
                ctx.add(states=1)
                exp = check(ctx, P, els)
                if n < 2:
                    ctx.outcome(repr([e[0] for e in exp]))
        return
    if kind == "opt":
        for n in range(0, 3):
            for t in itertools.product(ELS, repeat=n):
                els = [ELS[shard[1]], *t]
                ctx.add(states=1)
                for sock in (False, True):
                    for iterate in (False, True):
                        for policy in (S.IGNORE, S.LOG, S.RAISE):
                            check(ctx, P, els, sock=sock, iterate=iterate, policy=policy, validate=0 if policy else 1)
                # an endlessly looping stream position: every sentence repeated
                check(ctx, P, els * 3)
                ctx.outcome(len(els))
        return
    if kind == "bytes":
        maxlen = 5 if quick else 6
        a, b = S.GLL, S.RMC
        for n in range(0, maxlen - 1):
            for t in itertools.product(ALPHA, repeat=n):
                data = ALPHA[shard[1]] + ALPHA[shard[2]] + b"".join(t)
                if b"$G" in data * 2 or b"$P" in data * 2:
                    continue
                f = S.foreign("foreign " + repr(data), data)
                ctx.add(states=3)
                check(ctx, P, [f, a, f, b, f])
                check(ctx, P, [a, f, f, b])
                ctx.outcome(len(data))
        if shard[1] == 0 and shard[2] == 0:
            for c in range(256):  # every single byte
                f = S.foreign(f"byte {c}", bytes([c]))
                check(ctx, P, [f, a, f, b, f])
                if c not in b"ABCDEFGHILMNPRSTUVWYZ":
                    f = S.foreign(f"dollar, byte {c}", bytes([36, c]))
                    check(ctx, P, [f, a, f, b, f])
                ctx.add(states=2)
        return
    if kind == "long":  # long streams, long sentences, long foreign data
        i = shard[1]
        n = 3000 if quick else 30000
        check(ctx, P, [ELS[(j * (i + 3) + j // 7) % len(ELS)] for j in range(n)], sock=i % 2 == 1)
        for size in (80, 81, 82, 83, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65536, 100003)[i::8]:
            body = "".join(chr(97 + k % 26) for k in range(size))
            e = S.sent(f"TXT of {size}", "GET", "TXT", raws=["01", "01", "02", body])
            f = S.foreign(f"foreign of {size}", b"\xb5b" + body.encode() + b"$")
            for sock in (False, True):
                check(ctx, P, [f, e, f, f, e, e], sock=sock)
                ctx.outcome((size, sock))
        ctx.add(states=n)
        return
    mode, f = shard[1], FOREIGN[shard[2]]
    els = []
    for d in ref.all_defs():
        if d.mode != mode:
            continue
        for cls in ("plain",) if quick else ("plain", "sw", "zero", "odd"):
            e = S.sent(repr(d), d.table, d.key, cls, 2)
            els += [e, f]
            ctx.add(states=2)
            check(ctx, P, [f, e, e, f, e], msgmode=mode)
            ctx.outcome(d.key)
    check(ctx, P, els, msgmode=mode)
    check(ctx, P, els, msgmode=mode, sock=True, iterate=True)
