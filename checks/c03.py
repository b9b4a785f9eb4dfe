"""
C03: arbitrary bytes never crash, hang or leak a foreign exception.

Enumerated: every byte string up to a length over a structural alphabet, every published id x
mode x field position x hostile field value, every byte-level mutation (deletion, duplication,
substitution, transposition, truncation) of representative sentences with stale and with
corrected checksum, and every short chunk encoded transfer, each parsed and streamed under every
mode, validation setting and error policy. The work is measured in executed source lines.
"""

import itertools
import sys

from mc import core, ref
from mc import stream as S

ID = "C03"
LEVEL = "exploration"
RULE = (
    "all byte strings up to the length over the alphabet x modes x validation; ids x modes x field "
    "positions x hostile values x validation; all single-byte mutations; all short chunked "
    "transfers; growing inputs measured in lines; non-trivial = a header was recognised"
)
ASSUMPTIONS = [
    "allowed exceptions are those of pynmeagps.exceptions",
    "work is counted in source lines of the package; the bound is 2000 + 150 lines per byte "
    "(the largest ratios seen are reported)",
]
ALPHA = [b"$", b"G", b"N", b"P", b",", b"*", b"0", b"\r\n", b"\xff", b"A"]
HOSTILE = [
    "", "0", "1", "-1", "A", "S", "W", "99999999", "9" * 30, "9" * 5000, "1e400", "-1e400", "nan", "inf", "1_0", " 1 ", "0x1F",
    "\x00", "\u00e9", "\u0664\u0665", "_1", "OK", "ERROR", "000000.00", "999999", "9999.99999", "99999999999999999999.9", "." * 6,
    "x" * 300, "12345.6.7", "--5", "$GN", "[1]", "e", "1E5", "+", "-", "\ud800", "%s{}", "__class__", "payload", "\u00b2",
]
FORMATS = ["%", "%s", "{}", "%(a)s", "{0}", "%d", "{a}", "{", "}", "%%", "\\", "%n", "%s%s%s", "{0.__class__}", "$a", "'", '"', "\x1b[0m"]
PAIRS = ["", "1", "-1", "A", "999999999", "OK", "nan"]
TRANSFER = [b"0", b"1", b"F", b"\r", b"\n", b"$", b"-", b"_"]


def representative():
    defs = [d for d in ref.all_defs() if d.key in ("GGA", "RMC", "GSV", "GSA", "TXT", "ZDA", "UBX00", "UBX03", "QTMCFGUART", "SSNSNC", "ASHR", "STMDRSENMSG_1", "GRME", "NRM", "XDR", "ALF", "FECGPatt", "TNLBPQ", "QTMACK", "QTMSN")]
    out = []
    for d in defs:
        fields = ref.fields_for(d, "plain", 2)
        out.append((d, ref.content_of(d, fields)))
    return out


def shards(tier):
    n = len(ref.all_defs())
    out = [["bytes", a, b] for a in range(len(ALPHA)) for b in range(len(ALPHA))]
    out += [["fields", i, min(n, i + 6)] for i in range(0, n, 6)]
    out += [["mutate", i] for i in range(len(representative()))]
    out += [["chunk", i] for i in range(len(TRANSFER))]
    out += [["work", i] for i in range(8)] + [["ids"], ["format"]]
    return out


class Meter:
    """Counts executed lines of the package."""

    def __init__(self):
        self.n = 0

    def _trace(self, frame, event, _arg):
        if not frame.f_code.co_filename.startswith(core.SRC):
            return None
        return self._line

    def _line(self, _frame, event, _arg):
        if event == "line":
            self.n += 1
        return self._line

    def __call__(self, fun, *args, **kw):
        self.n = 0
        sys.settrace(self._trace)
        try:
            return fun(*args, **kw)
        finally:
            sys.settrace(None)


def run_shard(shard, ctx):
    P = core.use_repo()
    ERRS = (P.NMEAParseError, P.NMEAMessageError, P.NMEATypeError, P.NMEAStreamError)
    quick = ctx.tier == "quick"

    def parse(data, modes=(0, 1, 2), vals=(0, 1, 2, 3)):
        for mode in modes:
            for val in vals:
                ctx.case([data, mode, val])
                try:
                    msg = P.NMEAReader.parse(data, msgmode=mode, validate=val)
                    if msg is not None:
                        str(msg), repr(msg), msg.serialize(), msg.identity
                        out = "nominal" if "NOMINAL" in str(msg) else "message"
                    else:
                        out = "none"
                except ERRS as err:
                    out = type(err).__name__
                except Exception as err:  # pylint: disable=broad-except
                    ctx.violation(f"parse({data[:300]!r}, msgmode={mode}, validate={val}) raised {err!r}")
                    out = "foreign"
                ctx.outcome(out)
                ctx.add(evaluations=1, distinct_nontrivial=int(out not in ("none", "NMEAParseError")))

    def stream(data, configs=((0, 0, 3), (0, 1, 1), (0, 2, 3), (1, 2, 1), (2, 1, 0)), sock=True):
        for i, (mode, policy, val) in enumerate(configs):
            for nmeaonly in (False, True):
                ctx.case(["stream", data, mode, policy, val, nmeaonly])
                st = S.FakeSocket([data]) if sock and i % 2 else S.bio(data)
                try:
                    ev = S.run(P, st, policy, val, handler=False, msgmode=mode, nmeaonly=nmeaonly)
                except Exception as err:  # pylint: disable=broad-except
                    ctx.violation(f"reading {data[:300]!r}, mode {mode} policy {policy} validate {val} raised {err!r}")
                    continue
                if ev[-1] != ("eof",) or ("raised",) in ev or len(ev) > len(data) + 1:
                    ctx.violation(f"reading {data[:300]!r}, mode {mode} policy {policy} validate {val}: {S.short(ev)[-5:]}")
                ctx.add(evaluations=1)
                ctx.outcome(tuple(sorted({e[0] for e in ev})))

    kind = shard[0]
    if kind == "bytes":
        for n in range(0, 3 if quick else 5):
            for t in itertools.product(ALPHA, repeat=n):
                data = ALPHA[shard[1]] + ALPHA[shard[2]] + b"".join(t)
                parse(data, vals=(0, 1, 3))
                if quick or n < 4:
                    stream(data)
                    stream(data + b"\r\n" + data, ((0, 2, 0), (0, 1, 3)))
        # header and checksum shapes
        for n in range(0, 3 if quick else 4):
            for t in itertools.product(ALPHA, repeat=n):
                body = ALPHA[shard[1]] + ALPHA[shard[2]] + b"".join(t)
                body = body.replace(b"*", b"#")
                for head in (b"GN", b"P", b"GNGLL", b"PUBX", b"PASHR"):
                    parse(ref.sentence(head + body), vals=(1, 3))
        return
    if kind == "ids":
        ids = sorted(set(ref.SPEC["MSGIDS"]) | set(ref.SPEC["MSGIDS_PROP"]) | set(ref.PREFIXES))
        for i in ids:
            for head in ("GN" + i, "P" + i, i, "GX" + i, "GN" + i.lower(), "P" + i.lower(), "GN" + i + "Z", "P" + i[:2], "P" + i[:-1]):
                for pay in ("", ",", ",,", ",A", ",1", ",OK", ",00", ",1," + i, "," + ",".join("1" * 30), "," * 100):
                    parse(ref.sentence(head + pay), vals=(1, 3))
        return
    if kind == "format":
        # data which mean something to string formatting, wherever they may get into an error's text
        for f in FORMATS:
            f = f.encode()
            for g in FORMATS[:4] if quick else FORMATS:
                g = g.encode()
                for data in (
                    b"$G" + f + b"LL,1*00\r\n", b"$GN" + f + b",1*00\r\n", b"$P" + f + b"," + g + b"*00\r\n", b"$GNGLL,1*" + f + b"\r\n",
                    b"$GNGLL,1" + f + b"*" + g + b"\r\n", b"$GN" + f + g + b"\r\n", b"$PUBX," + f + b"," + g + b"*00\r\n", b"$PASHR," + f + g + b"*00\r\n",
                    ref.sentence(b"GNGSV," + f + b"," + g + b",1"), ref.sentence(b"GN" + f + b"," + g), ref.sentence(b"P" + f + g + b",1"),
                    ref.sentence(b"PUBX," + f + b"," + g), ref.sentence(b"PQTM" + f + b"," + g), ref.sentence(b"PASHR," + f + b"," + g), b"$" + f + g + b"\r\n",
                    ref.sentence(b"G" + f + b"L,1"), b"$GN\xff" + f + b"*00\r\n", b"$G" + f, b"$GNGLL," + f + g,
                ):
                    parse(data)
                    stream(data + data)
        return
    if kind == "fields":
        for d in ref.all_defs()[shard[1] : shard[2]]:
            raws = [f[2] for f in ref.fields_for(d, "plain", 2)]
            other = [m for m in (0, 1, 2) if m != d.mode]
            for i in range(len(raws)):
                for v in HOSTILE:
                    r = raws[:i] + [v] + raws[i + 1 :]
                    data = ref.content_of(d, r).encode("utf-8", "surrogatepass")
                    data = b"$" + data + b"*%02X\r\n" % ref.xor(data)
                    parse(data, (d.mode,), (1, 3))
                    if i < 2:
                        parse(data, other, (1,))
                        stream(data, ((d.mode, 1, 1),))
                for k in (i, i + 1):
                    parse(ref.sentence(ref.content_of(d, raws[:k])), vals=(1, 3))
                if not quick:
                    for v in PAIRS:
                        for w in PAIRS:
                            for j in range(i + 1, min(i + 4, len(raws))):
                                r = raws[:i] + [v] + raws[i + 1 : j] + [w] + raws[j + 1 :]
                                parse(ref.sentence(ref.content_of(d, r)), (d.mode,), (1,))
            for v in HOSTILE:
                data = ref.content_of(d, [v] * max(1, len(raws))).encode("utf-8", "surrogatepass")
                data = b"$" + data + b"*%02X\r\n" % ref.xor(data)
                parse(data, vals=(1, 3))
                if d.first:
                    data = ref.content_of(d, [d.first] + [v] * len(raws)).encode("utf-8", "surrogatepass")
                    parse(b"$" + data + b"*%02X\r\n" % ref.xor(data), vals=(1, 3))
        return
    if kind == "mutate":
        d, content = representative()[shard[1]]
        good = ref.sentence(content)
        subs = [0, 10, 13, 32, 36, 42, 44, 45, 46, 48, 57, 65, 80, 91, 127, 128, 195, 255] if quick else range(256)
        c = content.encode()
        muts = set()
        for i in range(len(good)):
            muts.add(good[:i])
            muts.add(good[i:])
            muts.add(good[:i] + good[i + 1 :])
            muts.add(good[:i] + good[i : i + 1] + good[i:])
            muts.add(good[:i] + good[i + 1 : i + 2] + good[i : i + 1] + good[i + 2 :])
            for b in subs:
                muts.add(good[:i] + bytes([b]) + good[i + 1 :])
                muts.add(good[:i] + bytes([b]) + good[i:])
        for i in range(len(c)):
            for m in [c[:i], c[:i] + c[i + 1 :], c[:i] + c[i : i + 1] + c[i:]] + [c[:i] + bytes([b]) + c[i + 1 :] for b in subs] + [c[:i] + bytes([b]) + c[i:] for b in subs]:
                muts.add(b"$" + m + b"*%02X\r\n" % ref.xor(m))
        for m in sorted(muts):
            parse(m, (d.mode,), (0, 1, 3))
            stream(m + good, ((d.mode, 2, 1), (d.mode, 1, 3)), sock=False)
        return
    if kind == "chunk":
        for n in range(0, 5 if quick else 6):
            for t in itertools.product(TRANSFER, repeat=n):
                data = TRANSFER[shard[1]] + b"".join(t)
                for enc in (1,) if n > 3 else (1, 3, 5, 9, 15):
                    for segs in ([data], [data[:1], data[1:], data]) + (([data[i : i + 1] for i in range(len(data))],) if n < 4 else ()):
                        ctx.case(["chunked", data, enc, [len(s) for s in segs]])
                        try:
                            ev = S.run(P, S.FakeSocket(segs + [b"F" * 17 + b"\r\n", b"5\r\n$GNZZ\r\n"]), S.LOG, 1, handler=False, encoding=enc)
                        except Exception as err:  # pylint: disable=broad-except
                            ctx.violation(f"chunked transfer {segs} encoding {enc} raised {err!r}")
                            continue
                        ctx.add(evaluations=1, distinct_nontrivial=1)
                        ctx.outcome(tuple(sorted({e[0] for e in ev})))
                        if ev[-1] != ("eof",):
                            ctx.violation(f"chunked transfer {segs} encoding {enc}: {S.short(ev)}")
        return
    # work: inputs growing in one dimension
    meter = Meter()
    fams = []
    for d in ref.all_defs()[shard[1] :: 8]:
        raws = [f[2] for f in ref.fields_for(d, "plain", 2)]
        head = d.talker + d.msgid
        names = [f[0] for f in ref.fields_for(d, "plain", 2)]
        counts = set(ref.counts_of(d.layout))
        for k in (50, 400, 3000):
            fams.append((d.mode, head + "," * k))
            fams.append((d.mode, ref.content_of(d, raws) + ",1" * k))
            fams.append((d.mode, head + ",1" * k))
            if d.first:
                fams.append((d.mode, head + "," + d.first + ",1" * k))
        for k in (3, 6, 9, 12, 100, 1000):
            for i in range(len(raws)):
                if names[i] in counts or i < 4 or not quick:
                    fams.append((d.mode, ref.content_of(d, raws[:i] + ["9" * k] + raws[i + 1 :])))
    for k in (50, 400, 3000):
        fams += [(0, "GN" + "X" * k), (0, "GNXXX" + ",a" * k), (0, "P" + "," * k), (0, "*" * k), (0, "," * k), (0, "P" + "$" * k), (0, "GNTXT,1,1,1," + "\u00e9" * k)]
    worst = 0
    for mode, content in fams:
        data = ref.sentence(content)
        for what, fun in (
            ("parse", lambda: P.NMEAReader.parse(data, msgmode=mode)),
            ("read", lambda: S.run(P, S.bio(data + data), S.IGNORE, 1, msgmode=mode)),
        ):
            ctx.case(["work", what, mode, data])
            try:
                meter(fun)
            except ERRS:
                pass
            except Exception as err:  # pylint: disable=broad-except
                ctx.violation(f"{what} {data[:200]!r}... raised {err!r}")
            n = len(data) * (1 if what == "parse" else 2)
            worst = max(worst, meter.n * 100 // n)
            ctx.add(evaluations=1, distinct_nontrivial=1)
            ctx.outcome((what, len(str(meter.n))))
            if meter.n > 2000 + 150 * n:
                ctx.violation(f"{what} of {n} bytes {data[:200]!r}... executes {meter.n} lines")
    # foreign data and dollars
    for k in (100, 1000, 10000):
        for f in (b"$", b"x", b"\xb5b", b"$x", b"\r\n", b"$P", b"$G\n"):
            data = f * k
            for sock in (False, True):
                ctx.case(["work", f, k])
                st = S.FakeSocket([data]) if sock else S.bio(data)
                meter(lambda: S.run(P, st, S.IGNORE, 1, limit=10**6))
                ctx.add(evaluations=1)
                if meter.n > 2000 + 150 * len(data):
                    ctx.violation(f"reading {k} times {f!r} executes {meter.n} lines")
    ctx.notes["max_lines_per_100_bytes"] = worst
