"""
C31: a message is created whole or not at all.

Enumerated: every published definition (with its variants) x mode x attribute x values of every
built-in type, right and wrong for the field, alone, together with right values for the others,
and in all fields at once; constructor arguments (talkers x ids x modes x validation x keywords);
malformed user-defined definitions. Each creation must raise one of the package's errors or
give a message whose sentence, string forms and re-parsing are in order.
"""

import datetime as dt
import decimal
import fractions
import itertools

from mc import core, ref

ID = "C31"
LEVEL = "model_checking"
RULE = (
    "definition x mode x (attribute, value) singly / with right values elsewhere / same value everywhere; "
    "talker x id x mode x validation x keywords; user-defined definition x keywords; "
    "state = (definition, attribute, value), transition = creation, trace = sentence parsed back"
)
ASSUMPTIONS = [
    "talker, id and payload fields are text that can be encoded, the mode is an integer, and attribute names in "
    "definitions are not names of the class",
    "repeat counts and group indices supplied are small (creating n groups takes n steps)",
]
VALUES = [
    None, "", "x", "0", "-", ".", "a b", "a,b", "1*2", "$", "\r\n", "\xe9\u20ac", "'", '"', "\\", "1e5", "nan", "2020-01-02", "10:20:30", True, False, 0, -1, 2, -(10**400), 1.5,
    -0.0, float("nan"), float("inf"), -float("inf"), 1e-300, 1e300, 1j, b"x", bytearray(b"y"), [], [1], (), (1, 2), {}, {"a": 1}, set(), frozenset([1]), range(3), object, len, Ellipsis,
    dt.date(2020, 1, 2), dt.date(1, 1, 1), dt.date(9999, 12, 31), dt.time(1, 2, 3), dt.time(23, 59, 59, 999999), dt.datetime(2020, 1, 2, 3, 4, 5), dt.timedelta(1),
    decimal.Decimal("1.5"), decimal.Decimal("NaN"), decimal.Decimal("sNaN"), decimal.Decimal("Infinity"), decimal.Decimal("1e99"), fractions.Fraction(1, 3),
]
BIG = 10**400  # not for repeat counts
IDS = ["GGA", "GLL", "RMC", "ZZZ", "", "U", "UBX", "ASHR", "TNL", "FEC", "SSN", "GPPADV", "QTMSN", "QTMCFGSAT", "STMDRSENMSG", "gga", "UBX00", "GPQ", "\xe9"]
KW = [
    {}, {"payload": ["1", "2", "3"]}, {"payload": []}, {"payload": [""]}, {"payload": ("1",)}, {"payload": ["\xe9", "\u20ac", "*"]}, {"payload": None}, {"payload": 5},
    {"msgId": "00"}, {"msgId": ""}, {"msgId": None}, {"msgId": 5}, {"msgId": []}, {"msgId": "ZZ"}, {"foo": 1}, {"foo_01": 1}, {"field_01": "x"}, {"lat": -1.5, "lon": 200}, {"lat": "x", "lon": None},
    {"payload": ["7"], "lat": 5}, {"payload": ["a"], "msgId": "03"}, {"checksum": "00"}, {"checksum": ""}, {"payload": ["1"], "checksum": "7f"},
]
UD = [
    {"a": "ZZ"}, {"a": ""}, {"a": None}, {"a": 5}, {"a": []}, {"a": {}}, {"g": ("missing", {"b": "IN"})}, {"g": (1,)}, {"g": ()}, {"g": (1, {"b": "IN"}, 2)}, {"g": (None, {"b": "IN"})},
    {"g": ("None", {})}, {"g": (1.5, {"b": "IN"})}, {"g": (-1, {"b": "IN"})}, {"g": (0, {"b": "IN"})}, {"a": "CH", "g": ("a", {"b": "IN"})}, {"a": "DE", "g": ("a", {"b": "IN"})}, {"a": "TM", "g": ("a", {"b": "IN"})},
    {5: "CH"}, {None: "CH"}, {"lat": "CH", "NS": "LAD"}, {"NS": "LAD", "lat": "LA"}, {"lon": "TM", "EW": "LND"}, {}, None, [], "x", 5, {"g": (2, None)}, {"g": (2, "x")}, {"g": (2, ["a"])}, {"g": (2, {"b": None})},
    {"payload": "CH"}, {"identity": "CH"}, {"talker": "IN"}, {"checksum": "CH"}, {"a": "IN", "b": "IN", "a_01": "CH"},
]
UKW = [{"payload": ["1", "2", "3"]}, {"payload": []}, {"payload": ["x"]}, {}, {"a": 1, "b_01": 2}, {"a": "1"}, {"b_02": 1}, {"lat": 1.0}, {"lon": -1}]


def shards(tier):
    n = len(ref.all_defs())
    step = 24 if tier == "quick" else 6
    return [["defs", i, min(n, i + step)] for i in range(0, n, step)] + [["args", i] for i in range(len(IDS))] + [["user", m] for m in range(3)]


def show(x):
    return repr(x) if len(repr(x)) < 80 else repr(x)[:80] + "..."


def create(ctx, P, args, kw, must=None, size=None):
    """One creation. must: True = has to succeed, False = has to be refused; size: number of fields."""
    case = f"NMEAMessage({', '.join(map(repr, args))}, {', '.join(f'{k}={show(v)}' for k, v in kw.items())})"
    ctx.case(case)
    ctx.add(transitions=1)
    try:
        msg = P.NMEAMessage(*args, **kw)
    except (P.NMEAMessageError, P.NMEATypeError, P.NMEAParseError):
        if must:
            ctx.violation(f"{case} is refused")
        return "refused"
    except Exception as err:  # pylint: disable=broad-except
        ctx.violation(f"{case} raises {err!r}")
        return "foreign"
    if must is False:
        ctx.violation(f"{case} is accepted: {msg}")
    try:
        raw, fields, cks = msg.serialize(), msg.payload, msg.checksum
        str(msg), repr(msg), msg.identity
    except Exception as err:  # pylint: disable=broad-except
        ctx.violation(f"{case}: created, but cannot be shown or serialized: {err!r}")
        return "broken"
    if size is not None and len(fields) != size:
        ctx.violation(f"{case}: has {len(fields)} fields {fields}, should have {size}")
    content = "".join([args[0] + args[1]] + ["," + f for f in fields]).encode()
    want = ref.xor(content) if kw.get("checksum") is None else kw["checksum"]
    want = want if isinstance(want, str) else f"{want:02X}"
    if raw != b"$" + content + b"*" + want.encode() + b"\r\n" or cks != want:
        ctx.violation(f"{case}: serialized as {raw!r} with checksum {cks!r}, should be ${content!r}*{want}")
    ctx.add(traces_validated_against_impl=1)
    for what, f in (("parsing it", lambda: P.NMEAReader.parse(raw, msgmode=args[2], userdefined=kw.get("userdefined"))), ("evaluating its repr", lambda: eval(repr(msg), {"NMEAMessage": P.NMEAMessage}))):
        try:
            f()
        except (P.NMEAMessageError, P.NMEATypeError, P.NMEAParseError):
            pass
        except Exception as err:  # pylint: disable=broad-except
            ctx.violation(f"{case}: {what} ({raw!r}) raises {err!r}")
    return "created"


def huge(v):
    """A float no repeat count can be: whether it is refused or counted is not decided here."""
    if isinstance(v, decimal.Decimal):
        return not v.is_nan() and v > 1000
    return isinstance(v, float) and v > 1000


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    if shard[0] == "defs":
        for d in ref.all_defs()[shard[1] : shard[2]]:
            fields = ref.fields_for(d, "plain", 2)
            names = [n for n, _, _ in fields]
            fixed = {"msgId": d.first} if d.first is not None and names[:1] == ["msgId"] else {}
            counts = set(ref.counts_of(d.layout))

            try:
                good = P.NMEAReader.parse(ref.sentence(ref.content_of(d, [f[2] for f in fields])), msgmode=d.mode)
                right = {n: getattr(good, n) for n in names if hasattr(good, n)}
            except (P.NMEAMessageError, P.NMEATypeError, P.NMEAParseError):
                right = {}
            args = (d.talker, d.msgid, d.mode)
            seen = set()

            def size(kw, n, d=d, args=args, counts=counts, right=right):
                """Number of fields with this attribute: that with the right value, unless it decides on the layout."""
                if n in counts or n not in right or n in ("msgId", "msgtype") or d.variant or d.msgid in ref.OVERLOADED:
                    return None
                try:
                    return len(P.NMEAMessage(*args, **{**kw, n: right[n]}).payload)
                except (P.NMEAMessageError, P.NMEATypeError):
                    return None

            for n, typ, _ in fields + [("foo", "", ""), ("foo_01", "", ""), ("msgId", "", "")]:
                s1, s2 = size(fixed, n), size(right, n)
                for v in VALUES + ([BIG] if n not in counts and typ != "IN" else []):
                    if n in counts and huge(v):
                        continue
                    ctx.state((str(d), n, repr(v)[:60]))
                    for extra in ({}, {"hpnmeamode": True}) if typ in ("LA", "LN") else ({},):
                        for vals in (0, 3):
                            if quick and vals and [n] != names[:1]:
                                continue
                            seen.add(create(ctx, P, args, {**fixed, n: v, "validate": vals, **extra}, size=s1))
                        seen.add(create(ctx, P, args, {**right, n: v, **extra}, size=s2))
            for v in VALUES:
                if counts and huge(v):
                    continue
                seen.add(create(ctx, P, args, {**dict.fromkeys(names, v), **fixed}))
            if not quick:
                for (n, t), (n2, t2) in itertools.combinations([f[:2] for f in fields[:12]], 2):
                    for v, v2 in itertools.product(VALUES[::3], repeat=2):
                        if n in counts and huge(v) or n2 in counts and huge(v2):
                            continue
                        seen.add(create(ctx, P, args, {**right, n: v, n2: v2}))
            ctx.outcome((str(d), tuple(sorted(seen))))
        return
    if shard[0] == "args":
        mid = IDS[shard[1]]
        known = mid in ref.SPEC["MSGIDS"] or mid in ref.SPEC["MSGIDS_PROP"] or mid in ref.PREFIXES
        for talker in ("GN", "P", "", "G", "ZX", "\xe9"):
            for mode in (0, 1, 2, 3, -1, 99):
                for val in range(4):
                    for kw in KW:
                        ctx.state((mid, talker, mode, val, repr(kw)))
                        bad = mode not in (0, 1, 2) or val & 2 and (not known or talker not in ref.SPEC["TALKERS"])
                        ctx.outcome(create(ctx, P, (talker, mid, mode), {**kw, "validate": val}, False if bad else None))
                        if not known and mode in (0, 1, 2) and not val & 2 and isinstance(kw.get("payload", []), (list, tuple)):
                            create(ctx, P, (talker, mid, mode), {**kw, "validate": val, "hpnmeamode": True}, True)
        return
    for i, d in enumerate(UD):
        for kw in UKW:
            for val in (0, 1, 3):
                ctx.state((i, repr(kw), val))
                ctx.outcome((i, create(ctx, P, ("GN", "FUZ", shard[1]), {**kw, "validate": val, "userdefined": {"FUZ": d}})))
        for lay in ({"x": d}, {"x": (2, d)}, {"x": ("None", d)}):
            if isinstance(d, (dict, tuple)):
                for kw in UKW:
                    ctx.outcome((i, create(ctx, P, ("GN", "FUZ", shard[1]), {**kw, "userdefined": {"FUZ": lay}})))
