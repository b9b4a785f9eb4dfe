"""
Reference models, written from the published formats and independent of the code
under test: checksum, sentence layout automaton, typed field values, sentence builder.
"""

import datetime as dt
import json
import os
from fractions import Fraction

with open(
    os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec_defs.json"),
    encoding="utf-8",
) as _f:
    SPEC = json.load(_f)

GET, SET, POLL = 0, 1, 2
MODES = {"GET": 0, "GET_PROP": 0, "SET": 1, "SET_PROP": 1, "POLL": 2, "POLL_PROP": 2}
PREFIXES = SPEC["PREFIX_PROP"]
# ids whose layout depends on the number of fields / supplied attributes
OVERLOADED = (
    "QTMCFGGEOFENCE",
    "QTMCFGMSGRATE",
    "QTMCFGPPS",
    "QTMCFGSAT",
    "QTMCFGUART",
    "QTMSN",
)


def xor(data):
    val = 0
    for b in data:
        val ^= b
    return val


def sentence(content, cksum=None, term=b"\r\n"):
    """Wire form of a sentence with this content."""
    if isinstance(content, str):
        content = content.encode("utf-8")
    ck = b"%02X" % xor(content) if cksum is None else cksum
    return b"$" + content + b"*" + ck + term


# ---------------------------------------------------------------- typed fields


class Near(float):
    """A position in degrees, which an implementation may round in the 10th decimal."""


def ref_latlon(field):
    """(d)ddmm.mmm -> degrees as exact fraction rounded to 10 decimals, '' if invalid."""
    dp = field.find(".")
    if dp < 4:
        return ""
    d, m = field[: dp - 2], field[dp - 2 :]
    d = d[1:] if d[:1] in ("-", "+") else d
    mi, _, mf = m.partition(".")
    if not (d.isdigit() and mi.isdigit() and (mf == "" or mf.isdigit())):
        return ""
    val = Fraction(int(d)) + Fraction(int(mi + mf), 10 ** len(mf)) / 60
    return Near(float(round(val * 10**10)) / 10**10)


def ref_date(field, form):
    n = 8 if form == "DTL" else 6
    if len(field) != n or not (field.isascii() and field.isdigit()):
        return ""
    a, b, y = int(field[0:2]), int(field[2:4]), int(field[4:])
    if form != "DTL":
        y += 2000 if y <= 68 else 1900
    d, m = (b, a) if form == "DM" else (a, b)
    dim = [31, 29 if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else 28, 31, 30]
    dim += [31, 30, 31, 31, 30, 31, 30, 31]
    if y < 1 or not 1 <= m <= 12 or not 1 <= d <= dim[m - 1]:
        return ""
    return dt.date(y, m, d)


def ref_time(field):
    i, dot, f = field.partition(".")
    if len(i) != 6 or not (i.isascii() and i.isdigit()):
        return ""
    if dot and not (1 <= len(f) <= 6 and f.isascii() and f.isdigit()):
        return ""
    h, m, s = int(i[0:2]), int(i[2:4]), int(i[4:6])
    if h > 23 or m > 59 or s > 59:
        return ""
    return dt.time(h, m, s, int((f + "000000")[:6]))


def ref_value(raw, typ):
    """Typed value of a well-formed field."""
    if typ in ("CH", "ST", "LAD", "LND", "QS", "HX"):
        return raw
    if typ == "DE":
        return raw if raw == "" else float(raw)
    if typ == "IN":
        return raw if raw == "" else int(raw)
    if typ in ("LA", "LN"):
        return ref_latlon(raw)
    if typ == "TM":
        return ref_time(raw)
    if typ in ("DT", "DTL", "DM"):
        return ref_date(raw, typ)
    raise ValueError(typ)


# ---------------------------------------------------------------- layouts


def base_type(t):
    return t


def is_group(t):
    return isinstance(t, (list, tuple))


def flat_len(layout):
    """Number of fields of a layout without its groups."""
    return sum(1 for _, t in layout if not is_group(t))


def decode(layout, payload, stats=None):
    """
    Layout automaton: walks the layout over the payload.
    Returns ordered [(attribute, type, raw field)].
    State: (position in layout, group number, next field); one transition per field.
    """
    out = []
    vals = {}

    def walk(lay, pos, suffix):
        for name, typ in lay:
            if is_group(typ):
                num, sub = typ
                if isinstance(num, int):
                    n = num
                elif num == "None":
                    n = (len(payload) - pos) // len(sub)
                else:
                    n = int(vals[num])
                for i in range(n):
                    if pos >= len(payload):
                        break
                    pos = walk(sub, pos, suffix + f"_{i + 1:02d}")
            elif pos < len(payload):
                vals[name + suffix] = payload[pos]
                out.append((name + suffix, typ, payload[pos]))
                pos += 1
        return pos

    walk(layout, 0, "")
    if stats is not None:
        stats.add(states=len(out) + 1, transitions=len(out))
    return out


def expected(layout, payload, strip="", stats=None):
    """Ordered [(attribute, typed value)] of a received sentence, hemisphere applied."""
    res = {}
    for name, typ, raw in decode(layout, payload, stats):
        if strip:
            for ch in strip:
                raw = raw.replace(ch, "")
        val = ref_value(raw, typ)
        res[name] = val
        if typ == "LAD" and isinstance(res.get("lat"), (int, float)):
            res["lat"] = type(res["lat"])(-abs(res["lat"]) if val == "S" else abs(res["lat"]))
        elif typ == "LND" and isinstance(res.get("lon"), (int, float)):
            res["lon"] = type(res["lon"])(-abs(res["lon"]) if val == "W" else abs(res["lon"]))
    return list(res.items())


# ---------------------------------------------------------------- definitions


class Def:
    """One published definition: how it is addressed on the wire."""

    def __init__(self, table, key):
        self.table, self.key = table, key
        self.layout = SPEC[table][key]
        self.mode = MODES[table]
        self.first = None  # required value of the first field
        self.variant = False
        prop = table.endswith("_PROP") or key not in SPEC["MSGIDS"]
        if not prop:
            self.talker, self.msgid = "GN", key
            return
        self.talker = "P"
        self.msgid = key
        for pfx in PREFIXES:
            if key.startswith(pfx):
                self.msgid = pfx
                if key != pfx:
                    self.first = key[len(pfx) :]
                return
        if key.startswith("STMDRSENMSG_"):
            self.msgid, self.first = key.split("_")
            return
        if key in ("QTMACK", "QTMNAK"):
            self.msgid = "QTMSRR"
            self.first = "OK" if key == "QTMACK" else "ERROR"
            self.variant = True
            return
        base = key.split("_")[0]
        if base in OVERLOADED:
            self.msgid = base
            self.variant = True

    @property
    def identity(self):
        """Identity of a full sentence with this layout."""
        if self.msgid in PREFIXES and self.layout and self.layout[0][0] == "msgId":
            return "P" + self.msgid + self.first
        return self.talker + self.msgid

    def __repr__(self):
        return f"{self.table}:{self.key}"


def all_defs(variants=True):
    """Every published definition, in a fixed order."""
    out = []
    for table in ("GET", "GET_PROP", "SET", "SET_PROP", "POLL", "POLL_PROP"):
        for key in SPEC[table]:
            d = Def(table, key)
            if variants or not d.variant:
                out.append(d)
    return out


def counts_of(layout):
    """Names of the attributes which count the repeats of a group."""
    return {t[0]: n for n, t in layout if is_group(t) and isinstance(t[0], str) and t[0] != "None"}


def has_group(layout, kind=None):
    for _, t in layout:
        if is_group(t):
            k = "fixed" if isinstance(t[0], int) else "open" if t[0] == "None" else "counted"
            if kind is None or k == kind:
                return True
    return False


LETTERS = "ABCDFGHIJKLMOPQRTUVXYZ"  # no hemisphere letters


def field_value(typ, i, cls):
    """A well-formed field of this type; i numbers the field, cls is the value class."""
    if cls == "empty":
        return ""
    if cls == "plain":
        return {
            "CH": LETTERS[i % len(LETTERS)],
            "ST": f"T{i}x",
            "QS": f"Q{i}",
            "LAD": "N",
            "LND": "E",
            "HX": f"{0xA0 + i:X}",
            "DE": f"{i}.{i % 7 + 1}25",
            "IN": f"{i + 1}",
            "LA": f"{(i * 7) % 90:02d}{(i * 11) % 60:02d}.{12345 + i:05d}",
            "LN": f"{(i * 13) % 180:03d}{(i * 17) % 60:02d}.{54321 + i:05d}",
            "TM": f"{i % 24:02d}{(i * 3) % 60:02d}{(i * 5) % 60:02d}.{i % 100:02d}",
            "DT": f"{i % 28 + 1:02d}{i % 12 + 1:02d}{(20 + i) % 69:02d}",
            "DTL": f"{i % 28 + 1:02d}{i % 12 + 1:02d}{1990 + i:04d}",
            "DM": f"{i % 12 + 1:02d}{i % 28 + 1:02d}{(20 + i) % 69:02d}",
        }[typ]
    if cls == "sw":  # southern, western, negative, extreme values
        return {
            "CH": "-",
            "ST": "a b:c;d=e/f" + str(i),
            "QS": "W",
            "LAD": "S",
            "LND": "W",
            "HX": "00FF" + str(i % 10),
            "DE": f"-{i}.0{i % 9 + 1}",
            "IN": f"-{i + 3}",
            "LA": "9000.00000" if i % 2 else f"{i % 90:02d}59.99999",
            "LN": "18000.00000" if i % 2 else f"{i % 180:03d}59.99999",
            "TM": "235959.99",
            "DT": "310199",
            "DTL": "29022000",
            "DM": "022900",
        }[typ]
    if cls == "zero":
        return {
            "CH": "0",
            "ST": "0",
            "QS": "0",
            "LAD": "S",
            "LND": "E",
            "HX": "0",
            "DE": "0.0",
            "IN": "0",
            "LA": "0000.0000",
            "LN": "00000.0000000",
            "TM": "000000",
            "DT": "010100",
            "DTL": "01012001",
            "DM": "010100",
        }[typ]
    if cls == "odd":  # unusual but well-formed
        return {
            "CH": "é",
            "ST": "°" + str(i),
            "QS": "R",
            "LAD": "",
            "LND": "W",
            "HX": "0xab" + str(i % 10),
            "DE": f"+00{i}.50",
            "IN": f"00{i}",
            "LA": f"{(i * 3) % 90:02d}30.1234567",
            "LN": f"{(i * 5) % 180:03d}45.7654321",
            "TM": f"{(i * 3) % 24:02d}0000.123456",
            "DT": "290224",
            "DTL": "31121999",
            "DM": "123168",
        }[typ]
    if cls == "big":  # more digits than usual
        return {
            "CH": "LONG" + str(i),
            "ST": f"{i}" + "y" * 90,
            "QS": "R",
            "LAD": "N",
            "LND": "E",
            "HX": f"{i:X}" + "0123456789abcdefABCDEF",
            "DE": f"-{i}98765432109876543.{i}123456789" if i % 2 else f"0.00000000012345678{i}",
            "IN": f"{i + 1}2345678901234567891",
            "LA": f"{(i * 3) % 90:02d}17.1234567891",
            "LN": f"{(i * 5) % 180:03d}59.9999999999" if i % 2 else f"{(i * 5) % 180:03d}00.0000000001",
            "TM": f"{(i * 3) % 24:02d}5959.999999" if i % 2 else "000000.000001",
            "DT": "311299" if i % 2 else "010169",
            "DTL": "31129999" if i % 2 else "01010001",
            "DM": "123168" if i % 2 else "010169",
        }[typ]
    raise ValueError(cls)


CLASSES = ("plain", "sw", "zero", "odd", "empty", "big")


def fields_for(d, cls, reps=2, empty_at=None):
    """
    A full sentence of this definition: [(attribute, type, field)].
    reps: repeats of counted and indeterminate groups. Count and first fields are kept
    meaningful in every class. empty_at: additionally empty this one field.
    """
    counts = counts_of(d.layout)
    out = []

    def put(name, typ, keep=None):
        i = len(out)
        raw = field_value(typ, i, cls) if keep is None else keep
        if empty_at == i and keep is None:
            raw = ""
        out.append((name, typ, raw))

    def group(num, sub, suffix):
        n = num if isinstance(num, int) else reps
        for g in range(n):
            for sname, styp in sub:
                if is_group(styp):
                    group(styp[0], styp[1], suffix + f"_{g + 1:02d}")
                else:
                    put(sname + suffix + f"_{g + 1:02d}", styp)

    for name, typ in d.layout:
        if is_group(typ):
            group(typ[0], typ[1], "")
        elif not out and d.first is not None:
            put(name, typ, keep=d.first)
        elif name in counts:
            put(name, typ, keep=str(reps) if cls != "odd" else f"{reps:02d}")
        elif not out and d.msgid == "ASHR" and d.first is None:
            # roll and pitch sentence: recognised by the digits of its time field
            put(name, typ, keep=field_value(typ, 1, "plain" if cls == "empty" else cls))
        elif not out and d.key == "QTMSN" and d.mode == GET:
            put(name, typ, keep="OK")  # a numeric first field is the other variant
        elif not out and d.key == "QTMSN_ALT":
            put(name, typ, keep="17")
        else:
            put(name, typ)
    return out


def content_of(d, fields, talker=None):
    raws = [f if isinstance(f, str) else f[2] for f in fields]
    return ",".join([(talker or d.talker) + d.msgid] + raws)


# ---------------------------------------------------------------- comparison


def same(a, b, typ=None):
    """Typed equality; positions to 1.5e-10 degrees, everything else exact."""
    if isinstance(a, float) and isinstance(b, float):
        if a == b:
            # sign of zero is irrelevant
            return True
        return isinstance(b, Near) and abs(a - b) <= 1.5e-10 + 1e-12 * abs(b)
    return type(a) is type(b) and a == b


def attr_diff(msg, identity, attrs, nominal=False):
    """
    Compare the observable content of a message with the expected ordered attributes.
    Returns None or a description of the first difference.
    """
    if msg is None:
        return "no message returned"
    if msg.identity != identity:
        return f"identity {msg.identity!r} should be {identity!r}"
    text = f"<NMEA({identity}" + (", NOMINAL" if nominal else "")
    for name, val in attrs:
        if not hasattr(msg, name):
            return f"attribute {name} missing (should be {val!r})"
        got = getattr(msg, name)
        if not same(got, val):
            return f"attribute {name} is {got!r}, should be {val!r}"
        text += f", {name}={got}"
    text += ")>"
    if str(msg) != text:
        return f"string form is {str(msg)!r}, should be {text!r}"
    return None
