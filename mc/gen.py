"""Reference model of message generation from attributes."""

import datetime as dt
import re

from mc import ref

PLAIN_NUM = re.compile(r"^-?[0-9]+(\.[0-9]+)?$")


def required(d):
    """Keyword arguments without which a definition cannot be addressed."""
    if d.msgid in ref.PREFIXES:
        return {"msgId": d.first or ""} if d.first is not None else {"msgId": ""}
    if d.msgid == "STMDRSENMSG":
        return {"msgtype": d.first}
    return {}


def layout_names(d, kwargs):
    """Ordered [(attribute, type)] of a message generated from kwargs."""
    out = []

    def walk(lay, suffix):
        for name, typ in lay:
            if ref.is_group(typ):
                num, sub = typ
                if isinstance(num, int):
                    n = num
                elif num == "None":
                    n = 0
                    for k in kwargs:
                        m = re.match(r"^(.*)_([0-9]+)$", k)
                        if m and any(m.group(1) == s for s, _ in sub):
                            n = max(n, int(m.group(2)))
                else:
                    n = int(kwargs.get(num, 0))
                for g in range(n):
                    walk(sub, suffix + f"_{g + 1:02d}")
            else:
                out.append((name + suffix, typ))

    walk(d.layout, "")
    return out


def hemis(d):
    """True if hemisphere letters derive from attributes lat and lon."""
    names = [n for n, _ in d.layout]
    types = [t for _, t in d.layout]
    return "lat" in names and "LAD" in types, "lon" in names and "LND" in types


def nominal(typ, mode):
    return {
        "CH": "",
        "ST": "",
        "LA": "",
        "LN": "",
        "LAD": "N",
        "LND": "E",
        "HX": "0",
        "DE": 0.0,
        "IN": 0,
        "TM": "now",
        "DT": "now",
        "DTL": "now",
        "DM": "now",
        "QS": ("OK", "W", "R")[mode],
    }[typ]


def expect(d, kwargs):
    """Ordered [(attribute, type, value after parsing the generated sentence)]."""
    dlat, dlon = hemis(d)
    out = []
    for name, typ in layout_names(d, kwargs):
        if typ == "LAD" and dlat:
            lat = kwargs.get("lat", "")
            val = "S" if isinstance(lat, (int, float)) and lat < 0 else "N"
        elif typ == "LND" and dlon:
            lon = kwargs.get("lon", "")
            val = "W" if isinstance(lon, (int, float)) and lon < 0 else "E"
        elif name in kwargs:
            val = kwargs[name]
            if typ in ("CH", "ST", "QS", "HX", "LAD", "LND"):
                val = str(val)
            elif typ == "DE" and val != "":
                val = float(val)
            elif typ == "IN" and val != "":
                val = int(val)
            elif typ == "TM" and val != "":
                if isinstance(val, str):
                    val = dt.time.fromisoformat(val)
                else:
                    val = val.replace(microsecond=val.microsecond // 10000 * 10000)
            elif typ in ("DT", "DTL", "DM") and isinstance(val, str) and val != "":
                val = dt.date.fromisoformat(val)
            elif typ in ("DT", "DTL", "DM") and isinstance(val, dt.datetime):
                val = val.date()
        else:
            val = nominal(typ, d.mode)
        out.append((name, typ, val))
    return out


def near_now(val, typ, t0, t1):
    """Is val the date or time of a moment between t0 and t1?"""
    if typ in ("DT", "DTL", "DM"):
        return val in (t0.date(), t1.date())
    if not isinstance(val, dt.time):
        return False
    sec = val.hour * 3600 + val.minute * 60 + val.second + val.microsecond / 1e6
    a = (t0 - dt.timedelta(seconds=0.02)).time()
    lo = a.hour * 3600 + a.minute * 60 + a.second + a.microsecond / 1e6
    span = (t1 - t0).total_seconds() + 0.04
    return (sec - lo) % 86400 <= span


def compare(got, val, typ, hp, t0, t1):
    """None or description of the difference."""
    if isinstance(val, str) and val == "now":
        return None if near_now(got, typ, t0, t1) else f"is {got!r}, should be now"
    if typ in ("LA", "LN") and val != "":
        if not isinstance(got, float):
            return f"is {got!r}, should be {val!r}"
        tol = (0.5e-7 if hp else 0.5e-5) / 60 + 2e-10
        return None if abs(got - val) <= tol else f"is {got!r}, should be {val!r} +-{tol:.2g}"
    if isinstance(val, float) and isinstance(got, float):
        return None if got == val else f"is {got!r}, should be {val!r}"
    if type(got) is not type(val) or got != val:
        return f"is {got!r}, should be {val!r}"
    return None


def check_generated(P, d, kwargs, hp=False, userdefined=None, mode=None):
    """
    Generate a message, inspect the sentence on the wire with an independent splitter and
    parse it back. Returns None or a description of the first difference.
    """
    mode = d.mode if mode is None else mode
    t0 = dt.datetime.now(dt.timezone.utc)
    msg = P.NMEAMessage(
        d.talker, d.msgid, mode, hpnmeamode=hp, userdefined=userdefined, **kwargs
    )
    t1 = dt.datetime.now(dt.timezone.utc)
    exp = expect(d, kwargs)
    wire = msg.serialize()
    if not (wire[:1] == b"$" and wire[-2:] == b"\r\n" and wire[-5:-4] == b"*"):
        return f"serialized form {wire!r} is not a sentence"
    content = wire[1:-5]
    if wire[-4:-2] != b"%02X" % ref.xor(content):
        return f"checksum of {wire!r} should be {ref.xor(content):02X}"
    if msg.checksum != f"{ref.xor(content):02X}":
        return f"checksum property {msg.checksum!r} wrong"
    raws = content.decode("utf-8").split(",")
    if raws[0] != d.talker + d.msgid:
        return f"header {raws[0]!r} should be {d.talker + d.msgid!r}"
    raws = raws[1:]
    if len(raws) != len(exp):
        return f"{len(raws)} fields should be {len(exp)}: {wire!r}"
    if list(msg.payload) != raws:
        return f"payload {msg.payload!r} does not match {wire!r}"
    for (name, typ, val), raw in zip(exp, raws):
        if typ in ("DE", "IN") and raw != "" and not PLAIN_NUM.match(raw):
            return f"{name}: numeric field {raw!r} is not plain decimal notation"
        if typ in ("LA", "LN") and raw != "":
            want = r"^\d{%d}[0-5]\d\.\d{%d}$" % (2 if typ == "LA" else 3, 7 if hp else 5)
            if not re.match(want, raw):
                return f"{name}: field {raw!r} does not have the form {want}"
    back = P.NMEAReader.parse(wire, msgmode=mode, userdefined=userdefined)
    if back is None:
        return f"{wire!r} does not parse"
    for name, typ, val in exp:
        if not hasattr(msg, name) or not hasattr(back, name):
            return f"attribute {name} missing"
        got = getattr(back, name)
        if name in ("lat", "lon") and val != "" and typ != "DE" and False in hemis(d):
            val = abs(val)
        diff = compare(got, val, typ, hp, t0, t1)
        if diff:
            return f"attribute {name} {diff} ({wire!r})"
    ident = d.identity
    if msg.identity != back.identity or (d.layout and back.identity != ident):
        return f"identity {msg.identity} / {back.identity} should be {ident}"
    attrs = [(n, getattr(back, n)) for n, _, _ in exp]
    return ref.attr_diff(back, back.identity, attrs)
