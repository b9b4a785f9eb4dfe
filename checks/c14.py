"""
C14: latitude/longitude sign and hemisphere letter always agree.

Enumerated: every definition with attributes lat/lon and hemisphere fields x letters x
magnitudes (parse) and x signed values x letters passed as attributes (generation).
"""

from mc import core, gen, ref

ID = "C14"
LEVEL = "exploration"
RULE = (
    "definition x (latitude field, letter) x (longitude field, letter) parsed, truncated after "
    "each field, and definition x signed lat x signed lon x letters passed x precision generated "
    "and parsed back; non-trivial = at least one of the positions is non-empty"
)
ASSUMPTIONS = []
# what a hemisphere field may contain instead of its letters: every other character, and some strings
OTHERS = [chr(c) for c in range(32, 127) if chr(c) not in ",*$"] + ["\u00e9", "SS", "WW", "NS", "EW", "S ", " W", "South", "West", "-1"]
LATS = ["0000.00000", "0000.00001", "0130.5", "4530.12345", "8959.99999", "9000.00000", "5321.6802123", "", "-4530.12345", "9930.5", "27000.25"]
LONS = ["00000.00000", "00000.00001", "00130.5", "07530.12345", "17959.99999", "18000.00000", "00214.3989123", "", "-07530.12345", "18130.0", "35959.5"]
GLATS = [0, 0.0, -0.0, 1e-9, -1e-9, 0.0000001, -0.0000001, 0.5, -0.5, 45.5123456, -45.5123456, 89.9999999999, -89.9999999999, 90, -90, 90.0, -90.0, -33, ""]
GLONS = [0, 0.0, -0.0, 1e-9, -1e-9, 0.0000001, -0.0000001, 0.5, -0.5, 75.5123456, -75.5123456, 179.9999999999, -179.9999999999, 180, -180, 180.0, -180.0, -123, ""]


def defs14():
    return [d for d in ref.all_defs(variants=False) if all(gen.hemis(d))]


def shards(tier):
    n = len(defs14())
    return [[i, min(n, i + 2)] for i in range(0, n, 2)]


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    for d in defs14()[shard[0] : shard[1]]:
        fields = ref.fields_for(d, "plain", 2)
        raws0 = [f[2] for f in fields]
        idx = {n: i for i, (n, _, _) in enumerate(fields)}
        ns = [n for n, t, _ in fields if t == "LAD"]
        ew = [n for n, t, _ in fields if t == "LND"]
        assert len(ns) == 1 and len(ew) == 1
        ilat, ilon, ins, iew = idx["lat"], idx["lon"], idx[ns[0]], idx[ew[0]]
        for lat in LATS:
            for a in ("N", "S", ""):
                for lon in LONS:
                    for b in ("E", "W", ""):
                        raws = list(raws0)
                        raws[ilat], raws[ilon], raws[ins], raws[iew] = lat, lon, a, b
                        variants = [raws]
                        if lat == "4530.12345" and lon == "07530.12345":
                            variants += [raws[:k] for k in range(max(ilat, 1), len(raws))]
                        for rw in variants:
                            sent = ref.sentence(ref.content_of(d, rw))
                            ctx.case([repr(d), sent])
                            ctx.add(evaluations=1, distinct_nontrivial=int(lat != "" or lon != ""))
                            msg = P.NMEAReader.parse(sent, msgmode=d.mode)
                            diff = ref.attr_diff(msg, d.identity, ref.expected(d.layout, rw))
                            if diff:
                                ctx.violation(f"{d} {sent!r}: {diff}")
                                continue
                            if len(rw) < len(raws):
                                continue
                            for val, let, neg in ((msg.lat, a, "S"), (msg.lon, b, "W")):
                                if val == "":
                                    continue
                                if (val < 0) != (let == neg) and val != 0:
                                    ctx.violation(f"{d} {sent!r}: sign of {val} against letter {let!r}")
                            ctx.outcome((d.key, msg.lat == "" or msg.lat < 0, msg.lon == "" or msg.lon < 0))
        for let in OTHERS:
            for lat, lon in (("4530.12345", "07530.12345"), ("-4530.12345", "-07530.12345"), ("0000.00001", "00000.00001")):
                for a, b in ((let, let), (let, "W"), ("S", let)):
                    raws = list(raws0)
                    raws[ilat], raws[ilon], raws[ins], raws[iew] = lat, lon, a, b
                    sent = ref.sentence(ref.content_of(d, raws))
                    ctx.case([repr(d), sent])
                    ctx.add(evaluations=1, distinct_nontrivial=1)
                    msg = P.NMEAReader.parse(sent, msgmode=d.mode)
                    diff = ref.attr_diff(msg, d.identity, ref.expected(d.layout, raws))
                    if not diff and ((msg.lat < 0) != (a == "S") or (msg.lon < 0) != (b == "W")):
                        diff = f"signs of {msg.lat}, {msg.lon} against letters {a!r}, {b!r}"
                    if diff:
                        ctx.violation(f"{d} {sent!r}: {diff}")
        kw0 = dict(ref.expected(d.layout, raws0))
        kw0.update(gen.required(d))
        for n in ("lat", "lon", ns[0], ew[0]):
            kw0.pop(n)
        for lat in GLATS:
            for lon in GLONS:
                for letters in (None, ("N", "E"), ("S", "W")):
                    for base in ({}, kw0):
                        kw = dict(base, lat=lat, lon=lon, **gen.required(d))
                        if letters:
                            kw[ns[0]], kw[ew[0]] = letters
                        for hp in (False,) if quick and base else (False, True):
                            ctx.case([f"generate {d}", {k: repr(v) for k, v in kw.items()}])
                            ctx.add(evaluations=1, distinct_nontrivial=int(lat != "" or lon != ""))
                            diff = gen.check_generated(P, d, kw, hp)
                            if diff:
                                ctx.violation(f"generate {d} lat={lat!r} lon={lon!r} {letters}: {diff}")
                            msg = P.NMEAMessage(d.talker, d.msgid, d.mode, hpnmeamode=hp, **kw)
                            want = ("S" if lat != "" and lat < 0 else "N", "W" if lon != "" and lon < 0 else "E")
                            got = (msg.payload[ins], msg.payload[iew])
                            if got != want or (getattr(msg, ns[0]), getattr(msg, ew[0])) != want:
                                ctx.violation(f"generate {d} lat={lat!r} lon={lon!r}: letters {got} should be {want}")
                            ctx.outcome((d.key,) + want)
