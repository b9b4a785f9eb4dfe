"""
C29: results which depend on the time of day follow the clock, all others do not.

The check runs with a wall clock and a local time zone which it sets itself (mc/clock.c), and
enumerates: (a) every definition with a date or time field x every ordered pair of instants x
local zones, a message with omitted dates and times generated at each of the two; (b) every
GNSS system x instants x offsets from now x leap second arguments, week numbers resolved
against the now; (c) at every instant and zone the parse of every definition and a table of
conversions. Oracle: calendar and integer arithmetic on the instant set.
"""

import datetime as dt

from checks import c23
from mc import core, gen, ref

ID = "C29"
LEVEL = "exploration"
RULE = (
    "definition with date or time fields x (instant, instant) x zone; system x instant x offset x leap "
    "seconds; parse of every definition and conversions x instant x zone; non-trivial = the instant "
    "is within a second of a midnight, or the two instants have different dates"
)
ASSUMPTIONS = [
    "the clock stands still during one call",
    "the clock is that of the operating system (real time clock calls of the C library)",
]
CLOCK = True
MAXTASKS = 200
UTC = dt.timezone.utc
US = dt.timedelta(microseconds=1)


def at(*args):
    return dt.datetime(*args, tzinfo=UTC)


MIDNIGHTS = [at(2017, 1, 1), at(2024, 2, 29), at(2024, 3, 1), at(2027, 1, 1), at(2069, 1, 1), at(2100, 3, 1)]
MORE = [at(2000, 1, 1), at(2019, 4, 7), at(2023, 3, 1), at(2038, 1, 19, 3, 14, 8), at(2038, 11, 21), at(2025, 3, 30, 1), at(2025, 10, 26, 1), at(2009, 9, 9, 9, 9, 9), at(2050, 7, 15, 12)]
ZONES_Q = ["UTC", core.LOCAL_TZ, "XXX-14"]
ZONES_T = ZONES_Q + ["XXX+12", "XXX-5:45", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0"]
DATES = {"DT": "{d:02d}{m:02d}{y2:02d}", "DTL": "{d:02d}{m:02d}{y:04d}", "DM": "{m:02d}{d:02d}{y2:02d}"}


def instants(tier):
    out = []
    for m in MIDNIGHTS + (MORE if tier != "quick" else MORE[3:5]):
        out += [m - US, m]
        if tier != "quick":
            out += [m + US, m - 5000 * US, m - 10001 * US, m + 990000 * US, m + dt.timedelta(hours=9)]
    return out + [at(2026, 7, 8, 9, 10, 11, 120000), at(2026, 7, 8, 9, 10, 11, 129999)]


def timed():
    seen, out = set(), []
    for d in ref.all_defs():
        if any(t in ("TM", "DT", "DTL", "DM") for _, t in d.layout) and repr(d) not in seen:
            seen.add(repr(d))
            out.append(d)
    return out


def shards(tier):
    zones = ZONES_Q if tier == "quick" else ZONES_T
    n = len(timed())
    step = 20 if tier == "quick" else 4
    out = [["nominal", i, min(n, i + step), z] for i in range(0, n, step) for z in zones]
    k = len(instants(tier))
    out += [["roll", s, i] for s in c23.SYS for i in range(0, k, 8)]
    out += [["same", z, i] for z in zones for i in range(0, k, 16)]
    return out


def field(typ, now):
    if typ == "TM":
        return f"{now.hour:02d}{now.minute:02d}{now.second:02d}.{now.microsecond // 10000:02d}"
    return DATES[typ].format(y=now.year, y2=now.year % 100, m=now.month, d=now.day)


def made(ctx, P, d, kwargs, now, kind):
    """Generate at the given instant; the omitted dates and times are its."""
    ctx.case([repr(d), kind, str(now), {k: repr(v) for k, v in kwargs.items()}])
    ctx.add(evaluations=1, distinct_nontrivial=1)
    msg = P.NMEAMessage(d.talker, d.msgid, d.mode, **kwargs)
    wire = msg.serialize()
    raws = wire[1:-5].decode().split(",")[1:]
    lay = gen.layout_names(d, kwargs)
    if len(lay) != len(raws):
        ctx.violation(f"{wire!r} should have {len(lay)} fields")
        return
    back = P.NMEAReader.parse(wire, msgmode=d.mode)
    for (name, typ), raw in zip(lay, raws):
        if typ not in ("TM", "DT", "DTL", "DM"):
            continue
        if name in kwargs:
            when = FIXED
        else:
            when = now
        if raw != field(typ, when):
            ctx.violation(f"{name} of {wire!r} generated at {now} is {raw!r}, should be {field(typ, when)!r}")
        want = ref.ref_time(raw) if typ == "TM" else ref.ref_date(raw, typ)
        if getattr(back, name) != want:
            ctx.violation(f"{name} of {wire!r} parsed at {now} is {getattr(back, name)!r}, should be {want!r}")


FIXED = at(1999, 12, 31, 21, 22, 23, 240000)


def given(d, pick):
    return {
        n: FIXED.time() if t == "TM" else FIXED.date()
        for n, t in d.layout
        if not ref.is_group(t) and t in ("TM", "DT", "DTL", "DM") and (t == "TM") == pick
    }


def conversions(P):
    out = []
    for y in ("00", "26", "50", "68", "69", "70", "99"):
        for form in ("DT", "DM"):
            out.append(P.date2utc("0102" + y, form))
        out.append(P.date2utc("0102" + y))
        out.append(P.date2utc("010220" + y, "DTL"))
    for t in ("000000", "235959.99", "120000.5", "240000", "1234"):
        out.append(P.time2utc(t))
    for u in (at(2016, 12, 31, 23, 59, 59), dt.datetime(2017, 1, 1), dt.datetime(2016, 12, 31, 20), dt.datetime(2017, 1, 1, 5), at(2050, 1, 1)):
        for s in "GECJI":
            out += [P.leapsecond(u, s), tuple(P.utc2wnotow(u, s)), tuple(P.utc2wnotow(u, s, False))]
        for form in ("DT", "DTL", "DM"):
            out.append(P.date2str(u.date(), form))
        out.append(P.time2str(u.time()))
    for s in "GECJI":
        for w in (0, 1, 900, 1023, 1024, 2048, 5000):
            for ls in (None, 0, 18):
                out.append(P.wnotow2utc(w, 1000, ls, s))
                out.append(P.wnotow2utc(w, 1000, ls, s, False, False))
    return out


def run_shard(shard, ctx):
    P = core.use_repo()
    allt = instants(ctx.tier)
    try:
        if shard[0] == "nominal":
            zone = shard[3]
            defs = timed()[shard[1] : shard[2]]
            for d in defs:
                need = gen.required(d)
                kinds = {"all omitted": {}, "times given": given(d, True), "dates given": given(d, False)}
                for kind, kw in kinds.items():
                    if kind != "all omitted" and (not kw or len(given(d, kind == "dates given")) == 0):
                        continue
                    for a in allt:
                        for b in allt if kind == "all omitted" else (allt[0], allt[1]):
                            for now in (a, b):
                                core.set_clock(now, zone)
                                made(ctx, P, d, {**need, **kw}, now, kind)
                        ctx.outcome((str(a), kind))
            return
        if shard[0] == "same":
            zone = shard[1]
            sents = []
            for d in ref.all_defs():
                raws = [f[2] for f in ref.fields_for(d, "plain", 2)]
                sents.append((d.mode, ref.sentence(ref.content_of(d, raws))))
            first = None
            for now in [at(2026, 1, 1)] + allt[shard[2] : shard[2] + 16]:
                core.set_clock(now, zone if first else "UTC")
                got = [("conversion", c) for c in map(repr, conversions(P))]
                for mode, s in sents:
                    msg = P.NMEAReader.parse(s, msgmode=mode)
                    got.append((s, str(msg) + repr(msg)))
                ctx.case(["same results", zone, str(now)])
                ctx.add(evaluations=len(got), distinct_nontrivial=len(got))
                first = first or got
                for x, y in zip(got, first):
                    if x != y:
                        ctx.violation(f"at {now}, zone {zone}: {x}, should be {y}")
                ctx.outcome((zone, str(now)))
            return
        sys = shard[1]
        ep, t0, roll = c23.SYS[sys]
        offs = sorted({s * o for o in (0, 1, 2, 999, 1000, 1500, 2000, 3000, 4000, 5000, 13000, 16000, 18000, 20000, 86400000, 600000000, 604800000) for s in (1, -1)})
        zones = ZONES_Q[1:] if ctx.tier == "quick" else ZONES_T
        for now in allt[shard[2] : shard[2] + 8]:
            wno, tow, ls, _ = c23.ref_wnotow(now, sys)
            nowms = wno * c23.WEEK + tow
            for zone in zones:
                core.set_clock(now, zone)
                for args, want in (((None, sys, False), (wno, tow, ls)), ((None, sys), (wno % roll, tow, ls))) if now >= ep else ():
                    ctx.case(["utc2wnotow", args, str(now), zone])
                    ctx.add(evaluations=1, distinct_nontrivial=1)
                    got = tuple(P.utc2wnotow(*args))
                    if got != want:
                        ctx.violation(f"utc2wnotow{args} at {now} = {got}, should be {want}")
                for off in offs:
                    ms = nowms + off
                    w, tow_ = ms // c23.WEEK % roll, ms % c23.WEEK
                    for lsa in (None, ls, 0):
                        want = None
                        for i in range(0, 12):
                            m = (w + i * roll) * c23.WEEK + tow_
                            c = c23.ref_utc(sys, m) if lsa is None else [ep + m * c23.MS - dt.timedelta(seconds=lsa)]
                            if want is None or any(u <= now for u in c):
                                want = c if want is None or all(u <= now for u in c) else want + c
                        for wn in (w, w + roll):
                            ctx.case(["autoroll", wn, tow_, lsa, sys, str(now), zone])
                            ctx.add(evaluations=1, distinct_nontrivial=1)
                            got = P.wnotow2utc(wn, tow_, lsa, sys, True)
                            if got not in want:
                                ctx.violation(f"wnotow2utc({wn},{tow_},{lsa},{sys},autoroll=True) at {now} = {got}, should be {want}")
            ctx.outcome((sys, str(now)))
    finally:
        core.set_clock()
