"""
C23: GNSS week/time-of-week conversions are exact inverses with right leap seconds.

Enumerated: for each time system every leap second and every week boundary from the system's
epoch on with offsets around it, several instants of every day, naive and zoned datetimes,
modular and continuous week numbers, explicit and derived leap seconds, and every modular week
x times of week with automatic rollover; oracle: integer arithmetic on an own leap second table.
"""

import datetime as dt

from mc import core

ID = "C23"
LEVEL = "exploration"
RULE = (
    "system x (leap second boundaries, week boundaries, rollovers, days) x offsets x (naive, UTC, "
    "zoned) x (modular, continuous); system x every modular week x times of week x autoroll; "
    "non-trivial = instant within 20 s of a week or leap second boundary"
)
ASSUMPTIONS = [
    "UTC instants not before the system's epoch (leap seconds: not before 1972); datetime cannot "
    "express 23:59:60, so a GNSS time during a leap second denotes an instant of the adjacent second",
    "the leap second table published up to 2026 (no leap second announced after 2017-01-01)",
]
UTC = dt.timezone.utc
MS = dt.timedelta(milliseconds=1)
LEAP = [
    (1972, 1, 10), (1972, 7, 11), (1973, 1, 12), (1974, 1, 13), (1975, 1, 14), (1976, 1, 15),
    (1977, 1, 16), (1978, 1, 17), (1979, 1, 18), (1980, 1, 19), (1981, 7, 20), (1982, 7, 21),
    (1983, 7, 22), (1985, 7, 23), (1988, 1, 24), (1990, 1, 25), (1991, 1, 26), (1992, 7, 27),
    (1993, 7, 28), (1994, 7, 29), (1996, 1, 30), (1997, 7, 31), (1999, 1, 32), (2006, 1, 33),
    (2009, 1, 34), (2012, 7, 35), (2015, 7, 36), (2017, 1, 37),
]
BOUNDS = [(dt.datetime(y, m, 1, tzinfo=UTC), v) for y, m, v in LEAP]
# system: epoch, TAI-UTC at the time scale's origin, weeks to rollover
SYS = {
    "G": (dt.datetime(1980, 1, 6, tzinfo=UTC), 19, 1024),
    "J": (dt.datetime(1980, 1, 6, tzinfo=UTC), 19, 1024),
    "E": (dt.datetime(1999, 8, 22, tzinfo=UTC), 19, 4096),
    "I": (dt.datetime(1999, 8, 22, tzinfo=UTC), 19, 1024),
    "C": (dt.datetime(2006, 1, 1, tzinfo=UTC), 33, 8192),
}
WEEK = 604800000
OFF = [0, 1, 2, 500, 999, 1000, 1001, 1500, 2000, 5000, 10000, 12999, 13000, 13500, 14000, 16000, 17000, 17999, 18000, 18500, 19000, 20000]
OFF = sorted({s * o for o in OFF for s in (1, -1)})
ZONES = [None, UTC, dt.timezone(dt.timedelta(hours=5, minutes=30)), dt.timezone(-dt.timedelta(hours=11))]


def tai(utc):
    """TAI-UTC effective at this instant."""
    out = 0
    for b, v in BOUNDS:
        if utc >= b:
            out = v
    return out


def ref_wnotow(utc, sys):
    ep, t0, roll = SYS[sys]
    ls = tai(utc) - t0
    ms = (utc - ep) // MS + ls * 1000
    return ms // WEEK, ms % WEEK, ls, roll


def ref_utc(sys, ms):
    """UTC instants which a GNSS time (ms since the system's epoch) may denote."""
    ep, t0, _ = SYS[sys]
    out = []
    for ls in range(-1, 40 - t0):
        utc = ep + ms * MS - dt.timedelta(seconds=ls)
        if tai(utc) - t0 == ls:
            out.append(utc)
    if not out:  # during a leap second: 23:59:60.x, shown as the preceding or following second
        for b, v in BOUNDS:
            ls = v - t0
            utc = ep + ms * MS - dt.timedelta(seconds=ls)
            if b - dt.timedelta(seconds=1) <= utc < b:
                out += [utc, utc + dt.timedelta(seconds=1), b]
    return out


def shards(tier):
    out = [["glonass"]]
    for s in SYS:
        out += [["leap", s], ["none", s], ["rollovers", s]]
        out += [["days", s, y, y + 5] for y in range(SYS[s][0].year, 2065 if tier == "quick" else 2130, 5)]
        out += [["weeks", s, w, w + 256] for w in range(0, 4400 if tier == "quick" else 9000, 256)]
        out += [["roll", s, i] for i in range(4)]
    return out


def shown(utc, zone):
    return utc.replace(tzinfo=None) if zone is None else utc.astimezone(zone)


def check(ctx, P, sys, utc, zones=ZONES):
    ep = SYS[sys][0]
    if utc < ep:
        return
    wno, tow, ls, roll = ref_wnotow(utc, sys)
    for zone in zones:
        u = shown(utc, zone)
        ctx.case(["utc2wnotow", str(u), sys])
        got = P.utc2wnotow(u, sys, False)
        if tuple(got) != (wno, tow, ls):
            ctx.violation(f"utc2wnotow({u},{sys},modwno=False) = {got}, should be {(wno, tow, ls)}")
        got = P.utc2wnotow(u, sys)
        if tuple(got) != (wno % roll, tow, ls):
            ctx.violation(f"utc2wnotow({u},{sys}) = {got}, should be {(wno % roll, tow, ls)}")
        got = P.leapsecond(u, sys)
        if got != ls:
            ctx.violation(f"leapsecond({u},{sys}) = {got}, should be {ls}")
        ctx.add(evaluations=3)
    want = utc - dt.timedelta(microseconds=utc.microsecond % 1000)
    for args in ((wno, tow, None, sys, False, False), (wno, tow + WEEK, None, sys, False, False), (wno, tow, ls, sys, False, False)) + (
        ((wno, tow, None, sys), (wno + roll, tow, None, sys), (wno, tow, ls, sys)) if wno < roll else ()
    ):
        ctx.case(["wnotow2utc", args])
        got = P.wnotow2utc(*args)
        ctx.add(evaluations=1)
        if got != want or got.utcoffset() != dt.timedelta(0):
            ctx.violation(f"wnotow2utc{args} = {got}, should be {want}")


def run_shard(shard, ctx):
    P = core.use_repo()
    if shard[0] == "glonass":
        # keeps UTC: no leap seconds
        ep = SYS["G"][0]
        for b in [b for b, _ in BOUNDS if b > ep] + [dt.datetime(y, mo, 1, tzinfo=UTC) for y in range(1981, 2060, 3) for mo in (1, 2, 7)]:
            for off in OFF:
                utc = b + off * MS
                ms = (utc - ep) // MS
                for zone in ZONES:
                    u = shown(utc, zone)
                    ctx.case(["glonass", str(u)])
                    ctx.add(evaluations=1)
                    got = tuple(P.utc2wnotow(u, P.GLO, False)), tuple(P.utc2wnotow(u, P.GLO))
                    want = (ms // WEEK, ms % WEEK, 0), (ms // WEEK % 1024, ms % WEEK, 0)
                    if got != want:
                        ctx.violation(f"utc2wnotow({u},GLONASS) = {got}, should be {want}")
                back = P.wnotow2utc(ms // WEEK, ms % WEEK, gnss=P.GLO, modwno=False)
                if back != utc:
                    ctx.violation(f"wnotow2utc({ms // WEEK},{ms % WEEK},GLONASS) = {back}, should be {utc}")
        ctx.outcome("glonass")
        return
    kind, sys = shard[:2]
    ep, t0, roll = SYS[sys]
    if kind == "leap":
        for b, v in BOUNDS:
            for o in OFF:
                for us in (0, 1, 999):
                    utc = b + o * MS + dt.timedelta(microseconds=us)
                    check(ctx, P, sys, utc)
                    ctx.add(distinct_nontrivial=1)
                    for zone in ZONES:
                        if utc < BOUNDS[0][0]:
                            continue
                        got = P.leapsecond(shown(utc, zone), sys)
                        ctx.add(evaluations=1)
                        if got != tai(utc) - t0:
                            ctx.violation(f"leapsecond({shown(utc, zone)},{sys}) = {got}, should be {tai(utc) - t0}")
            ctx.outcome(P.leapsecond(b, sys))
            # GNSS times around the boundary, including the leap second itself
            if b < ep:
                continue
            base = (b - ep) // MS + (v - t0) * 1000
            for o in OFF:
                ms = base + o
                if ms < 0:
                    continue
                ctx.case(["wnotow2utc", ms // WEEK, ms % WEEK, sys])
                got = P.wnotow2utc(ms // WEEK, ms % WEEK, None, sys, False, False)
                ctx.add(evaluations=1)
                if got not in ref_utc(sys, ms):
                    ctx.violation(f"wnotow2utc({ms // WEEK},{ms % WEEK},None,{sys}) = {got}, should be {ref_utc(sys, ms)}")
        return
    if kind == "days":
        day = dt.datetime(shard[2], 1, 1, tzinfo=UTC)
        while day.year < shard[3]:
            for tod in (0, 1, 43200000, 86399999):
                check(ctx, P, sys, day + tod * MS, ZONES[:2])
            ctx.outcome(day.year)
            day += dt.timedelta(days=1)
        return
    if kind == "weeks":
        for w in range(shard[2], shard[3]):
            for o in (0, -1, 1, -18000, 18000) if ctx.tier == "quick" else OFF:
                ms = w * WEEK + o
                if ms < 0:
                    continue
                cand = ref_utc(sys, ms)
                if len(cand) == 1:
                    check(ctx, P, sys, cand[0], ZONES[1:2])
                    ctx.add(distinct_nontrivial=1)
            if not w % 64:
                ctx.outcome(w)
        return
    if kind == "rollovers":
        last = (dt.datetime(9999, 12, 1, tzinfo=UTC) - ep) // MS // WEEK
        for k in range(last // roll + 1):
            for w in (k * roll - 1, k * roll, k * roll + 1, k * roll + roll // 2):
                for o in (0, 302400123, WEEK - 1):
                    if 0 <= w <= last and len(cand := ref_utc(sys, w * WEEK + o)) == 1:
                        check(ctx, P, sys, cand[0], ZONES[1:2])
                        ctx.add(distinct_nontrivial=1)
            ctx.outcome((sys, k))
        return
    now = dt.datetime.now(UTC)
    if kind == "none":
        for _ in range(20):
            a = P.utc2wnotow(dt.datetime.now(UTC), sys, False)
            m = P.utc2wnotow(None, sys, False)
            m2 = P.utc2wnotow(gnss=sys)
            b = P.utc2wnotow(dt.datetime.now(UTC), sys, False)
            ctx.case(["now", sys])
            ctx.add(evaluations=2, distinct_nontrivial=1)
            if not tuple(a[:2]) <= tuple(m[:2]) <= tuple(b[:2]) or m[2] != a[2]:
                ctx.violation(f"utc2wnotow(None,{sys},False) = {m}, now is {a}")
            if m2[0] not in (a[0] % roll, b[0] % roll) or not 0 <= m2[1] < WEEK:
                ctx.violation(f"utc2wnotow(None,{sys}) = {m2}, now is {a}")
        ctx.outcome(a[0])
        ctx.outcome("now")
        return
    # roll: latest instant not after now
    nowms = (now - ep) // MS + (tai(now) - t0) * 1000
    for w in range(shard[2], roll, 4):
        tows = [0, 1, 17999, 18000, 18001, 302400123, WEEK - 1, WEEK - 18000]
        if nowms // WEEK % roll == w:
            tows += [(nowms + s * 120000) % WEEK for s in (-1, 1)]
        for tow in tows:
            for ls in (None, 18, 0):
                cands = []
                for i in range(0, 12):
                    ms = (w + i * roll) * WEEK + tow
                    c = ref_utc(sys, ms) if ls is None else [ep + ms * MS - dt.timedelta(seconds=ls)]
                    if i == 0:
                        cands = c
                    elif all(u <= now for u in c):
                        cands = c
                    elif any(abs(u - now) < dt.timedelta(seconds=90) for u in c):
                        cands = None
                        break
                if cands is None or any(abs(u - now) < dt.timedelta(seconds=90) for u in cands):
                    continue
                for wn in (w, w + roll):
                    ctx.case(["autoroll", wn, tow, ls, sys])
                    got = P.wnotow2utc(wn, tow, ls, sys, True)
                    ctx.add(evaluations=1, distinct_nontrivial=1)
                    if got not in cands:
                        ctx.violation(f"wnotow2utc({wn},{tow},{ls},{sys},autoroll=True) = {got}, should be {cands}")
        if w % 64 == shard[2]:
            ctx.outcome((sys, w))
