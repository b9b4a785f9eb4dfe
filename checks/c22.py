"""
C22: date and time fields convert exactly in both directions.

Enumerated: every calendar day of the two-digit window in three layouts and every year of the
four-digit layout, all 10^6 six-digit strings in every layout, every second of a day with
boundary fractions (all 8.64 million hundredths in the thorough tier), and every short string
over {0,1,9,.,A}; also through whole messages.
"""

import datetime as dt
import itertools

from mc import core, ref

ID = "C22"
LEVEL = "exploration"
RULE = (
    "every day 1969-2068 x layouts, all 6-digit strings x layouts, 8-digit strings day x month x "
    "year, every second x fractions x 0..6 decimals, strings over {0,1,9,.,A}; non-trivial = "
    "denotes a date or time"
)
ASSUMPTIONS = ["strings of a wrong length consisting only of digits are outside the statement (strptime accepts some)"]
FR_Q = [0, 1, 9, 10, 49, 50, 51, 99]


def shards(tier):
    out = [["days", y, y + 10] for y in range(1969, 2069, 10)]
    out += [["six", a, a + 2] for a in range(0, 100, 2)]
    out += [["dtl", y, y + 500] for y in range(1, 10000, 500)]
    out += [["time", h] for h in range(24)]
    out += [["tstr", a] for a in "019.A"] + [["misc"], ["msg"]]
    return out


def cmp(ctx, what, got, want):
    if type(got) is not type(want) or got != want:
        ctx.violation(f"{what} = {got!r}, should be {want!r}")


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    kind = shard[0]
    if kind == "days":
        day = dt.date(shard[1], 1, 1)
        while day.year < shard[2]:
            y, m, d = f"{day.year % 100:02d}", f"{day.month:02d}", f"{day.day:02d}"
            ctx.case(["date", str(day)])
            for form, s in (("DT", d + m + y), ("DM", m + d + y), ("DTL", d + m + f"{day.year:04d}")):
                cmp(ctx, f"date2str({day},{form})", P.date2str(day, form), s)
                cmp(ctx, f"date2utc({s!r},{form})", P.date2utc(s, form), day)
                ctx.add(evaluations=2, distinct_nontrivial=2)
            cmp(ctx, f"date2str({day})", P.date2str(day), d + m + y)
            cmp(ctx, f"date2utc({d + m + y})", P.date2utc(d + m + y), day)
            ctx.outcome(day.month)
            day += dt.timedelta(days=1)
        return
    if kind == "six":
        for a in range(shard[1], shard[2]):
            for n in range(10000):
                s = f"{a:02d}{n:04d}"
                ctx.case(["digits", s])
                got = [P.date2utc(s, "DT"), P.date2utc(s, "DM"), P.time2utc(s)]
                want = [ref.ref_date(s, "DT"), ref.ref_date(s, "DM"), ref.ref_time(s)]
                ctx.add(evaluations=3, distinct_nontrivial=sum(w != "" for w in want))
                for g, w, f in zip(got, want, ("date2utc DT", "date2utc DM", "time2utc")):
                    cmp(ctx, f"{f} {s!r}", g, w)
                if not n % 1000:
                    ctx.outcome(str(got))
        return
    if kind == "dtl":
        for y in range(shard[1], min(shard[2], 10000)):
            step = 1 if not quick or y % 4 == 0 and (y % 100 == 0 or 1968 < y < 2069) else 5
            days = range(0, 33) if step == 1 else (0, 1, 28, 29, 30, 31, 32)
            for m in range(0, 14):
                for d in days:
                    s = f"{d:02d}{m:02d}{y:04d}"
                    ctx.case(["DTL", s])
                    want = ref.ref_date(s, "DTL")
                    cmp(ctx, f"date2utc({s!r},DTL)", P.date2utc(s, "DTL"), want)
                    ctx.add(evaluations=1, distinct_nontrivial=int(want != ""))
                    if want:
                        cmp(ctx, f"date2str({want},DTL)", P.date2str(want, "DTL"), s)
                        ctx.add(evaluations=1)
            ctx.outcome((y % 4 == 0, y % 100 == 0, P.date2utc(f"2902{y:04d}", "DTL") == ""))
        return
    if kind == "time":
        h = shard[1]
        for m in range(60):
            for s in range(60):
                hms = f"{h:02d}{m:02d}{s:02d}"
                ctx.case(["time", hms])
                cmp(ctx, f"time2utc({hms!r})", P.time2utc(hms), dt.time(h, m, s))
                for c in FR_Q if quick else range(100):
                    t = dt.time(h, m, s, c * 10000)
                    f = f"{hms}.{c:02d}"
                    cmp(ctx, f"time2utc({f!r})", P.time2utc(f), t)
                    cmp(ctx, f"time2str({t})", P.time2str(t), f)
                    ctx.add(evaluations=2, distinct_nontrivial=2)
                for f in (".0", ".5", ".9", ".123", ".999", ".0001", ".99999", ".123456", ".999999", ".000001"):
                    cmp(ctx, f"time2utc({hms + f!r})", P.time2utc(hms + f), ref.ref_time(hms + f))
                    us = int((f[1:] + "000000")[:6])
                    got = P.time2str(dt.time(h, m, s, us))
                    # to the field's hundredths: truncated or rounded, but never a second which does not exist
                    ok = {f"{hms}.{us // 10000:02d}"}
                    if us // 10000 < 99:
                        ok.add(f"{hms}.{round(us / 10000):02d}")
                    if got not in ok:
                        ctx.violation(f"time2str({h}:{m}:{s}{f}) = {got!r}")
                    ctx.add(evaluations=2, distinct_nontrivial=2)
            ctx.outcome(P.time2str(dt.time(h, m)))
        return
    if kind == "tstr":
        for n in range(0, 6 if quick else 8):
            for t in itertools.product("019.A", repeat=n):
                s = shard[1] + "".join(t)
                ctx.case(["string", s])
                if "A" in s:
                    want = [""] * 4
                elif len(s) in (6, 8) and s.isdigit():
                    want = [ref.ref_date(s, "DT") if len(s) == 6 else None, ref.ref_date(s, "DM") if len(s) == 6 else None, ref.ref_date(s, "DTL") if len(s) == 8 else None, ref.ref_time(s) if len(s) == 6 else None]
                elif "." in s and len(s.split(".")[0]) == 6:
                    want = ["", "", "", ref.ref_time(s)]
                elif "." in s:
                    want = ["", "", "", None]
                else:
                    continue
                got = [P.date2utc(s, "DT"), P.date2utc(s, "DM"), P.date2utc(s, "DTL"), P.time2utc(s)]
                ctx.add(evaluations=4)
                for g, w, f in zip(got, want, ("date2utc DT", "date2utc DM", "date2utc DTL", "time2utc")):
                    if w is not None:
                        cmp(ctx, f"{f} {s!r}", g, w)
                        ctx.add(distinct_nontrivial=int(w != ""))
                ctx.outcome(str([type(g).__name__ for g in got]))
        return
    if kind == "misc":
        for v in ("", None, "A", "abcdef", "12A456", "12345A", "A2345678", "1234567A", "1A0101.00", "010101.A0", 5, 5.5, [], {}):
            for form in ("DT", "DM", "DTL"):
                ctx.case(["misc", v, form])
                cmp(ctx, f"date2utc({v!r},{form})", P.date2utc(v, form), "")
                cmp(ctx, f"date2str({v!r},{form})", P.date2str(v, form), "")
                ctx.add(evaluations=2, distinct_nontrivial=2)
                ctx.outcome(form)
            cmp(ctx, f"time2utc({v!r})", P.time2utc(v), "")
            cmp(ctx, f"time2str({v!r})", P.time2str(v), "")
            ctx.add(evaluations=2, distinct_nontrivial=2)
        for d in (dt.datetime(2026, 4, 17, 12, 34, 56, 780000), dt.datetime(2026, 4, 17, 12, 34, 56, 780000, tzinfo=dt.timezone.utc)):
            cmp(ctx, f"time2str({d})", P.time2str(d), "123456.78")
            cmp(ctx, f"date2str({d})", P.date2str(d), "170426")
        return
    # through messages: ZDA, RMC (DT), and generation
    day = dt.date(1969, 1, 1)
    while day < dt.date(2069, 1, 1):
        ctx.case(["RMC", str(day)])
        f = day.strftime("%d%m%y")
        t = f"{day.day % 24:02d}{day.month:02d}{day.year % 60:02d}.{day.day:02d}"
        msg = P.NMEAReader.parse(ref.sentence(f"GNRMC,{t},A,4530.1,N,07530.1,W,1.0,2.0,{f},3.0,E,A,V"))
        cmp(ctx, f"RMC date {f}", msg.date, day)
        cmp(ctx, f"RMC time {t}", msg.time, ref.ref_time(t))
        gen = P.NMEAMessage("GN", "RMC", 0, date=day, time=msg.time)
        back = P.NMEAReader.parse(gen.serialize())
        cmp(ctx, f"generated RMC date {day}", (back.date, back.time), (day, msg.time))
        ctx.add(evaluations=2, distinct_nontrivial=2)
        ctx.outcome(str(day.month))
        day += dt.timedelta(days=3 if quick else 1)
