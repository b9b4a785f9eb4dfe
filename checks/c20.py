"""
C20: lat/lon fields convert to degrees and back within field precision.

Enumerated: (a) every degree x every minute x boundary fractions of a minute x sign x
precision x axis, generated and read back, against exact rational arithmetic;
(b) every field deg x minute x 0..8 decimals patterns; (c) every string up to length 7 over
{0,5,.,A} and non-strings; (d) a sub-grid through whole messages.
"""

import itertools
import math
from fractions import Fraction

from mc import core, ref

ID = "C20"
LEVEL = "exploration"
RULE = (
    "degrees 0..90/180 x minutes 0..59 x boundary fractions of a minute (half units, carries, "
    "float neighbours) x sign x axis x precision -> field -> degrees; fields degree x minute x "
    "decimals -> degrees; all strings <= 7 over {0,5,.,A}; non-trivial = value is not a whole minute"
)
ASSUMPTIONS = [
    "a float nearest to the sampled decimal degrees stands for the position; its exact binary "
    "value is the reference",
    "ties and values within 1e-9 minutes of a tie may round either way (float arithmetic)",
]
# fractions of a minute, in 1e-9 minutes
FRAC_Q = [0, 1, 4, 5, 6, 50, 49, 51, 499, 4999, 5000, 5001, 4990, 5010, 10000, 123456789, 345678912, 500000000, 999990000, 999994990, 999995010, 999999900, 999999940, 999999960, 999999999]
FRAC_T = FRAC_Q + [9999, 15000, 100000, 1000000, 10000000, 15, 25, 95, 100000000, 111111111, 222222222, 333333333, 444444444, 555555555, 666666666, 777777777, 888888888, 900000000, 990000000, 999000000, 999900000, 999989990, 999995000, 999999949, 999999951, 999999989, 999999990]


def shards(tier):
    out = [["gen", d, min(d + 6, 181)] for d in range(0, 181, 6)]
    out += [["field", d, min(d + 10, 181)] for d in range(0, 181, 10)]
    out += [["str", a] for a in "05.A"] + [["misc"], ["msg"]]
    out += [["ties", d, min(d + 10, 181)] for d in range(0, 181, 10)]
    return out


def check_gen(ctx, P, deg, att, hp, neg):
    x = -deg if neg else deg
    s = P.ddd2dmm(x, att, hp)
    nd, wd = (7 if hp else 5), (2 if att == "LA" else 3)
    i, dot, f = s.partition(".") if isinstance(s, str) else ("", "", "")
    if not (dot and len(f) == nd and len(i) == wd + 2 and i.isdigit() and f.isdigit()):
        ctx.violation(f"ddd2dmm({x!r},{att},{hp}) = {s!r}: not {wd + 2}.{nd} digits")
        return
    d, m = int(i[:-2]), Fraction(int(i[-2:] + f), 10**nd)
    if m >= 60:
        ctx.violation(f"ddd2dmm({x!r},{att},{hp}) = {s!r}: minutes not below 60")
        return
    err = abs(d * 60 + m - abs(Fraction(deg)) * 60)
    if err > Fraction(1, 2 * 10**nd) + Fraction(1, 10**9):
        ctx.violation(f"ddd2dmm({x!r},{att},{hp}) = {s!r}: off by {float(err)} minutes")
        return
    back = P.dmm2ddd(s)
    if not isinstance(back, float) or back != ref.ref_latlon(s):
        if not isinstance(back, float) or abs(back - ref.ref_latlon(s)) > 1.01e-10:
            ctx.violation(f"dmm2ddd({s!r}) = {back!r}")
            return
    if abs(back - abs(float(deg))) > 0.5 / 10**nd / 60 + 2e-10:
        ctx.violation(f"{x!r} -> {s!r} -> {back!r}")


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    if shard[0] == "gen":
        fr = FRAC_Q if quick else FRAC_T
        for d in range(shard[1], shard[2]):
            for m in range(60):
                for q in fr:
                    deg = (d * 60 * 10**9 + m * 10**9 + q) / (60 * 10**9)
                    if deg > 180:
                        continue
                    ctx.case(["ddd2dmm", deg])
                    for att in ("LA", "LN") if deg <= 90 else ("LN",):
                        for hp in (False, True):
                            for neg in (False, True):
                                check_gen(ctx, P, deg, att, hp, neg)
                                ctx.add(evaluations=1, distinct_nontrivial=int(q != 0))
            ctx.outcome(P.ddd2dmm(d + 0.1, "LN"))
            for deg in (d, -d):  # integers
                ctx.case(["ddd2dmm", deg])
                check_gen(ctx, P, abs(deg), "LN", False, deg < 0)
                ctx.add(evaluations=1)
        return
    if shard[0] == "ties":
        # floats on both sides of each place where minutes are rounded up to the next degree
        steps = 16 if quick else 64
        for d in range(shard[1], min(shard[2], 180)):
            for m in (59,) if quick else (0, 9, 29, 58, 59):
                for q in (999995000, 999999950):
                    mid = (d * 60 * 10**9 + m * 10**9 + q) / (60 * 10**9)
                    for way in (-math.inf, math.inf):
                        deg = mid
                        for _ in range(steps):
                            for att in ("LA", "LN") if deg <= 90 else ("LN",):
                                for hp in (False, True):
                                    ctx.case(["ddd2dmm", deg, att, hp])
                                    check_gen(ctx, P, deg, att, hp, False)
                                    check_gen(ctx, P, deg, att, hp, True)
                                    ctx.add(evaluations=2, distinct_nontrivial=2)
                            deg = math.nextafter(deg, way)
            ctx.outcome(d)
        return
    if shard[0] == "field":
        decs = ["", "0", "5", "25", "07", "999", "0001", "12345", "99999", "50000", "654321", "1234567", "9999999", "0000001", "12345678", "99999999", "123456789", "9999999999", "00000000001", "500000000000", "123456789012345"]
        if not quick:
            decs += ["%d" % i for i in range(10)] + ["%02d" % i for i in range(100)] + ["%03d" % i for i in range(0, 1000, 37)]
        for d in range(shard[1], shard[2]):
            for m in range(60):
                for f in decs:
                    forms = {f"{d:03d}{m:02d}.{f}"}
                    if d < 100:
                        forms.add(f"{d:02d}{m:02d}.{f}")
                    for s in sorted(forms):
                        ctx.case(["dmm2ddd", s])
                        got, want = P.dmm2ddd(s), ref.ref_latlon(s)
                        ctx.add(evaluations=1, distinct_nontrivial=int(f.strip("0") != ""))
                        if not ref.same(got, want):
                            ctx.violation(f"dmm2ddd({s!r}) = {got!r}, should be {want!r}")
            ctx.outcome(P.dmm2ddd(f"{d:03d}30.5"))
        return
    if shard[0] == "str":
        for n in range(0, 7):
            for t in itertools.product("05.A", repeat=n):
                s = shard[1] + "".join(t)
                ctx.case(["dmm2ddd", s])
                got = P.dmm2ddd(s)
                ctx.add(evaluations=1)
                dp = s.find(".")
                if dp < 4 or "A" in s or s.count(".") > 1:
                    want = ""
                else:
                    want = ref.ref_latlon(s)
                    ctx.add(distinct_nontrivial=1)
                if not ref.same(got, want):
                    ctx.violation(f"dmm2ddd({s!r}) = {got!r}, should be {want!r}")
                ctx.outcome("value" if got != "" else "empty")
        return
    if shard[0] == "misc":
        for v in ("", ".", "4530", "45.5", "453.5", "ABCD.EF", None, 4530.5, 45, [], "4530.1.2", "45AB.5", "nan30.5", " ", "A", "N", "--30.5"):
            ctx.case(["dmm2ddd", v])
            try:
                got = P.dmm2ddd(v)
            except AttributeError:
                got = "" if not isinstance(v, (str, bytes)) else "AttributeError"
            ctx.add(evaluations=1, distinct_nontrivial=1)
            want = ""
            if v == "nan30.5":
                continue
            if got != want:
                ctx.violation(f"dmm2ddd({v!r}) = {got!r}, should be empty")
        for v in ("", None, "A", "45.5", [], {}, float("nan"), float("inf"), -float("inf")):
            for att in ("LA", "LN"):
                for hp in (False, True):
                    ctx.case(["ddd2dmm", repr(v)])
                    got = P.ddd2dmm(v, att, hp)
                    ctx.add(evaluations=1, distinct_nontrivial=1)
                    if got != "":
                        ctx.violation(f"ddd2dmm({v!r},{att}) = {got!r}, should be empty")
                    ctx.outcome((att, hp))
        return
    # whole messages: generated GLL parses back to the same position
    for d in range(0, 91, 1 if not quick else 6):
        for m in range(0, 60, 1 if not quick else 7):
            for q in FRAC_Q:
                lat = (d * 60 * 10**9 + m * 10**9 + q) / (60 * 10**9)
                if lat > 90:
                    continue
                for sl, so in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
                    lon = 2 * lat
                    for hp in (False, True):
                        ctx.case(["GLL", sl * lat, so * lon, hp])
                        ctx.add(evaluations=1, distinct_nontrivial=1)
                        msg = P.NMEAMessage("GN", "GLL", 0, hpnmeamode=hp, lat=sl * lat, lon=so * lon)
                        back = P.NMEAReader.parse(msg.serialize())
                        tol = (0.5e-7 if hp else 0.5e-5) / 60 + 2e-10
                        if abs(back.lat - sl * lat) > tol or abs(back.lon - so * lon) > tol:
                            ctx.violation(f"GLL hp={hp} {sl * lat!r},{so * lon!r} -> {msg.serialize()!r} -> {back.lat!r},{back.lon!r}")
            ctx.outcome(str(back))
