"""
C21: display conversions of positions denote the same position.

Enumerated: every degree x boundary minutes x boundary seconds x sign x axis through
deg2dmm, deg2dms, latlon2dmm, latlon2dms, dms2deg and llh2iso6709 against exact rational
arithmetic, and every string up to a length over an alphabet of digits, points, delimiters
and letters through dms2deg against the grammar of the documentation.
"""

import itertools
import re
from fractions import Fraction

from mc import core

ID = "C21"
LEVEL = "exploration"
RULE = (
    "degree x minute x second boundaries x sign x axis rendered and read back; lat x lon x alt x "
    "crs in ISO6709; all strings <= bound over the delimiter alphabet in dms2deg; non-trivial = "
    "value with fractional degrees, or string accepted by the grammar"
)
ASSUMPTIONS = [
    "documented rounding: 7 decimals of minutes, 5 decimals of seconds, ISO6709 exact",
    "a hemisphere letter used as a delimiter in the middle of a string is not given a meaning",
]
SECS = [0, 1, 4, 5, 6, 9, 10, 49, 99, 100, 4999, 5000, 5001, 10000, 99999, 100000, 12345678, 15000000, 29999999, 30000000, 30000001, 45600000, 59000000, 59999000, 59999900, 59999990, 59999994, 59999995, 59999996, 59999999]  # 1e-6 s
ALPHA = "51.\u00b0\u2032NS -"


def shards(tier):
    out = [["grid", d, min(d + 6, 181)] for d in range(0, 181, 6)]
    out += [["str", a, b] for a in ALPHA for b in ALPHA]
    out += [["iso", i] for i in range(8)] + [["misc"]]
    return out


RE_DMM = re.compile("^([0-9]+)\u00b0([0-9]+)(?:\\.([0-9]+))?\u2032([NSEW])$")
RE_DMS = re.compile("^([0-9]+)\u00b0([0-9]+)\u2032([0-9]+)(?:\\.([0-9]+))?\u2033([NSEW])$")


def letter(neg, att):
    return ("S" if neg else "N") if att == "LA" else ("W" if neg else "E")


def frac(i, f):
    return Fraction(int(i + (f or "")), 10 ** len(f or ""))


def check_dmm(ctx, s, deg, neg, att, what):
    g = RE_DMM.match(s) if isinstance(s, str) else None
    if not g:
        return ctx.violation(f"{what} = {s!r}: not d\u00b0m.m\u2032X in plain decimals")
    m = frac(g[2], g[3])
    if m >= 60:
        return ctx.violation(f"{what} = {s!r}: minutes not below 60")
    if g[4] != letter(neg, att):
        return ctx.violation(f"{what} = {s!r}: wrong letter")
    err = abs(int(g[1]) * 60 + m - abs(Fraction(deg)) * 60)
    if err > Fraction(1, 2 * 10**7) + Fraction(1, 10**10):
        return ctx.violation(f"{what} = {s!r}: off by {float(err)} minutes")
    return None


def check_dms(ctx, s, deg, neg, att, what):
    g = RE_DMS.match(s) if isinstance(s, str) else None
    if not g:
        return ctx.violation(f"{what} = {s!r}: not d\u00b0m\u2032s.s\u2033X in plain decimals")
    m, sec = int(g[2]), frac(g[3], g[4])
    if m >= 60 or sec >= 60:
        return ctx.violation(f"{what} = {s!r}: minutes or seconds not below 60")
    if g[5] != letter(neg, att):
        return ctx.violation(f"{what} = {s!r}: wrong letter")
    err = abs(int(g[1]) * 3600 + m * 60 + sec - abs(Fraction(deg)) * 3600)
    if err > Fraction(1, 2 * 10**5) + Fraction(1, 10**8):
        return ctx.violation(f"{what} = {s!r}: off by {float(err)} seconds")
    return None


def check_back(ctx, P, s, x):
    for rnd in (None, 3, 9):
        got = P.dms2deg(s) if rnd is None else P.dms2deg(s, rnd)
        n = 7 if rnd is None else rnd
        tol = 0.51 * 10**-n + 0.5e-5 / 3600 + 1e-11
        if not isinstance(got, float) or abs(got - x) > tol or round(got, n) != got:
            ctx.violation(f"dms2deg({s!r}, {rnd}) = {got!r}, rendered from {x!r}")


TOKEN = "[0-9.]+[^0-9.]"
GRAMMAR = re.compile(f"^((?:{TOKEN}){{1,3}})([NSEW]?)$")
NUM = re.compile("^([0-9]+\\.?[0-9]*|\\.[0-9]+)$")


def ref_dms(s):
    """Value of a dms string, None if malformed, 'any' where no meaning is given."""
    t = s.replace(" ", "")
    g = GRAMMAR.match(t)
    if not g:
        return None
    parts = re.findall("([0-9.]+)([^0-9.])", g[1])
    if any(not NUM.match(n) for n, _ in parts):
        return None
    letters = "".join(d for _, d in parts) + g[2]
    if any(c in "NSEW" for c in letters[:-1]):
        return "any"
    val = sum(Fraction(n if n[-1] != "." else n + "0") / 60**i for i, (n, _) in enumerate(parts))
    return -val if letters[-1] in "SW" else val


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    if shard[0] == "grid":
        mins = range(60)
        for d in range(shard[1], shard[2]):
            for m in mins:
                for q in SECS:
                    deg = (d * 3600 * 10**6 + m * 60 * 10**6 + q) / (3600 * 10**6)
                    if deg > 180:
                        continue
                    ctx.case(["deg", deg])
                    for att in ("LA", "LN") if deg <= 90 else ("LN",):
                        for neg in (False, True) if deg else (False,):
                            x = -deg if neg else deg
                            ctx.add(evaluations=2, distinct_nontrivial=2 * int(bool(m or q)))
                            s1, s2 = P.deg2dmm(x, att), P.deg2dms(x, att)
                            check_dmm(ctx, s1, deg, neg, att, f"deg2dmm({x!r},{att})")
                            check_dms(ctx, s2, deg, neg, att, f"deg2dms({x!r},{att})")
                            check_back(ctx, P, s1, x)
                            check_back(ctx, P, s2, x)
                    if deg <= 90:
                        for a, b in ((deg, deg * 2), (-deg, deg * 2), (deg, -deg * 2), (-deg, -deg * 2)):
                            la, lo = P.latlon2dmm(a, b), P.latlon2dms(a, b)
                            ctx.add(evaluations=2)
                            check_dmm(ctx, la[0], abs(a), a < 0, "LA", f"latlon2dmm({a!r},{b!r})[0]")
                            check_dmm(ctx, la[1], abs(b), b < 0, "LN", f"latlon2dmm({a!r},{b!r})[1]")
                            check_dms(ctx, lo[0], abs(a), a < 0, "LA", f"latlon2dms({a!r},{b!r})[0]")
                            check_dms(ctx, lo[1], abs(b), b < 0, "LN", f"latlon2dms({a!r},{b!r})[1]")
            ctx.outcome(P.deg2dms(d + 0.51, "LN"))
            for x in (d, -d):
                check_dms(ctx, P.deg2dms(x, "LN"), d, x < 0, "LN", f"deg2dms({x!r},LN)")
                check_dmm(ctx, P.deg2dmm(x, "LN"), d, x < 0, "LN", f"deg2dmm({x!r},LN)")
                ctx.add(evaluations=2)
        return
    if shard[0] == "iso":
        vals = [0, 0.0, -0.0, 1e-7, -1e-7, 1e-5, 0.0001, -0.0001, 1e-20, 0.1, -0.1, 1, -1, 12.3456789, -12.3456789, 33.0, -33.0, 59.99999999999999, -59.99999999999999, 89, 89.999999999, -89.999999999, 90, -90.0, 53.451]
        alts = [0, 0.0, -0.0, 1e-5, -1e-5, 0.5, -0.5, 8850, 8848.86, -10994.0, -10994, 35786000.5, 20200000, 1e16, -1e16, 1.5e22]
        for lat in vals[shard[1] :: 8]:
            for lon in vals + [179.9999999, -179.9999999, 180, -180.0]:
                for alt in alts:
                    for crs in (None, "WGS_84", "NAD_83", "", "EPSG4326"):
                        ctx.case(["iso", lat, lon, alt, crs])
                        ctx.add(evaluations=1, distinct_nontrivial=1)
                        got = P.llh2iso6709(lat, lon, alt) if crs is None else P.llh2iso6709(lat, lon, alt, crs)
                        want = "^" + "([+-])([0-9]+(?:\\.[0-9]+)?)" * 3 + "CRS(.*)/$"
                        g = re.match(want, got)
                        if not g or g[7] != ("WGS_84" if crs is None else crs):
                            ctx.violation(f"llh2iso6709({lat!r},{lon!r},{alt!r},{crs!r}) = {got!r}: malformed")
                            continue
                        for v, sg, num in ((lat, g[1], g[2]), (lon, g[3], g[4]), (alt, g[5], g[6])):
                            if float(num) != abs(float(v)) or (v != 0 and sg != ("-" if v < 0 else "+")):
                                ctx.violation(f"llh2iso6709({lat!r},{lon!r},{alt!r},{crs!r}) = {got!r}: {sg}{num} for {v!r}")
                        ctx.outcome((g[1], g[3], g[5]))
        return
    if shard[0] == "misc":
        for v in ("", None, "A", "45.5", [], {}, float("nan"), float("inf"), -float("inf")):
            for f in (P.deg2dmm, P.deg2dms):
                for att in ("LA", "LN"):
                    ctx.case([f.__name__, repr(v)])
                    ctx.add(evaluations=1, distinct_nontrivial=1)
                    if f(v, att) != "":
                        ctx.violation(f"{f.__name__}({v!r},{att}) = {f(v, att)!r}, should be empty")
                    ctx.outcome((f.__name__, att))
        for s, want in (("51\u00b020\u203245.6\u2033N", 51.346), ("51\u00b030.0\u2032", 51.5), ("51 \u00b0 20 \u2032 45.6 \u2033 S", -51.346), ("0\u00b00\u203236\u2033W", -0.01), ("51d20m45.6sN", 51.346), ("51:20:45.6:W", -51.346)):
            ctx.case(["dms2deg", s])
            ctx.add(evaluations=1, distinct_nontrivial=1)
            if P.dms2deg(s) != want:
                ctx.violation(f"dms2deg({s!r}) = {P.dms2deg(s)!r}, should be {want!r}")
        return
    maxlen = 6 if quick else 8
    for n in range(0, maxlen - 1):
        for t in itertools.product(ALPHA, repeat=n):
            s = shard[1] + shard[2] + "".join(t)
            ctx.case(["dms2deg", s])
            want = ref_dms(s)
            try:
                got = P.dms2deg(s)
            except ValueError:
                got = None
            ctx.add(evaluations=1, distinct_nontrivial=int(want is not None))
            if want == "any":
                continue
            if (got is None) != (want is None):
                ctx.violation(f"dms2deg({s!r}) = {got!r}, should be {want!r}")
            elif want is not None and abs(got - float(want)) > 0.51e-7:
                ctx.violation(f"dms2deg({s!r}) = {got!r}, should be {float(want)!r}")
            ctx.outcome("rejected" if want is None else "value")
