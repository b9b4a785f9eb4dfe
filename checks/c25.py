"""
C25: distance, bearing, area and unit conversions obey their geometry.

Enumerated: every ordered pair of points of a lat x lon grid with poles, antimeridian,
antipodes and near-coincident points, against vector geometry; unit conversions and hex
formatting over complete argument sets.
"""

from math import atan2, cos, degrees, hypot, pi, radians, sin, sqrt

from mc import core

ID = "C25"
LEVEL = "exploration"
RULE = (
    "ordered pairs of grid points incl. poles, antimeridian, antipodal and near neighbours x "
    "radii; knots x unit spellings; hex values x paddings; non-trivial = two different points"
)
ASSUMPTIONS = [
    "the law of cosines is only accurate to about 0.2 m for short distances and near the antipode; "
    "distance tolerance 0.5 m on the Earth's radius plus 1e-9 relative",
    "bearing is undefined for coincident and antipodal points and at a pole",
    "area uses the longitude difference as given; published conversion factors 0.5144447324 m/s, "
    "1.68781084 ft/s, 1.15078 mph, 1.852001 km/h per knot",
]
R = 6378.137
LAT_Q = [0.0, 1e-4, 0.5, 10.0, 33.3, 45.0, 60.0, 75.5, 89.0, 89.9999, 90.0]
LON_Q = [0.0, 1e-4, 0.5, 30.0, 45.0, 90.0, 120.5, 150.0, 179.0, 179.9999, 180.0]
LAT_T = LAT_Q + [1e-6, 0.01, 2.0, 5.0, 15.0, 20.0, 25.0, 30.0, 40.0, 50.0, 55.0, 65.0, 70.0, 80.0, 85.0, 89.999999]
LON_T = LON_Q + [1e-6, 0.01, 2.0, 10.0, 20.0, 60.0, 75.0, 100.0, 110.0, 135.0, 165.0, 170.0, 175.0, 179.999999]


def points(tier):
    la, lo = (LAT_Q, LON_Q) if tier == "quick" else (LAT_T, LON_T)
    la = sorted(set(la) | {-x for x in la if x})
    lo = sorted(set(lo) | {-x for x in lo if x})
    return [(a, b) for a in la for b in lo]


def shards(tier):
    n = len(points(tier))
    k = 40 if tier == "quick" else 80
    return [["pairs", i, k] for i in range(min(k, n))] + [["near", i] for i in range(8)] + [["units"], ["hex"]]


def vec(lat, lon):
    la, lo = radians(lat), radians(lon)
    return (cos(la) * cos(lo), cos(la) * sin(lo), sin(la))


def angle(p, q):
    a, b = vec(*p), vec(*q)
    cr = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    return atan2(sqrt(cr[0] ** 2 + cr[1] ** 2 + cr[2] ** 2), a[0] * b[0] + a[1] * b[1] + a[2] * b[2])


def ref_bearing(p, q):
    """Direction of q in the local north/east frame of p, None where undefined."""
    la, lo = radians(p[0]), radians(p[1])
    b = vec(*q)
    north = (-sin(la) * cos(lo), -sin(la) * sin(lo), cos(la))
    east = (-sin(lo), cos(lo), 0.0)
    n = sum(i * j for i, j in zip(b, north))
    e = sum(i * j for i, j in zip(b, east))
    if hypot(n, e) < 1e-9:
        return None, 0
    return degrees(atan2(e, n)) % 360, hypot(n, e)


def pair(ctx, P, p, q, ang):
    dist = P.haversine(*p, *q)
    want = R * ang
    if not isinstance(dist, float) or not 0 <= dist <= pi * R * (1 + 1e-12) or abs(dist - want) > 5e-4 + 1e-9 * want:
        ctx.violation(f"haversine{p + q} = {dist!r}, should be {want}")
    if abs(dist - P.haversine(*q, *p)) > 5e-4:
        ctx.violation(f"haversine{p + q} = {dist!r} but {P.haversine(*q, *p)!r} in the other direction")
    brg = P.bearing(*p, *q)
    if not 0 <= brg < 360:
        ctx.violation(f"bearing{p + q} = {brg!r}")
    wb, size = ref_bearing(p, q)
    if wb is not None:
        d = abs(brg - wb)
        if min(d, 360 - d) > 1e-6 + 1e-11 / size:
            ctx.violation(f"bearing{p + q} = {brg!r}, should be {wb}")
    area = P.area(*p, *q)
    want = R * R * radians(abs(p[1] - q[1])) * abs(sin(radians(p[0])) - sin(radians(q[0])))
    if abs(area - want) > 1e-7 + 1e-9 * want:
        ctx.violation(f"area{p + q} = {area!r}, should be {want}")
    ctx.add(evaluations=3, distinct_nontrivial=3 * int(p != q))


def run_shard(shard, ctx):
    P = core.use_repo()
    quick = ctx.tier == "quick"
    if shard[0] == "pairs":
        pts = points(ctx.tier)
        for p in pts[shard[1] :: shard[2]]:
            ctx.case(["pairs from", p])
            for q in pts:
                pair(ctx, P, p, q, angle(p, q))
                if quick or not shard[1] % 8:
                    for rad in (1.0, 3396.19):
                        d = P.haversine(*p, *q, rad)
                        if abs(d - rad * angle(p, q)) > rad * 8e-8 + 1e-12:
                            ctx.violation(f"haversine{p + q + (rad,)} = {d!r}")
                        a = P.area(*p, *q, rad)
                        if abs(a * R * R - P.area(*p, *q) * rad * rad) > 1e-6 * max(1, a * R * R):
                            ctx.violation(f"area{p + q + (rad,)} = {a!r}")
                        ctx.add(evaluations=2)
            if P.haversine(*p, *p) > 5e-4 or P.planar(*p, *p) != 0 or P.area(*p, *p) != 0:
                ctx.violation(f"distance or area of {p} to itself is not zero")
            ctx.outcome(round(P.haversine(*p, 1.0, 1.0), 3))
        return
    if shard[0] == "near":
        # short range: planar (metres) against spherical distance, including over the antimeridian
        for lat in ([-80.0, -60.5, -45.0, -10.0, -1e-9, 0.0, 10.0, 33.3, 45.0, 60.5, 80.0])[shard[1] :: 8]:
            for lon in (0.0, 1e-5, -1e-5, 45.0, -45.0, 90.0, 179.0, 179.9999, -179.9999, 180.0, -180.0, 179.99999, -179.99999):
                for e in (1e-7, 1e-6, 1e-5, 5e-5, 1e-4, 3e-4):
                    for dy in (-1, 0, 1):
                        for dx in (-1, 0, 1):
                            la2 = lat + dy * e
                            lo2 = lon + dx * e
                            for lo in {lo2, lo2 - 360 if lo2 > 180 else lo2, lo2 + 360 if lo2 < -180 else lo2}:
                                if not -180 <= lo <= 180:
                                    continue
                                p, q = (lat, lon), (la2, lo)
                                ctx.case(["planar", p, q])
                                ang = angle(p, q)
                                got = P.planar(*p, *q)
                                want = 6378137.0 * ang
                                if abs(got - want) > 2e-3 + 1e-3 * want:
                                    ctx.violation(f"planar{p + q} = {got!r} m, should be {want} m")
                                g2 = P.planar(*p, *q, 1000.0)
                                if abs(g2 - got * 1000 / 6378137.0) > 1e-9 + 1e-6 * g2:
                                    ctx.violation(f"planar{p + q + (1000.0,)} = {g2!r}")
                                if want > 20 and abs(P.haversine(*p, *q) * 1000 - got) > 0.5 + 1e-3 * want:
                                    ctx.violation(f"planar{p + q} = {got!r} m, haversine {P.haversine(*p, *q)!r} km")
                                pair(ctx, P, p, q, ang)
                                ctx.add(evaluations=2, distinct_nontrivial=2)
                ctx.outcome((lat, lon))
        return
    if shard[0] == "units":
        conv = {"MS": 0.5144447324, "FS": 1.68781084, "MPH": 1.15078, "KMPH": 1.852001}
        for u, k in conv.items():
            spell = {u, u.lower(), u.capitalize(), u[0].lower() + u[1:]}
            for n in [0, 0.0, -1, 1, 1.0, 0.5, 1e-9, 1e9, 100, 12345.678, -5.5] + list(range(2, 200)):
                for s in sorted(spell):
                    ctx.case(["knots2spd", n, s])
                    got = P.knots2spd(n, s)
                    ctx.add(evaluations=1, distinct_nontrivial=1)
                    if abs(got - n * k) > 1e-12 * abs(n * k):
                        ctx.violation(f"knots2spd({n},{s!r}) = {got!r}, should be {n * k}")
                    ctx.outcome((u, s))
            if abs(P.knots2spd(10) - 10 * conv["MS"]) > 1e-9:
                ctx.violation("knots2spd default unit is not m/s")
        import itertools

        odd = [a + u + b for u in list(conv) + [u.lower() for u in conv] for a in ("", " ", "\t", "K", "/", "0", "\n") for b in ("", " ", "\n", "S", "/", "0", ".", "\x00") if a + b]
        odd += [u[:k] + c + u[k:] for u in conv for k in range(1, len(u)) for c in " /_-."]
        for t in odd + [""] + ["".join(t) for n in range(1, 5) for t in itertools.product("MSFPHKX", repeat=n)]:
            ctx.case(["knots2spd unit", t])
            ctx.add(evaluations=1)
            try:
                P.knots2spd(10, t)
                ok = True
            except KeyError:
                ok = False
            if ok != (t.upper() in conv):
                ctx.violation(f"knots2spd unit {t!r} {'accepted' if ok else 'rejected'}")
        for v in ("1", "x", None, [], {}):
            try:
                P.knots2spd(v, "MS")
                ctx.violation(f"knots2spd({v!r}) accepted")
            except TypeError:
                ctx.add(evaluations=1)
        return
    vals = set(range(0, 0x1100)) | {2**i + d for i in range(4, 65) for d in (-1, 0, 1)} if quick else set(range(0, 0x11000)) | {2**i + d for i in range(4, 129) for d in (-1, 0, 1)}
    for n in sorted(vals):
        digits, k = "", n
        while k or not digits:
            digits = "0123456789ABCDEF"[k % 16] + digits
            k //= 16
        for pad in range(0, 18):
            want = "0" * (pad - len(digits)) + digits
            ctx.case(["hex2str", n, pad])
            ctx.add(evaluations=1, distinct_nontrivial=1)
            got = P.hex2str(n, pad) if pad else P.hex2str(n)
            if got != want:
                ctx.violation(f"hex2str({n},{pad}) = {got!r}, should be {want!r}")
        ctx.outcome(len(digits))
