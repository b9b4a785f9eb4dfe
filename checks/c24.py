"""
C24: geodetic and ECEF coordinates are inverse conversions.

Enumerated: a lat x lon x height grid with boundary values (poles, equator, antimeridian, the
latitudes around the algorithm's branch, ocean floor to beyond GNSS orbits) x ellipsoids, with
the forward conversion compared against its own geometric construction in exact-enough
arithmetic, the inverse against the starting point, and points inside the core.
"""

from math import cos, hypot, radians, sin, sqrt

from mc import core

ID = "C24"
LEVEL = "exploration"
RULE = (
    "lat grid (step and boundary values) x lon grid x heights x ellipsoids, both directions, and "
    "points with radius below 100 km; non-trivial = position off the axes"
)
ASSUMPTIONS = [
    "tolerances 1e-9 degrees (longitude weighted by cos lat) and 0.1 mm; largest deviation seen is reported",
    "heights from -12 km to 42000 km, ellipsoids with flattening 1/150 to 1/400",
]
ELL = [None, (6378137.0, 298.257222101), (6378388.0, 297.0), (6377563.396, 299.3249646), (6378245.0, 298.3), (6370000.0, 200.0), (3396190.0, 169.894447)]
HEIGHTS = [-12000.0, -10994.0, -430.5, -1.0, -0.001, 0.0, 0, 0.001, 1, 48.1, 100.0, 8848.86, 12000, 400000.0, 2000000.0, 20200000.0, 35786000.0, 42000000.0]
BL = [0.0, 1e-12, 1e-9, 1e-7, 1e-5, 0.001, 0.5, 33.2, 44.9, 45.0, 45.1, 56.0, 56.5, 56.7, 56.78, 56.79, 56.8, 57.0, 57.5, 89.0, 89.9, 89.999, 89.99999, 89.9999999, 89.999999999, 90.0]
BO = [0.0, 1e-12, 1e-9, 1e-6, 0.5, 45.0, 89.999999, 90.0, 90.000001, 135.0, 179.0, 179.999999, 179.9999999999, 180.0]


def shards(tier):
    out = [["grid", i, j] for i in range(len(ELL)) for j in range(8)]
    out += [["core", i] for i in range(4)]
    return out


def lats(tier):
    step = 0.1 if tier == "thorough" else 0.5
    n = int(90 / step)
    out = sorted({round(i * step, 6) for i in range(n + 1)} | set(BL))
    return out + [-x for x in out if x]


def lons(tier):
    step = 1 if tier == "thorough" else 5
    out = sorted({float(i) for i in range(0, 181, step)} | set(BO))
    return out + [-x for x in out if x]


def run_shard(shard, ctx):
    P = core.use_repo()
    if shard[0] == "core":
        for r in (0.0, 1e-9, 1.0, 6000.0, 50000.0, 99000.0, 99999.0):
            for i in range(-6, 7):
                for j in range(shard[1], 24, 4):
                    la, lo = radians(i * 15), radians(j * 15)
                    x, y, z = r * cos(la) * cos(lo), r * cos(la) * sin(lo), r * sin(la)
                    ctx.case(["ecef2llh", x, y, z])
                    ctx.add(evaluations=1, distinct_nontrivial=1)
                    got = P.ecef2llh(x, y, z)
                    if tuple(got) != (0.0, 0.0, -1.0e7):
                        ctx.violation(f"ecef2llh({x},{y},{z}) = {got}, should be (0.0, 0.0, -1e7)")
        for xyz in ((100001.0, 0.0, 0.0), (0.0, 0.0, 100001.0)):
            ctx.outcome(P.ecef2llh(*xyz) == (0.0, 0.0, -1.0e7))
        ctx.outcome("core")
        return
    ell = ELL[shard[1]]
    a, invf = ell or (6378137.0, 298.257223563)
    b = a * (1 - 1 / invf)
    args = () if ell is None else ell
    worst = [0.0, 0.0, 0.0]
    for lat in lats(ctx.tier)[shard[2] :: 8]:
        for lon in lons(ctx.tier):
            for h in HEIGHTS:
                ctx.case(["llh", lat, lon, h, ell])
                ctx.add(evaluations=2, distinct_nontrivial=int(lat != 0 and abs(lat) != 90))
                x, y, z = P.llh2ecef(lat, lon, h, *args)
                # the foot point lies on the ellipsoid, the point at height h along its normal
                la, lo = radians(lat), radians(lon)
                n = (cos(la) * cos(lo), cos(la) * sin(lo), sin(la))
                fx, fy, fz = x - h * n[0], y - h * n[1], z - h * n[2]
                eq = (hypot(fx, fy) / a) ** 2 + (fz / b) ** 2 - 1
                w = sqrt((a * cos(la)) ** 2 + (b * sin(la)) ** 2)
                ref = (a * a / w * n[0], a * a / w * n[1], b * b / w * n[2])
                dev = max(abs(fx - ref[0]), abs(fy - ref[1]), abs(fz - ref[2]))
                if abs(eq) > 1e-11 or dev > 1e-5:
                    ctx.violation(f"llh2ecef({lat},{lon},{h},{ell}) = {(x, y, z)}: foot point off by {dev} m, ellipsoid equation {eq}")
                    continue
                lat2, lon2, h2 = P.ecef2llh(x, y, z, *args)
                dl = abs(lat2 - lat)
                do = abs(lon2 - lon)
                do = min(do, abs(360 - do)) * cos(la)
                if not (dl <= 1e-9 and do <= 1e-9 and abs(h2 - h) <= 1e-4 and -180 <= lon2 <= 180):
                    ctx.violation(f"ecef2llh(llh2ecef({lat},{lon},{h}),{ell}) = {(lat2, lon2, h2)}")
                worst = [max(p, q) for p, q in zip(worst, (dl, do, abs(h2 - h)))]
                # inverse direction
                x2, y2, z2 = P.llh2ecef(lat2, lon2, h2, *args)
                if max(abs(x2 - x), abs(y2 - y), abs(z2 - z)) > 1e-3:
                    ctx.violation(f"llh2ecef(ecef2llh({x},{y},{z}),{ell}) = {(x2, y2, z2)}")
        ctx.outcome(round(lat, 3))
    ctx.notes["max_dlat_1e-18deg"] = int(worst[0] * 1e18)
    ctx.notes["max_dlon_1e-18deg"] = int(worst[1] * 1e18)
    ctx.notes["max_dheight_nm"] = int(worst[2] * 1e9)
