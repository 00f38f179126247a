import math

from .maps import *

RULE = ("rings maps of 1 to 60 rings, any starting RA; positions at random, at the poles, near RA 0, near the "
        "starting RA and close to (1e-6 to 1e-4) either side of the boundaries of ranges")


def positions(rng, n, start):
    size = math.pi/(n + 1)
    out = []
    for _ in range(40):
        dec = rng.choice([rng.uniform(-math.pi/2, math.pi/2), -math.pi/2 + (rng.randint(0, n) + .5)*size +
                          rng.choice([-1, 1])*rng.choice([1e-6, 1e-4]), math.pi/2, -math.pi/2, 0.0,
                          -math.pi/2 + size*rng.randint(0, n + 1)])
        ra = rng.choice([rng.uniform(0, 2*math.pi), 0.0, 1e-5, 2*math.pi - 1e-5, math.radians(start),
                         math.radians(start) + rng.choice([-1e-5, 1e-5]),
                         math.radians(start) + math.pi*rng.randint(0, 12)/rng.randint(3, 12) +
                         rng.choice([-1e-6, 1e-6])])
        out.append([ra % (2*math.pi), max(-math.pi/2, min(math.pi/2, dec))])
    return out


def cases(rng, tier):
    n = 0
    while True:
        n += 1
        k = n if n <= 10 else rng.choice([rng.randint(1, 12), rng.randint(1, 60)])
        start = rng.choice([0.0, 0.0, 359.999, 180.0, round(rng.uniform(0, 360), 3)])
        yield {"numRings": k, "raStart": start, "positions": positions(rng, k, start)}


def check(case):
    import lsst.geom as geom
    m = rings(case["numRings"], case["raStart"])
    for ra, dec in case["positions"]:
        t = m.findTract(geom.SpherePoint(ra, dec, geom.radians))
        k = t.getId()
        r0, r1, d0, d1 = [v.asRadians() for v in m.getRaDecRange(k)]
        if not d0 - 1e-9 <= dec <= d1 + 1e-9:
            return "position %s found in tract %d of declinations %s to %s" % ((ra, dec), k, d0, d1)
        if k in (0, len(m) - 1):
            continue
        off = turndiff(ra, r0) % (2*math.pi)
        width = turndiff(r1, r0) % (2*math.pi)
        if off > width + 1e-9 and off < 2*math.pi - 1e-9:
            return "position %s found in tract %d of right ascensions %s to %s" % ((ra, dec), k, r0, r1)
    return None


def from_model(contract, m):
    n = m.get("numRings")
    if isinstance(n, int) and 1 <= n <= 100:
        s = float(m.get("raStart", 0))
        ps = []
        if all(isinstance(m.get(x), (int, float)) for x in ("ra", "dec")):
            ps = [[m["ra"] % (2*math.pi), max(-math.pi/2, min(math.pi/2, m["dec"]))]]
        import random
        yield {"numRings": n, "raStart": s if 0 <= s < 360 else 0.0, "positions": ps + positions(random.Random(1), n, s)}
