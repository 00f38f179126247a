import math

from .maps import *

RULE = ("discrete maps of 1 to 12 tracts (some at the same place, some close together, some symmetric about the position looked up) and "
        "equatorial maps of 3 to 12 tracts; positions at random, at centres, midway between two centres")


def cases(rng, tier):
    n = 0
    while True:
        n += 1
        if n % 3:
            k = rng.randint(1, 12)
            pts = [[round(rng.uniform(0, 360), 2), round(rng.uniform(-88, 88), 2), 1.0] for _ in range(k)]
            if k > 1 and rng.random() < .6:
                pts[rng.randrange(k)] = list(pts[rng.randrange(k)])
            if k > 2 and rng.random() < .5:
                a, d = round(rng.uniform(20, 300), 1), round(rng.uniform(0, 40), 1)
                pts[:2] = [[a - 5, d, 1.0], [a + 5, d, 1.0]]
                pos = [[a, d], [a, d + 3], [a + rng.choice([-1, 1])*10**rng.uniform(-5, -1), d]]
            else:
                pos = []
            if rng.random() < .4:
                # a cluster closer together than the overlap of tracts
                a, d, w = round(rng.uniform(0, 360), 2), round(rng.uniform(-80, 80), 2), 10**rng.uniform(-3, .5)
                near = [[a + rng.uniform(-w, w), d + rng.uniform(-w, w), 1.0] for _ in range(rng.randint(2, 4))]
                pts = pts[:rng.randint(0, 4)] + near
                rng.shuffle(pts)
                pos = pos[:2] + [[a + rng.uniform(-w, w), d + rng.uniform(-w, w)] for _ in range(4)]
            pos += [p[:2] for p in pts[:3]]
            c = {"kind": "discrete", "points": pts}
        else:
            k = rng.randint(3, 12)
            c = {"kind": "equat", "numTracts": k}
            pos = [[360.0/k*rng.randint(0, k - 1), 0.0], [180.0/k, 1.0]]
        for _ in range(6):
            pos.append([round(rng.uniform(0, 360), 3), round(rng.uniform(-90, 90), 3)])
        c["positions"] = pos
        yield c


def check(case):
    import lsst.geom as geom
    if case["kind"] == "discrete":
        m = discrete(case["points"])
    else:
        m = equat(numTracts=case["numTracts"])
    ctrs = [t.getCtrCoord() for t in m]
    for ra, dec in case["positions"]:
        c = geom.SpherePoint(ra*geom.degrees, dec*geom.degrees)
        t = m.findTract(c)
        if not any(t is u for u in m):
            return "the tract found is not one of the map"
        d = c.separation(t.getCtrCoord()).asRadians()
        best = min(c.separation(x).asRadians() for x in ctrs)
        if d > best + 1e-9:
            return "position %s found in tract %d at %s rad, another is at %s" % ((ra, dec), t.getId(), d, best)
    return None


def from_model(contract, m):
    import random
    n = m.get("tracts", 2)
    n = n if isinstance(n, int) and 1 <= n <= 30 else 3
    r = random.Random(2)
    for c in cases(r, "quick"):
        if c["kind"] == ("discrete" if contract == "discrete" else "equat"):
            yield c
            return
