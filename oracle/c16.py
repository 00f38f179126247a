import math

from .maps import *
from .c11 import positions

RULE = ("rings maps of 1 to 14 rings, any starting RA, overlaps from none to many degrees; positions at random, "
        "at the poles, near boundaries and on either side of the starting RA; every tract asked whether it contains them")


def cases(rng, tier):
    n = 0
    while True:
        n += 1
        k = n if n <= 6 else rng.randint(1, 14)
        start = rng.choice([0.0, 0.0, 359.999, 180.0, round(rng.uniform(0, 360), 3)])
        yield {"numRings": k, "raStart": start, "overlap": rng.choice([0, 0.5, 2, 6]),
               "positions": positions(rng, k, start)[:12]}


def check(case):
    import lsst.geom as geom
    n = case["numRings"]
    m = rings(n, case["raStart"], tractOverlap=case["overlap"], pixelScale=4000.0)
    size, s = math.pi/(n + 1), math.radians(case["raStart"])
    nums = [0]*n
    first = {}
    for i in range(1, len(m) - 1):
        r, t = m.getRingIndices(i)
        nums[r] += 1
        first.setdefault(r, i - t)
    for ra, dec in case["positions"]:
        c = geom.SpherePoint(ra, dec, geom.radians)
        res = [t.getId() for t in m.findAllTracts(c)]
        if len(set(res)) != len(res):
            return "position %s: tracts %s" % ((ra, dec), res)
        holding = {i for i in range(len(m)) if m[i].contains(c)}
        if not set(res) <= holding:
            return "position %s: tracts %s, but only %s contain it" % ((ra, dec), res, sorted(holding))
        x = (dec + math.pi/2)/size - 0.5
        if abs(x - round(x)) < 1e-8:
            continue
        h = max(-1, min(n, math.floor(x)))
        want = {0, len(m) - 1}
        for a in (h - 1, h, h + 1):
            if not 0 <= a < n:
                continue
            y = ((ra - s) % (2*math.pi))*nums[a]/(2*math.pi) + 0.5
            if abs(y - round(y)) < 1e-8:
                continue
            t = math.floor(y) % nums[a]
            want |= {first[a] + (t + d) % nums[a] for d in (-1, 0, 1)}
        if not (want & holding) <= set(res):
            return "position %s: tracts %s, not %s which contain it" % (
                (ra, dec), res, sorted((want & holding) - set(res)))
    return None


def from_model(contract, m):
    n = m.get("numRings")
    if isinstance(n, int) and 1 <= n <= 30:
        s = float(m.get("raStart", 0))
        ps = []
        if all(isinstance(m.get(x), (int, float)) for x in ("ra", "dec")):
            ps = [[m["ra"] % (2*math.pi), max(-math.pi/2, min(math.pi/2, m["dec"]))]]
        import random
        for ov in (0, 5):
            yield {"numRings": n, "raStart": s if 0 <= s < 360 else 0.0, "overlap": ov,
                   "positions": ps + positions(random.Random(1), n, s)[:10]}
