import math

from .maps import *

RULE = ("rings maps of 1 to 200 rings: width of the ranges of every ring at the declination nearest the equator, number "
        "of tracts; extent of some tracts against half a ring's height and the overlap")


def cases(rng, tier):
    n = 0
    while True:
        n += 1
        k = n if n <= 120 else rng.randint(1, 200)
        for what in ("width", "three"):
            yield {"numRings": k, "what": what}
        if n % 4 == 0:
            k = rng.randint(2, 25)
            yield {"numRings": k, "what": "extent", "raStart": rng.choice([0.0, 100.0]), "probe": rng.randint(0, 10**6),
                   "overlap": rng.choice([0.0, 0.3, 1.0, 3.0])}


def check(case):
    n = case["numRings"]
    size = math.pi/(n + 1)
    if case["what"] == "extent":
        import lsst.geom as geom
        m = rings(n, case["raStart"], tractOverlap=case["overlap"], pixelScale=600.0)
        t = m[case["probe"] % len(m)]
        c, w, b = t.getCtrCoord(), t.getWcs(), geom.Box2D(t.getBBox())
        far = size/2 + math.radians(case["overlap"])
        got = [p for i in range(4) for p in [w.skyToPixel(c.offset(i*90*geom.degrees, far*geom.radians))]]
        for p in got:
            if not (b.getMinX() - 1e-6 <= p[0] <= b.getMaxX() + 1e-6 and b.getMinY() - 1e-6 <= p[1] <= b.getMaxY() + 1e-6):
                return "tract %d does not reach %s radians from its centre: pixel %s, box %s" % (t.getId(), far, p, b)
        dx = max(p[0] for p in got) - min(p[0] for p in got)
        if b.getWidth() > dx + 52 + 1:
            return "tract %d is %s pixels wide, %s needed" % (t.getId(), b.getWidth(), dx)
        if abs(t.getTractOverlap().asDegrees() - case["overlap"]) > 1e-9:
            return "overlap %s" % t.getTractOverlap()
        return None
    m = rings(n)
    nums = [0]*n
    for i in range(1, len(m) - 1):
        nums[m.getRingIndices(i)[0]] += 1
    i = 1
    for r, k in enumerate(nums):
        if case["what"] == "three":
            if k < 3:
                return "ring %d has %d tracts" % (r, k)
            continue
        a, b, c, d = [x.asRadians() for x in m.getRaDecRange(i)]
        dec = 0.0 if c < 0 < d else min(abs(c), abs(d))
        width = turndiff(b, a) % (2*math.pi)
        if width*math.cos(dec) > size*(1 + 1e-9):
            return "ring %d: tracts %s wide at declination %s, rings %s high" % (r, width*math.cos(dec), dec, size)
        i += k
    return None


def from_model(contract, m):
    n = m.get("numRings")
    if isinstance(n, int) and 1 <= n <= 300:
        for what in ("width", "three"):
            yield {"numRings": n, "what": what}
        yield {"numRings": n, "what": "extent", "raStart": 0.0, "probe": m.get("tract", 1), "overlap": 1.0}
