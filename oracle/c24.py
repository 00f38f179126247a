from .maps import *
from lsst import geom

RULE = ("equatorial maps of 1 to 40 tracts, declination ranges anywhere, symmetric or not, TAN from 3 tracts on or CEA; "
        "every tract's corners and centre, and 12 positions in the band, some on and next to interval edges")


def cases(rng, tier):
    n = 0
    while True:
        n += 1
        lo = rng.choice([-1.25, rng.uniform(-60, 50), 0.0, -45.0])
        hi = rng.choice([1.25, 60.0, lo + rng.uniform(.1, 20)])
        pts = []
        for _ in range(12):
            f = rng.choice([rng.random(), rng.random(), 1e-9, 1 - 1e-9, 0.5, 0.0])
            pts.append([rng.random(), f, rng.choice([0.0, 1.0, rng.random(), rng.random()])])
        yield {"n": rng.choice([2, 3, 4, 5, 7, 12, rng.randint(2, 40)]), "dec": [min(lo, hi), max(lo, hi)], "pts": pts,
               "rot": rng.choice([0.0, 0.0, 30.0]), "overlap": rng.choice([0.0, 1.0, 0.1]), "default": n == 1}


def check(case):
    n, (lo, hi) = case["n"], case["dec"]
    m = equat(numTracts=n, decRange=[lo, hi], rotation=case["rot"], tractOverlap=case["overlap"])
    if len(m) != n:
        return "%d tracts, not %d" % (len(m), n)
    D = math.pi/180
    w = 2*math.pi/n
    for i in range(n):
        t = m[i]
        if t.getId() != i:
            return "tract %d has number %d" % (i, t.getId())
        want = [(i*w, lo*D), ((i + 1)*w, lo*D), ((i + 1)*w, hi*D), (i*w, hi*D)]
        got = [(v.getLongitude().asRadians(), v.getLatitude().asRadians()) for v in t.getVertexList()]

        def same(a, b):
            return near(turndiff(a[0], b[0]), 0, 1e-9) and near(a[1], b[1])
        if len(got) != 4 or not all(any(same(a, b) for b in got) for a in want) or \
                not all(any(same(a, b) for a in want) for b in got):
            return "tract %d has corners %s, not %s" % (i, got, want)
        c = t.getCtrCoord()
        c = (c.getLongitude().asRadians(), c.getLatitude().asRadians())
        if not same(c, ((i + .5)*w, (lo + hi)/2*D)):
            return "tract %d has centre %s, not %s" % (i, c, ((i + .5)*w, (lo + hi)/2*D))
    for a, f, g in case["pts"]:
        i = int(a*n)
        ra, dec = (i + f)*w, (lo + g*(hi - lo))*D
        got = m.findTract(geom.SpherePoint(ra, dec, geom.radians)).getId()
        if abs(turndiff(ra, (got + .5)*w)) > w/2 + 1e-7:
            return "position RA %r Dec %r (interval %d) is found in tract %d" % (ra, dec, i, got)
    return None


def from_model(contract, m):
    n = m.get("tracts", 4)
    n = min(max(n, 2), 60) if isinstance(n, int) else 4

    def num(k, d):
        v = m.get(k, d)
        return float(v) if isinstance(v, (int, float)) else d
    lo, hi = max(-85., num("decLo", -1.25)), min(85., num("decHi", 1.25))
    j = m.get("interval", 0)
    j = j if isinstance(j, int) else 0
    yield {"n": n, "dec": [min(lo, hi), max(lo, hi)], "rot": 0.0, "overlap": 0.5,
           "pts": [[(j % n + .5)/n, f, g] for f in (0.02, .5, .98) for g in (0.01, .5, .99)]}
