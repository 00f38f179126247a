from .maps import *

RULE = ("maps of 1 to 64 sides in both orderings: positions all over the sky (poles and pixel borders included) looked up and "
        "compared with hpgeom, centres and vertices of up to 6 tracts each, conversions both ways")


def cases(rng, tier):
    while True:
        k = rng.randint(0, 6)
        yield {"log2": k, "nest": rng.random() < .5,
               "pos": [[rng.uniform(0, 360), math.degrees(math.asin(rng.uniform(-1, 1)))] for _ in range(8)]
               + [[rng.choice([0.0, 90.0, 359.9999, 45.0]), rng.choice([-90.0, 90.0, 0.0, 41.81, -41.81])]],
               "which": [rng.random() for _ in range(3)] + [0.0, 1.0]}


def check(case):
    import hpgeom
    import lsst.geom as geom
    from lsst.skymap import healpixSkyMap as H
    m = healpix(log2NSide=case["log2"], nest=case["nest"], layout={"kind": "legacy", "w": 5000, "h": 5000, "border": 0})
    nside = 2**case["log2"]
    n = 12*nside**2
    if len(m) != n:
        return "%d tracts" % len(m)
    last = None
    for lon, lat in case["pos"]:
        c = geom.SpherePoint(lon, lat, geom.degrees)
        th, ph = H.coordToAng(c)
        if not (near(th, math.radians(lat) + math.pi/2) and near(ph, math.radians(lon))):
            return "angles of (%r, %r) are %r, %r" % (lon, lat, th, ph)
        d = H.angToCoord((th, ph))
        if sep((d[0].asRadians(), d[1].asRadians()), (c[0].asRadians(), c[1].asRadians())) > 1e-9:
            return "(%r, %r) becomes %s" % (lon, lat, d)
        want = int(hpgeom.angle_to_pixel(nside, min(th, math.pi), ph, nest=case["nest"], lonlat=False))
        got = m.findTract(c).getId()
        if got != want:
            return "(%r, %r) is found in tract %r, not %r" % (lon, lat, got, want)
    for f in case["which"]:
        i = min(n - 1, int(f*n))
        t = m[i]
        th, ph = hpgeom.pixel_to_angle(nside, i, nest=case["nest"], lonlat=False)
        c = t.getCtrCoord()
        if sep((c[0].asRadians(), c[1].asRadians()), (float(ph), float(th) - math.pi/2)) > 1e-9:
            return "centre of tract %d is %s" % (i, c)
        if m.findTract(c).getId() != i:
            return "centre of tract %d is found in tract %d" % (i, m.findTract(c).getId())
        th, ph = hpgeom.boundaries(nside, i, nest=case["nest"], lonlat=False)
        want = [(float(p), float(x) - math.pi/2) for x, p in zip(th, ph)]
        got = [(v[0].asRadians(), v[1].asRadians()) for v in t.getVertexList()]
        if len(got) != 4 or any(min(sep(a, b) for b in want) > 1e-9 for a in got) or \
                any(min(sep(a, b) for b in got) > 1e-9 for a in want):
            return "vertices of tract %d are %s" % (i, got)
    return None


def from_model(contract, m):
    import random
    rng = random.Random(27)
    g = cases(rng, "quick")
    for _ in range(40):
        yield next(g)
