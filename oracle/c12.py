import math

from .maps import *

RULE = ("arrays of 1 to 60 positions, in radians or degrees, on rings maps of both versions (1 to 40 rings, any "
        "starting RA), equatorial, discrete, dodecahedron and HEALPix maps; positions at random, at poles, near RA 0 "
        "and near boundaries of ranges (not closer than rounding)")


def cases(rng, tier):
    n = 0
    while True:
        kind = ["rings", "rings", "rings0", "rings", "rings0", "dodeca", "equat", "discrete", "healpix"][n % 9]
        n += 1
        k = rng.randint(1, 12) if n % 4 else rng.randint(1, 40)
        if n % 40 == 5:
            k, kind = 200, "rings"
        size = math.pi/(k + 1)
        start = rng.choice([0.0, 359.5, round(rng.uniform(0, 360), 3)])
        ps = []
        for _ in range(rng.choice([1, 2, 60])):
            off = rng.choice([-1, 1])*10.**rng.uniform(-8.3, -5)
            ring = rng.randint(0, k)
            # tracts of the ring above the boundary: the edges of their ranges in RA
            num = max(1, math.ceil(2*math.pi*math.cos(max(0., abs(-math.pi/2 + (ring + 1)*size) - size/2))/size))
            dec = rng.choice([rng.uniform(-math.pi/2, math.pi/2), -math.pi/2 + (ring + .5)*size + 1e-6,
                              -math.pi/2 + (ring + .5)*size + off, -math.pi/2 + (ring + 1)*size,
                              -math.pi/2 + (ring + rng.uniform(.5, 1.5))*size, math.pi/2, -math.pi/2])
            ra = rng.choice([rng.uniform(0, 2*math.pi), 0.0, 2*math.pi - 1e-6, math.radians(start) + 1e-6,
                             math.radians(start) + off, math.radians(start) - 0.5*math.pi/k,
                             math.radians(start) + (rng.randrange(num) + .5)*2*math.pi/num + off,
                             math.radians(start) + rng.randrange(num)*2*math.pi/num + off])
            ps.append([ra % (2*math.pi), max(-math.pi/2, min(math.pi/2, dec))])
        yield {"kind": kind, "numRings": k, "raStart": start, "degrees": bool(n % 2), "positions": ps}


def check(case):
    import lsst.geom as geom
    import numpy as np
    k = case["kind"]
    if k in ("rings", "rings0"):
        m = rings(case["numRings"], case["raStart"], version=0 if k == "rings0" else 1)
    elif k == "dodeca":
        m = dodeca(withTractsOnPoles=bool(case["numRings"] % 2))
    elif k == "equat":
        m = equat(numTracts=3 + case["numRings"] % 4)
    elif k == "discrete":
        m = discrete([(10., 5., 1.), (350., -60., 2.), (170., 80., 1.)])
    else:
        m = healpix(log2NSide=case["numRings"] % 3)
    ps = case["positions"]
    f = math.degrees if case["degrees"] else (lambda v: v)
    ra = np.array([f(p[0]) for p in ps])
    dec = np.array([f(p[1]) for p in ps])
    before = ra.copy(), dec.copy()
    got = m.findTractIdArray(ra, dec, degrees=case["degrees"])
    if not (np.array_equal(ra, before[0]) and np.array_equal(dec, before[1])):
        return "the arrays given were changed"
    if np.shape(got) != (len(ps),):
        return "shape of the result is %s for %d positions" % (np.shape(got), len(ps))
    unit = geom.degrees if case["degrees"] else geom.radians
    for i in range(len(ps)):
        def num(dr, dd):
            return m.findTract(geom.SpherePoint(ra[i] + dr, dec[i] + dd if abs(dec[i] + dd) < f(math.pi/2) else dec[i],
                                                unit)).getId()
        want = m.findTract(geom.SpherePoint(ra[i], dec[i], unit)).getId()
        if got[i] != want:
            h = f(1e-9)
            if got[i] in {num(a, b) for a in (-h, 0, h) for b in (-h, 0, h)}:
                continue    # on a boundary, to rounding
            return "position %s: %s by array, %s alone" % ((ra[i], dec[i]), got[i], want)
    return None


def from_model(contract, m):
    import random
    r = random.Random(1)
    v = 0 if "version 0" in contract else 1
    kind = ("rings" if v else "rings0") if contract.startswith("rings") else \
        {"disc": "discrete", "equa": "equat", "dode": "dodeca"}.get(contract[:4], "healpix")
    n = m.get("numRings", 3)
    d = "degrees" in contract
    ps = []
    if all(isinstance(m.get(x), (int, float)) for x in ("ra", "dec")):
        f = math.radians if d else (lambda v: v)
        ps = [[f(m["ra"]) % (2*math.pi), max(-math.pi/2, min(math.pi/2, f(m["dec"])))]]*2
    s = float(m.get("raStart", 0))
    for c in cases(r, "quick"):
        c.update(kind=kind, numRings=n if isinstance(n, int) and 1 <= n <= 60 else 3, degrees=d,
                 raStart=s if 0 <= s < 360 else 0.0)
        c["positions"] = ps + c["positions"]
        yield c
        return
