from .maps import *

RULE = ("both orientations: the twelve faces and their vertices; directions of all lengths (face centres, edge and vertex "
        "directions, poles, random) looked up with vectors, arrays and positions")


def cases(rng, tier):
    n = 0
    while True:
        n += 1
        yield {"poles": bool(n % 2), "scale": 10.0**rng.choice([0, rng.uniform(-60, 60)]),
               "vecs": [[rng.gauss(0, 1) for _ in range(3)] for _ in range(6)]
               + [[rng.choice([-1.0, 0.0, 1.0]) for _ in range(2)] + [rng.choice([-1.0, 1.0])]],
               "mix": [[rng.randrange(12), rng.randrange(12), rng.randrange(12), rng.choice([0, 1]), rng.choice([0, 1])]
                       for _ in range(6)], "map": n % 10 == 0}


def dot(a, b):
    return sum(x*y for x, y in zip(a, b))


def outside(v, corners):
    """How far the direction is outside the polygon (positive: outside)."""
    r = math.sqrt(dot(v, v))
    v = [x/r for x in v]
    mid = [sum(c[a] for c in corners) for a in range(3)]
    worst = -1.0
    for n, c in enumerate(corners):
        d = corners[(n + 1) % len(corners)]
        s = (c[1]*d[2] - c[2]*d[1], c[2]*d[0] - c[0]*d[2], c[0]*d[1] - c[1]*d[0])
        worst = max(worst, -dot(s, v)*(1 if dot(s, mid) > 0 else -1))
    return worst


def solid(d, poles):
    fs = [[float(x) for x in d.getFaceCtr(i)] for i in range(12)]
    if len(d.getFaceCtrList()) != 12 or any(list(map(float, a)) != b for a, b in zip(d.getFaceCtrList(), fs)):
        return "the list of centres differs from the centres"
    want = [-1.0] + [-1/math.sqrt(5)]*5 + [1/math.sqrt(5)]*5 + [1.0]
    for f in fs:
        if any(abs(a - b) > 1e-9 for a, b in zip(sorted(dot(f, g) for g in fs), want)):
            return "centres are no dodecahedron"

    def lon(v):
        x = math.atan2(v[1], v[0])
        return x if x > -1e-6 else x + 2*math.pi
    for a, b in zip(fs, fs[1:]):
        if a[2] < b[2] - 1e-9 or abs(a[2] - b[2]) < 1e-9 and lon(a) >= lon(b):
            return "faces are not in order: %s, %s" % (a, b)
    allv = []
    for i, f in enumerate(fs):
        vs = [[float(x) for x in v] for v in d.getVertices(i)]
        if len(vs) != 5 or any(abs(dot(v, f) - math.sqrt((5 + 2*math.sqrt(5))/15)) > 1e-9 or abs(dot(v, v) - 1) > 1e-9 for v in vs):
            return "vertices of face %d are %s" % (i, vs)
        if any(abs(dot(a, b) - math.sqrt(5)/3) > 1e-9 for a, b in zip(vs, vs[1:] + vs[:1])):
            return "vertices of face %d are not in order" % i
        allv += vs
    if len({tuple(round(x, 6) + 0.0 for x in v) for v in allv}) != 20:
        return "not twenty vertices"
    if not any(v[2] > 1 - 1e-9 for v in (fs if poles else allv)):
        return "nothing on the pole"
    return None


def check(case):
    import numpy
    import lsst.geom as geom
    import lsst.sphgeom as sphgeom
    from lsst.skymap.detail import Dodecahedron
    d = Dodecahedron(withFacesOnPoles=case["poles"])
    bad = solid(d, case["poles"])
    if bad:
        return bad
    vecs = [list(v) for v in case["vecs"]]
    fs = [[float(x) for x in d.getFaceCtr(i)] for i in range(12)]
    for i, j, k, a, b in case["mix"]:
        v = [x + a*y + b*z for x, y, z in zip(fs[i], fs[j], fs[k])]
        if dot(v, v) > .01:
            vecs.append(v)
    m = dodeca(withTractsOnPoles=case["poles"]) if case["map"] else None
    for v in vecs:
        w = [x*case["scale"] for x in v]
        for arg in (w, tuple(w), numpy.array(w)):
            i = int(d.getFaceInd(arg))
            x = outside(v, [[float(c) for c in p] for p in d.getVertices(i)])
            if x > 1e-9:
                return "direction %s is found in face %d" % (w, i)
        if m is not None:
            c = geom.SpherePoint(sphgeom.Vector3d(*v))
            t = m.findTract(c)
            x = outside(v, [[q.getVector()[n] for n in range(3)] for q in t.getVertexList()])
            if x > 1e-9:
                return "position %s is found in tract %d" % (c, t.getId())
    return None


def from_model(contract, m):
    v = [float(m.get(k, 0)) for k in "xyz"]
    if "ra" in m:
        v = [math.cos(m["dec"])*math.cos(m["ra"]), math.cos(m["dec"])*math.sin(m["ra"]), math.sin(m["dec"])]
    import random
    rng = random.Random(23)
    g = cases(rng, "quick")
    for _ in range(20):
        c = next(g)
        c["map"] = True
        c["poles"] = "faces on poles" in contract
        if any(v):
            c["vecs"].append(v)
        yield c
