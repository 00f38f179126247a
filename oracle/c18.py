import copy
import pickle

from .c17 import base, make
from .maps import *

RULE = ("maps of all kinds, both layouts and (rings) both numberings with random configurations and histories of queries: pickled "
        "with every protocol and copied; kind, configuration, version, length, every tract's centre, box, patches and search "
        "results compared; state of other versions")


def cases(rng, tier):
    while True:
        b = base(rng)
        b["version"] = rng.choice([0, 1])
        b["history"] = [rng.random() for _ in range(rng.choice([0, 0, 1, 3]))]
        b["which"] = [rng.random() for _ in range(3)] + [0.0, 1.0]
        b["how"] = rng.choice(["copy", "deepcopy", 0, 1, 2, 3, 4, 5])
        b["sky"] = [[rng.uniform(0, 360), rng.uniform(-90, 90)] for _ in range(3)]
        b["minor"] = rng.choice([0, 0, 1, 7])
        yield b


def build(c):
    m = make(c)
    if c["kind"] in ("rings", "discrete", "healpix"):
        m = type(m)(m.config, version=c["version"])
    return m


def tracts(m, case):
    n = len(m)
    out = []
    for f in case["which"]:
        if n:
            out.append(describe(m[min(n - 1, int(f*n))]))
    import lsst.geom as geom
    for ra, dec in case["sky"]:
        if n and case["kind"] not in ("discrete",):
            out.append(m.findTract(geom.SpherePoint(ra, dec, geom.degrees)).getId())
    return out


def describe(t):
    b = t.getBBox()
    nx, ny = t.getNumPatches()
    c = t.getCtrCoord()
    ps = []
    for k in {0, nx*ny - 1, nx*ny//2}:
        p = t[k]
        ps.append([tuple(p.getIndex()), p.getSequentialIndex(), str(p.getInnerBBox()), str(p.getOuterBBox())])
    return [type(t).__name__, t.getId(), c.getLongitude().asRadians(), c.getLatitude().asRadians(), str(b), (nx, ny),
            t.getTractOverlap().asRadians(), sorted(ps, key=str), str(t.getWcs().getPixelOrigin()), t.getWcs()._proj,
            [(v.getLongitude().asRadians(), v.getLatitude().asRadians()) for v in t.getVertexList()]]


def check(case):
    a = build(case)
    n = len(a)
    for f in case["history"]:
        if n:
            a[min(n - 1, int(f*n))]
        if f < .5:
            a.getSha1()
    how = case["how"]
    if how in ("copy", "deepcopy"):
        b = getattr(copy, how)(a)
    else:
        b = pickle.loads(pickle.dumps(a, how))
    if type(b) is not type(a):
        return "rebuilt as a %s" % type(b).__name__
    if not (a == b and b == a) or a != b or hash(a) != hash(b):
        return "the rebuilt map is not equal"
    if len(b) != n:
        return "rebuilt with %d tracts, not %d" % (len(b), n)
    if b.config.toDict() != a.config.toDict():
        return "rebuilt with another configuration"
    if getattr(a, "_version") != getattr(b, "_version"):
        return "rebuilt with version %r, not %r" % (b._version, a._version)
    x, y = tracts(a, case), tracts(b, case)
    for p, q in zip(x, y):
        if p != q:
            return "tracts differ: %s / %s" % (p, q)
    if case["kind"] in ("dodeca", "equat"):
        st = a.__getstate__()
        for v, ok in (((2, case["minor"]), False), ((3, 0), False), ((1, case["minor"]), True)):
            m = type(a).__new__(type(a))
            try:
                m.__setstate__(dict(st, version=v))
            except RuntimeError:
                if ok:
                    return "state of version %s is refused" % (v,)
                continue
            if not ok:
                return "state of version %s is accepted" % (v,)
            if m != a:
                return "state of version %s gives another map" % (v,)
    return None


def from_model(contract, m):
    import random
    rng = random.Random(7)
    g = cases(rng, "quick")
    k = 0
    for c in g:
        name = {"equat": "equatorial", "dodeca": "dodecahedron"}.get(c["kind"], c["kind"])
        if contract.startswith(name):
            c["how"] = 2
            yield c
            k += 1
            if k == 8:
                return
