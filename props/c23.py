"""C23: dodecahedron faces partition the sky and lookup picks the right face."""
import itertools

from .rings import *
from . import find

CONTRACTS, contract = registry()
TOL = Fraction(1, 10**9)


def dot(a, b):
    return sum(x*y for x, y in zip(a, b))


def cross(a, b):
    return (a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0])


def vec(v):
    """The exact value of a concrete vector."""
    out = tuple(Fraction(float(v[i])) for i in range(3))
    if len(v) != 3:
        raise core.Unsupported("vector of %d components" % len(v))
    return out


def solid(poles):
    from lsst.skymap.detail import Dodecahedron
    return Dodecahedron(withFacesOnPoles=poles)


def rational(x):
    return SymReal(z3.RealVal(str(x)))


def inside(e, v, corners, name):
    """The direction is in the polygon of the corners, to rounding: on the inner side of the
    plane through each edge."""
    mid = [sum(c[a] for c in corners) for a in range(3)]
    size = sum(abs(x) for x in v)
    for n, c in enumerate(corners):
        side = cross(c, corners[(n + 1) % len(corners)])
        if dot(side, mid) < 0:
            side = [-x for x in side]
        e.prove(sum(rational(s)*x for s, x in zip(side, v)) >= -rational(TOL)*size, name)


def near(a, b):
    return abs(a - b) <= TOL


def faces_of(e, d):
    fs = [vec(d.getFaceCtr(i)) for i in range(12)]
    for f, g in zip(fs, d.getFaceCtrList()):
        e.prove(f == vec(g), "the list of centres has the centres by number")
    e.prove(len(d.getFaceCtrList()) == 12, "twelve faces")
    return fs


def _orientation(name, poles):
    @contract("faces (%s)" % name, covers=("faces",))
    def faces(e):
        d = solid(poles)
        e.prove(d.getWithFacesOnPoles() == poles, "the orientation is the one asked for")
        fs = faces_of(e, d)
        for f in fs:
            e.prove(near(dot(f, f), 1), "centres are unit vectors")
            g = sorted(dot(f, x) for x in fs)
            # cosine of neighbouring centres: 1/sqrt(5)
            want = [-1.0] + [-1/math.sqrt(5)]*5 + [1/math.sqrt(5)]*5 + [1.0]
            e.prove(all(near(a, Fraction(b)) for a, b in zip(g, want)), "centres are arranged as a regular dodecahedron")
        for a, b in zip(fs, fs[1:]):
            e.prove(a[2] > b[2] - TOL, "faces are numbered from north to south")
            if near(a[2], b[2]):
                e.prove(lon(a) < lon(b), "and by increasing longitude")
        if poles:
            e.prove(near(fs[0][2], 1) and near(fs[11][2], -1), "a face on each pole")
        else:
            vs = [vec(v) for i in range(12) for v in d.getVertices(i)]
            e.prove(any(near(v[2], 1) for v in vs) and any(near(v[2], -1) for v in vs), "a vertex on each pole")
        e.cover("faces")

    @contract("vertices (%s)" % name, covers=("vertices",))
    def vertices(e):
        d = solid(poles)
        fs = faces_of(e, d)
        every = []
        for i, f in enumerate(fs):
            vs = [vec(v) for v in d.getVertices(i)]
            e.prove(len(vs) == 5, "five vertices")
            # circumradius of a face, neighbouring vertices
            for v in vs:
                e.prove(near(dot(v, v), 1), "vertices are unit vectors")
                e.prove(near(dot(v, f), Fraction(math.sqrt((5 + 2*math.sqrt(5))/15))), "at the distance of a face's vertices")
                e.prove(sum(near(dot(v, g), dot(v, f)) for g in fs) == 3, "each shared by three faces")
            for a, b in zip(vs, vs[1:] + vs[:1]):
                e.prove(near(dot(a, b), Fraction(math.sqrt(5)/3)), "in order around the face")
            e.prove(len({tuple(round(float(x), 6) + 0.0 for x in v) for v in vs}) == 5, "all different")
            every += vs
        e.prove(len({tuple(round(float(x), 6) + 0.0 for x in v) for v in every}) == 20, "twenty vertices in all")
        for i in range(12):
            a, b = d.getFaceCtr(i), d.getVertices(i)
            e.prove(vec(a) == fs[i] and [vec(v) for v in b] == every[5*i:5*i + 5], "asking again gives the same")
        e.cover("vertices")

    @contract("lookup of any vector (%s)" % name, covers=("looked up",))
    def lookup(e):
        d = solid(poles)
        v = [e.input_real(k) for k in "xyz"]
        e.assume(disj(*[neg(c == 0) for c in v]))
        how = e.choose("form", 2)
        if how:
            from lsst.skymap.detail import dodecahedron as D
            arg = D.numpy.array(v)
        else:
            arg = lst(*v)
        i = d.getFaceInd(arg)
        e.prove(conj(i >= 0, i < 12), "a face")
        i = concrete(e, i, 12)
        e.cover("looked up")
        inside(e, v, [vec(c) for c in d.getVertices(i)], "the face's polygon contains the direction")

    @contract("lookup of any position (%s)" % name, covers=("found",))
    def position(e):
        recorded("dodecaSkyMap", "TractInfo")
        r = dodeca(e, poles)
        r.size = 12
        made = [rt.getitem(r.map, i) for i in range(12)]
        refs(e, r)
        c = sky(e)
        got = r.map.findTract(c)
        i = concrete(e, got.getId(), 12)
        e.cover("found")
        v = [c.getVector()[k] for k in range(3)]
        vs = [vec(p.getVector()) for p in find.as_list(made[i].getVertexList()).parts]
        d = solid(poles)
        e.prove(close(vec(made[i].getCtrCoord().getVector()), vec(d.getFaceCtr(i))), "the tract's centre is that of the face")
        ws = [vec(w) for w in d.getVertices(i)]
        e.prove(len(vs) == 5 and all(any(close(a, b) for b in ws) for a in vs) and all(any(close(a, b) for b in vs) for a in ws),
                "the tract's vertices are those of the face")
        inside(e, v, ws, "the tract's polygon contains the position")


def close(a, b):
    return all(near(x, y) for x, y in zip(a, b))


def lon(v):
    x = math.atan2(v[1], v[0])
    return x if x > -1e-6 else x + 2*math.pi


def concrete(e, i, n):
    if not issym(i):
        return int(i)
    for k in range(n - 1):
        if e.decide(truth(i == k)):
            return k
    return n - 1


from pyvc.core import issym  # noqa: E402

_orientation("faces on poles", True)
_orientation("vertices on poles", False)
