"""C26: vectors and sky coordinates."""
from .rings import *

CONTRACTS, contract = registry()
TINY = 2.0**-1022


def vector(e):
    """Any non-zero vector, as a list or an array of components."""
    v = [e.input_real(k) for k in ("x", "y", "z")]
    e.assume(disj(*[neg(c == 0) for c in v]))
    form = e.choose("form", 2)
    if form:
        import numpy as np
        from pyvc import arr
        return v, arr.array(v) if hasattr(arr, "array") else lst(*v)
    return v, lst(*v)


def default(e):
    """Any default RA, or none."""
    return None if e.choose("default", 2) else G.Angle(e.input_real("defRA"))


@contract("away from the poles", covers=("converted",))
def away(e):
    from lsst.skymap.detail import coordFromVec
    v, arg = vector(e)
    e.assume(disj(abs(v[0]) >= TINY, abs(v[1]) >= TINY))
    d = default(e)
    got, exc = raises(e, lambda: coordFromVec(arg, defRA=d) if d is not None else coordFromVec(arg), Exception)
    e.prove(exc is None, "no default is needed")
    t = deps.cterm(got)
    u = [SymReal(f(t)) for f in deps.VEC]
    for a, b in ((0, 1), (1, 2), (2, 0)):
        e.prove(v[a]*u[b] == v[b]*u[a], "the position is along the vector")
    e.prove(v[0]*u[0] + v[1]*u[1] + v[2]*u[2] > 0, "not opposite to it",
            by=[v[a]*u[a] >= 0 for a in range(3)] + [disj(*[v[a]*u[a] > 0 for a in range(3)])])
    e.cover("converted")


@contract("at a pole", covers=("pole", "failed"))
def pole(e):
    from lsst.skymap.detail import coordFromVec
    v, arg = vector(e)
    e.assume(conj(abs(v[0]) < TINY, abs(v[1]) < TINY, neg(v[2] == 0)))
    d = default(e)
    got, exc = raises(e, lambda: coordFromVec(arg, defRA=d) if d is not None else coordFromVec(arg), RuntimeError)
    if d is None:
        e.prove(exc is not None, "fails without a default")
        e.cover("failed")
        return
    e.prove(exc is None, "succeeds with a default")
    lat = got.getLatitude().asRadians()
    e.prove(implies(v[2] > 0, lat == math.pi/2), "declination +90 for positive z")
    e.prove(implies(v[2] < 0, lat == -math.pi/2), "declination -90 for negative z")
    lon, want = got.getLongitude().asRadians(), d.asRadians()
    k = core.py_floor(want/TWOPI)
    e.prove(lon == want - k*TWOPI, "RA is the default")
    e.cover("pole")
