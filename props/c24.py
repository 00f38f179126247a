"""C24: equatorial tracts evenly tile the configured declination band."""
from .rings import *
from . import find

CONTRACTS, contract = registry()
TOL = 1e-9


def close(x, y):
    return conj(x - y <= TOL, y - x <= TOL)


def around(x, y):
    """The same longitude, by whole turns."""
    if not issym(x) and not issym(y):
        return abs(math.remainder(x - y, TWOPI)) <= TOL
    return disj(close(x, y), close(x + TWOPI, y), close(x, y + TWOPI))


@contract("number of tracts", covers=("made",))
def number(e):
    recorded("equatSkyMap")
    r = equat(e)
    e.prove(rt.b_len(r.map) == r.config.numTracts, "as many tracts as configured")
    e.cover("made")


def any_of(e):
    recorded("equatSkyMap")
    r = equat(e)
    k = e.input_int("tract", 0)
    e.assume(k < r.n)
    t = rt.getitem(r.map, k)
    e.prove(t.getId() == k, "the tract asked for")
    # width of an interval, in turns, and where it begins
    u = e.fresh_real("share")
    e.assume(conj(u*r.n == 1, u > 0, u <= 1))
    w = e.fresh_real("start")
    e.assume(conj(w == u*k, w >= 0, w + u <= 1))
    return r, k, t, u, w


@contract("corners", covers=("tract",))
def corners(e):
    r, k, t, u, w = any_of(e)
    got = list(find.as_list(t.getVertexList()).parts)
    e.prove(len(got) == 4, "a tract has four corners")
    for which, dec in (("southern", r.lo), ("northern", r.hi)):
        for edge, turns in (("western", w), ("eastern", w + u)):
            some = disj(*[conj(around(v.getLongitude().asRadians(), turns*TWOPI),
                               close(v.getLatitude().asRadians(), dec*(PI/180))) for v in got])
            e.prove(some, "the %s edge at the %s limit is a corner" % (edge, which))
    for v in got:
        ra, dec = v.getLongitude().asRadians(), v.getLatitude().asRadians()
        e.prove(conj(disj(around(ra, w*TWOPI), around(ra, (w + u)*TWOPI)),
                     disj(close(dec, r.lo*(PI/180)), close(dec, r.hi*(PI/180)))), "every corner is one of these")
    e.cover("tract")


@contract("centre", covers=("tract",))
def centre(e):
    r, k, t, u, w = any_of(e)
    c = t.getCtrCoord()
    e.prove(around(c.getLongitude().asRadians(), (w + u/2)*TWOPI), "the centre is halfway along the interval")
    e.prove(close(c.getLatitude().asRadians(), (r.lo + r.hi)/2*(PI/180)), "and in the middle of the range")
    e.cover("tract")


@contract("lookup", covers=("found",))
def lookup(e):
    from lsst.skymap.equatSkyMap import EquatSkyMap
    n = e.input_int("tracts", 1)
    mid = e.input_real("middle")
    e.assume(conj(mid > -PI/2, mid < PI/2))
    u = e.fresh_real("width")
    e.assume(conj(u*n == TWOPI, u > 0))
    e.uses("a tract's centre is the middle of its interval and of the range (contracts corners and centre)")
    e.uses("a map is a sequence of tracts numbered by position (contract C22)")
    CEN = z3.Function("centre", core.INT, deps.Coord)

    class Tract(TractRef):
        def getCtrCoord(self):
            return deps.coord(e, CEN(zint(self.i)))

        ctr_coord = property(getCtrCoord)

    class Map(EquatSkyMap):
        def __init__(self):
            pass

        def __len__(self):
            return n

        def __getitem__(self, i):
            e.prove(conj(i >= 0, i < n), "only tracts of the map are looked up")
            return Tract(i)

        def __iter__(self):
            return loops.SymSeq(n, Tract)
    ra, dec = e.input_real("ra"), e.input_real("dec")
    e.assume(conj(ra >= 0, ra < TWOPI, dec > -PI/2, dec < PI/2))
    c = deps.fresh_coord(e)
    e.assume(conj(c._lon == ra, c._lat == dec))
    k = Map().findTract(c).getId()
    e.prove(conj(k >= 0, k < n), "a tract of the map")
    # the interval that holds the position
    j = e.input_int("interval", 0)
    e.assume(conj(j < n, j*u <= ra, ra <= (j + 1)*u))
    for f in list(e.foralls):
        f.instantiate(j)
    e.uses("spherical law of cosines for SpherePoint.separation; the cosine is even, has period 2 pi and decreases on "
           "[0, pi]; the cosine of a declination within 90 degrees is positive")
    A, B = e.fresh_real("sines"), e.fresh_real("cosines")
    e.assume(B > 0)

    def facts(i):
        t = Tract(i).getCtrCoord()
        e.assume(conj(t._lon == (i + 0.5)*u, t._lat == mid))
        d = e.fresh_real("turn")        # longitude difference, the short way round
        x = ra - (i + 0.5)*u
        e.assume(conj(d >= 0, d <= PI, disj(d == x, d == -x, d == x - TWOPI, d == TWOPI - x, d == x + TWOPI,
                                            d == -x - TWOPI)))
        s = c.separation(t).asRadians()
        cd, cs = e.fresh_real("cos_turn"), e.fresh_real("cos_sep")
        e.assume(cs == A + B*cd)
        return s, cs, d, cd
    sk, csk, dk, cdk = facts(k)
    sj, csj, dj, cdj = facts(j)
    e.prove(sk <= sj, "no nearer centre than the one found")
    # cosine, strictly decreasing on [0, pi], at these angles
    e.assume(conj(implies(sk <= sj, csk >= csj), implies(dj < dk, cdk < cdj)))
    e.prove(B*(cdk - cdj) >= 0, "so no interval's middle is nearer in RA")
    e.prove(cdk >= cdj, "nor is its cosine larger")
    e.prove(dk <= dj, "nor its difference smaller")
    e.prove(2*dj <= u, "a position of an interval is at most half its width from its middle")
    lo, hi = k*u, (k + 1)*u
    e.prove((k + 1)*u <= TWOPI, "intervals end within the circle")
    e.prove(disj(conj(ra >= lo, ra <= hi), conj(ra + TWOPI >= lo, ra + TWOPI <= hi), conj(ra - TWOPI >= lo, ra - TWOPI <= hi)),
            "the interval of the tract found holds the position")
    e.cover("found")
