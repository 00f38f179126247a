"""C13: rings are divided finely enough for tracts to overlap."""
from .rings import *

CONTRACTS, contract = registry()


@contract("width of ranges", covers=("ring",))
def width(e):
    # one ring only: see known_findings.json
    r = rings(e, least=2)
    a = any_ring(e, r)
    reveal(e, r, a)
    m = count(r, a)
    dec = e.input_real("dec")
    h = r.height
    lo, hi = -PI/2 + (a + 0.5)*h, -PI/2 + (a + 1.5)*h
    e.assume(conj(lo <= dec, dec <= hi))
    # the declination nearest the equator among the ring's edges
    d = ite(abs(lo) <= abs(hi), abs(lo), abs(hi))
    e.prove(m*h >= TWOPI*core.sym_cos(d), "a ring is divided for the edge nearest the equator")
    if conj(lo < 0, hi > 0):
        # the ring on the equator: its edge is not where it is widest
        e.prove(2*a + 1 == r.n, "only the middle ring lies on the equator")
        e.prove(2*d == h, "its edges are half a ring from the equator")
        e.prove(8*core.sym_cos(d) >= 8 - h*h, "the edge is hardly narrower than the equator")
        e.prove(3*h <= PI, "there are two rings at least")
        e.prove((m - 2*r.n - 1)*h > 0, "rounding up makes good the difference")
        e.prove(m >= 2*r.n + 2, "the ring on the equator is divided for the equator")
        e.prove(m*h >= TWOPI, "no range is wider than a ring is high on the equator")
    else:
        e.prove(abs(dec) >= d, "the rest of the ring is further from the equator")
    e.prove(TWOPI*core.sym_cos(dec) <= m*r.height, "no range is wider than a ring is high")
    e.cover("ring")


@contract("one ring", covers=("ring",))
def one_ring(e):
    """The only map whose division is listed as a finding: its ranges are as narrow as the
    declination of the ring's edge requires."""
    r = rings(e)
    e.assume(r.n == 1)
    reveal(e, r, 0)
    m = count(r, 0)
    dec = e.input_real("dec")
    e.assume(conj(-PI/2 + 0.5*r.height <= dec, dec <= -PI/2 + 1.5*r.height, abs(dec) >= 0.5*r.height))
    e.prove(TWOPI*core.sym_cos(dec) <= m*r.height, "no range is wider than a ring is high at the edges of the ring")
    e.cover("ring")


@contract("at least three", covers=("ring",))
def three(e):
    r = rings(e)
    a = any_ring(e, r)
    reveal(e, r, a)
    e.prove(count(r, a) >= 3, "every ring has at least three tracts")
    e.cover("ring")


@contract("extent of tracts", covers=("tract",))
def extent(e):
    r = rings(e)
    recorded("ringsSkyMap")
    k = e.input_int("tract", 0)
    e.assume(k < r.size)
    t = r.map.generateTract(k)
    e.prove(t.getId() == k, "the tract has the number asked for")
    e.prove(2*t.made["radius"].asRadians() == r.height, "tracts reach half a ring's height from their centre")
    e.prove(t.getTractOverlap().asDegrees() == r.config.tractOverlap, "and overlap by the configured amount")
    e.cover("tract")
