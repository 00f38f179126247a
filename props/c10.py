"""C10: rings numbering is one to one, in order, and the ranges tile the sky."""
from .rings import *

CONTRACTS, contract = registry()


@contract("positions of tract numbers", covers=("south cap", "north cap", "ring", "outside"))
def positions(e):
    r = rings(e)
    n = r.size
    e.prove(n == before(r, r.n) + 2, "as many tracts as the rings hold and two caps")
    k = e.input_int("tract")
    got, exc = raises(e, lambda: r.map.getRingIndices(k), IndexError)
    if exc is not None:
        e.prove(disj(k < 0, k >= n), "IndexError only for numbers outside the map")
        e.cover("outside")
        return
    ring, t = got
    e.prove(conj(k >= 0, k < n), "numbers outside the map raise IndexError")
    if k == 0:
        e.prove(conj(ring == -1, t == 0), "tract 0 is the southern cap")
        e.cover("south cap")
        return
    if k == n - 1:
        e.prove(conj(ring == r.n, t == 0), "the last tract is the northern cap")
        e.cover("north cap")
        return
    e.prove(conj(ring >= 0, ring < r.n, t >= 0, t < count(r, ring)), "other numbers are positions in rings")
    e.prove(k == 1 + before(r, ring) + t, "numbers run through the rings from south to north and eastwards")
    e.cover("ring")


@contract("numbers of positions", covers=("position",))
def numbers_(e):
    r = rings(e)
    a = any_ring(e, r)
    t = e.input_int("position", 0)
    e.assume(t < count(r, a))
    k = 1 + before(r, a) + t
    e.prove(conj(k >= 1, k < r.size - 1), "every position of a ring has a number")
    ring, u = r.map.getRingIndices(k)
    e.prove(conj(ring == a, u == t), "and the number stands for that position only")
    e.cover("position")


@contract("declination ranges abut", covers=("caps", "ring"))
def decs(e):
    r = rings(e)
    _, _, lo, hi = r.map.getRaDecRange(0)
    e.prove(conj(lo.asRadians() == -PI/2, hi.asRadians() == -PI/2 + 0.5*r.height), "the southern cap starts at the pole")
    a0, a1, lo, hi = r.map.getRaDecRange(r.size - 1)
    e.prove(conj(lo.asRadians() == -PI/2 + (r.n + 0.5)*r.height, hi.asRadians() == PI/2), "the northern cap ends at the pole")
    e.prove(conj(r.height*(r.n + 1) == PI), "caps and rings together span half a circle")
    e.cover("caps")
    for k in (0, r.size - 1):
        a0, a1, _, _ = r.map.getRaDecRange(k)
        e.prove(conj(a0.asRadians() == 0, a1.asRadians() == TWOPI), "the caps span the full circle")
    a = any_ring(e, r)
    t = e.input_int("position", 0)
    e.assume(t < count(r, a))
    placed(e, r, 1 + before(r, a) + t, a, t)
    _, _, lo, hi = r.map.getRaDecRange(1 + before(r, a) + t)
    e.prove(conj(lo.asRadians() == -PI/2 + (a + 0.5)*r.height, hi.asRadians() == -PI/2 + (a + 1.5)*r.height),
            "each ring starts where the one south of it ends")
    e.cover("ring")


@contract("right ascension ranges abut", covers=("ring",))
def ras(e):
    r = rings(e)
    a = any_ring(e, r)
    t = e.input_int("position", 0)
    m = count(r, a)
    e.assume(t < m)
    first = 1 + before(r, a)
    placed(e, r, first + t, a, t)
    lo, hi, _, _ = r.map.getRaDecRange(first + t)
    e.prove(conj(lo.asRadians() >= 0, lo.asRadians() < TWOPI, hi.asRadians() >= 0, hi.asRadians() < TWOPI),
            "right ascensions are reduced to one turn")
    nxt = ite(t == m - 1, 0, t + 1)
    placed(e, r, first + nxt, a, nxt)
    lo2, _, _, _ = r.map.getRaDecRange(first + nxt)
    e.prove(hi.asRadians() == lo2.asRadians(), "each range starts where the one before it ends, around the circle")
    e.prove(turn(hi - lo)*m == TWOPI, "each range is an equal part of the circle")
    e.cover("ring")


@contract("tract centres", covers=("ring", "cap"))
def centres(e):
    r = rings(e)
    k = e.input_int("tract", 0)
    e.assume(k < r.size)
    which = e.choose("position", 3)
    if which < 2:
        e.assume(k == (0 if which == 0 else r.size - 1))
        ring, t = (-1, 0) if which == 0 else (r.n, 0)
    else:
        ring, t = any_ring(e, r), e.input_int("position", 0)
        e.assume(t < count(r, ring))
        e.assume(k == 1 + before(r, ring) + t)
    placed(e, r, k, ring, t)
    with total(e):
        c = r.map.generateTract(k).getCtrCoord()
    lo, hi, d0, d1 = r.map.getRaDecRange(k)
    lat = c.getLatitude().asRadians()
    if ring == -1:
        e.prove(lat == -PI/2, "the southern cap is centred on the pole")
        e.cover("cap")
    elif ring == r.n:
        e.prove(lat == PI/2, "the northern cap is centred on the pole")
    else:
        e.prove(2*lat == d0.asRadians() + d1.asRadians(), "the centre is halfway in declination")
        ra = c.getLongitude()
        m = 2*count(r, ring)
        e.prove(turn(ra - lo)*m == TWOPI, "the range starts half an equal part before the centre")
        e.prove(turn(hi - ra)*m == TWOPI, "the range ends half an equal part after the centre")
        if t == 0:
            e.prove(ra.asRadians() == turn(r.start), "the first tract of each ring is centred on the starting RA")
        e.cover("ring")
