"""C11: rings lookup returns the tract whose inner range holds the position."""
from .rings import *

CONTRACTS, contract = registry()


@contract("lookup", covers=("south cap", "north cap", "ring"))
def lookup(e):
    r = rings(e)
    refs(e, r)
    c = sky(e)
    k = r.map.findTract(c).getId()
    ra0, ra1, d0, d1 = r.map.getRaDecRange(k)
    lon, lat = c.getLongitude(), c.getLatitude()
    e.prove(conj(d0 <= lat, lat <= d1), "the declination range of the tract found holds the position")
    if k == 0:
        e.cover("south cap")
        return
    if k == r.size - 1:
        e.cover("north cap")
        return
    ring, t = r.map.getRingIndices(k)
    n = count(r, ring)
    e.prove(n >= 2, "a ring has several tracts")
    # the same in steps: from raStart, from the edge of the range, by whole turns
    y, ky, dy = turned(e, "from_start", lon - r.start)
    e.prove(disj(conj((2*t - 1)*PI <= y*n, y*n <= (2*t + 1)*PI), conj(t == 0, y*n >= (2*n - 1)*PI)),
            "the tract found is the one for the distance from the starting right ascension")
    q, w = e.fresh_real("edge"), e.fresh_real("width")
    dq, dw = q*n == (2*t - 1)*PI, w*n == TWOPI
    e.assume(dq)
    e.assume(dw)
    q2 = (t - 0.5)*TWOPI/n
    e.prove(q2 == q, "the western edge is that far from the starting right ascension", by=[dq, n >= 2])
    g, kg, dg = turned(e, "edge", r.start + q2)
    same = ra0.asRadians() == g
    e.prove(same, "the range of the tract found begins at its edge")
    b, kb, db = turned(e, "begins", ra0 - r.start - q)
    m = e.fresh_int("turns")
    e.assume(m == -kg - kb)
    e.prove(b == m*TWOPI, "whole turns away", by=[db, dg, same, q2 == q, m == -kg - kb])
    e.prove(b == 0, "its range begins there", by=[b == m*TWOPI, conj(b >= 0, b < TWOPI)])
    less = conj(w > 0, 2*w <= TWOPI)
    e.prove(less, "a range is less than the circle")
    holds = disj(conj(y - q >= 0, y - q <= w), conj(y - q - TWOPI >= 0, y - q - TWOPI <= w))
    e.prove(holds, "so the range holds it")
    z, kz, dz = turned(e, "into", lon - ra0)
    m = e.fresh_int("turns")
    e.assume(m == ky - kb - kz)
    whole = z == y - q + m*TWOPI
    e.prove(whole, "by whole turns", by=[dy, dz, db, b == 0, m == ky - kb - kz])
    e.prove(z <= w, "less than the width", by=[whole, conj(z >= 0, z < TWOPI), less, holds])
    e.prove(z*n <= TWOPI, "the right ascension range of the tract found holds the position", by=[z <= w, dw, n >= 2])
    e.cover("ring")


def turned(e, name, angle):
    """The angle reduced to [0, 2 pi), and what that means."""
    x = angle.asRadians() if isinstance(angle, G.Angle) else angle
    z, k = e.fresh_real(name), e.fresh_int(name + "_turns")
    e.assume(conj(z == turn(x), k == core.SymInt(z3.ToInt(toreal(lift(x))*core.rv(1/Fraction(TWOPI))))))
    f = conj(z == x - k*TWOPI, z >= 0, z < TWOPI)
    e.prove(f, "reduced by whole turns")
    return z, k, f
