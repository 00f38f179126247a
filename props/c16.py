"""C16: listing all tracts at a position is sound, complete among neighbours, unrepeated."""
from .rings import *
from .find import as_list, member, no_repeat, picks

CONTRACTS, contract = registry()

HOLDS = z3.Function("tractContains", core.INT, core.BOOL)


def listing(e, where=None):
    r = rings(e)
    refs(e, r)
    e.memo["contains"] = lambda i, coord: SymBool(HOLDS(zint(i)))
    c = sky(e)
    if where:
        region(e, r, c, where)
    e.memo["cut_small"] = True
    res = r.map.findAllTracts(c)
    e.memo["cut_small"] = False
    return r, c, res


@contract("only tracts that contain the position", covers=("element",))
def sound(e):
    r, c, res = listing(e)
    x, _ = picks(e, as_list(res), "element")
    e.prove(SymBool(HOLDS(zint(x.getId()))), "every tract returned contains the position")
    e.cover("element")


def region(e, r, c, where):
    lat = c.getLatitude().asRadians()
    first = -PI/2 + r.height/2
    e.assume({"southern cap": lat < first, "northern cap": lat > -first,
              "ring": conj(lat >= first, lat <= -first)}[where])


def _twice(where, parts, what, outer=None):
    @contract("no tract twice: %s, %s" % (where, what), covers=("pair",) if outer is None else ())
    def once(e):
        r, c, res = listing(e, where)
        if len(as_list(res).parts) != 2:
            if parts != (0, 0):
                e.cover("pair")
                return
            ps = None
        else:
            ps = parts
        e.cover("pair")
        no_repeat(e, res, lambda t: (t.getId(),), "no tract is returned twice", ps, outer)


for _w in ("southern cap", "northern cap"):
    _twice(_w, (0, 0), "rings")
for _i in range(3):
    for _j in range(_i, 3):
        _twice("ring", (0, 0), "rings %d and %d of three" % (_i, _j), (_i, _j))
for _w in ("southern cap", "ring", "northern cap"):
    _twice(_w, (0, 1), "rings and caps")
_twice("ring", (1, 1), "caps")


@contract("caps", covers=("south", "north"))
def caps(e):
    r, c, res = listing(e)
    for x, name in ((0, "south"), (r.size - 1, "north")):
        e.cover(name)
        if e.decide(truth(SymBool(HOLDS(zint(x))))):
            member(e, res, lambda t: (t.getId(),), (x,), "the %sern cap is returned if it contains the position" % name,
                   witnesses=(0, 1, 2))


def _neighbours(where, offset):
    @contract("neighbours: %s, ring %d of three" % (where, offset), covers=("home",))
    def nb(e):
        neighbours(e, where, offset)


def neighbours(e, where, offset):
    r, c, res = listing(e, where)
    # the range that holds the position (ranges as published: contract C10)
    lat = c.getLatitude().asRadians()
    home = -1 if where == "southern cap" else r.n
    if where == "ring":
        home = any_ring(e, r)
        e.assume(conj(-PI/2 + (home + 0.5)*r.height < lat, lat < -PI/2 + (home + 1.5)*r.height))
    a = home + offset - 1
    e.assume(conj(a >= 0, a < r.n))
    m = count(r, a)
    t = e.input_int("nearest", 0)
    e.assume(t < m)
    first = 1 + before(r, a)
    lo = r.start.asRadians() + (t - 0.5)*TWOPI/m
    off = turn(c.getLongitude().asRadians() - lo)
    e.assume(conj(off > 0, off*m < TWOPI))
    # in terms of the distance from the starting RA (a lemma, proved here)
    g = rt.b_int(turn(c.getLongitude() - r.start)/(TWOPI/m) + 0.5)
    lemma = disj(g == t, conj(g == m, t == 0))
    if e.check(lemma):
        e.assume(lemma)
        e.decide(truth(g == t))
    step = e.choose("step", 3)
    u = t + step - 1
    if u < 0:
        u = u + m
    elif u >= m:
        u = u - m
    x = first + u
    e.assume(SymBool(HOLDS(zint(x))))
    e.live()
    e.cover("home")
    member(e, res, lambda t: (t.getId(),), (x,), "neighbours of the tract that holds the position are returned",
           witnesses=(0, 1, 2), path=(offset, step))


_neighbours("southern cap", 2)
_neighbours("northern cap", 0)
for _i in range(3):
    _neighbours("ring", _i)
