from .maps import *

RULE = ("vectors of lengths 1e-100 to 1e100 in all directions, on the axes, at the poles and very near them, as lists, tuples and "
        "arrays, with defaults from -720 to 720 degrees and without")

TINY = 2.0**-1022


def cases(rng, tier):
    n = 0
    while True:
        n += 1
        k = n % 4
        s = 10.0**rng.choice([0, 0, rng.uniform(-100, 100)])
        if k == 0:
            v = [0.0*rng.choice([1, -1]), 0.0, rng.choice([1, -1])*s]
        elif k == 1:
            v = [rng.choice([0.0, rng.gauss(0, 1)*10.0**rng.uniform(-200, -1)]), rng.gauss(0, 1)*10.0**rng.uniform(-200, -1),
                 rng.choice([1, -1])*s]
        elif k == 2:
            v = [rng.choice([0.0, 1.0, -1.0])*s for _ in range(3)]
        else:
            v = [rng.gauss(0, 1)*s for _ in range(3)]
        if rng.random() < .1:
            v[:2] = [rng.choice([0.0, TINY/2, -TINY/2, TINY, -TINY]) for _ in range(2)]
        if math.sqrt(sum(x*x for x in v)) < 1e-110:
            continue        # (the squared length has to be a number)
        yield {"v": v, "ra": rng.choice([None, 0.0, rng.uniform(-720, 720), 360.0, -90.0]), "form": rng.choice(["list", "tuple", "array"])}


def check(case):
    import numpy
    import lsst.geom as geom
    from lsst.skymap.detail import coordFromVec
    v = case["v"]
    arg = {"list": list, "tuple": tuple, "array": numpy.array}[case["form"]](v)
    pole = abs(v[0]) < TINY and abs(v[1]) < TINY
    kw = {} if case["ra"] is None else {"defRA": geom.Angle(case["ra"], geom.degrees)}
    try:
        c = coordFromVec(arg, **kw)
    except RuntimeError:
        if pole and not kw:
            return None
        return "fails for %s with default %r" % (v, case["ra"])
    if pole and not kw:
        return "no failure for %s without a default" % v
    lon, lat = c[0].asRadians(), c[1].asRadians()
    if pole:
        if not near(lat, math.copysign(math.pi/2, v[2]), 1e-15) or abs(turndiff(lon, math.radians(case["ra"]))) > 1e-9:
            return "%s with default %r is %s" % (v, case["ra"], c)
        return None
    m = max(abs(x) for x in v)
    v = [x/m for x in v]
    # (a position very near a pole has no RA worth comparing once it is at the pole to rounding)
    if sep((lon, lat), (math.atan2(v[1], v[0]), math.atan2(v[2], math.hypot(v[0], v[1])))) > 1e-9:
        return "%s is %s" % (case["v"], c)
    if not kw:
        return None
    d = coordFromVec(arg)
    if (d[0].asRadians(), d[1].asRadians()) != (lon, lat):
        return "%s depends on the default" % case["v"]
    return None


def from_model(contract, m):
    v = [float(m.get(k, 0)) for k in ("x", "y", "z")]
    if any(v):
        for ra in (None, math.degrees(float(m.get("defRA", 1)))):
            for form in ("list", "array"):
                yield {"v": v, "ra": ra, "form": form}
