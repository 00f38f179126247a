import copy

from .maps import *

RULE = ("maps of all kinds and both layouts with random configurations; the same map built again (with queries in between), "
        "and every map with one configuration value changed: comparison, hash and digest; comparison with other objects")


def base(rng):
    lay = rng.choice(["legacy", "cells"])
    if lay == "legacy":
        l = {"kind": "legacy", "w": rng.randint(20, 60), "h": rng.randint(20, 60), "border": rng.randint(0, 9)}
    else:
        l = {"kind": "cells", "cell": rng.randint(5, 20), "cborder": rng.randint(0, 5), "n": rng.randint(1, 4),
             "m": rng.randint(0, 2)}
    kind = rng.choice(["rings", "discrete", "equat", "dodeca", "healpix"])
    c = {"layout": l, "pixelScale": rng.choice([2000.0, rng.uniform(900, 3000)]), "tractOverlap": rng.choice([0.0, 1.0, rng.uniform(0, 2)]),
         "rotation": rng.choice([0.0, rng.uniform(-90, 90)]), "projection": rng.choice(["TAN", "STG"]) if kind != "equat" else rng.choice(["CEA", "CAR"])}
    own = {}
    if kind == "rings":
        own = {"numRings": rng.randint(1, 6), "raStart": rng.choice([0.0, rng.uniform(0, 359)])}
    elif kind == "discrete":
        n = rng.randint(0, 4)
        own = {"raList": [rng.uniform(0, 360) for _ in range(n)], "decList": [rng.uniform(-80, 80) for _ in range(n)],
               "radiusList": [rng.uniform(.1, 3) for _ in range(n)]}
    elif kind == "equat":
        own = {"numTracts": rng.randint(2, 9), "decRange": [rng.uniform(-9, 0), rng.uniform(1, 9)]}
    elif kind == "dodeca":
        own = {"withTractsOnPoles": rng.random() < .5}
    else:
        own = {"log2NSide": rng.randint(0, 2), "nest": rng.random() < .5}
    return {"kind": kind, "common": c, "own": own}


def cases(rng, tier):
    while True:
        b = base(rng)
        b["other"] = base(rng)
        b["eps"] = rng.choice([1.0, 1e-3, 1e-9])
        yield b


def any_projection():
    """Only identity matters here: the stand-in draws projections it does not know like one it knows."""
    import lsst.afw.geom as A
    if getattr(A.makeSkyWcs, "any", False):
        return
    real = A.makeSkyWcs

    def makeSkyWcs(crpix, crval, cdMatrix, projection="TAN"):
        return real(crpix, crval, cdMatrix, projection=projection if projection in ("TAN", "STG", "CEA") else
                    "CEA" if projection[0] == "C" else "STG")
    makeSkyWcs.any = True
    A.makeSkyWcs = makeSkyWcs


def make(c):
    any_projection()
    import importlib
    name = {"rings": "Rings", "discrete": "Discrete", "equat": "Equat", "dodeca": "Dodeca", "healpix": "Healpix"}[c["kind"]]
    m = importlib.import_module("lsst.skymap.%sSkyMap" % c["kind"])
    kw = dict(copy.deepcopy(c["common"]), **copy.deepcopy(c["own"]))
    return getattr(m, name + "SkyMap")(cfg(getattr(m, name + "SkyMapConfig"), **kw))


def variants(c):
    """The configuration with one value changed."""
    eps = c["eps"]

    def put(path, v):
        d = copy.deepcopy({k: c[k] for k in ("kind", "common", "own")})
        x = d
        for p in path[:-1]:
            x = x[p]
        x[path[-1]] = v
        return "/".join(map(str, path)), d
    for f in ("pixelScale", "tractOverlap", "rotation"):
        yield put(("common", f), c["common"][f] + eps)
    p = c["common"]["projection"]
    for q in (p[:2] + "X", p[:1] + "Q" + p[2:]) + (("Z" + p[1:],) if p[0] != "C" else ()):
        yield put(("common", "projection"), q)
    for f in c["common"]["layout"]:
        if f != "kind":
            yield put(("common", "layout", f), c["common"]["layout"][f] + 1)
    for f, v in c["own"].items():
        if isinstance(v, bool):
            yield put(("own", f), not v)
        elif isinstance(v, int):
            yield put(("own", f), v + 1)
        elif isinstance(v, float):
            yield put(("own", f), v + eps)
        else:
            for k in range(len(v)):
                yield put(("own", f, k), v[k] + eps)
            if len(v) > 1:
                yield put(("own", f), v[1:2] + v[:1] + v[2:])
    if c["kind"] == "discrete":
        d = put(("own", "raList"), c["own"]["raList"] + [5.0])[1]
        d["own"]["decList"] = d["own"]["decList"] + [5.0]
        d["own"]["radiusList"] = d["own"]["radiusList"] + [1.0]
        yield "another tract", d


def check(case):
    a, b = make(case), make(case)
    if len(a):
        a[0]
    d = a.getSha1()
    if not (a == b) or a != b or hash(a) != hash(b) or b.getSha1() != d or a.getSha1() != d or not a == a:
        return "the same map built again is different"
    if not isinstance(d, bytes) or len(d) != 20:
        return "digest %r" % (d,)
    for what, c in variants(case):
        try:
            o = make(c)
        except (ValueError, NotImplementedError):
            continue
        if a == o or not a != o or o == a or d == o.getSha1():
            return "changing %s leaves the map equal" % what
    o = make(case["other"])
    if {k: case["other"][k] for k in ("kind", "common", "own")} != {k: case[k] for k in ("kind", "common", "own")}:
        if a == o or not a != o or d == o.getSha1():
            return "different maps are equal"
    for x in (None, 5, "map", b"x", a.config, object()):
        try:
            if a == x or not a != x or x == a:
                return "map equals %r" % (x,)
        except Exception as err:
            return "comparing a map with %r: %r" % (x, err)
    return None


def from_model(contract, m):
    import random
    rng = random.Random(5)
    for kind in ("rings", "discrete", "equat", "dodeca", "healpix"):
        for lay in ("legacy", "cells"):
            if contract.find({"equat": "equatorial", "dodeca": "dodecahedron"}.get(kind, kind)) < 0:
                continue
            while True:
                c = base(rng)
                if c["kind"] == kind and c["common"]["layout"]["kind"] == lay and c["own"].get("raList", [1]):
                    break
            c["other"] = base(rng)
            c["eps"] = 1e-3
            yield c
