from .maps import *

RULE = ("rings maps (1 to 6 rings, both versions for the closest-tract search), discrete maps with overlapping and "
        "identical tracts, equatorial and dodecahedron maps; lists of 0 to 6 coordinates: close together, far apart, "
        "repeated, at poles and around RA 0")


def cases(rng, tier):
    n = 0
    while True:
        kind = ["rings", "discrete", "rings", "equat", "discrete", "dodeca"][n % 6]
        n += 1
        k = rng.randint(1, 6)
        pts = []
        if kind == "discrete":
            for _ in range(k):
                pts.append([round(rng.uniform(0, 12), 2), round(rng.uniform(-6, 6), 2), rng.choice([1.0, 3.0])])
            if k > 1 and rng.random() < .5:
                pts[0] = list(pts[-1])
        c0 = rng.choice([[rng.uniform(0, 360), rng.uniform(-85, 85)], [0.0, 0.0], [10.0, 89.9], [200.0, -89.5],
                         [5.0, 0.0]])
        spread = rng.choice([0.0, 0.5, 4.0, 30.0])
        cs = []
        for _ in range(rng.choice([0, 1, 2, 3, 6])):
            cs.append([(c0[0] + rng.uniform(-1, 1)*spread) % 360,
                       max(-90.0, min(90.0, c0[1] + rng.uniform(-1, 1)*spread))])
        if cs and rng.random() < .4:
            cs.append(list(cs[0]))
        yield {"kind": kind, "n": k, "points": pts, "coords": cs, "start": rng.choice([0.0, 12.0]),
               "overlap": rng.choice([0.0, 1.0, 5.0])}


def check(case):
    import lsst.geom as geom
    k = case["kind"]
    ov = case["overlap"]
    if k == "rings":
        m = rings(case["n"], case["start"], tractOverlap=ov)
    elif k == "discrete":
        m = discrete(case["points"], tractOverlap=ov)
    elif k == "equat":
        m = equat(numTracts=3 + case["n"], tractOverlap=ov)
    else:
        m = dodeca(tractOverlap=ov, pixelScale=4000.0)
    coords = [geom.SpherePoint(a*geom.degrees, d*geom.degrees) for a, d in case["coords"]]
    own = {}

    def patches(t):
        if t.getId() not in own:
            own[t.getId()] = [tuple(p.getIndex()) for p in t.findPatchList(coords)]
        return own[t.getId()]

    def look(res, what):
        ids = [t.getId() for t, _ in res]
        if len(ids) != len(set(ids)):
            return "%s lists a tract twice: %s" % (what, ids)
        for t, ps in res:
            if m[t.getId()] is not t:
                return "%s lists something that is not a tract of the map" % what
            got = [tuple(p.getIndex()) for p in ps]
            if not got:
                return "%s lists tract %d without patches" % (what, t.getId())
            if got != patches(t):
                return "%s pairs tract %d with %s, its own search gives %s" % (what, t.getId(), got, patches(t))
        return None
    res = m.findTractPatchList(coords)
    bad = look(res, "region search")
    if bad:
        return bad
    ids = {t.getId() for t, _ in res}
    if k == "rings":
        want = {t.getId() for c in coords for t in m.findAllTracts(c) if patches(t)}
        if want - ids:
            return "region search misses tracts %s" % sorted(want - ids)
    else:
        want = {t.getId() for t in m if patches(t)}
        if want != ids:
            return "region search lists %s, not %s" % (sorted(ids), sorted(want))
    res = m.findClosestTractPatchList(coords) if len(m) else []
    bad = look(res, "closest search")
    if bad:
        return bad
    ids = {t.getId() for t, _ in res}
    want = {t.getId() for t in (m.findTract(c) for c in coords) if patches(t)}
    if want != ids:
        return "closest search lists %s, not %s" % (sorted(ids), sorted(want))
    return None


def from_model(contract, m):
    import random
    r = random.Random(3)
    k = 0
    for c in cases(r, "quick"):
        if c["kind"] == {"ring": "rings", "disc": "discrete", "equa": "equat", "dode": "dodeca"}.get(contract[:4], "discrete"):
            yield c
            k += 1
        if k >= 10:
            return
