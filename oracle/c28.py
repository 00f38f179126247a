from .maps import *
from .common import *

RULE = ("maps of all kinds with pixel scales 60 to 4000 arcsec, rotations, overlaps and projections TAN, STG, CEA; up to 6 tracts "
        "of each: reference position, matrix, projection, configured position and radius; codes of 0 to 6 letters refused")


def cases(rng, tier):
    n = 0
    while True:
        kind = ["rings", "discrete", "equat", "dodeca", "healpix"][n % 5]
        n += 1
        yield {"kind": kind, "n": rng.randint(1, 9),
               "scale": rng.choice([2000.0, rng.uniform(500, 4000)]) if kind != "discrete" else rng.uniform(60, 500),
               "rot": rng.choice([0.0, 45.0, rng.uniform(-180, 360)]), "overlap": rng.choice([0.0, 1.0, rng.uniform(0, 3)]),
               "proj": rng.choice(["TAN", "STG"]) if kind != "equat" else "CEA",
               "pts": [[rng.choice([0.0, 359.9, rng.uniform(-20, 380)]), rng.choice([0.0, rng.uniform(-89, 89)]),
                        rng.uniform(.1, 4)] for _ in range(rng.randint(1, 5))],
               "decRange": rng.choice([[-1.0, 1.0], [round(rng.uniform(-10, 0), 1), round(rng.uniform(1, 20), 1)]]),
               "which": [rng.random() for _ in range(3)] + [0.0, 1.0],
               "bad": rng.choice(["", "T", "TA", "TANX", "TANGEN", "TPV-X"])}


def make(c):
    kw = dict(pixelScale=c["scale"], rotation=c["rot"], tractOverlap=c["overlap"], projection=c["proj"])
    k = c["kind"]
    if k == "rings":
        return rings(c["n"], 7.0, version=c["n"] % 2, **kw)
    if k == "discrete":
        return discrete(c["pts"], **kw)
    if k == "healpix":
        return healpix(log2NSide=c["n"] % 2, nest=bool(c["n"] % 3), **kw)
    if k == "equat":
        return equat(numTracts=3 + c["n"], decRange=c["decRange"], **kw)
    return dodeca(withTractsOnPoles=bool(c["n"] % 2), **kw)


def check(case):
    D = math.pi/180
    m = make(case)
    n = len(m)
    for f in case["which"]:
        i = min(n - 1, int(f*n))
        t = m[i]
        w = t.getWcs()
        cd = w.getCdMatrix()
        s, o = case["scale"]/3600, case["rot"]*D
        want = [[-math.cos(o)*s, math.sin(o)*s], [math.sin(o)*s, math.cos(o)*s]]
        for a in range(2):
            for b in range(2):
                if not near(float(cd[a][b]), want[a][b], 1e-9*s):
                    return "tract %d has CD matrix %s, not %s" % (i, cd, want)
        if w._proj != case["proj"]:
            return "tract %d has projection %s" % (i, w._proj)
        c, v = t.getCtrCoord(), w.getSkyOrigin()
        c, v = [(x.getLongitude().asRadians(), x.getLatitude().asRadians()) for x in (c, v)]
        if case["kind"] == "equat":
            c = (c[0], 0.0)
        if sep(c, v) > 1e-9:
            return "tract %d has reference %s, centre %s" % (i, v, c)
        p, q = w.skyToPixel(w.getSkyOrigin()), w.getPixelOrigin()
        if not (near(p[0], q[0], 1e-6) and near(p[1], q[1], 1e-6)):
            return "tract %d shows its reference position at %s, not %s" % (i, p, q)
        if case["kind"] != "equat":
            b = t.getBBox()
            e = 1 + max(b.getWidth(), b.getHeight())
            if not (-e <= q[0] <= 2*e and -e <= q[1] <= 2*e):
                return "tract %d: reference pixel %s far off its box %s" % (i, q, b)
        if case["kind"] == "discrete":
            ra, dec, rad = case["pts"][i]
            if sep(c, (ra*D, dec*D)) > 1e-9:
                return "tract %d is centred at %s, not %s" % (i, c, (ra, dec))
            b = t.getBBox()
            for side, patch in ((b.getWidth(), 50), (b.getHeight(), 40)):
                # the ends of a cross of that radius and the overlap, turned by the rotation
                r = (rad + case["overlap"])*D
                half = (math.tan(r) if case["proj"] == "TAN" else 2*math.tan(r/2))/D/s
                half *= max(abs(math.cos(o)), abs(math.sin(o)))
                if not 2*half - 3 <= side <= 2*half + patch + 3:
                    return "tract %d has side %d for radius %r" % (i, side, rad)
    if len(case["bad"]) != 3:
        try:
            make(dict(case, proj=case["bad"]))
        except RuntimeError:
            return None
        except NotImplementedError:
            pass
        return "projection %r is not refused" % case["bad"]
    return None


def from_model(contract, m):
    kind = contract[:4]
    kind = {"disc": "discrete", "equa": "equat", "dode": "dodeca", "heal": "healpix"}.get(kind, "rings")
    n = m.get("numRings", m.get("tracts", 4))
    n = min(max(n, 1), 12) if isinstance(n, int) else 4

    def num(k, d):
        v = m.get(k, d)
        return float(v) if isinstance(v, (int, float)) else d
    for rot in (min(360., max(-360., num("rotation", 0.0))), 30.0):
        yield {"kind": kind, "n": n + ("faces" in contract), "scale": 200.0 if kind == "discrete" else 1500.0, "rot": rot, "overlap": .7,
               "proj": "CEA" if kind == "equat" else "TAN", "pts": [[10., 20., 1.], [359., -60., 2.]],
               "decRange": [-2., 6.], "which": [0.0, 1.0, .5, .2], "bad": "TANX"}
