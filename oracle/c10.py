import math

from .maps import *

RULE = "rings maps of 1 to 130 rings and any starting RA; all tract numbers of each, centres of some"


def cases(rng, tier):
    n = 0
    while True:
        n += 1
        k = n if n <= 12 else rng.choice([rng.randint(1, 12), rng.randint(1, 40), rng.randint(1, 130)])
        yield {"numRings": k, "raStart": rng.choice([0.0, 0.0, 359.999, 180.0, round(rng.uniform(0, 360), 3)]),
               "probe": rng.randint(0, 10**6)}


def check(case):
    m = rings(case["numRings"], case["raStart"])
    n, total = case["numRings"], len(m)
    size = math.pi/(n + 1)
    pos = [tuple(m.getRingIndices(i)) for i in range(total)]
    if pos[0] != (-1, 0) or pos[-1] != (n, 0):
        return "caps at %s and %s" % (pos[0], pos[-1])
    want, rows = [], {}
    for i in range(1, total - 1):
        rows[pos[i][0]] = rows.get(pos[i][0], 0) + 1
    for r in range(n):
        want += [(r, t) for t in range(rows.get(r, 0))]
    if pos[1:-1] != want or min(rows.get(r, 0) for r in range(n)) < 1:
        return "positions of tracts 1.. are %s" % (pos[1:40],)
    for bad in (-1, total, total + 7):
        try:
            m.getRingIndices(bad)
        except IndexError:
            continue
        return "tract number %d accepted" % bad
    first = 1
    for r in range(-1, n + 1):
        cap = r in (-1, n)
        i = 0 if r == -1 else total - 1 if r == n else first
        k = 1 if cap else rows[r]
        lo = -math.pi/2 if r == -1 else -math.pi/2 + (r + 0.5)*size
        hi = math.pi/2 if r == n else -math.pi/2 + (r + 1.5)*size
        for t in range(k):
            a, b, c, d = [v.asRadians() for v in m.getRaDecRange(i + t)]
            if not (near(c, lo) and near(d, hi)):
                return "tract %d: declinations %s to %s, expected %s to %s" % (i + t, c, d, lo, hi)
            if cap:
                if not (near(a, 0) and near(b, 2*math.pi)):
                    return "cap %d spans %s to %s" % (i, a, b)
                continue
            s = math.radians(case["raStart"])
            if not (near(turndiff(a, s + (t - .5)*2*math.pi/k), 0) and near(turndiff(b, s + (t + .5)*2*math.pi/k), 0)):
                return "tract %d (ring %d, position %d of %d): RA %s to %s" % (i + t, r, t, k, a, b)
            nxt = m.getRaDecRange(i + (t + 1) % k)[0].asRadians()
            if not near(turndiff(b, nxt), 0):
                return "tract %d ends at RA %s, the next starts at %s" % (i + t, b, nxt)
        if not cap:
            first += k
    for i in {0, total - 1, 1 % total, total - 2, case["probe"] % total, (case["probe"]*7 + 3) % total}:
        c = m[i].getCtrCoord()
        r, t = pos[i]
        if r in (-1, n):
            if not near(abs(c[1].asRadians()), math.pi/2) or c[1] < 0 and r == n or c[1] > 0 and r == -1:
                return "cap %d centred at %s" % (i, c)
            continue
        k = rows[r]
        if not (near(c[1].asRadians(), (r + 1)*size - math.pi/2) and
                near(turndiff(c[0].asRadians(), math.radians(case["raStart"]) + t*2*math.pi/k), 0)):
            return "tract %d centred at %s" % (i, c)
    return None


def from_model(contract, m):
    n = m.get("numRings")
    if isinstance(n, int) and 1 <= n <= 150:
        ra = m.get("raStart", 0)
        yield {"numRings": n, "raStart": float(ra) if isinstance(ra, (int, float)) and 0 <= ra < 360 else 0.0,
               "probe": int(m.get("tract", 1)) if isinstance(m.get("tract", 1), int) else 1}
