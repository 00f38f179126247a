from .maps import *

RULE = ("rings maps (1 to 12 rings), discrete maps (0 to 8 tracts), HEALPix maps, equatorial maps (1 to 12 tracts) and "
        "both dodecahedra; histories of up to 12 lookups inside, at the end and outside of the map, then every position")


def make(c):
    k = c["kind"]
    if k == "rings":
        return rings(c["n"], c["start"])
    if k == "discrete":
        return discrete([(10.0*i, 5.0*i - 20, 1.0) for i in range(c["n"] - 1)])
    if k == "healpix":
        return healpix(log2NSide=c["n"] % 2, nest=bool(c["n"] % 3))
    if k == "equat":
        return equat(numTracts=2 + c["n"])
    return dodeca(withTractsOnPoles=bool(c["n"] % 2))


def cases(rng, tier):
    n = 0
    while True:
        kind = ["rings", "discrete", "equat", "dodeca", "rings", "discrete", "healpix"][n % 7]
        n += 1
        yield {"kind": kind, "n": rng.randint(1, 9) if kind != "rings" else rng.choice([1, 2, 3, 7]),
               "start": rng.choice([0.0, 123.0]), "history": [rng.uniform(-.3, 1.3) for _ in range(rng.randint(0, 12))]
               + [rng.choice([1.0, 0.0])], "full": n % 5 == 0}


def check(case):
    m = make(case)
    n = len(m)
    want = {"discrete": case["n"] - 1, "equat": 2 + case["n"], "dodeca": 12,
            "healpix": 12*4**(case["n"] % 2)}.get(case["kind"])
    if want is not None and n != want:
        return "length %d, not %d" % (n, want)
    lazy = hasattr(m, "generateTract")
    seen, made = {}, []
    if lazy:
        real = m.generateTract

        def counted(i):
            made.append(i)
            return real(i)
        m.generateTract = counted
    for f in case["history"] + [1.0]:
        i = int(round(f*n))
        if i < 0 and not lazy:
            continue
        try:
            t = m[i]
        except IndexError:
            if 0 <= i < n:
                return "IndexError for position %d of %d" % (i, n)
            continue
        if not 0 <= i < n:
            return "position %d of %d gives a tract" % (i, n)
        if t.getId() != i:
            return "position %d gives tract %d" % (i, t.getId())
        if seen.setdefault(i, t) is not t:
            return "asking for %d again gives another object" % i
    if case["full"] or n < 20:
        every = list(m)
        if [t.getId() for t in every] != list(range(n)):
            return "iteration gives %s" % ([t.getId() for t in every],)
        if any(every[i] is not t for i, t in seen.items()) or any(m[i] is not t for i, t in enumerate(every)):
            return "iteration gives other objects than lookup"
    if len(made) != len(set(made)):
        return "tracts generated more than once: %s" % (made,)
    return None


def from_model(contract, m):
    kind = contract[:4]
    kind = {"disc": "discrete", "equa": "equat", "dode": "dodeca", "heal": "healpix"}.get(kind, "rings")
    n = m.get("numRings", m.get("tracts", 4))
    n = min(max(n, 1), 30) if isinstance(n, int) else 4
    i = m.get("position", 0)
    yield {"kind": kind, "n": n, "start": 0.0, "history": [i/max(1, n)] if isinstance(i, int) else [0.5], "full": True}
