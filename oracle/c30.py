RULE = "random small index, boxes, cell counts and borders, drawn so that equal values are frequent"


def cases(rng, tier):
    while True:
        def parts():
            i = [rng.randint(0, 2), rng.randint(0, 2)]
            inner = [rng.randint(0, 2), rng.randint(0, 2), rng.randint(1, 3), rng.randint(1, 3)]
            grow = rng.choice([0, 0, 1, 2])
            outer = [inner[0] - grow, inner[1] - grow, inner[2] + 2*grow, inner[3] + 2*grow]
            if rng.random() < 0.3:
                outer[rng.randrange(4)] += rng.choice([-1, 1])
            return {"index": i, "inner": inner, "outer": outer, "seq": rng.randint(0, 3), "cw": [rng.randint(0, 2)]*2,
                    "cb": rng.randint(0, 1), "n": rng.randint(0, 3), "m": rng.randint(0, 4)}
        a = parts()
        b = dict(parts()) if rng.random() < 0.3 else dict(a)
        if rng.random() < 0.6:
            k = rng.choice(list(b))
            b[k] = parts()[k]
        yield {"a": a, "b": b}


def check(case):
    import lsst.geom as geom
    from lsst.skymap.patchInfo import PatchInfo
    from lsst.skymap.cellInfo import CellInfo
    from lsst.skymap.detail import Index2D

    def bx(v):
        return geom.Box2I(geom.Point2I(v[0], v[1]), geom.Extent2I(v[2], v[3]))

    def fits(d):
        i, o = d["inner"], d["outer"]
        return o[0] <= i[0] and o[1] <= i[1] and o[0] + o[2] >= i[0] + i[2] and o[1] + o[3] >= i[1] + i[3]

    def nc(d):
        return 0 if d["n"] == 0 else d["n"] + 2*d["m"]
    for d in (case["a"], case["b"]):
        if d["outer"][2] < 1 or d["outer"][3] < 1:
            return None
    for cls in (CellInfo, PatchInfo):
        made = []
        for d in (case["a"], case["b"]):
            kw = {}
            if cls is PatchInfo:
                kw = dict(cellInnerDimensions=tuple(d["cw"]), cellBorder=d["cb"], numCellsPerPatchInner=d["n"],
                          numCellsInPatchBorder=d["m"])
            w = object()
            try:
                p = cls(index=Index2D(*d["index"]), innerBBox=bx(d["inner"]), outerBBox=bx(d["outer"]),
                        sequentialIndex=d["seq"], tractWcs=w, **kw)
            except RuntimeError:
                p = None
            if (p is not None) != fits(d):
                return "%s with %s inside %s: %s" % (cls.__name__, d["inner"], d["outer"],
                                                     "accepted" if p else "refused")
            made.append(p)
            if p is None:
                continue
            got = (tuple(p.getIndex()), p.getSequentialIndex(), p.getInnerBBox() == bx(d["inner"]),
                   p.getOuterBBox() == bx(d["outer"]), p.getWcs() is w, p.index == p.getIndex(),
                   p.sequential_index == d["seq"], p.inner_bbox == bx(d["inner"]), p.outer_bbox == bx(d["outer"]), p.wcs is w)
            if got != (tuple(d["index"]), d["seq"]) + (True,)*8:
                return "%s accessors: %s for %s" % (cls.__name__, got, d)
            if cls is PatchInfo:
                got = (tuple(p.getNumCells()), p.getCellBorder(), tuple(p.getCellInnerDimensions()),
                       tuple(p.num_cells), p.cell_border, tuple(p.cell_inner_dimensions))
                if got != ((nc(d), nc(d)), d["cb"], tuple(d["cw"]))*2:
                    return "PatchInfo accessors: %s for %s" % (got, d)
                for bad in ((1, 1, 1), (1,), (), 5):
                    try:
                        cls(index=Index2D(0, 0), innerBBox=bx(d["inner"]), outerBBox=bx(d["outer"]),
                            sequentialIndex=0, tractWcs=w, cellInnerDimensions=bad)
                    except ValueError:
                        continue
                    return "cell dimensions %s accepted" % (bad,)
        if any(x is None for x in made):
            continue
        a, b = case["a"], case["b"]
        keys = [(d["index"], d["inner"], d["outer"]) + ((nc(d), d["cb"]) if cls is PatchInfo else ()) for d in (a, b)]
        if (made[0] == made[1]) != (keys[0] == keys[1]) or (made[0] != made[1]) == (keys[0] == keys[1]):
            return "%s: == is %s, != is %s for %s and %s" % (cls.__name__, made[0] == made[1], made[0] != made[1], a, b)
    return None


def from_model(contract, m):
    def part(s):
        return {"index": [m.get("ix" + s, 0), m.get("iy" + s, 0)],
                "inner": [m["inner%s%s" % (s, k)] for k in "xywh"], "outer": [m["outer%s%s" % (s, k)] for k in "xywh"],
                "seq": m.get("seq" + s, 0), "cw": [m.get("cw" + s, 1), m.get("ch" + s, 1)], "cb": m.get("cb" + s, 0),
                "n": m.get("n" + s, 0), "m": m.get("m" + s, 0)}
    a = part("A")
    yield {"a": a, "b": part("B") if "ixB" in m else a}
