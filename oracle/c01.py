from .common import *

RULE = ("random layouts of both kinds and minimum boxes; small ones are checked pixel by pixel, large ones by "
        "the boxes of all patches; distinct cases counted")


def cases(rng, tier):
    return tract_cases(rng, tier, long=True)


def check(case):
    lay = case["layout"]
    t = tract(lay, case["box"])
    w, h, _ = dims(lay)
    b = t.getBBox()
    if tuple(b.getMin()) != (0, 0):
        return "tract box starts at %s" % (b.getMin(),)
    nx, ny = t.getNumPatches()
    if (b.getWidth(), b.getHeight()) != (nx*w, ny*h):
        return "tract of %s x %s with %s x %s patches of %s x %s" % (b.getWidth(), b.getHeight(), nx, ny, w, h)
    if nx*ny > 20000:
        return None
    seen = set()
    corners = set()
    for y in range(ny):
        for x in range(nx):
            p = t.getPatchInfo((x, y)).getInnerBBox()
            if (p.getWidth(), p.getHeight()) != (w, h):
                return "patch %s has inner size %s" % ((x, y), p.getDimensions())
            if not b.contains(p):
                return "patch %s leaves the tract" % ((x, y),)
            x0, y0 = p.getMinX(), p.getMinY()
            if x0 % w or y0 % h or (x0, y0) in corners:
                return "patch %s overlaps or leaves a gap: corner %s" % ((x, y), (x0, y0))
            corners.add((x0, y0))
            if case["small"] and w*h < 400:
                for i in range(x0, p.getMaxX() + 1):
                    for j in range(y0, p.getMaxY() + 1):
                        if (i, j) in seen:
                            return "pixel %s in two patches" % ((i, j),)
                        seen.add((i, j))
    if len(corners) != nx*ny:
        return "patches do not tile"
    if case["small"] and w*h < 400 and len(seen) != b.getArea():
        return "pixels in no patch"
    return None


def from_model(contract, m):
    lay = model_layout(m)
    for d in range(0, 3):
        yield {"layout": lay, "box": [0, 0, d*dims(lay)[0] + d, d*dims(lay)[1] + 1], "small": dims(lay)[0] < 50}
