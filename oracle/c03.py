from .common import *

RULE = "random layouts and minimum boxes, every patch of the tract (up to 400); distinct cases counted"


def cases(rng, tier):
    return tract_cases(rng, tier)


def check(case):
    lay = case["layout"]
    t = tract(lay, case["box"])
    w, h, b = dims(lay)
    if t.getPatchBorder() != b or t.patch_border != b:
        return "border reported as %s, configured %s" % (t.getPatchBorder(), b)
    nx, ny = t.getNumPatches()
    idx = [(x, y) for x in range(nx) for y in range(ny)] if nx*ny <= 400 else \
        [(x, y) for x in (0, 1, nx//2, nx - 1) for y in (0, ny//2, ny - 1) if x < nx and y < ny]
    for x, y in idx:
        p = t.getPatchInfo((x, y))
        want = [x*w - b, y*h - b, x*w + w - 1 + b, y*h + h - 1 + b]
        if lay["kind"] == "legacy":
            want = [max(want[0], 0), max(want[1], 0), min(want[2], nx*w - 1), min(want[3], ny*h - 1)]
        for q in (p.getOuterBBox(), p.outer_bbox):
            if list(box(q)) != want:
                return "patch %s has outer box %s, expected %s" % ((x, y), box(q), want)
        if box(p.getInnerBBox()) != (x*w, y*h, x*w + w - 1, y*h + h - 1):
            return "patch %s has inner box %s" % ((x, y), box(p.getInnerBBox()))
    return None


def from_model(contract, m):
    lay = model_layout(m)
    i, j = int(m.get("i", 0)), int(m.get("j", 0))
    w, h, _ = dims(lay)
    for a, b in ((i, j), (0, 0), (3, 2)):
        if w*a < 10**8 and h*b < 10**8:
            yield {"layout": lay, "box": [0, 0, (a + 1)*w - 1, (b + 1)*h - 1], "small": False}
