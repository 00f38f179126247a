from .packs import *

RULE = ("packers on the real butler: band maps of 0 to 9 bands with distinct integers in any order, the default map, any room; "
        "up to 120 data IDs inside, at and beyond the edges packed, unpacked and compared with each other")


def check(case):
    p, tracts, patches, room, table = make(case)
    seen = {}
    for t, q, b in ids(case, tracts, patches, room, table):
        if room and b is None:
            continue
        d = data_id(universe(), t, q, b, room)
        try:
            n = p.pack(d)
        except ValueError:
            continue
        k = (t, q, b)
        if seen.setdefault(n, k) != k:
            return "%s and %s both pack to %d" % (k, seen[n], n)
        try:
            back = p.unpack(n)
        except Exception as exc:
            return "%s packs to %d, which does not unpack: %r" % (k, n, exc)
        if back != d:
            return "%s packs to %d, which unpacks to %s" % (k, n, back)
        if (back["tract"], back["patch"]) != (t, q) or room and back["band"] != b:
            return "%s unpacks to %s" % (k, back)
    return None
