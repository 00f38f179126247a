from .packs import *

RULE = ("packers on the real butler with explicit and default room, from arguments and from configuration; number of bits against "
        "the room, and up to 120 data IDs inside, at and beyond the edges")


def check(case):
    p, tracts, patches, room, table = make(case)
    total = tracts*patches*(room or 1)
    bits = p.maxBits
    if not ((1 << bits) >= total and (bits == 0 or (1 << (bits - 1)) < total)):
        return "%d bits for %d data IDs" % (bits, total)
    if ("band" in p.dimensions.names) != bool(room):
        return "dimensions %s with room for %s bands" % (p.dimensions.names, room)
    for t, q, b in ids(case, tracts, patches, room, table):
        if room and b is None:
            continue
        ok = 0 <= t < tracts and 0 <= q < patches and (not room or 0 <= table.get(b, -1) < room)
        d = data_id(universe(), t, q, b, room)
        try:
            n = p.pack(d)
        except ValueError as exc:
            if ok:
                return "%s is inside (%s tracts, %s patches, %s bands) and refused: %s" % ((t, q, b), tracts, patches, room, exc)
            continue
        if not ok:
            return "%s is outside (%s tracts, %s patches, %s bands) and packed to %d" % ((t, q, b), tracts, patches, room, n)
        if not 0 <= n < (1 << bits):
            return "%s packs to %d, which is not in %d bits" % ((t, q, b), n, bits)
    u = universe()
    from lsst.skymap.packers import SkyMapDimensionPacker as P
    for names in (["tract", "patch", "visit"], ["tract", "patch", "detector"], ["tract"], ["tract", "band"]):
        try:
            P(p.fixed, u.conform(names))
        except ValueError:
            continue
        return "dimensions %s are accepted" % names
    return None
