"""C19: packed data IDs unpack to what was packed, and never collide."""
from .packs import *

CONTRACTS, contract = registry()


def same_band(e, d, got):
    if "band" not in d:
        return "band" not in got.values
    if "band" not in got.values:
        return False
    b = got.values["band"]
    a = d["band"]
    if isinstance(a, BandName):
        return a == b if isinstance(b, BandName) else False
    return a == b


def accepted(e, p, n=""):
    """A data ID that packs without error."""
    d, idx = data_id(e, p, n)
    got, exc = raises(e, lambda: p.packer._pack(d), ValueError)
    if exc is not None:
        raise core.PathEnd()
    return d, idx, got


def facts(e, p, d, idx, got):
    """What is known of an accepted data ID, as far as the arithmetic below needs it."""
    t, q = d["tract"], d["patch"]
    e.prove(conj(q >= 0, q < p.patches), "the patch is inside")
    e.prove(conj(t >= 0, t < p.tracts), "the tract is inside")
    rest = q + p.patches*t
    e.prove(conj(rest >= 0, rest < p.tracts*p.patches), "tract and patch take no more than their room")
    return rest


for _name, _args in VARIANTS.items():
    def _variant(name, dims, default, room, quarter=None):
        @contract("round trip: " + name, covers=("packed",))
        def trip(e):
            p = packer(e, dims, default, room, quarter)
            d, idx, packed = accepted(e, p)
            e.prove(idx is not None, "only known bands are packed")
            facts(e, p, d, idx, packed)
            e.cover("packed")
            got, exc = raises(e, lambda: p.packer.unpack(packed), KeyError, IndexError)
            if exc is not None:
                at_band(e, d)
                e.prove(False, "what was packed is unpacked")
            e.prove(conj(got["tract"] == d["tract"], got["patch"] == d["patch"]), "tract and patch come back")
            e.prove(same_band(e, d, got), "the band comes back")
            e.prove(set(got.values) == set(d), "and nothing else")
            e.prove(got["skymap"] == "the map", "of the same sky map")
            e.prove(got.dimensions == p.packer.dimensions, "with the dimensions of the packer")

        if default:
            return

        @contract("no collision: " + name, covers=("pair",))
        def collide(e):
            p = packer(e, dims, default, room, quarter)
            d, i, a = accepted(e, p)
            d2, i2, b = accepted(e, p, "2")
            r, r2 = facts(e, p, d, i, a), facts(e, p, d2, i2, b)
            e.cover("pair")
            e.assume(a == b)
            if "band" in d:
                e.prove(i == i2, "equal integers have equal band numbers")
                e.prove(d["band"] == d2["band"], "and so equal bands")
            e.prove(r == r2, "equal integers have equal remainders")
            e.prove(conj(d["tract"] == d2["tract"], d["patch"] == d2["patch"]), "equal integers, equal tract and patch")
    _variant(_name, *_args)
