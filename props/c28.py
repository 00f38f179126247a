"""C28: every tract's coordinate system follows the configuration."""
from .rings import *

CONTRACTS, contract = registry()
TOL = 1e-9


class Code(str):
    """A projection code: any string, of which only the length is known."""

    def __new__(cls, n=3):
        s = str.__new__(cls, "sTg")
        s.n = n
        return s

    def _pyvc_len(self):
        return self.n

    def __len__(self):
        return core.ENG.concrete(self.n) if issym(self.n) else self.n

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def scaled(x, y):
    """The same up to rounding, of a non-negative or negative number."""
    return conj(x - y <= TOL*abs(y), y - x <= TOL*abs(y))


def follows(e, r, t, projection, centre=None):
    w = t.made["wcs"]
    if not isinstance(w, deps.AbsWcs):
        raise core.Unsupported("coordinate system made in another way")
    e.prove(scaled(w.cd.scale.asRadians(), r.config.pixelScale*(PI/180/3600)), "the configured pixel scale")
    e.prove(scaled(w.cd.orientation.asRadians(), r.config.rotation*(PI/180)), "the configured rotation")
    e.prove(neg(w.cd.flip), "not mirrored")
    e.prove(str.__eq__(w.projection, projection), "the configured projection")
    c = t.getCtrCoord()
    ra, dec = c.getLongitude().asRadians(), c.getLatitude().asRadians()
    v = w.crval
    if centre == "equator":
        dec = 0
    e.prove(v.getLongitude().asRadians() == ra, "the reference RA is that of the published centre")
    e.prove(v.getLatitude().asRadians() == dec, "the reference declination is that of the centre" if centre is None
            else "the reference declination is zero")
    e.prove(t.getId() == t.made["id"], "of the tract asked for")
    e.prove(scaled(t.getTractOverlap().asRadians(), r.config.tractOverlap*(PI/180)), "the configured overlap")


def a_rings(e, **kw):
    return rings(e, e.choose("version"), kind="legacy", **kw)


MAKERS = {"rings": ("ringsSkyMap", a_rings), "discrete": ("discreteSkyMap", discrete),
          "healpix": ("healpixSkyMap", healpix), "equatorial": ("equatSkyMap", equat),
          "dodecahedron, vertices on poles": ("dodecaSkyMap", lambda e, **kw: dodeca(e, False, **kw)),
          "dodecahedron, faces on poles": ("dodecaSkyMap", lambda e, **kw: dodeca(e, True, **kw))}


def _kind(name, module, make):
    @contract(name, covers=("tract",))
    def kind(e):
        recorded(module)
        code = Code()
        r = make(e, projection=code)
        i = e.input_int("tract", 0)
        n = r.size if name == "rings" else r.n
        e.assume(i < n)
        if hasattr(r.map, "generateTract"):
            t = r.map.generateTract(i)
        else:
            t = rt.getitem(r.map, i)
        e.prove(t.getId() == i, "the tract asked for")
        follows(e, r, t, code, "equator" if name == "equatorial" else None)
        if name == "discrete":
            c = t.getCtrCoord()
            ra, dec = rt.getitem(r.ra, i), rt.getitem(r.dec, i)
            d, x = c.getLongitude().asRadians(), turn(ra*(PI/180))
            e.prove(disj(*[conj(d - x - s*TWOPI <= TOL, x + s*TWOPI - d <= TOL) for s in (0, 1, -1)]),
                    "at the configured RA")
            e.prove(scaled(c.getLatitude().asRadians(), dec*(PI/180)), "and declination")
            e.prove(scaled(t.made["radius"].asRadians(), rt.getitem(r.radius, i)*(PI/180)), "with the configured radius")
        e.cover("tract")


for _n, (_mod, _m) in MAKERS.items():
    _kind(_n, _mod, _m)


@contract("explicit radius", covers=("tract",))
def explicit(e):
    """The vertices of a tract of given radius are its corners, that far from the centre."""
    from lsst.skymap.tractInfo import ExplicitTractInfo
    lay = layout(e, "legacy")
    wcs = deps.AbsWcs.arbitrary(e, "wcs")
    with total(e):
        radius = G.Angle(e.input_real("radius", 0))
        t = ExplicitTractInfo(e.input_int("id", 0), builder(e, lay), deps.fresh_coord(e, "ctr"), radius,
                              G.Angle(e.input_real("overlap", 0)), wcs)
    e.prove(t.getWcs().base.eq(wcs.base), "the tract's coordinate system differs in the pixel origin only")
    e.cover("tract")


@contract("pixel origin", covers=("tract",))
def origin(e):
    """The tract's coordinate system is the one made, moved by whole pixels so that the
    box begins at the origin."""
    from lsst.skymap.tractInfo import TractInfo
    lay = layout(e, "legacy")
    e.memo["wcs_total"] = True
    wcs = deps.AbsWcs.arbitrary(e, "wcs")
    made = {}
    real = lay.cls

    class Builder(real):
        def setupPatches(self, minBBox, w):
            made["box"] = super().setupPatches(minBBox, w)
            b = made["box"][0]
            made["lo"] = (b.getMinX(), b.getMinY())
            return made["box"]
    Builder.__name__ = real.__name__
    t = TractInfo(e.input_int("id", 0), Builder(lay.sub), deps.fresh_coord(e, "ctr"), lst(deps.fresh_coord(e, "corner")),
                  G.Angle(e.input_real("overlap", 0)), wcs)
    w = t.getWcs()
    e.prove(w.base.eq(wcs.base), "the same coordinate system")
    b = t.getBBox()
    for i, m in enumerate((b.getMinX(), b.getMinY())):
        e.prove(w.crpix[i] - wcs.crpix[i] == m - made["lo"][i], "moved with the box")
    e.memo["wcs_total"] = False
    p = deps.fresh_coord(e, "position")
    with total(e):
        q, q0 = t.getWcs().skyToPixel(p), wcs.skyToPixel(p)
    for i in range(2):
        e.prove(q[i] - q0[i] == (b.getMinX(), b.getMinY())[i] - made["lo"][i], "every position moves with the box")
    e.cover("tract")


@contract("projection code", covers=("refused", "accepted"))
def code(e):
    from lsst.skymap.detail import WcsFactory
    n = e.input_int("length", 0)
    c = Code(n)
    scale, rot = G.Angle(e.input_real("scale")), G.Angle(e.input_real("rotation"))
    got, exc = raises(e, lambda: WcsFactory(scale, c, rot), RuntimeError)
    if exc is not None:
        e.prove(n != 3, "only codes that do not have three letters are refused")
        e.cover("refused")
        return
    e.prove(n == 3, "codes that do not have three letters are refused")
    p = deps.fresh_coord(e, "reference")
    w = got.makeWcs(G.Point2D(0, 0), p)
    e.prove(w.crval == p, "the reference position is the one given")
    e.prove(conj(w.cd.scale.asRadians() == scale.asRadians(), w.cd.orientation.asRadians() == rot.asRadians()),
            "scale and rotation are those given")
    e.prove(w.projection is c, "and so is the projection")
    e.prove(conj(w.crpix[0] == 0, w.crpix[1] == 0), "and the reference pixel")
    e.cover("accepted")


@contract("every map refuses such codes", covers=("refused", "accepted"))
def refused(e):
    from lsst.skymap.discreteSkyMap import DiscreteSkyMap
    n = e.input_int("length", 0)
    got, exc = raises(e, lambda: discrete(e, projection=Code(n)), RuntimeError)
    if exc is not None:
        e.prove(n != 3, "only codes that do not have three letters are refused")
        e.cover("refused")
    else:
        e.prove(n == 3, "codes that do not have three letters are refused")
        e.cover("accepted")
