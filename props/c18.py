"""C18: a pickled and unpickled map is the same map."""
from .c17 import KINDS, LAYOUTS, a_map, copied
from .rings import *
from .same import same, tract

CONTRACTS, contract = registry()


def fresh(e, v, memo=None):
    """A value after being pickled and unpickled: an equal, separate object."""
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if v is None or isinstance(v, (core.Sym, int, float, str, bytes, type)):
        return v
    if isinstance(v, deps.Cfg):
        c = deps.Cfg()
        memo[id(v)] = c
        for k, x in vars(v).items():
            setattr(c, k, fresh(e, x, memo))
        c.__dict__.pop("frozen", None)
        return c
    if isinstance(v, deps.BuilderField):
        return deps.BuilderField(v.name, v.cls, fresh(e, v.sub, memo))
    if isinstance(v, loops.VList):
        if v.symbolic:
            return copied(v)
        return loops.VList([fresh(e, x, memo) for x in v.parts])
    if type(v) in (list, tuple):
        return type(v)(fresh(e, x, memo) for x in v)
    if type(v) is dict:
        return {k: fresh(e, x, memo) for k, x in v.items()}
    raise core.Unsupported("pickling a " + type(v).__name__)


def defined(cls, name):
    for c in cls.__mro__:
        if c is not object and name in c.__dict__:
            return True
    return False


def unpickled(e, x):
    """pickle.loads(pickle.dumps(x)): the protocol of Python."""
    e.uses("lsst.pex.config: a configuration is pickled and unpickled with the same values")
    cls = type(x)
    if defined(cls, "__reduce__") or defined(cls, "__reduce_ex__"):
        r = x.__reduce_ex__(2) if defined(cls, "__reduce_ex__") else x.__reduce__()
        if isinstance(r, loops.VList):
            r = tuple(r.parts)
        f, args = r[0], [fresh(e, a) for a in r[1]]
        y = f(*args)
        state = r[2] if len(r) > 2 else None
    else:
        new = x.__getnewargs__() if defined(cls, "__getnewargs__") else ()
        y = cls.__new__(cls, *[fresh(e, a) for a in new])
        state = x.__getstate__() if defined(cls, "__getstate__") else dict(x.__dict__)
    if state is not None:
        state = fresh(e, state)
        if defined(cls, "__setstate__"):
            y.__setstate__(state)
        elif isinstance(state, dict):
            y.__dict__.update(state)
        else:
            raise core.Unsupported("state of an object")
    return y


def version_of(e, kind):
    """Rings maps: either numbering; the other maps of this family: any version number."""
    return e.choose("version") if kind == "rings" else e.input_int("version", 0)


def original(e, kind, lay):
    r = a_map(e, kind, lay)
    if kind in ("discrete", "healpix"):
        with total(e):
            r.version = version_of(e, kind)
            r.map = type(r.map)(r.config, version=r.version)
    elif kind == "rings":
        r.version = e.memo["version"]
    else:
        r.version = None
    return r


def any_tract(e, r, m, i):
    with total(e):
        return m.generateTract(i) if hasattr(m, "generateTract") else rt.getitem(m, i)


def _same_map(kind, lay):
    @contract("%s map, %s layout" % (kind, lay), covers=("rebuilt", "tract"))
    def rebuilt(e):
        r = original(e, kind, lay)
        a = r.map
        n = rt.b_len(a)
        how = e.choose("history", 3)
        i = e.input_int("tract", 0)
        e.assume(i < n)
        if how == 1:
            a.getSha1()
        elif how == 2:
            with total(e):
                rt.getitem(a, i)
        with total(e):
            b = unpickled(e, a)
        e.cover("rebuilt")
        e.prove(type(b) is type(a), "of the same kind")
        if r.version is not None:
            e.prove(b._version == r.version, "of the same version")
        else:
            e.prove(a.getVersion() == b.getVersion(), "of the same version")
        e.prove(rt.b_len(b) == n, "as many tracts")
        same(e, r.config, b.config, "configuration")
        e.prove(a == b, "equal to the original")
        e.prove(b.getSha1() == a.getSha1(), "of the same digest")
        same(e, a, b, "map")
        if kind == "rings":
            e.uses("generating a tract of a rings map is a function of the attributes of the map, compared one by one")
            e.cover("tract")
            return
        s, t = any_tract(e, r, a, i), any_tract(e, r, b, i)
        e.cover("tract")
        e.prove(t.getId() == i, "numbered alike")
        tract(e, s, t)


for _k in KINDS:
    for _l in LAYOUTS:
        _same_map(_k, _l)


def _refused(kind):
    @contract("%s map: state of a newer major version" % kind, covers=("refused", "accepted"))
    def refused(e):
        r = a_map(e, kind, "legacy")
        st = r.map.__getstate__()
        a, b = e.input_int("major", 0), e.input_int("minor", 0)
        st = fresh(e, st)
        st["version"] = (a, b)
        m = type(r.map).__new__(type(r.map))
        with total(e):
            _, x = raises(e, lambda: m.__setstate__(st), RuntimeError)
        if x is not None:
            e.cover("refused")
            e.prove(a >= 2, "only state of newer major versions is refused")
        else:
            e.cover("accepted")
            e.prove(a < 2, "state of a newer major version is refused")
            e.prove(m == r.map, "state that is accepted gives the map")


for _k in ("dodecahedron", "equatorial"):
    _refused(_k)
