"""numpy, for symbolic numbers and for symbolic one-dimensional arrays.

An array of unknown length is known by one arbitrary lane of it: operations are applied
to that lane, so what holds of the lane holds of every entry.  Selecting by a mask or by
the indices where a mask holds gives an array over a subspace, in which the lane either
takes part or not (decided per path).  Operations that mix entries (sorting, sums,
extrema) are refused.  Arrays of small integers are mathematical integers here.
"""
import operator

import numpy as _np
import z3

from . import core, loops
from .core import issym, Unsupported, SymReal, SymInt, SymBool, conj, disj, neg, truth, ite


def _scal(x):
    if hasattr(x, "_pyvc_scalar"):
        return x._pyvc_scalar()
    return x


def isfinite(x, *a, **k):
    x = _scal(x)
    if isinstance(x, (Lane, Table)):
        return x.map(lambda v: True, "isfinite")
    if issym(x):
        return True
    return _np.isfinite(x, *a, **k)


def isnan(x, *a, **k):
    x = _scal(x)
    if isinstance(x, (Lane, Table)):
        return x.map(lambda v: False, "isnan")
    if issym(x):
        return False
    return _np.isnan(x, *a, **k)


# ------------------------------------------------------------------ lanes
class Space:
    """Index set of an array, and whether the lane under study takes part."""

    def __init__(self, n, present, key, parent=None, index=None):
        self.n, self.present, self.key, self.parent, self.index = n, present, key, parent, index

    def sub(self, mask):
        """Subspace of the entries where the mask holds."""
        e = core.eng()
        key = (self.key, mask.prov)
        reg = e.memo.setdefault("subspaces", {})
        if key not in reg:
            here = self.present and bool(_truth(mask.val))
            n = e.fresh_int("lanes", 1 if here else 0)
            e.assume(n <= self.n)
            reg[key] = Space(n, here, key, self)
        return reg[key]


def _truth(v):
    return v if issym(v) else bool(v)


def prov(x):
    """How a value came about: equal descriptions, equal values."""
    if isinstance(x, (Lane, Table)):
        return x.prov
    if issym(x):
        return ("sym", x.z)
    return ("const", repr(x))


def base(n, index):
    """The space of arrays of length n with lane `index`."""
    e = core.eng()
    s = Space(n, True, "base%d" % len(e.memo.setdefault("spaces", [])), None, index)
    e.memo["spaces"].append(s)
    return s


def of_length(n):
    """The known space with n entries."""
    if isinstance(n, tuple):
        if len(n) != 1:
            raise Unsupported("array of more than one dimension")
        n = n[0]
    e = core.eng()
    for s in list(e.memo.get("spaces", ())) + list(e.memo.get("subspaces", {}).values()):
        if n is s.n or issym(n) and issym(s.n) and z3.eq(n.z, s.n.z):
            return s
    raise Unsupported("array of a length that is not that of another array")


def _isint(dtype):
    return dtype is not None and (dtype is int or _np.issubdtype(dtype, _np.integer))


def _isbool(dtype):
    return dtype is not None and (dtype is bool or _np.issubdtype(dtype, _np.bool_))


def _cast(v, dtype):
    if v is None or dtype is None or _isbool(dtype):
        return v
    if _isint(dtype):
        if isinstance(v, SymReal):
            v = core.py_int(v)
        elif isinstance(v, float):
            v = int(v)
        core.fits(v, dtype)
        return v
    if dtype is not object:
        core.fits(v, dtype)
    if isinstance(v, SymInt):
        return SymReal(core.toreal(v.z))
    return float(v) if isinstance(v, int) and not isinstance(v, bool) else v


def _kind(v):
    if isinstance(v, (SymBool, bool)):
        return bool
    if isinstance(v, (SymInt, int)):
        return int
    return float


class Lane:
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, space, val, prov, fn=None, dtype=None):
        self.space, self.val, self.prov, self.fn = space, (val if space.present else None), prov, fn
        self.dtype = dtype or (_kind(val) if space.present else float)

    # -- pointwise
    def map(self, f, tag, dtype=None):
        fn = self.fn
        if tag in ("isfinite", "isnan", "logical_not"):
            dtype = bool
        return Lane(self.space, f(self.val) if self.space.present else None, (tag, self.prov),
                    fn=(lambda i: f(fn(i))) if fn else None, dtype=dtype)

    def _bin(self, op, other, tag):
        if isinstance(other, Table):
            raise Unsupported("arithmetic between arrays of different lengths")
        if isinstance(other, Lane):
            if other.space is not self.space:
                raise Unsupported("arithmetic between arrays of different lengths")
            o = other.val
        else:
            o = _scal(other)
            if not (issym(o) or isinstance(o, (int, float, _np.number, _np.bool_))):
                return NotImplemented
        p = (tag, self.prov, prov(other))
        return Lane(self.space, op(self.val, o) if self.space.present else None, p,
                    dtype=bool if tag in _BOOLEAN else None)

    def __neg__(self):
        return self.map(operator.neg, "neg")

    def __pos__(self):
        return self

    def __abs__(self):
        return self.map(abs, "abs")

    def __invert__(self):
        return self.map(neg, "not", dtype=bool)

    # -- shape
    def _pyvc_len(self):
        return self.space.n

    @property
    def size(self):
        return self.space.n

    @property
    def shape(self):
        return (self.space.n,)

    ndim = 1

    def __len__(self):
        raise Unsupported("length of a symbolic array in native code")

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic array")

    def _pyvc_iter(self):
        if self.fn is None:
            raise Unsupported("iteration over a computed array")
        return loops.SymSeq(self.space.n, self.fn)

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    # -- selection
    def _pyvc_get(self, i):
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if isinstance(i, slice) and i == slice(None):
            return self
        if isinstance(i, Index):
            if i.target is not self.space:
                raise Unsupported("index array of another array")
            if isinstance(self, Index):
                return Index(i.space, self.target, ("at", self.prov, i.prov))
            return Lane(i.space, self.val, ("at", self.prov, i.prov))
        if isinstance(i, Lane) and i.dtype is bool:
            if i.space is not self.space:
                raise Unsupported("mask of another array")
            s = self.space.sub(i)
            if isinstance(self, Index):
                return Index(s, self.target, ("at", self.prov, i.prov))
            return Lane(s, self.val, ("at", self.prov, ("where", i.prov)))
        raise Unsupported("selection from a symbolic array")

    __getitem__ = _pyvc_get

    def __setitem__(self, i, v):
        if isinstance(self, Index):
            raise Unsupported("change of an index array")
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if isinstance(i, slice) and i == slice(None) or i is Ellipsis:
            s, p = self.space, ("all",)
        elif isinstance(i, Index):
            if i.target is not self.space:
                raise Unsupported("index array of another array")
            s, p = i.space, i.prov
        elif isinstance(i, Lane) and i.dtype is bool:
            if i.space is not self.space:
                raise Unsupported("mask of another array")
            s, p = self.space.sub(i), ("where", i.prov)
        else:
            raise Unsupported("assignment to part of a symbolic array")
        if isinstance(v, Lane):
            if v.space is not s:
                raise Unsupported("assignment of an array of another length")
            x = v.val
        elif issym(v) or isinstance(v, (int, float, _np.number, _np.bool_)):
            x = v
        else:
            raise Unsupported("assignment to part of a symbolic array")
        self.prov = ("set", self.prov, p, prov(v))
        self.fn = None
        if s.present:
            self.val = _cast(x, self.dtype)

    # -- methods
    def astype(self, dtype, **k):
        return self.map(lambda v: _cast(v, dtype), ("as", str(dtype)), dtype=dtype)

    def copy(self):
        return self.map(lambda v: v, "copy", dtype=self.dtype)

    def ravel(self):
        return self

    flatten = ravel

    def nonzero(self):
        return where(self)

    def _any(self, isany):
        e = core.eng()
        if e.choose("lanes") == 0:
            # settled by some entry
            return isany
        if self.space.present:
            e.assume(neg(_truth(self.val)) if isany else _truth(self.val))
        return not isany

    def any(self):
        if self.space.present and e_entails(_truth(self.val)):
            return True
        return self._any(True)

    def all(self):
        if self.space.present and e_entails(neg(_truth(self.val))):
            return False
        return self._any(False)

    def item(self, *a):
        raise Unsupported("entry of a symbolic array")

    def tolist(self):
        return self._pyvc_iter()

    def _refuse(self, *a, **k):
        raise Unsupported("operation that mixes the entries of a symbolic array")

    sum = min = max = sort = argsort = argmin = argmax = cumsum = mean = reshape = _refuse


def e_entails(c):
    return core.eng().entails(c) if issym(c) else bool(c)


class Index(Lane):
    """Indices, into arrays over the target space, of the entries of a subspace."""

    def __init__(self, space, target, prov):
        self.target = target
        super().__init__(space, None, prov, dtype=int)

    def map(self, *a, **k):
        raise Unsupported("arithmetic with indices")

    def _bin(self, *a):
        raise Unsupported("arithmetic with indices")


class Table:
    """An array made from a list: element i is get(i)."""
    __array_ufunc__ = None
    __hash__ = None
    dtype = None

    def __init__(self, n, get, prov, lst=None):
        self.n, self.get, self.prov, self.lst = n, get, prov, lst

    def map(self, f, tag, dtype=None):
        g = self.get
        return Table(self.n, lambda i: f(g(i)), (tag, self.prov))

    def _bin(self, op, other, tag):
        g = self.get
        if isinstance(other, Table):
            if not (self.n is other.n or issym(self.n) and issym(other.n) and z3.eq(self.n.z, other.n.z)):
                raise Unsupported("arithmetic between arrays of different lengths")
            h = other.get
            return Table(self.n, lambda i: op(g(i), h(i)), (tag, self.prov, other.prov))
        if isinstance(other, Lane) or not (issym(other) or isinstance(other, (int, float, _np.number))):
            raise Unsupported("arithmetic between arrays of different lengths")
        return Table(self.n, lambda i: op(g(i), other), (tag, self.prov, prov(other)))

    def __neg__(self):
        return self.map(operator.neg, "neg")

    def _pyvc_len(self):
        return self.n

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    def astype(self, dtype, **k):
        return self.map(lambda v: _cast(v, dtype), ("as", str(dtype)))

    def copy(self):
        return self

    def _pyvc_iter(self):
        return loops.SymSeq(self.n, self.get)

    def at(self, i):
        e = core.eng()
        if e.decide(truth(conj(i >= 0, i < self.n))):
            return self.get(i)
        if e.decide(truth(conj(i < 0, i >= -self.n))):
            return self.get(i + self.n)
        raise IndexError("index %s is out of bounds for axis 0" % (i,))

    def _pyvc_get(self, i):
        if isinstance(i, Index):
            raise Unsupported("positions used as table indices")
        if isinstance(i, Lane):
            if i.dtype is bool:
                raise Unsupported("mask of another array")
            return Lane(i.space, self.at(i.val) if i.space.present else None, ("table", self.prov, i.prov))
        if isinstance(i, slice):
            if self.lst is None:
                raise Unsupported("slice of a computed table")
            return table(self.lst._pyvc_get(i))
        return self.at(i)

    __getitem__ = _pyvc_get

    def cumsum(self, *a, **k):
        return cumsum(self)

    def sum(self):
        from . import rt
        if self.lst is None:
            raise Unsupported("sum of a computed table")
        return rt.b_sum(self.lst)

    def tolist(self):
        return self.lst if self.lst is not None else self._pyvc_iter()

    def __setitem__(self, i, v):
        raise Unsupported("change of a table")

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous.")


_BOOLEAN = ("lt", "le", "gt", "ge", "eq", "ne", "and", "or", "xor", "rand", "ror", "rxor", "logical_and", "logical_or",
            "rlogical_and", "rlogical_or")
_OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv,
        "floordiv": operator.floordiv, "mod": operator.mod, "lt": operator.lt, "le": operator.le,
        "gt": operator.gt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne,
        "and": lambda a, b: conj(_b(a), _b(b)), "or": lambda a, b: disj(_b(a), _b(b)), "pow": operator.pow,
        "xor": lambda a, b: ite(_b(a), neg(_b(b)), _b(b))}


def _b(a):
    if isinstance(a, (SymBool, bool, _np.bool_)):
        return a
    raise Unsupported("bit operation on integers")


def _nozero(op, tag):
    """numpy does not raise for a zero divisor."""
    def f(a, b):
        try:
            return op(a, b)
        except ZeroDivisionError:
            raise Unsupported("division by zero in an array")
    return f if tag in ("truediv", "floordiv", "mod") else op


for _cls in (Lane, Table):
    for _t, _op in _OPS.items():
        _op = _nozero(_op, _t)

        def _f(self, other, _op=_op, _t=_t):
            return self._bin(_op, other, _t)
        setattr(_cls, "__%s__" % _t, _f)
        if _t in ("add", "sub", "mul", "truediv", "floordiv", "mod", "and", "or", "pow", "xor"):
            def _r(self, other, _op=_op, _t=_t):
                return self._bin(lambda a, b: _op(b, a), other, "r" + _t)
            setattr(_cls, "__r%s__" % _t, _r)

            def _i(self, other, _op=_op, _t=_t):
                r = self._bin(_op, other, _t)
                if isinstance(r, Lane):
                    # in place: the same object, its own type
                    self.val, self.prov, self.fn = _cast(r.val, self.dtype), r.prov, None
                    return self
                return r
            setattr(_cls, "__i%s__" % _t, _i)


# -------------------------------------------------------------- functions
def _ours(x):
    return isinstance(x, (Lane, Table, loops.VList, loops.SymSeq, loops.VSlice, loops.VIter)) or issym(x)


def table(x, dtype=None):
    """Array of a (symbolic) list."""
    if isinstance(x, (Lane, Table)):
        return x
    if isinstance(x, loops.VIter):
        x = x.lst
    if isinstance(x, loops.VSlice):
        x = x.seq()
    if isinstance(x, loops.SymSeq):
        x = loops.VList(loops.parts_of(x))
    if isinstance(x, loops.VList) and x.symbolic:
        t = Table(x._pyvc_len(), lambda i: x._get_in(x.parts, i), ("list", x.serial), x)
        if dtype is not None and _isint(dtype):
            if _np.dtype(dtype).itemsize < 4:
                raise Unsupported("short integers")
        return t.astype(dtype) if dtype is not None and not _isint(dtype) else t
    raise Unsupported("array of symbolic values")


def cumsum(t, *a, **k):
    """Running sums: of a list of numbers followed by one symbolic stretch."""
    from . import rt
    t = table(t)
    lst = t.lst if isinstance(t, Table) else None
    if lst is None or lst.writes or lst.sorted_by:
        raise Unsupported("running sum")
    head = []
    while len(head) < len(lst.parts) and not isinstance(lst.parts[len(head)], loops.Seg):
        head.append(lst.parts[len(head)])
    if len(lst.parts) != len(head) + 1:
        raise Unsupported("running sum")
    ps = rt.cum_of(lst.parts[-1])
    m = len(head)

    def get(i):
        e = core.eng()
        tot = 0
        for j, v in enumerate(head):
            tot = tot + v
            if e.decide(truth(i == j)):
                return tot
        return tot + rt.cum(ps, i - m + 1)
    return Table(t.n, get, ("cumsum", t.prov))


def insert(t, i, v, *a):
    t = table(t)
    if not isinstance(t, Table) or t.lst is None or issym(i) or i != 0 or a:
        raise Unsupported("insertion into an array")
    return table(loops.VList([v] + loops.parts_of(t.lst)))


def concatenate(xs, *a, **k):
    v = loops.VList()
    for x in loops.parts_of(xs):
        if isinstance(x, Table):
            x = x.lst
        if x is None or isinstance(x, Lane):
            raise Unsupported("concatenation of symbolic arrays")
        v.extend(x)
    return table(v)


def where(c, *a):
    if not a:
        if not isinstance(c, Lane):
            raise Unsupported("where")
        if c.dtype is not bool:
            c = c != 0
        s = c.space.sub(c)
        return (Index(s, c.space, ("where", c.prov)),)
    x, y = a
    sp = [v for v in (c, x, y) if isinstance(v, Lane)]
    if not sp:
        return ite(c, x, y)
    s = sp[0].space
    if any(v.space is not s for v in sp):
        raise Unsupported("where on arrays of different lengths")
    vals = [v.val if isinstance(v, Lane) else v for v in (c, x, y)]
    r = None
    if s.present:
        r = vals[1] if bool(_truth(vals[0])) else vals[2]
    isf = any((v.dtype if isinstance(v, Lane) else _kind(v)) is float for v in (x, y))
    return Lane(s, _cast(r, float) if isf else r, ("where3", prov(c), prov(x), prov(y)))


def _full(n, v, dtype):
    s = of_length(n)
    dtype = dtype or _kind(v)
    return Lane(s, _cast(v, dtype), ("full", prov(v)), fn=lambda i: v, dtype=dtype)


def _symn(n):
    return issym(n) or isinstance(n, tuple) and any(issym(x) for x in n)


def full(n, v, dtype=None, **k):
    return _full(n, v, dtype) if _symn(n) else _np.full(n, v, dtype, **k)


def zeros(n, dtype=float, **k):
    return _full(n, 0, dtype) if _symn(n) else _np.zeros(n, dtype, **k)


def ones(n, dtype=float, **k):
    return _full(n, 1, dtype) if _symn(n) else _np.ones(n, dtype, **k)


def empty(n, dtype=float, **k):
    if not _symn(n):
        return _np.empty(n, dtype, **k)
    e = core.eng()
    return _full(n, e.fresh_int("empty") if _isint(dtype) else e.fresh_real("empty"), dtype)


def _like(v):
    def f(a, *args, dtype=None, **k):
        if not isinstance(a, Lane):
            return getattr(_np, {0: "zeros_like", 1: "ones_like"}.get(v, "full_like"))(a, *args, **({"dtype": dtype} if dtype else {}), **k)
        x = args[0] if v is None else v
        if v is not None and args:
            dtype = args[0]
        dtype = dtype or a.dtype
        return Lane(a.space, _cast(x, dtype), ("full", prov(x)), dtype=dtype)
    return f


def arange(*a, **k):
    if len(a) == 1 and issym(a[0]):
        s = of_length(a[0])
        return Index(s, s, ("arange",))
    return _np.arange(*a, **k)


def array(x, dtype=None, **k):
    if isinstance(x, (Lane, Table)):
        r = x.copy()
        return r.astype(dtype) if dtype is not None else r
    if isinstance(x, (loops.VList, loops.SymSeq, loops.VSlice, loops.VIter)):
        if isinstance(x, loops.VList) and not x.symbolic or isinstance(x, loops.SymSeq) and not issym(x.n):
            p = loops.parts_of(x)
            if any(issym(v) or isinstance(v, (tuple, list)) for v in p):
                return _np.array(p, dtype=object)
            return _np.array(p, dtype=dtype, **k)
        return table(x, dtype)
    return _np.array(x, dtype=dtype, **k)


def atleast_1d(x):
    if isinstance(x, (Lane, Table)):
        return x
    if _ours(x):
        return array(x)
    return _np.atleast_1d(x)


def asarray(x, dtype=None, **k):
    if isinstance(x, (Lane, Table)):
        return x.astype(dtype) if dtype is not None and not (dtype in (float, _np.float64)) else x
    return array(x, dtype) if _ours(x) else _np.asarray(x, dtype, **k)


def _u1(name, f):
    real = getattr(_np, name)

    def g(x, *a, **k):
        x = _scal(x)
        if isinstance(x, (Lane, Table)):
            return x.map(lambda v: f(v), name)
        if issym(x):
            return f(x)
        return real(x, *a, **k)
    return g


def _u2(name, f):
    real = getattr(_np, name)

    def g(x, y, *a, **k):
        x, y = _scal(x), _scal(y)
        if isinstance(x, (Lane, Table)):
            return x._bin(f, y, name)
        if isinstance(y, (Lane, Table)):
            return y._bin(lambda p, q: f(q, p), x, "r" + name)
        if issym(x) or issym(y):
            return f(x, y)
        return real(x, y, *a, **k)
    return g


def clip(x, lo, hi, *a, **k):
    def f(v):
        if lo is not None:
            v = loops.maximum(v, lo)
        return loops.minimum(v, hi) if hi is not None else v
    if isinstance(x, (Lane, Table)):
        if any(isinstance(b, (Lane, Table)) for b in (lo, hi)):
            raise Unsupported("clip by an array")
        return x.map(f, ("clip", prov(lo), prov(hi)))
    if issym(x) or issym(lo) or issym(hi):
        return f(x)
    return _np.clip(x, lo, hi, *a, **k)


def _red(name):
    real = getattr(_np, name)

    def g(x, *a, **k):
        if isinstance(x, Lane):
            return getattr(x, name)()
        if isinstance(x, Table) and name == "sum":
            return x.sum()
        return real(x, *a, **k)
    return g


def _sel(name, f):
    real = getattr(_np, name)

    def g(*a, **k):
        if any(_ours(x) or isinstance(x, (list, tuple)) and any(_ours(y) for y in x) for x in a):
            return f(*a, **k)
        return real(*a, **k)
    return g


def _flo(v):
    r = core.py_floor(v)
    return SymReal(core.toreal(r.z)) if issym(r) else float(r)


def install(shims, Shim):
    import math
    from . import rt
    deg, rad = math.pi/180.0, 180.0/math.pi
    over = dict(
        isfinite=isfinite, isnan=isnan, full=full, zeros=zeros, ones=ones, empty=empty, arange=arange,
        zeros_like=_like(0), ones_like=_like(1), full_like=_like(None), array=array, asarray=asarray,
        atleast_1d=atleast_1d, clip=clip, where=_sel("where", where), cumsum=_sel("cumsum", cumsum),
        insert=_sel("insert", insert), concatenate=_sel("concatenate", concatenate),
        flatnonzero=_sel("flatnonzero", lambda c: where(c)[0]), nonzero=_sel("nonzero", where),
        any=_red("any"), all=_red("all"), sum=_red("sum"),
        deg2rad=_u1("deg2rad", lambda v: v*deg), radians=_u1("radians", lambda v: v*deg),
        rad2deg=_u1("rad2deg", lambda v: v*rad), degrees=_u1("degrees", lambda v: v*rad),
        floor=_u1("floor", _flo), abs=_u1("abs", abs), absolute=_u1("absolute", abs),
        logical_not=_u1("logical_not", lambda v: neg(_truth(v))),
        sin=_u1("sin", lambda v: rt.math.sin(v)), cos=_u1("cos", lambda v: rt.math.cos(v)),
        sqrt=_u1("sqrt", lambda v: rt.math.sqrt(v)),
        logical_and=_u2("logical_and", _OPS["and"]), logical_or=_u2("logical_or", _OPS["or"]),
        minimum=_u2("minimum", loops.minimum), maximum=_u2("maximum", loops.maximum),
        add=_u2("add", operator.add), subtract=_u2("subtract", operator.sub), multiply=_u2("multiply", operator.mul),
    )
    for n in ("mod", "remainder", "fmod_", "divide", "true_divide", "floor_divide"):
        f = {"mod": "mod", "remainder": "mod", "divide": "truediv", "true_divide": "truediv",
             "floor_divide": "floordiv"}.get(n)
        if f:
            over[n] = _u2(n, _nozero(_OPS[f], f))
    shims["numpy"] = Shim(_np, **over)


def lift_array(o):
    """A concrete array indexed by a symbolic number."""
    return loops.VList(list(o))
