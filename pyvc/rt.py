"""Run-time support called by instrumented code.  On ordinary values every function
behaves as the construct it replaces."""
import builtins
import itertools as _it
import math as _math
import numbers as _numbers
import sys
import types

import z3

from . import core, loops
from .core import (Unsupported, Restart, PathEnd, Sym, SymInt, SymReal, SymBool, issym, lift, conj, disj, neg,
                   truth, ite)
from .loops import (VList, VIter, VSlice, SymSeq, SymRange, Seg, FnSeg, SumSeg, UNBOUND, Loop, LoopIter, iter_of,
                    parts_of, equal)

slice = builtins.slice


def eng():
    return core.ENG


def ours(obj):
    m = type(obj).__module__ or ""
    return m.startswith("lsst.skymap") or m.startswith("props")


# ---------------------------------------------------------------- constructs
def mklist(items=()):
    return VList(items)


def viter(lst):
    return VIter(lst if isinstance(lst, VList) else VList(list(lst)))


def mkdict(pairs):
    if isinstance(pairs, VList) and not pairs.symbolic and not any(_symkey(p[0]) for p in pairs.parts):
        return dict(pairs.parts)
    return VDict(pairs)


def _symkey(k):
    if issym(k) or hasattr(k, "_pyvc_key"):
        return True
    return isinstance(k, tuple) and any(_symkey(x) for x in k)


def mark(q):
    e = core.ENG
    if e is not None:
        e.functions.add(q)


def unbound(n):
    return (UNBOUND,)*n


def contains(x, c):
    m = getattr(c, "_pyvc_contains", None)
    if m is not None:
        return m(x)
    if isinstance(c, VIter):
        return c.lst._pyvc_contains(x)
    if isinstance(c, (tuple, list, set, frozenset)) and (issym(x) or any(issym(y) for y in c) or
                                                         isinstance(x, tuple)):
        res = False
        for y in c:
            res = disj(res, equal(x, y))
        return res
    if isinstance(c, range) and issym(x):
        return SymRange(c.start, c.stop, c.step)._pyvc_contains(x)
    if isinstance(c, dict) and _symkey(x):
        res = False
        for y in c:
            res = disj(res, equal(x, y))
        return res
    if ours(c):
        m = getattr(type(c), "__contains__", None)
        if m is not None:
            return m(c, x)
        res = False
        for y in parts_of(c):
            if isinstance(y, Seg):
                raise Unsupported("membership in a symbolic container")
            res = disj(res, equal(x, y))
        return res
    return x in c


def not_(x):
    return neg(x) if issym(x) else not x


def getitem(o, i):
    m = getattr(o, "_pyvc_get", None)
    if m is not None:
        return m(i)
    if issym(i):
        if isinstance(o, (list, tuple, range)):
            return VList(list(o))._pyvc_get(i)
        if isinstance(o, dict):
            for k, v in o.items():
                if isinstance(k, (int, float)) and eng().decide(truth(k == i)):
                    return v
            raise KeyError(i)
        if type(o).__name__ == "ndarray":
            from . import arr
            return arr.lift_array(o)._pyvc_get(i)
    if isinstance(o, dict) and (hasattr(i, "_pyvc_key")):
        raise KeyError(i)
    if isinstance(i, VList):
        i = list(i) if not i.symbolic else i
    return o[i]


class _Shown:
    def __init__(self, v):
        self.v = v


def _plain(v):
    if issym(v):
        return core.shown(v)
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(_plain(x) for x in v)
    return v


def mod(a, b):
    if isinstance(a, str):
        import re
        if isinstance(b, tuple) and any(issym(x) for x in b) or issym(b):
            a = re.sub(r"%[-+ 0#]*\d*(\.\d+)?[a-zA-Z]", "%s", a)
            b = tuple(_plain(x) for x in b) if isinstance(b, tuple) else _plain(b)
        try:
            return a % b
        except (Unsupported, TypeError):
            if isinstance(b, tuple):
                a = re.sub(r"%[-+ 0#]*\d*(\.\d+)?[a-zA-Z]", "%s", a)
                return a % tuple("?" for _ in b)
            return a
    return a % b


def attr_set(obj, name):
    e = core.ENG
    if e is None or not e.loopstack:
        return
    d = getattr(obj, "__dict__", None)
    if d is None or name not in d:
        return
    for l in e.loopstack:
        if l.taking:
            if id(obj) in l.deep():
                ok = e.memo.get("attr_ok")
                if ok is not None and ok(obj, name):
                    continue
                raise Unsupported("loop %s assigns attribute %s of an outer object" % (l.lid, name))


def starcall(f, pos, starred, **kw):
    if isinstance(starred, VList) and starred.symbolic or isinstance(starred, (SymSeq, VSlice)) \
            and issym(loops_len(starred)):
        m = getattr(f, "_pyvc_star", None)
        if m is None:
            raise Unsupported("call with a symbolic number of arguments")
        return m(pos, starred, **kw)
    return f(*pos, *b_iter(starred), **kw)


def loops_len(x):
    return x._pyvc_len()


# -------------------------------------------------------------------- loops
class NativeWhile:
    def __init__(self, lid):
        self.lid = lid
        self.count = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.count += 1
        e = core.ENG
        if self.count > 100000:
            raise Unsupported("loop %s does not terminate" % self.lid)
        self.mark = getattr(e, "symbolic_decisions", 0) if e is not None else 0
        return None


def while_iter(lid):
    e = core.ENG
    if e is not None and lid in e.cutloops:
        return LoopIter(Loop(lid, "while", None))
    return NativeWhile(lid)


def while_cond(it, c):
    e = core.ENG
    b = bool(c)
    if isinstance(it, NativeWhile):
        if e is not None and getattr(e, "symbolic_decisions", 0) != it.mark:
            e.cutloops.add(it.lid)
            raise Restart("while loop %s" % it.lid)
        return b
    if it.loop.taking and not b:
        raise PathEnd()
    if not it.loop.taking and b:
        raise PathEnd()
    return b


def seq_of(obj):
    """SymSeq for a symbolic iterable, or None."""
    if isinstance(obj, VSlice):
        obj = obj.seq()
    if isinstance(obj, VIter):
        if not obj.lst.symbolic:
            return None
        if obj.pos:
            raise Unsupported("partly consumed symbolic iterator")
        obj = obj.lst
    if isinstance(obj, SymSeq):
        return obj if issym(obj.n) else None
    if isinstance(obj, VList):
        if not obj.symbolic:
            return None
        if obj.sorted_by:
            raise Unsupported("iteration over a symbolically sorted list")
        if obj.writes:
            return SymSeq(obj._pyvc_len(), obj._pyvc_get)
        if all(not isinstance(p, Seg) or (isinstance(p.count(), int) and p.count() == 1) for p in obj.parts):
            parts = list(obj.parts)
            return SymSeq(obj._pyvc_len(), lambda i: obj._get_in(parts, i))
        n = obj._pyvc_len()
        parts = list(obj.parts)

        def elem(i):
            return loops._pick(parts, "iter")[0]
        return SymSeq(n, elem, tag="picked")
    return None


def for_iter(obj, lid):
    r = iter_of(obj)
    s = seq_of(r)
    if s is not None:
        return LoopIter(Loop(lid, "for", s))
    if isinstance(r, SymSeq):
        return iter([r.elem(i) for i in range(r.n)])
    if isinstance(r, VList):
        e = core.ENG
        if e is not None and e.memo.get("cut_small") and len(r.parts) > 1:
            # cut like any other loop: what an arbitrary iteration does, instead of all combinations
            return LoopIter(Loop(lid, "for", SymSeq(SymInt(z3.IntVal(len(r.parts))), r._pyvc_get)))
        return iter(r)
    if hasattr(r, "_pyvc_tolist"):
        return for_iter(r._pyvc_tolist(), lid)
    return iter(r)


def is_cut(it):
    return isinstance(it, LoopIter)


def enter(it, values, carried):
    if "*nonlocal*" in carried:
        raise Unsupported("loop assigns a nonlocal variable")
    for c in carried:
        values.setdefault(c, UNBOUND)
    return loops.enter(it.loop, values, carried)


def finish(it, values):
    if isinstance(it, LoopIter):
        loops.finish(it.loop, values)


def leave(it):
    if isinstance(it, LoopIter) and it.loop.taking:
        e = core.ENG
        if e is not None and it.loop in e.loopstack:
            while e.loopstack and e.loopstack[-1] is not it.loop:
                e.loopstack.pop()
            if e.loopstack:
                e.loopstack.pop()
        it.loop.left = True


# ----------------------------------------------------------------- builtins
def b_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if issym(x):
            return core.py_int(x)
        if hasattr(x, "_pyvc_scalar"):
            return b_int(x._pyvc_scalar())
        for m in ("__int__", "__index__", "__trunc__"):
            f = getattr(type(x), m, None)
            if f is not None and not isinstance(x, (int, float, str, bytes)) and \
                    (type(x).__module__ or "").startswith(("standin", "lsst.skymap", "props")):
                return b_int(f(x))
    return int(*a, **k)


def b_float(*a):
    if len(a) == 1:
        x = a[0]
        if issym(x):
            return SymReal(core.toreal(core._num(x.z)))
        if hasattr(x, "_pyvc_scalar"):
            return b_float(x._pyvc_scalar())
        if (type(x).__module__ or "").startswith(("standin", "lsst.skymap", "props")):
            return b_float(type(x).__float__(x))
    return float(*a)


def b_bool(*a):
    if len(a) == 1 and issym(a[0]):
        return SymBool(truth(a[0]))
    return bool(*a)


def b_len(x):
    m = getattr(x, "_pyvc_len", None)
    if m is not None:
        return m()
    if ours(x) and not isinstance(x, (tuple, list, dict)):
        m = getattr(type(x), "__len__", None)
        if m is not None:
            return m(x)
    return len(x)


def b_range(*a):
    a = [x._pyvc_scalar() if hasattr(x, "_pyvc_scalar") else x for x in a]
    if any(issym(x) for x in a):
        if any(isinstance(x, SymReal) for x in a):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if len(a) == 1:
            return SymRange(0, a[0])
        return SymRange(*a)
    return range(*a)


def b_sum(it, start=0):
    if not isinstance(it, VSlice):
        it = iter_of(it)
    if isinstance(it, VSlice):
        lst = it.lst
        if not lst.writes and not lst.sorted_by and len(lst.parts) == 1 and isinstance(lst.parts[0], (SumSeg, FnSeg)):
            n = it._pyvc_len()
            ps = cum_of(lst.parts[0])
            hi = ite(it.hi >= it.lo, it.hi, it.lo)
            return start + cum(ps, hi) - cum(ps, it.lo)
        it = it.seq()
    if isinstance(it, VIter):
        it = it.lst
    if isinstance(it, VList) and it.symbolic:
        if it.writes:
            raise Unsupported("sum of a list with symbolic writes")
        tot = start
        for p in it.parts:
            if isinstance(p, Seg):
                ps = cum_of(p)
                tot = tot + cum(ps, p.n)
            else:
                tot = tot + p
        return tot
    if isinstance(it, SymSeq):
        if issym(it.n):
            raise Unsupported("sum of a symbolic sequence")
        it = [it.elem(i) for i in range(it.n)]
    tot = start
    for x in it:
        tot = tot + x
    return tot


def cum_of(seg):
    if not isinstance(seg, SumSeg):
        raise Unsupported("sum over this list")
    return seg.cum()


def cum(ps, i):
    return SymInt(ps.fn(z3.simplify(loops.zint(i))))


def _numlike(x):
    return issym(x) or isinstance(x, (int, float)) or type(x).__module__ == "numpy"


def _minmax(args, key, default, largest):
    if len(args) == 1:
        it = iter_of(args[0])
        if isinstance(it, VIter):
            it = it.lst
        if seq_of(it) is not None or isinstance(it, VList) and it.symbolic:
            return loops.extremum(it, key, largest)
        items = parts_of(it)
    else:
        items = list(args)
    if not items:
        if default is not _MISSING:
            return default
        raise ValueError("max() iterable argument is empty")
    kf = key or (lambda v: v)
    best = items[0]
    if key is None and all(_numlike(x) for x in items):
        for x in items[1:]:
            best = loops.maximum(best, x) if largest else loops.minimum(best, x)
        return best
    for x in items[1:]:
        if (kf(x) > kf(best)) if largest else (kf(x) < kf(best)):
            best = x
    return best


_MISSING = object()


def b_min(*a, key=None, default=_MISSING):
    return _minmax(a, key, default, False)


def b_max(*a, key=None, default=_MISSING):
    return _minmax(a, key, default, True)


def b_abs(x):
    return abs(x)


def b_round(x, n=None):
    if issym(x):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


def b_enumerate(it, start=0):
    r = iter_of(it)
    s = seq_of(r)
    if s is not None:
        el = s.elem
        return SymSeq(s.n, lambda i: (i + start, el(i)))
    if isinstance(r, (VList, VIter)):
        r = parts_of(r)
    elif isinstance(r, SymSeq):
        r = parts_of(r)
    if issym(start):
        return [(start + i, x) for i, x in enumerate(r)]
    return enumerate(r, start)


def b_zip(*its, strict=False):
    rs = [iter_of(i) for i in its]
    ss = [seq_of(r) for r in rs]
    if any(s is not None for s in ss):
        seqs = []
        for r, s in zip(rs, ss):
            if s is None:
                p = list(parts_of(r)) if not isinstance(r, range) else list(r)
                s = SymSeq(len(p), lambda i, p=p: VList(p)._pyvc_get(i))
            seqs.append(s)
        n = seqs[0].n
        for s in seqs[1:]:
            n = n if (n is s.n or (issym(n) and issym(s.n) and z3.eq(n.z, s.n.z))) else loops.minimum(n, s.n)
        return SymSeq(n, lambda i: tuple(s.elem(i) for s in seqs))
    return zip(*[parts_of(r) if isinstance(r, (VList, VIter, SymSeq)) else r for r in rs], strict=strict)


def b_reversed(x):
    s = seq_of(iter_of(x))
    if s is not None:
        if isinstance(s, SymRange):
            return SymRange(s.start + (s.n - 1)*s.step, s.start - s.step, -s.step) if s.step in (1, -1) else \
                _norev()
        n, el = s.n, s.elem
        return SymSeq(n, lambda i: el(n - 1 - i))
    if isinstance(x, (VList, VIter, SymSeq)):
        return VIter(VList(list(reversed(parts_of(x)))))
    return reversed(x)


def _norev():
    raise Unsupported("reversed range")


def b_sorted(it, key=None, reverse=False):
    v = VList(parts_of(it))
    v.sort(key=key, reverse=reverse)
    return v


def b_list(*a):
    if not a:
        return VList()
    return VList(parts_of(_dictkeys(a[0])))


def _dictkeys(x):
    return x


def b_tuple(*a):
    if not a:
        return ()
    x = a[0]
    if isinstance(x, (tuple,)) and type(x) is tuple:
        return x
    p = parts_of(x)
    if any(isinstance(y, Seg) for y in p):
        v = VList(p)
        v.is_tuple = True
        return v
    return tuple(p)


def _anyall(it, isany):
    r = iter_of(it)
    s = seq_of(r)
    if s is None:
        vals = parts_of(r) if isinstance(r, (VList, VIter, SymSeq)) else None
        if vals is None:
            # lazily, as Python does
            for x in r:
                if bool(x) == isany:
                    return isany
            return not isany
        res = not isany
        for x in vals:
            if not (issym(x) or isinstance(x, bool)):
                x = bool(x)
            res = disj(res, x) if isany else conj(res, x)
        return res
    e = eng()
    lst = r.lst if isinstance(r, VIter) else r
    if e.choose("any") == 0:
        x, _ = loops.pick(lst, "any")
        e.assume(truth(x) if isany else z3.Not(truth(x)))
        return isany
    e.foralls.append(AllElems(lst, isany))
    return not isany


class AllElems:
    """Every element is false (any) / true (all); instantiated per index."""

    def __init__(self, lst, isany):
        self.lst, self.isany = lst, isany

    def instantiate(self, i):
        e = eng()
        if isinstance(self.lst, SymSeq):
            iz = loops.zint(i)
            x = self.lst.elem(SymInt(iz))
            t = truth(x)
            e.assume(z3.Implies(z3.And(iz >= 0, iz < loops.zint(self.lst.n)), z3.Not(t) if self.isany else t))
            return
        if not isinstance(self.lst, VList):
            return
        for p in self.lst.parts:
            if isinstance(p, Seg) and not isinstance(p, loops.PrefixSeg):
                iz = loops.zint(i)
                for c, parts in p.at(i):
                    for q in parts:
                        if not isinstance(q, Seg):
                            t = truth(q)
                            e.assume(z3.Implies(z3.And(iz >= 0, iz < loops.zint(p.n), truth(c)),
                                                z3.Not(t) if self.isany else t))


def b_any(it):
    return _anyall(it, True)


def b_all(it):
    return _anyall(it, False)


def b_isinstance(x, t):
    if x is UNBOUND:
        raise Unsupported("value of a loop variable used outside its iteration")
    if isinstance(t, tuple):
        return any(b_isinstance(x, y) for y in t)
    if isinstance(x, VList):
        if t is list:
            return not getattr(x, "is_tuple", False)
        if t is tuple:
            return getattr(x, "is_tuple", False)
    if isinstance(x, (SymSeq, VSlice)):
        if t in (list, tuple):
            return True
    if isinstance(x, VDict) and t is dict:
        return True
    if isinstance(x, SymBool):
        if t in (bool, int):
            return True
    elif isinstance(x, SymInt) and t is int:
        return True
    elif isinstance(x, SymReal) and t is float:
        return True
    r = getattr(x, "_pyvc_isinstance", None)
    if r is not None:
        return r(t)
    if not isinstance(t, type) and not isinstance(t, types.UnionType):
        if t in _TYPEMAP:
            return b_isinstance(x, _TYPEMAP[t])
    return isinstance(x, t)


_TYPEMAP = {}


def b_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, VList):
            return tuple if getattr(x, "is_tuple", False) else list
        if isinstance(x, SymBool):
            return bool
        if isinstance(x, SymInt):
            return int
        if isinstance(x, SymReal):
            return float
        if isinstance(x, VDict):
            return dict
    return type(*a)


def b_divmod(a, b):
    if issym(a) or issym(b):
        return (a // b, a % b)
    return divmod(a, b)


def b_iter(*a):
    if len(a) == 1:
        r = iter_of(a[0])
        if isinstance(r, VList):
            return VIter(r)
        if isinstance(r, VIter):
            return r
        if isinstance(r, SymSeq):
            return r if issym(r.n) else iter(parts_of(r))
        return iter(r)
    return iter(*a)


def b_next(it, *d):
    if isinstance(it, VIter) and it.lst.symbolic and not it.pos and not it.lst.writes:
        # the first element: exists or the default
        return _first(it.lst, d)
    if isinstance(it, SymSeq):
        if eng().decide(truth(it.n > 0)):
            return it.elem(0)
        if d:
            return d[0]
        raise StopIteration
    return next(it, *d)


def _first(lst, d):
    if len(lst.parts) == 1:
        e = eng()
        if e.choose("first") == 0:
            x, pos = loops.pick(lst, "first")
            return x
        e.foralls.append(Empty(lst))
        e.assume(lst._pyvc_len() == 0)
        if d:
            return d[0]
        raise StopIteration
    raise Unsupported("next() of a symbolic list")


class Empty:
    def __init__(self, lst):
        self.lst = lst

    def instantiate(self, i):
        e = eng()
        for p in self.lst.parts:
            iz = loops.zint(i)
            for c, parts in p.at(i):
                if any(not isinstance(q, Seg) for q in parts):
                    e.assume(z3.Implies(z3.And(iz >= 0, iz < loops.zint(p.n)), z3.Not(truth(c))))


def b_set(*a):
    if not a:
        return set()
    p = parts_of(a[0]) if not isinstance(a[0], (set, frozenset, dict)) else list(a[0])
    if any(isinstance(x, Seg) or _symkey(x) for x in p):
        raise Unsupported("set of symbolic values")
    return set(p)


def b_frozenset(*a):
    return frozenset(b_set(*a))


def b_str(*a, **k):
    if a and issym(a[0]):
        return core.shown(a[0])
    return str(*a, **k)


def b_repr(x):
    return repr(x)


def b_hash(x):
    h = getattr(x, "_pyvc_hash", None)
    if h is not None:
        return h()
    if ours(x):
        m = getattr(type(x), "__hash__", None)
        if isinstance(m, types.FunctionType):
            return m(x)
    return hash(x)


def b_pow(a, b, *m):
    return a**b if not m else pow(a, b, *m)


def b_map(f, *its):
    if len(its) == 1:
        s = seq_of(iter_of(its[0]))
        if s is not None:
            el = s.elem
            return SymSeq(s.n, lambda i: f(el(i)))
    return VIter(VList([f(*x) for x in zip(*[parts_of(i) for i in its])]))


def b_filter(f, it):
    s = seq_of(iter_of(it))
    if s is not None:
        raise Unsupported("filter of a symbolic sequence")
    return VIter(VList([x for x in parts_of(it) if (x if f is None else f(x))]))


def b_dict(*a, **k):
    if a and isinstance(a[0], (VList, VIter, SymSeq, VSlice)):
        d = mkdict(VList(parts_of(a[0])))
        if isinstance(d, dict):
            d.update(k)
            return d
        if k:
            raise Unsupported("dict")
        return d
    if a and isinstance(a[0], VDict):
        return a[0].copy()
    return dict(*a, **k)


class VDict:
    """Dictionary with symbolic keys or symbolic size: insertion list of pairs."""

    def __init__(self, pairs):
        self.pairs = pairs if isinstance(pairs, VList) else VList(parts_of(pairs))

    def copy(self):
        return VDict(VList(parts_of(self.pairs)))

    def find(self, key):
        """value of the last pair with that key, or raises KeyError; keys assumed distinct."""
        e = eng()
        parts = self.pairs.parts
        for p in reversed(parts):
            if isinstance(p, Seg):
                if e.choose("dict") == 0:
                    i = e.fresh_int("dict_i", 0)
                    e.assume(i < p.n)
                    k, v = loops.choose_case(p.at(i))[0]
                    e.assume(equal(k, key))
                    e.live()
                    return v
                e.foralls.append(NoKey(p, key))
            elif e.decide(truth(equal(p[0], key))):
                return p[1]
        raise KeyError(key)

    def _pyvc_get(self, key):
        return self.find(key)

    __getitem__ = _pyvc_get

    def get(self, key, default=None):
        try:
            return self.find(key)
        except KeyError:
            return default

    def _pyvc_contains(self, key):
        try:
            self.find(key)
            return True
        except KeyError:
            return False

    __contains__ = _pyvc_contains

    def __setitem__(self, k, v):
        self.pairs.append((k, v))

    def _pyvc_len(self):
        return self.pairs._pyvc_len()

    def items(self):
        return self.pairs

    def values(self):
        s = seq_of(self.pairs)
        if s is None:
            return VList([v for _, v in self.pairs.parts])
        return SymSeq(s.n, lambda i: s.elem(i)[1])

    def keys(self):
        s = seq_of(self.pairs)
        if s is None:
            return VList([k for k, _ in self.pairs.parts])
        return SymSeq(s.n, lambda i: s.elem(i)[0])

    def _pyvc_iter(self):
        return self.keys()


class NoKey:
    def __init__(self, seg, key):
        self.seg, self.key = seg, key

    def instantiate(self, i):
        e = eng()
        iz = loops.zint(i)
        for c, parts in self.seg.at(i):
            for q in parts:
                if isinstance(q, tuple):
                    e.assume(z3.Implies(z3.And(iz >= 0, iz < loops.zint(self.seg.n), truth(c)),
                                        z3.Not(truth(equal(q[0], self.key)))))


# ------------------------------------------------------------------- imports
SHIMS = {}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    m = builtins.__import__(name, globals, locals, fromlist, level)
    if level == 0:
        if fromlist:
            return SHIMS.get(name, m)
        return SHIMS.get(name.split(".")[0], m)
    return m


_BD = None


def builtins_dict():
    global _BD
    if _BD is None:
        _BD = dict(builtins.__dict__)
        _BD["__import__"] = _import
    return _BD


class Shim(types.ModuleType):
    """A module whose listed functions also accept symbolic values."""

    def __init__(self, real, **over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


def _m1(f, sf):
    def g(x, *a):
        if hasattr(x, "_pyvc_scalar"):
            x = x._pyvc_scalar()
        if issym(x):
            return sf(x, *a)
        if (type(x).__module__ or "").startswith("standin"):
            return g(b_float(x), *a)
        return f(x, *a)
    g.__name__ = getattr(f, "__name__", "f")
    return g


def _unsup(n):
    def f(*a, **k):
        raise Unsupported(n)
    return f


_R = SymReal


def sym_sqrt(x):
    from .solve import SQRT
    t = core.toreal(x.z)
    if eng().decide(t < 0):
        raise ValueError("math domain error")
    r = SQRT(t)
    eng().axiom(r)
    return SymReal(r)


def sym_isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    d = abs(a - b)
    return disj(d <= abs_tol, d <= rel_tol*b_max(abs(a), abs(b)))


math = Shim(
    _math,
    floor=_m1(_math.floor, core.py_floor), ceil=_m1(_math.ceil, core.py_ceil), trunc=_m1(_math.trunc, core.py_int),
    cos=_m1(_math.cos, core.sym_cos), sin=_m1(_math.sin, core.sym_sin), sqrt=_m1(_math.sqrt, sym_sqrt),
    fabs=_m1(_math.fabs, lambda x: abs(SymReal(core.toreal(x.z)))),
    isfinite=_m1(_math.isfinite, lambda x: True), isnan=_m1(_math.isnan, lambda x: False),
    isinf=_m1(_math.isinf, lambda x: False),
    radians=_m1(_math.radians, lambda x: x*(_math.pi/180.0)),
    degrees=_m1(_math.degrees, lambda x: x*(180.0/_math.pi)),
    prod=lambda it, start=1: _prod(it, start),
    isclose=lambda a, b, **k: sym_isclose(a, b, **k) if issym(a) or issym(b) else _math.isclose(a, b, **k),
)


def _prod(it, start):
    for x in parts_of(it):
        if isinstance(x, Seg):
            raise Unsupported("product of a symbolic list")
        start = start*x
    return start


SHIMS["math"] = math


# itertools: symbolic inputs go through instrumented definitions (pylib_src)
def _lazy(name):
    def f(*a, **k):
        if any(seq_of(iter_of(x)) is not None for x in a if _iterable(x)) or any(issym(x) for x in a):
            from . import pylib
            return getattr(pylib.module(), name)(*a, **k)
        return getattr(_it, name)(*[parts_of(x) if isinstance(x, (VList, VIter, SymSeq)) else x for x in a], **k)
    return f


def _iterable(x):
    return isinstance(x, (VList, VIter, SymSeq, VSlice))


class _Chain:
    def __call__(self, *its):
        v = VList()
        for i in its:
            v.extend(i)
        return VIter(v)

    def from_iterable(self, it):
        return self(*parts_of(it))


itertools = Shim(_it, product=_lazy("product"), chain=_Chain(), repeat=_lazy("repeat"), accumulate=_lazy("accumulate"),
                 count=_it.count)
SHIMS["itertools"] = itertools

from . import arr as _arr  # noqa: E402
_arr.install(SHIMS, Shim)
from . import sph as _sph  # noqa: E402
_sph.install(SHIMS, Shim)
from . import packing as _packing  # noqa: E402
_packing.install(SHIMS, Shim)
try:
    from . import hp as _hp  # noqa: E402
    _hp.install(SHIMS, Shim)
except ImportError:
    pass
