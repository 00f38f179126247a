"""Symbolic sequences, lists and the cutting of loops by inductive invariants."""
import itertools

import z3

from . import core, solve
from .core import (Control, PathEnd, Restart, Unsupported, Sym, SymInt, SymReal, SymBool, issym, lift,
                   truth, ite, INT, REAL, BOOL)


class _Unbound:
    def __repr__(self):
        return "<unbound>"

    def __getattr__(self, name):
        raise Unsupported("value of a loop variable used outside its iteration")

    def __bool__(self):
        raise Unsupported("value of a loop variable used outside its iteration")

    __call__ = __iter__ = __getitem__ = __add__ = __radd__ = __lt__ = __eq__ = \
        lambda self, *a: _Unbound.__bool__(self)
    __hash__ = object.__hash__


UNBOUND = _Unbound()


def eng():
    return core.eng()


def zint(x):
    t = lift(x)
    if t is None:
        raise Unsupported("integer expected, got %r" % (x,))
    return core.toint(t)


# --------------------------------------------------------------- substitution
def subst(obj, pairs, memo=None):
    """obj with z3 constants replaced, through objects and containers."""
    if memo is None:
        memo = {}
    if isinstance(obj, Sym):
        return core.wrap_term(z3.substitute(obj.z, *pairs))
    if isinstance(obj, z3.ExprRef):
        return z3.substitute(obj, *pairs)
    if obj is None or isinstance(obj, (int, float, str, bytes, bool, complex, type)) \
            or callable(obj) and not hasattr(obj, "_pyvc_subst"):
        return obj
    i = id(obj)
    if i in memo:
        return memo[i][0]
    if isinstance(obj, tuple):
        vals = [subst(v, pairs, memo) for v in obj]
        if all(a is b for a, b in zip(vals, obj)):
            return obj
        return tuple(vals) if type(obj) is tuple else type(obj)(*vals)
    if hasattr(obj, "_pyvc_subst"):
        r = obj._pyvc_subst(pairs, memo)
        memo[i] = (r, obj)
        return r
    if isinstance(obj, list):
        r = []
        memo[i] = (r, obj)
        r.extend(subst(v, pairs, memo) for v in obj)
        if all(a is b for a, b in zip(r, obj)):
            memo[i] = (obj, obj)
            return obj
        return r
    if isinstance(obj, dict):
        return {k: subst(v, pairs, memo) for k, v in obj.items()}
    mod = type(obj).__module__ or ""
    if not (mod.startswith("lsst.skymap") or mod.startswith("standin") or mod.startswith("props")
            or mod.startswith("pyvc") or hasattr(obj, "_pyvc_clone")):
        return obj
    # copy on difference
    new = object.__new__(type(obj))
    memo[i] = (new, obj)
    changed = False
    names = set()
    for c in type(obj).__mro__:
        names.update(getattr(c, "__slots__", ()) if not isinstance(getattr(c, "__slots__", ()), str)
                     else (c.__slots__,))
    for nme in names:
        if hasattr(obj, nme):
            v = getattr(obj, nme)
            w = subst(v, pairs, memo)
            changed |= w is not v
            object.__setattr__(new, nme, w)
    for nme, v in getattr(obj, "__dict__", {}).items():
        w = subst(v, pairs, memo)
        changed |= w is not v
        new.__dict__[nme] = w
    if not changed:
        memo[i] = (obj, obj)
        return obj
    return new


# ------------------------------------------------------------------ sequences
class SymSeq:
    """Immutable sequence of symbolic length; elem(i) gives the element at a
    (symbolic or concrete) index known to be in range."""

    def __init__(self, n, elem, tag=None):
        self.n = n
        self.elem = elem
        self.tag = tag

    def _pyvc_len(self):
        return self.n

    def __len__(self):
        if issym(self.n):
            raise Unsupported("length of a symbolic sequence in native code")
        return self.n

    def __bool__(self):
        return bool(self.n != 0)

    def _pyvc_get(self, i):
        e = eng()
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("stepped slice")
            lo = slice_index(i.start, self.n, 0)
            hi = slice_index(i.stop, self.n, self.n)
            ln = maximum(hi - lo, 0)
            el = self.elem
            return SymSeq(ln, lambda j: el(j + lo))
        if e.decide(truth(core.conj(i >= 0, i < self.n))):
            return self.elem(i)
        if e.decide(truth(core.conj(i < 0, i >= -self.n))):
            return self.elem(i + self.n)
        raise IndexError("sequence index out of range")

    __getitem__ = _pyvc_get

    def __iter__(self):
        if not issym(self.n):
            return iter([self.elem(i) for i in range(self.n)])
        raise Unsupported("native iteration over a symbolic sequence")

    def __contains__(self, x):
        raise Unsupported("native membership in a symbolic sequence")

    def __eq__(self, other):
        if self is other:
            return True
        if not isinstance(other, (SymSeq, VList, tuple, list)):
            return NotImplemented
        raise Unsupported("comparison of symbolic sequences")

    __hash__ = object.__hash__

    def _pyvc_contains(self, x):
        """Only for sequences whose contract says how (elem_member)."""
        raise Unsupported("membership in a symbolic sequence")

    def _pyvc_subst(self, pairs, memo):
        n = subst(self.n, pairs, memo)
        el = self.elem
        return SymSeq(n, lambda i: subst(el(i), pairs), self.tag)


def slice_index(i, n, default):
    """Python's slice clamping for step 1, without forking where possible."""
    e = eng()
    if i is None:
        return default
    i = i if issym(i) else int(i)
    if e.entails(truth(i >= 0)) if issym(i) else i >= 0:
        pass
    else:
        i = ite(_c(i < 0), maximum(i + n, 0), i)
    if issym(i) or issym(n):
        if e.entails(truth(_c(i <= n))):
            return i
    return ite(_c(i <= n), i, n)


def _c(x):
    return x


def maximum(a, b):
    if not issym(a) and not issym(b):
        return max(a, b)
    c = a >= b
    return ite(c, a, b)


def minimum(a, b):
    if not issym(a) and not issym(b):
        return min(a, b)
    c = a <= b
    return ite(c, a, b)


class SymRange(SymSeq):
    def __init__(self, start, stop, step=1):
        if issym(step):
            raise Unsupported("symbolic range step")
        self.start, self.stop, self.step = start, stop, step
        e = eng()
        if step == 1:
            d = stop - start
        elif step == -1:
            d = start - stop
        elif step > 0:
            d = (stop - start + (step - 1))//step
        else:
            d = (start - stop + (-step - 1))//(-step)
        if issym(d):
            if e.entails(truth(d >= 0)):
                n = d
            else:
                n = ite(d >= 0, d, 0)
        else:
            n = max(0, d)
        super().__init__(n, lambda i: start + i*step)

    def _pyvc_contains(self, x):
        if not (issym(x) or isinstance(x, int)):
            if isinstance(x, float) and x == int(x):
                x = int(x)
            else:
                return False
        if isinstance(x, SymReal):
            raise Unsupported("real in range")
        if self.step == 1:
            return core.conj(x >= self.start, x < self.stop)
        raise Unsupported("membership in a stepped range")

    def _pyvc_subst(self, pairs, memo):
        return SymRange(subst(self.start, pairs, memo), subst(self.stop, pairs, memo), self.step)


# ----------------------------------------------------------------- list parts
class Seg:
    """A stretch of a list: for i in [0, n), one of the cases."""

    def __init__(self, n):
        self.n = n

    def at(self, i):
        """[(cond, parts)] for index i"""
        raise NotImplementedError

    def count(self):
        """Number of elements per index if always the same, else None."""
        raise NotImplementedError


class FnSeg(Seg):
    def __init__(self, n, elem):
        super().__init__(n)
        self.elem = elem

    def at(self, i):
        return [(True, [self.elem(i)])]

    def count(self):
        return 1

    def _pyvc_subst(self, pairs, memo):
        el = self.elem
        return FnSeg(subst(self.n, pairs, memo), lambda i: subst(el(i), pairs))


def parts_len(parts):
    tot = 0
    for p in parts:
        if isinstance(p, Seg):
            m = p.count()
            if m is None:
                return None
            tot = tot + p.n*m
        else:
            tot = tot + 1
    return tot


class SumSeg(Seg):
    """What a completed loop appended: cases over the loop counter k."""

    def __init__(self, n, k, cases, ident):
        super().__init__(n)
        self.k, self.cases, self.ident = k, cases, ident
        self.uf = None
        self.lower = None
        self._count = 0
        counts = []
        for _, parts in cases:
            counts.append(parts_len(parts))
        ok = bool(counts) and all(c is not None for c in counts)
        if ok:
            for c in counts[1:]:
                d = c - counts[0]
                if issym(d):
                    s = z3.simplify(d.z)
                    ok = ok and z3.is_int_value(s) and s.as_long() == 0
                else:
                    ok = ok and d == 0
        if ok and issym(counts[0]):
            # must not depend on k
            if any(t.eq(k) for t in solve.walk([counts[0].z])):
                ok = False
        self._count = counts[0] if ok else (0 if not cases else None)
        if not cases:
            self._count = 0
        # scalar integers: an opaque element function, definition revealed on demand
        self.scalar = bool(cases) and all(
            len(p) == 1 and isinstance(p[0], (int, SymInt)) and not isinstance(p[0], bool) for _, p in cases)
        if self.scalar:
            # the same loop over the same values appends the same numbers
            canon = z3.Int("!k")
            key = (str(zint(n).sexpr()),) + tuple(
                (tuple(z3.substitute(c, (k, canon)).sexpr() for c in cs), z3.substitute(zint(ps[0]), (k, canon)).sexpr())
                for cs, ps in cases)
            if core.ENG is not None:
                ident = self.ident = core.ENG.memo.setdefault("sumsegs", {}).setdefault(key, ident)
            self.uf = z3.Function("elem!%s" % ident, INT, INT)

    def count(self):
        return self._count

    def raw(self, i):
        iz = zint(i)
        pr = [(self.k, iz)]
        out = []
        memo = {}
        for conds, parts in self.cases:
            cs = [z3.substitute(c, *pr) for c in conds]
            out.append((SymBool(z3.And(*cs)) if cs else True, [subst(p, pr, memo) for p in parts]))
        return out

    def define(self, i):
        """The definition of the opaque element at i (a z3 formula)."""
        iz = zint(i)
        return z3.Or([z3.And(truth(c), self.uf(iz) == zint(p[0])) for c, p in self.raw(i)])

    def at(self, i):
        if self.scalar:
            iz = zint(i)
            if self.lower is not None:
                eng().assume(z3.Implies(z3.And(iz >= 0, iz < zint(self.n)), self.uf(iz) >= self.lower))
            return [(True, [SymInt(self.uf(iz))])]
        return self.raw(i)

    def _pyvc_subst(self, pairs, memo):
        if self.scalar:
            for t in solve.walk([c for cs, _ in self.cases for c in cs]):
                if any(t.eq(a) for a, _ in pairs):
                    raise Unsupported("parametrised scalar segment")
        cases = [([z3.substitute(c, *pairs) for c in cs], [subst(p, pairs, memo) for p in ps])
                 for cs, ps in self.cases]
        s = SumSeg(subst(self.n, pairs, memo), self.k, cases, self.ident)
        s.uf, s.lower = self.uf, self.lower
        return s

    # prefix sums of a scalar segment
    def cum(self):
        if not self.scalar:
            raise Unsupported("sum over a non-scalar segment")
        for ps in solve.PrefixSums.registry.values():
            if getattr(ps, "seg_ident", None) == self.ident:
                ps.lower = self.lower
                return ps
        ps = solve.PrefixSums("cum!%s" % self.ident, lambda i: self.uf(i), zint(self.n), self.lower)
        ps.seg_ident = self.ident
        return ps


class PrefixSeg(Seg):
    """What earlier iterations of a running loop appended: contents unknown."""

    def __init__(self, loop, length):
        super().__init__(loop.k)
        self.loop = loop
        self.length = length

    def at(self, i):
        raise Unsupported("reading a list that the running loop is filling")

    def count(self):
        return None


class HavocSeg(FnSeg):
    """n elements, each arbitrary subject to the class invariant of the contract."""

    def __init__(self, n, model):
        super().__init__(n, model)


class VList:
    """The list type of instrumented code."""

    def __init__(self, items=()):
        self.parts = list(items)
        self.writes = []
        self.sorted_by = None
        e = core.ENG
        if e is not None:
            e.serial += 1
            self.serial = e.serial
            self.birth = frozenset(l.ident for l in e.loopstack if l.taking)
            e.memo.setdefault("vlists", []).append(self)
        else:
            self.serial, self.birth = 0, frozenset()

    # ---- bookkeeping
    @property
    def symbolic(self):
        return bool(self.writes) or any(isinstance(p, Seg) for p in self.parts)

    def _mut(self):
        e = core.ENG
        if e is not None and e.loopstack:
            for l in e.loopstack:
                if l.taking and l.ident not in self.birth:
                    l.list_mutated(self)

    def _need(self):
        if self.symbolic:
            raise Unsupported("native use of a symbolic list")
        return self.parts

    def segs(self):
        return [p for p in self.parts if isinstance(p, Seg)]

    # ---- list interface
    def append(self, x):
        self._mut()
        self.parts.append(x)
        self.sorted_by = None

    def extend(self, it):
        self._mut()
        self.parts.extend(parts_of(it))

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __add__(self, other):
        return VList(self.parts + parts_of(other)) if not self.writes else self._nowrites()

    def __radd__(self, other):
        return VList(parts_of(other) + self.parts) if not self.writes else self._nowrites()

    def _nowrites(self):
        raise Unsupported("list with symbolic writes")

    def __mul__(self, n):
        if not issym(n):
            return VList(self.parts*int(n))
        items = self._need()
        if len(items) == 1:
            v = items[0]
            n = maximum(n, 0)
            return VList([FnSeg(n, lambda i: v)])
        raise Unsupported("symbolic repetition of a list")

    __rmul__ = __mul__

    def insert(self, i, x):
        self._mut()
        if issym(i):
            raise Unsupported("symbolic insert")
        if i == 0 and not self.writes:
            self.parts.insert(0, x)
            return
        self._need().insert(i, x)

    def pop(self, i=-1):
        self._mut()
        if issym(i):
            raise Unsupported("symbolic pop")
        return self._need().pop(i if isinstance(i, int) else i.__index__())

    def remove(self, x):
        self._mut()
        self._need().remove(x)

    def clear(self):
        self._mut()
        self.parts = []
        self.writes = []

    def reverse(self):
        self._mut()
        self._need().reverse()

    def copy(self):
        v = VList(self.parts)
        v.writes = list(self.writes)
        return v

    def index(self, *a):
        return self._need().index(*a)

    def count(self, x):
        return self._need().count(x)

    def sort(self, key=None, reverse=False):
        self._mut()
        if not self.symbolic and not any(_deepsym(p) for p in self.parts):
            self.parts.sort(key=key, reverse=reverse)
            return
        comparable(self, key)
        self.sorted_by = (key, reverse)

    def _pyvc_len(self):
        n = parts_len(self.parts)
        if n is None:
            e = eng()
            for p in self.parts:
                if isinstance(p, PrefixSeg):
                    break
            tot = 0
            for p in self.parts:
                if not isinstance(p, Seg):
                    tot = tot + 1
                    continue
                m = p.count()
                if m is not None:
                    tot = tot + p.n*m
                else:
                    key = ("seglen", id(p))
                    if key not in e.memo:
                        e.memo[key] = (e.fresh_int("seglen", 0), p)
                        if isinstance(p, SumSeg) and all(parts_len(ps) in (0, 1) for _, ps in p.cases):
                            e.assume(e.memo[key][0] <= p.n)
                    tot = tot + e.memo[key][0]
            return tot
        return n

    def __len__(self):
        n = self._pyvc_len()
        if issym(n):
            raise Unsupported("length of a symbolic list in native code")
        return n

    def __bool__(self):
        if not self.symbolic:
            return bool(self.parts)
        if any(not isinstance(p, Seg) for p in self.parts):
            return True
        n = self._pyvc_len()
        return bool(n != 0)

    def __iter__(self):
        return iter(self._need() if not self.sorted_by else self._nosorted())

    def _nosorted(self):
        raise Unsupported("order of a symbolically sorted list")

    def __reversed__(self):
        return reversed(self._need())

    def __getitem__(self, i):
        return self._pyvc_get(i)

    def _pyvc_get(self, i):
        e = core.ENG
        if isinstance(i, slice):
            if not self.symbolic and not any(issym(x) for x in (i.start, i.stop, i.step)):
                return VList(self.parts[i])
            if i.start is None and i.stop is None and i.step is None:
                return self.copy()
            if i.step not in (None, 1) or self.writes:
                raise Unsupported("slice of a symbolic list")
            return VSlice(self, i)
        if self.sorted_by:
            if i == 0 or i == -1:
                key, rev = self.sorted_by
                return extremum(self, key, (i == -1) != bool(rev))
            self._nosorted()
        if not self.symbolic and not issym(i):
            return self.parts[i if isinstance(i, int) else i.__index__()]
        n = self._pyvc_len()
        if not e.decide(truth(core.conj(i >= 0, i < n))):
            if not e.decide(truth(core.conj(i < 0, i >= -n))):
                raise IndexError("list index out of range")
            i = i + n
        for j, v in reversed(self.writes):
            if e.decide(truth(j == i)):
                return v
        return self._get_in(self.parts, i)

    def _get_in(self, parts, i):
        e = eng()
        off = 0
        if not any(isinstance(p, Seg) for p in parts):
            for j, p in enumerate(parts):
                if e.decide(truth(i == j)):
                    return p
            raise PathEnd()
        for p in parts:
            if isinstance(p, Seg):
                m = p.count()
                if m is None:
                    raise Unsupported("index into a list of unknown layout")
                ln = p.n*m
                if len(parts) == 1 or e.decide(truth(core.conj(i >= off, i < off + ln))):
                    if not issym(m) and m == 1:
                        return choose_case(p.at(i - off))[0]
                    raise Unsupported("index into a nested segment")
                off = off + ln
            else:
                if e.decide(truth(i == off)):
                    return p
                off = off + 1
        raise PathEnd()

    def __setitem__(self, i, v):
        self._mut()
        if isinstance(i, slice):
            self._need()[i] = v
            return
        if not self.symbolic and not issym(i):
            self.parts[i] = v
            return
        e = eng()
        n = self._pyvc_len()
        if not e.decide(truth(core.conj(i >= 0, i < n))):
            if not e.decide(truth(core.conj(i < 0, i >= -n))):
                raise IndexError("list assignment index out of range")
            i = i + n
        if e.memo.get("elem_inv"):
            e.memo["elem_inv"](self, i, v)
        self.writes.append((i, v))

    def __delitem__(self, i):
        self._mut()
        del self._need()[i]

    def __contains__(self, x):
        return bool(self._pyvc_contains(x))

    def _pyvc_contains(self, x):
        e = core.ENG
        if not self.symbolic:
            res = False
            for p in self.parts:
                res = core.disj(res, equal(p, x))
            return res
        if e is not None and self.writes == [] and len(self.segs()) == 1 \
                and isinstance(self.parts[0], PrefixSeg) and e.memo.get("ghost"):
            return e.memo["ghost"].member(self, x)
        raise Unsupported("membership in a symbolic list")

    def __eq__(self, other):
        if self is other:
            return True
        if isinstance(other, (VList, list)):
            if not self.symbolic and not (isinstance(other, VList) and other.symbolic):
                o = list(other)
                if len(o) != len(self.parts):
                    return False
                return core.conj(*[equal(a, b) for a, b in zip(self.parts, o)])
            raise Unsupported("comparison of symbolic lists")
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else core.neg(r)

    __hash__ = None

    def __repr__(self):
        return "VList(%s)" % ", ".join("<seg>" if isinstance(p, Seg) else repr(p) for p in self.parts[:8])

    def __reduce__(self):
        return (list, (list(self._need()),))

    def _pyvc_subst(self, pairs, memo):
        v = VList.__new__(VList)
        memo[id(self)] = (v, self)
        v.parts = [subst(p, pairs, memo) for p in self.parts]
        v.writes = [(subst(a, pairs, memo), subst(b, pairs, memo)) for a, b in self.writes]
        v.sorted_by, v.serial, v.birth = self.sorted_by, self.serial, self.birth
        if all(a is b for a, b in zip(v.parts, self.parts)):
            memo[id(self)] = (self, self)
            return self
        return v

    # numpy look-alike
    def tolist(self):
        return self


import collections.abc  # noqa: E402
collections.abc.MutableSequence.register(VList)
collections.abc.Sequence.register(SymSeq)


def _deepsym(p):
    if issym(p):
        return True
    if isinstance(p, (tuple, list)):
        return any(_deepsym(x) for x in p)
    return False


class VSlice:
    """A slice of a symbolic list."""

    def __init__(self, lst, sl):
        self.lst = lst
        n = lst._pyvc_len()
        self.lo = slice_index(sl.start, n, 0)
        self.hi = slice_index(sl.stop, n, n)

    def _pyvc_len(self):
        return maximum(self.hi - self.lo, 0)

    def _pyvc_get(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a slice")
        e = eng()
        n = self._pyvc_len()
        if e.decide(truth(core.conj(i >= 0, i < n))):
            return self.lst._pyvc_get(i + self.lo)
        if e.decide(truth(core.conj(i < 0, i >= -n))):
            return self.lst._pyvc_get(i + n + self.lo)
        raise IndexError("list index out of range")

    __getitem__ = _pyvc_get

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic slice")

    def seq(self):
        lst, lo = self.lst, self.lo
        return SymSeq(self._pyvc_len(), lambda i: lst._get_in(lst.parts, i + lo))


class VIter:
    """Iterator over an (already built) list."""

    def __init__(self, lst):
        self.lst = lst
        self.pos = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.lst.symbolic:
            raise Unsupported("native iteration over a symbolic generator")
        if self.pos >= len(self.lst.parts):
            raise StopIteration
        self.pos += 1
        return self.lst.parts[self.pos - 1]


def parts_of(it):
    if isinstance(it, VList):
        if it.writes or it.sorted_by:
            raise Unsupported("copy of a list with symbolic writes or order")
        return list(it.parts)
    if isinstance(it, VIter):
        return list(it.lst.parts[it.pos:])
    if isinstance(it, VSlice):
        it = it.seq()
    if isinstance(it, SymSeq):
        if not issym(it.n):
            return [it.elem(i) for i in range(it.n)]
        return [FnSeg(it.n, it.elem)]
    r = iter_of(it)
    if isinstance(r, (VList, VIter, SymSeq)):
        return parts_of(r)
    return list(r)


def iter_of(obj):
    """iter(obj), where instrumented __iter__ methods may return VIter."""
    if isinstance(obj, (VList, VIter, SymSeq)):
        return obj
    if isinstance(obj, VSlice):
        return obj.seq()
    m = getattr(type(obj), "__iter__", None)
    if m is not None and (type(obj).__module__ or "").startswith(("lsst.skymap", "props")):
        r = m(obj)
        if isinstance(r, (VIter, SymSeq)):
            return r
        return r
    if hasattr(obj, "_pyvc_iter"):
        return obj._pyvc_iter()
    return obj


def equal(a, b):
    """a == b as a value usable in conj/disj."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return core.conj(*[equal(x, y) for x, y in zip(a, b)])
    if a is b:
        return True
    return a == b


def choose_case(cases):
    e = eng()
    if len(cases) == 1:
        c, parts = cases[0]
        if c is not True:
            e.assume(c)
        return parts
    for c, parts in cases[:-1]:
        if e.choose("case") == 0:
            e.assume(c)
            return parts
    c, parts = cases[-1]
    e.assume(c)
    return parts


def pick(lst, label="pick"):
    """An arbitrary element of the list: (element, position or None).

    Explores every way the list can have an element."""
    e = eng()
    lst = iter_of(lst)
    if isinstance(lst, VIter):
        lst = lst.lst
    if isinstance(lst, SymSeq):
        i = e.fresh_int(label, 0)
        e.assume(i < lst.n)
        return lst.elem(i), i
    if isinstance(lst, (tuple, list)):
        lst = VList(lst)
    return _pick(lst.parts, label)


def _pick(parts, label):
    e = eng()
    if not parts:
        raise PathEnd()
    j = e.choose(label, len(parts))
    off = parts_len(parts[:j])
    p = parts[j]
    if not isinstance(p, Seg):
        return p, off
    i = e.fresh_int(label + "_i", 0)
    e.assume(i < p.n)
    sub = choose_case(p.at(i))
    el, pos = _pick(sub, label)
    m = p.count()
    if off is None or pos is None or m is None:
        return el, None
    return el, off + i*m + pos


def extremum(lst, key, largest):
    """min()/max() of a possibly symbolic list of scalars or tuples."""
    e = eng()
    lst = iter_of(lst)
    if isinstance(lst, VIter):
        lst = lst.lst
    if isinstance(lst, SymSeq):
        lst = VList(parts_of(lst))
    kf = key or (lambda v: v)
    if not largest:
        comparable(lst, key)
    w, _ = pick(lst, "extremum")

    def fact(i_parts):
        pass
    # every element is dominated by w
    e.foralls.append(Dominated(lst, kf, w, largest))
    e.memo.setdefault("extrema", []).append((lst, kf, w, largest))
    for p in lst.parts:
        if not isinstance(p, Seg):
            e.assume(dominates(kf(w), kf(p), largest))
    return w


def comparable(lst, key):
    """Ordering the elements never compares things that have no order (Python compares
    tuples up to the first difference)."""
    e = eng()
    kf = key or (lambda v: v)
    i, j = e.fresh_int("cmp", 0), e.fresh_int("cmp", 0)
    for m, p in enumerate(lst.parts):
        for q in lst.parts[m:]:
            if isinstance(p, PrefixSeg) or isinstance(q, PrefixSeg):
                raise Unsupported("ordering a list that the running loop is filling")
            xs = p.at(i) if isinstance(p, Seg) else [(True, [p])]
            ys = q.at(j) if isinstance(q, Seg) else [(True, [q])]
            if p is q and not isinstance(p, Seg):
                continue
            for c, x in xs:
                for d, y in ys:
                    hyp = [truth(c), truth(d)]
                    if isinstance(p, Seg):
                        hyp.append(zint(i) < zint(p.n))
                    if isinstance(q, Seg):
                        hyp.append(zint(j) < zint(q.n))
                    if p is q:
                        hyp.append(zint(i) != zint(j))
                    for a in x:
                        for b in y:
                            if isinstance(a, Seg) or isinstance(b, Seg):
                                raise Unsupported("ordering a nested list")
                            bad = unordered(kf(a), kf(b))
                            if bad is not False:
                                e.prove(z3.Implies(z3.And(*hyp), z3.Not(truth(bad))),
                                        "only values that have an order are compared")


def _scalar(x):
    return issym(x) or isinstance(x, (int, float, str, bytes))


def unordered(a, b):
    """When comparing a and b reaches things without an order."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        same, bad = True, False
        for x, y in zip(a, b):
            u = unordered(x, y)
            if u is not False:
                bad = core.disj(bad, core.conj(same, u))
            if not (_scalar(x) and _scalar(y) or hasattr(x, "_rad") or isinstance(x, tuple)):
                break
            same = core.conj(same, equal(x, y))
        return bad
    if _scalar(a) and _scalar(b) or hasattr(type(a), "_pyvc_ordered"):
        return False
    if type(a).__module__.startswith(("standin", "lsst.skymap", "props")) and type(a).__lt__ is not object.__lt__:
        return False
    return True


class Dominated:
    def __init__(self, lst, kf, w, largest):
        self.lst, self.kf, self.w, self.largest = lst, kf, w, largest

    def instantiate(self, i):
        """For segments indexed directly by i (one element per index)."""
        e = eng()
        for p in self.lst.parts:
            if isinstance(p, Seg):
                iz = zint(i)
                for c, parts in p.at(i):
                    for q in parts:
                        if not isinstance(q, Seg):
                            e.assume(z3.Implies(z3.And(iz >= 0, iz < zint(p.n), truth(c)),
                                                truth(dominates(self.kf(self.w), self.kf(q), self.largest))))


def dominates(a, b, largest):
    """a is at least as extreme as b (lexicographic on tuples; objects are never reached)."""
    if isinstance(a, tuple):
        res = True
        for x, y in reversed(list(zip(a, b))):
            if not _scalar(x) and type(x).__lt__ is object.__lt__:
                res = True
                continue
            lt = (x > y) if largest else (x < y)
            res = core.disj(lt, core.conj(x == y, res))
        return res
    return (a >= b) if largest else (a <= b)


# ------------------------------------------------------------------- cutting
class Loop:
    count = itertools.count()

    def __init__(self, lid, kind, seq):
        self.lid, self.kind, self.seq = lid, kind, seq
        self.taking = False
        self.touched = False
        self.k = None
        self.ident = None
        self.entry_objs = {}
        self.roots = []

    def list_mutated(self, lst):
        e = eng()
        ms = e.modset.setdefault(self.lid, set())
        key = ("list", lst.serial)
        if key not in ms:
            ms.add(key)
            raise Restart("list mutated in loop %s" % (self.lid,))

    def mutated(self, obj):
        if not self.taking:
            return
        e = eng()
        ms = e.modset.setdefault(self.lid, set())
        name = self.entry_objs.get(id(obj))
        if name is None:
            if id(obj) in self.deep():
                raise Unsupported("loop %s changes an object reached through an attribute" % (self.lid,))
            return
        key = ("obj", name)
        if key not in ms:
            ms.add(key)
            raise Restart("object %s mutated in loop" % name)

    def deep(self):
        seen = {}
        stack = list(self.roots)
        while stack and len(seen) < 4000:
            o = stack.pop()
            if o is None or isinstance(o, (int, float, str, bytes, type, Sym)) or id(o) in seen or callable(o):
                continue
            seen[id(o)] = o
            if isinstance(o, (tuple, list)):
                stack.extend(o)
            elif isinstance(o, VList):
                stack.extend(p for p in o.parts if not isinstance(p, Seg))
            elif isinstance(o, dict):
                stack.extend(o.values())
            elif (type(o).__module__ or "").startswith(("lsst.skymap", "standin", "props")):
                stack.extend(getattr(o, "__dict__", {}).values())
                for c in type(o).__mro__:
                    sl = getattr(c, "__slots__", ())
                    for nme in ((sl,) if isinstance(sl, str) else sl):
                        if hasattr(o, nme):
                            stack.append(getattr(o, nme))
        for i in self.fresh_ids:
            seen.pop(i, None)
        return seen

    fresh_ids = ()


def kind_of(v):
    if v is None:
        return "none"
    if isinstance(v, (SymBool, bool)):
        return "bool"
    if isinstance(v, (SymInt, int)) or type(v).__name__ in ("int32", "int64", "intp"):
        return "int"
    if isinstance(v, (SymReal, float)):
        return "real"
    if isinstance(v, tuple):
        return ("tuple", type(v)) + tuple(kind_of(x) for x in v)
    tn = type(v).__name__
    if tn in ("Box2D", "Angle"):
        return tn
    if v is UNBOUND:
        return "unbound"
    if isinstance(v, VList):
        return ("vlist", v.serial)
    return "object"


def havoc_kind(e, k, name):
    import standin.geom as G
    if k == "none":
        return None
    if k == "bool":
        return e.fresh_bool("h_" + name)
    if k == "int":
        return e.fresh_int("h_" + name)
    if k == "real":
        return e.fresh_real("h_" + name)
    if k == "Angle":
        return G.Angle(e.fresh_real("h_" + name))
    if k == "unbound":
        return UNBOUND
    if k == "Box2D":
        b = G.Box2D()
        havoc_box(e, b, name)
        return b
    if isinstance(k, tuple) and k[0] == "tuple":
        vals = [havoc_kind(e, x, name) for x in k[2:]]
        return tuple(vals) if k[1] is tuple else k[1](*vals)
    raise Unsupported("loop-carried variable %s of kind %s" % (name, k))


def havoc_box(e, b, name):
    if e.choose("empty_" + name) == 0:
        b._clear()
    else:
        b._lo = [e.fresh_real("h_%s_lo%d" % (name, i)) for i in range(2)]
        b._hi = [e.fresh_real("h_%s_hi%d" % (name, i)) for i in range(2)]
        # class invariant of a non-empty Box2D, kept by each of its operations
        for i in range(2):
            e.assume(b._lo[i] < b._hi[i])


class State:
    """What an invariant may talk about."""

    def __init__(self, loop, k, vals, entry):
        self.loop, self.k, self.vals, self.entry = loop, k, vals, entry
        self.n = loop.seq.n if loop.seq is not None else None

    def ints(self):
        return {n: v for n, v in self.vals.items()
                if kind_of(v) == "int"}


def default_candidates(st, e):
    out = []
    ints = st.ints()
    eints = {n: v for n, v in st.entry.items() if kind_of(v) == "int"}
    k = st.k
    for n, v in ints.items():
        if n not in eints:
            continue
        v0 = eints[n]
        out.append(("%s>=0" % n, v >= 0))
        out.append(("%s>=1" % n, v >= 1))
        out.append(("%s>=entry" % n, v >= v0))
        out.append(("%s<=entry" % n, v <= v0))
        out.append(("%s==entry+k" % n, v == v0 + k))
        out.append(("%s==entry-k" % n, v == v0 - k))
        out.append(("%s==k" % n, v == k))
        if st.n is not None:
            out.append(("%s<=n" % n, v <= st.n))
            out.append(("%s<n" % n, v < st.n))
    # prefix sums
    sums = list(solve.PrefixSums.registry.values())
    for ps in sums:
        N = SymInt(ps.length)
        for b, vb in list(ints.items()) + [("k", k)]:
            eb = eints.get(b, 0 if b == "k" else None)
            if eb is None:
                continue
            if b != "k":
                out.append(("%s<=len%s" % (b, ps.fn.name().split(".")[0]), vb <= N))
                out.append(("%s<len%s" % (b, ps.fn.name().split(".")[0]), vb < N))
            tag = ps.seg_ident.split(".")[0] if hasattr(ps, "seg_ident") else ""
            cb, cb0 = SymInt(ps.fn(zint(vb))), SymInt(ps.fn(zint(eb)))
            for a, va in ints.items():
                if a == b or a not in eints:
                    continue
                out.append(("%s+cum(%s)%s" % (a, b, tag), va + cb == eints[a] + cb0))
                out.append(("%s-cum(%s)%s" % (a, b, tag), va - cb == eints[a] - cb0))
                out.append(("%s>=cum(%s)%s" % (a, b, tag), va >= cb))
    for n, v in st.vals.items():
        if kind_of(v) == "Box2D":
            out.append(("%s nonempty after the start" % n, core.implies(k >= 1, not v.isEmpty())))
        if kind_of(v) == "real" and kind_of(st.entry.get(n)) == "real":
            out.append(("%s>=0" % n, v >= 0))
            out.append(("%s==entry" % n, v == st.entry[n]))
        if kind_of(v) == "bool" and kind_of(st.entry.get(n)) == "bool":
            out.append(("%s==entry" % n, core.conj(core.disj(v, core.neg(st.entry[n])),
                                                   core.disj(core.neg(v), st.entry[n]))))
    return out


def candidates(st, e):
    out = default_candidates(st, e)
    for t in e.templates:
        out.extend(t(st, e))
    g = e.memo.get("ghost")
    if g is not None:
        out.extend(g.candidates(st, e))
    return out


class LoopIter:
    def __init__(self, loop):
        self.loop = loop
        self.state = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.state == 0 and self.loop.taking:
            self.state = 1
            if self.loop.kind == "while":
                return None
            return self.loop.seq.elem(SymInt(self.loop.k))
        if self.loop.kind == "while" and self.state == 0:
            self.state = 1
            return None
        raise StopIteration


def mut_objects(e, loop, values):
    """Mutable stand-in objects among the locals."""
    for n, v in values.items():
        if type(v).__name__ in ("Box2D", "Box2I", "Point2I", "Point2D", "Extent2I", "Extent2D"):
            loop.entry_objs[id(v)] = n


def snapshot_box(b):
    import standin.geom as G
    c = G.Box2D()
    c._lo, c._hi = list(b._lo), list(b._hi)
    return c


def enter(loop, values, carried):
    """Loop entry: returns the values of the carried names inside / after the loop."""
    e = eng()
    if len(e.loopstack) > 6:
        raise Unsupported("loops nested too deeply")
    ms = e.modset.setdefault(loop.lid, set())
    loop.roots = list(values.values())
    mut_objects(e, loop, values)
    prefix = tuple(v for v, _ in e.decisions)
    loop.key = (loop.lid, prefix)
    kname = e._name("k@%s" % (loop.lid,))
    loop.ident = "%s.%d" % (loop.lid, abs(hash(prefix)) % 1000003)
    names = sorted(carried)
    entry = {n: values[n] for n in names}
    kinds = e.memo_kinds.setdefault(loop.lid, {})
    for n in names:
        kinds.setdefault(n, set())
        kk = kind_of(values[n])
        if kk not in kinds[n]:
            kinds[n].add(kk)
            if (loop.lid, n) in e.kinds_used:
                raise Restart("new kind of %s" % n)
    # havoced heap objects by local name
    objnames = sorted(k[1] for k in ms if k[0] == "obj")
    for n in objnames:
        if n in values and type(values[n]).__name__ != "Box2D":
            raise Unsupported("loop mutates a %s" % type(values[n]).__name__)
    entry_all = dict(entry)
    for n in objnames:
        if n in values:
            entry_all[n] = snapshot_box(values[n])
    loop.entry = entry_all
    # initiation
    st0 = State(loop, 0, {n: (values[n] if n in values else None) for n in entry_all}, entry_all)
    dropped = e.houdini.setdefault(loop.lid, set())
    used = e.houdini_used.setdefault(loop.lid, set())
    for key, c in candidates(st0, e):
        if key in dropped:
            continue
        if not e.check(c):
            dropped.add(key)
            if key in used:
                raise Restart("invariant %s" % key)
    # phase
    ph = e.fresh_bool("phase@%s" % (loop.lid,))
    take = e.decide(ph.z)
    loop.k = z3.Int("%s!%d" % (kname, abs(hash(prefix)) % 1000003))
    if take:
        loop.taking = True
        e.loopstack.append(loop)
    loop.pc0 = len(e.pc)
    new = {}
    for n in names:
        e.kinds_used.add((loop.lid, n))
        ks = sorted(kinds[n], key=str)
        if "object" in ks and set(ks) <= {"object", "unbound"}:
            # some object of an earlier iteration: any use of it is refused
            new[n] = UNBOUND
            continue
        j = e.choose("kind_" + n, len(ks)) if len(ks) > 1 else 0
        if isinstance(ks[j], tuple) and ks[j][0] == "vlist":
            # same list object, contents handled as a heap object
            cur = values[n]
            if kind_of(cur) != ks[j] or len(ks) > 1:
                raise Unsupported("loop-carried list variable %s" % n)
            new[n] = cur
        elif ks[j] == "object":
            raise Unsupported("loop-carried object %s" % n)
        else:
            new[n] = havoc_kind(e, ks[j], n)
    for n in objnames:
        if n in values:
            havoc_box(e, values[n], n)
            new.setdefault(n, values[n])
    k = SymInt(loop.k)
    e.assume(loop.k >= 0)
    if loop.seq is not None:
        nz = zint(loop.seq.n)
        if take:
            e.assume(loop.k < nz)
        else:
            e.assume(z3.And(loop.k == nz))
    loop.lists = {}
    for lst in list(e.memo.get("vlists", [])):
        if ("list", lst.serial) in ms and (not take or loop.ident not in lst.birth):
            if lst.writes or lst.sorted_by or lst.serial in e.memo.get("havoc_serials", ()):
                # indexed writes: contents become arbitrary subject to the class invariant
                model = e.memo.get("elem_model")
                if model is None:
                    raise Unsupported("loop writes list elements")
                lst.parts = [HavocSeg(lst._pyvc_len(), model)]
                lst.writes = []
                continue
            loop.lists[lst.serial] = (lst, list(lst.parts))
            if take:
                lst.parts = [PrefixSeg(loop, None)]
            else:
                cases = []
                bad = False
                for conds, logs in e.summaries.get(loop.key, []):
                    if logs.get(lst.serial) == "write":
                        bad = True
                    cases.append((conds, logs.get(lst.serial, [])))
                if bad:
                    model = e.memo.get("elem_model")
                    if model is None:
                        raise Unsupported("loop writes list elements")
                    lst.parts = [HavocSeg(lst._pyvc_len(), model)]
                    continue
                if any(parts for _, parts in cases):
                    seg = SumSeg(k, loop.k, cases, loop.ident + ".%d" % lst.serial) if loop.seq is None else \
                        SumSeg(loop.seq.n, loop.k, cases, loop.ident + ".%d" % lst.serial)
                    infer_lower(e, seg)
                    lst.parts = lst.parts + [seg]
    g = e.memo.get("ghost")
    if g is not None:
        g.enter(loop, take)
    st = State(loop, k, new, entry_all)
    for key, c in candidates(st, e):
        if key not in dropped:
            used.add(key)
            e.assume(c)
    if not take:
        # every iteration completed normally
        e.foralls.append(Completed(loop, e.summaries.get(loop.key, [])))
    e.live()
    return tuple(new[n] for n in names)


class Completed:
    def __init__(self, loop, cases):
        self.loop, self.cases = loop, cases

    def instantiate(self, i):
        e = eng()
        if not self.cases:
            return
        iz = zint(i)
        pr = [(self.loop.k, iz)]
        alts = []
        for conds, _ in self.cases:
            alts.append(z3.And([z3.substitute(c, *pr) for c in conds] or [z3.BoolVal(True)]))
        n = self.loop.seq.n if self.loop.seq is not None else None
        rng = z3.And(iz >= 0, iz < zint(n)) if n is not None else z3.BoolVal(False)
        e.assume(z3.Implies(rng, z3.Or(*alts)))


def infer_lower(e, seg):
    """Lower bound of the elements of a scalar segment, by proof."""
    if not seg.scalar:
        return
    key = ("lower", seg.ident)
    if key in e.lowers:
        seg.lower = e.lowers[key]
        return
    i = z3.Int("low!i")
    best = None
    hyp = [i >= 0, i < zint(seg.n), seg.define(SymInt(i))]
    for b in (3, 1, 0):
        st, _ = solve.prove(e.pc + hyp, seg.uf(i) >= b, 8.0)
        if st == "proved":
            best = b
            break
    e.lowers[key] = best
    seg.lower = best


def finish(loop, values):
    """End of the loop body (or, on the exit path, the loop's else)."""
    e = eng()
    if not loop.taking:
        return
    kinds = e.memo_kinds.setdefault(loop.lid, {})
    for n, v in values.items():
        if n in loop.entry:
            kk = kind_of(v)
            if kk not in kinds.setdefault(n, set()) and n not in loop.entry_objs.values():
                kinds[n].add(kk)
                raise Restart("new kind of %s" % n)
    st = State(loop, SymInt(loop.k) + 1, {n: values.get(n) for n in loop.entry}, loop.entry)
    dropped = e.houdini.setdefault(loop.lid, set())
    used = e.houdini_used.setdefault(loop.lid, set())
    restart = False
    for key, c in candidates(st, e):
        if key in dropped:
            continue
        if key not in used:
            # the state has a shape in which the candidate did not exist at the header
            continue
        if not e.check(c):
            dropped.add(key)
            restart = True
            why = key
    if restart:
        raise Restart("invariant %s" % why)
    logs = {}
    for serial, (lst, entry_parts) in loop.lists.items():
        if lst.writes:
            logs[serial] = "write"
            continue
        if not lst.parts or not isinstance(lst.parts[0], PrefixSeg) or lst.parts[0].loop is not loop:
            raise Unsupported("loop rebuilds a list it fills")
        logs[serial] = list(lst.parts[1:])
        if any(isinstance(p, PrefixSeg) for p in logs[serial]):
            raise Unsupported("loop mixes lists")
    e.summaries.setdefault(loop.key, []).append((list(e.pc[loop.pc0:]), logs))
    raise PathEnd()
