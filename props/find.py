"""Membership and repetition in symbolic result lists."""
import itertools

import z3

from pyvc import core, loops
from pyvc.core import conj, disj, neg, implies, SymInt, SymBool, truth
from pyvc.loops import Seg, zint


def as_list(res):
    r = loops.iter_of(res)
    if isinstance(r, loops.VIter):
        r = r.lst
    if isinstance(r, loops.SymSeq):
        r = loops.VList(loops.parts_of(r))
    if isinstance(r, (tuple, list)):
        r = loops.VList(list(r))
    if getattr(r, "writes", None):
        raise core.Unsupported("result with symbolic writes")
    return r


def mapped(p, f):
    """The piece of a list with f applied to its elements."""
    if not isinstance(p, Seg):
        return f(p)
    return Mapped(p, f)


class Mapped(Seg):
    def __init__(self, seg, f):
        super().__init__(seg.n)
        self.seg, self.f = seg, f

    def at(self, i):
        return [(c, [mapped(q, self.f) for q in parts]) for c, parts in self.seg.at(i)]

    def count(self):
        return self.seg.count()

    def _pyvc_subst(self, pairs, memo):
        return Mapped(loops.subst(self.seg, pairs, memo), self.f)


def holds(e, c, extra):
    """Is c implied by the path condition and extra?"""
    from pyvc import solve
    if e.heavy:
        st, _ = solve.prove(e.light() + extra, truth(c), 3.0*e.scale, want_model=False, quick=True)
        if st == "proved":
            return True
    quick = c is False      # whether a case is vacuous: usually it is not
    st, _ = solve.prove(e.pc + extra, truth(c), (1.5 if quick else 4.0)*e.scale, want_model=False, quick=quick)
    return st == "proved"


def member(e, res, key, want, name, witnesses=(), path=None):
    """One obligation: some element of the list has the wanted key (a tuple of numbers).
    path: index of it in the loop nest that made the list, if it is known (a hint)."""
    lst = as_list(res)
    wit = list(witnesses)
    r = False
    for way in [] if path is None else path if path and isinstance(path[0], list) else [path]:
        r = r or any(isinstance(p, Seg) and _at_path(e, p, key, tuple(want), [], list(way)) for p in lst.parts)
    r = r or _member(e, lst.parts, key, tuple(want), [], wit, 0)
    if r:
        e.prove(z3.BoolVal(True), name)
    else:
        e.fail(name, "no element of the result was shown to have the key")


def _at_path(e, seg, key, want, extra, path):
    if not path:
        return False
    i = SymInt(zint(path[0]))
    if not holds(e, conj(i >= 0, i < seg.n), extra):
        return False
    some = []
    for cond, sub in seg.at(i):
        t = truth(cond) if cond is not True else z3.BoolVal(True)
        some.append(t)
        ex = extra + [t]
        if not _at_parts(e, sub, key, want, ex, path[1:]):
            if not holds(e, False, ex):
                return False
    return bool(some) and holds(e, SymBool(z3.Or(*some)), extra + completed(e, seg, i.z))


def _at_parts(e, parts, key, want, extra, path):
    for p in parts:
        if isinstance(p, Seg):
            if _at_path(e, p, key, want, extra, path):
                return True
        elif not path and holds(e, conj(*[a == b for a, b in zip(key(p), want)]), extra):
            return True
    return False


def _first(e, parts, key):
    """Keys of the elements at the start of each index, to find offsets."""
    for p in parts:
        if not isinstance(p, Seg):
            return key(p)
        for c, sub in p.at(SymInt(z3.IntVal(0))):
            k = _first(e, sub, key)
            if k is not None:
                return k
    return None


def _member(e, parts, key, want, extra, wit, depth):
    if depth > 4:
        return False
    for p in parts:
        if not isinstance(p, Seg):
            k = key(p)
            if holds(e, conj(*[a == b for a, b in zip(k, want)]), extra):
                return True
    for p in parts:
        if not isinstance(p, Seg):
            continue
        cands = []
        n0 = len(e.pc)
        f = _first(e, [p], key)
        for a, w in enumerate(want):
            if f is not None:
                cands.append(w - f[a])
            cands.append(w)
        cands += wit
        seen = set()
        for c in cands:
            cz = z3.simplify(zint(c))
            if cz.get_id() in seen:
                continue
            seen.add(cz.get_id())
            if not holds(e, conj(SymBool(cz >= 0), SymBool(cz < zint(p.n))), extra):
                continue
            cases = p.at(SymInt(cz))
            # the cases are exhaustive for a completed loop: one must hold
            ok = True
            some = []
            for cond, sub in cases:
                t = truth(cond) if cond is not True else z3.BoolVal(True)
                some.append(t)
                ex = extra + [t]
                if holds(e, False, ex):
                    continue
                if not _member(e, sub, key, want, ex, wit, depth + 1):
                    ok = False
                    break
            if ok and holds(e, SymBool(z3.Or(*some)) if some else False, extra + completed(e, p, cz)):
                return True
        del n0
    return False


def completed(e, seg, iz):
    """What a completed loop says of its iteration iz (exhaustiveness of its cases)."""
    while isinstance(seg, Mapped):
        seg = seg.seg
    out = []
    for f in e.foralls:
        if isinstance(f, loops.Completed) and isinstance(seg, loops.SumSeg) and seg.k.eq(f.loop.k):
            alts = []
            for conds, _ in f.cases:
                alts.append(z3.And([z3.substitute(c, (f.loop.k, iz)) for c in conds] or [z3.BoolVal(True)]))
            out.append(z3.Or(*alts) if alts else z3.BoolVal(False))
    return out


def picks(e, lst, label, outer=None):
    """An arbitrary element with the index path that leads to it."""
    path = []
    parts = lst.parts
    while True:
        if not parts:
            raise core.PathEnd()
        j = e.choose(label, len(parts))
        p = parts[j]
        path.append(j)
        if not isinstance(p, Seg):
            return p, path
        i = e.fresh_int(label + "_i", 0)
        e.assume(i < SymInt(zint(p.n)))
        if outer is not None:
            e.assume(i == outer)
            i = SymInt(z3.IntVal(outer))
            e.assume(i < p.n)
            outer = None
        path.append(i)
        cases = p.at(i)
        c = e.choose(label + "_case", len(cases)) if len(cases) > 1 else 0
        if cases[c][0] is not True:
            e.assume(cases[c][0])
        path.append(c)
        parts = cases[c][1]


def no_repeat(e, res, key, name, parts=None, outer=None):
    """Two elements at different places have different keys (parts: of the pieces of the
    result with these numbers only; outer: made by these iterations of the outer loop only)."""
    lst = as_list(res)
    la = lb = lst
    if parts is not None:
        if max(parts) >= len(lst.parts):
            raise core.PathEnd()
        la, lb = (loops.VList([lst.parts[j]]) for j in parts)
    if outer is None:
        outer = (None, None)
    a, pa = picks(e, la, "first", outer[0])
    b, pb = picks(e, lb, "second", outer[1])
    if parts is None or parts[0] == parts[1]:
        # the order of the two does not matter
        for x, y in zip(pa, pb):
            if core.issym(x) or core.issym(y):
                e.assume(x <= y)
                break
            if x > y:
                raise core.PathEnd()
            if x < y:
                break
    else:
        pa, pb = [parts[0]] + pa, [parts[1]] + pb
    same = True
    if len(pa) != len(pb):
        same = False
    else:
        for x, y in zip(pa, pb):
            same = conj(same, x == y)
    e.prove(disj(same, neg(conj(*[x == y for x, y in zip(key(a), key(b))]))), name)
