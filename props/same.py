"""Structural comparison of objects after different constructions or histories."""
import numpy as np
import z3

from .common import *
from pyvc.core import SymBool
from pyvc.packing import Digest, SymBytes, Text

CACHES = ("_sha1", "_tractCache", "_tractInfoList")


def same(e, x, y, what, skip=CACHES, seen=None):
    """One obligation for each part of x: it equals that of y."""
    seen = set() if seen is None else seen
    if x is y or (id(x), id(y)) in seen:
        return
    seen.add((id(x), id(y)))
    if isinstance(x, core.Sym) or isinstance(y, core.Sym) or isinstance(x, (int, float, bool)):
        e.prove(_num(x, y), what)
        return
    if isinstance(x, (Text, Digest, SymBytes)):
        e.prove(x == y, what)
        return
    if isinstance(x, deps.AbsCoord) or isinstance(y, deps.AbsCoord):
        e.prove(SymBool(deps.cterm(x) == deps.cterm(y)) if isinstance(y, G.SpherePoint) else False, what)
        return
    if isinstance(x, z3.ExprRef):
        e.prove(SymBool(x == y) if isinstance(y, z3.ExprRef) and x.sort() == y.sort() else False, what)
        return
    if isinstance(x, np.ndarray):
        e.prove(isinstance(y, np.ndarray) and np.array_equal(x, y), what)
        return
    if isinstance(x, (loops.VList, list, tuple)) or isinstance(x, loops.SymSeq):
        if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and type(x) is type(y):
            e.prove(len(x) == len(y), what)
            for k, (a, b) in enumerate(zip(x, y)):
                same(e, a, b, "%s[%d]" % (what, k), skip, seen)
            return
        n, m = rt.b_len(x), rt.b_len(y)
        e.prove(n == m, "length of " + what)
        if not issym(n) and not issym(m):
            for k in range(n):
                same(e, rt.getitem(x, k), rt.getitem(y, k), "%s[%d]" % (what, k), skip, seen)
            return
        k = e.fresh_int("at", 0)
        e.assume(conj(k < n, k < m))
        same(e, rt.getitem(x, k), rt.getitem(y, k), "any element of " + what, skip, seen)
        return
    if isinstance(x, dict):
        e.prove(isinstance(y, dict) and set(x) == set(y), "keys of " + what)
        for k in x:
            same(e, x[k], y[k], "%s[%r]" % (what, k), skip, seen)
        return
    if x is None or isinstance(x, (str, bytes, type)) or callable(x) and not hasattr(x, "__dict__"):
        e.prove(type(x) is type(y) and x == y, what)
        return
    if type(x) is not type(y):
        e.prove(False, what + ": same type")
        return
    names = list(getattr(x, "__dict__", ()))
    for c in type(x).__mro__:
        s = c.__dict__.get("__slots__", ())
        names += [s] if isinstance(s, str) else list(s)
    if not names:
        raise core.Unsupported("comparing a " + type(x).__name__)
    if hasattr(x, "__dict__"):
        a, b = [set(v.__dict__) - set(skip) for v in (x, y)]
        e.prove(a == b, "attributes of " + what)
    for n in names:
        if n in skip or n in ("__weakref__", "__dict__"):
            continue
        if hasattr(x, n) and hasattr(y, n):
            same(e, getattr(x, n), getattr(y, n), "%s of %s" % (n, what), skip, seen)


def _num(x, y):
    try:
        if isinstance(x, float) and not issym(y) or isinstance(y, float) and not issym(x):
            return x == y or abs(x - y) <= 1e-9*max(abs(x), abs(y))
        return x == y
    except TypeError:
        return False


def tract(e, a, b, what="tract"):
    """Two recorded tracts were made from the same arguments."""
    e.prove(type(a) is type(b), "the same kind of " + what)
    e.prove(set(a.made) == set(b.made), "the same arguments of " + what)
    for k in a.made:
        same(e, a.made[k], b.made[k], "%s of %s" % (k, what))
