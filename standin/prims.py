"""Numeric primitives used by the stand-in library.

Each works on ordinary Python numbers and, when the verifier has installed its
dispatchers, on symbolic numbers as well.  The stand-in modules use nothing
else to round, compare-and-select or test for NaN, so one text of the stand-in
serves as the assumed contract (symbolic runs) and as the replay library
(concrete runs).
"""
import math

# Installed by the verifier: a predicate "is this a symbolic value" and the
# symbolic versions of the primitives below.
SYM = None


def issym(x):
    return SYM is not None and SYM.issym(x)


_INT_MIN = -2147483648


def ifloor(x):
    """static_cast<int>(std::floor(x))"""
    if issym(x):
        return SYM.floor(x)
    if not math.isfinite(x):
        return _INT_MIN  # what x86-64 gives for NaN and infinities
    return math.floor(x)


def iceil(x):
    if issym(x):
        return SYM.ceil(x)
    if not math.isfinite(x):
        return _INT_MIN
    return math.ceil(x)


def isnan(x):
    if issym(x):
        return False
    return x != x


def isfinite(x):
    if issym(x):
        return True
    return math.isfinite(x)


def select(cond, a, b):
    """a if cond else b, without forking a symbolic run."""
    if issym(cond):
        return SYM.ite(cond, a, b)
    return a if cond else b


def minimum(a, b):
    if issym(a) or issym(b):
        return SYM.ite(a <= b, a, b)
    return a if a <= b else b


def maximum(a, b):
    if issym(a) or issym(b):
        return SYM.ite(a >= b, a, b)
    return a if a >= b else b


def conj(*args):
    """Conjunction without forking."""
    res = True
    for a in args:
        if issym(a):
            res = a if res is True else SYM.conj(res, a)
        elif not a:
            return False
    return res


def neg(a):
    if issym(a):
        return SYM.neg(a)
    return not a


def as_int(x):
    """What pybind11 does for an int argument: integers only."""
    if issym(x):
        if SYM.isint(x):
            return x
        raise TypeError("incompatible function arguments: int expected, got a real")
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float):
        raise TypeError("incompatible function arguments: int expected, got float %r" % (x,))
    return x.__index__()


def as_float(x):
    if issym(x):
        return SYM.toreal(x)
    return float(x)


def wrap(x, period):
    """x reduced to [0, period)."""
    if issym(x):
        return SYM.wrap(x, period)
    r = math.fmod(x, period)
    if r < 0:
        r += period
        if r >= period:
            r = 0.0
    return r


def sin(x):
    return SYM.sin(x) if issym(x) else math.sin(x)


def cos(x):
    return SYM.cos(x) if issym(x) else math.cos(x)


def mutate(obj):
    """Called before a mutable stand-in object changes."""
    if SYM is not None:
        SYM.mutate(obj)


def named(base, x, facts, *of):
    """x itself; a symbolic run may give it a name and note consequences."""
    if issym(x):
        return SYM.named(base, x, facts, of)
    return x


def hook(name, *args):
    """The verifier's version of an operation for these arguments, or None."""
    if SYM is None:
        return None
    return SYM.hook(name, *args)
