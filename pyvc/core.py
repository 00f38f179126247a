"""Symbolic values and the path explorer.

A contract (a harness function) is executed by CPython over the real, mechanically
instrumented code with symbolic arguments.  Every branch on a symbolic condition is
explored (by re-execution), every `prove` becomes an obligation for the solver
portfolio, loops over symbolic ranges are cut by inductive invariants (loops.py).
"""
import fractions
import math
import numbers
import sys
import time
import traceback

import z3

from . import solve
from .solve import FDIV, RDIV, COS, SIN, SQRT, BITLEN, INT, REAL, BOOL, rv


class Control(BaseException):
    """Not caught by the code under verification."""


class PathEnd(Control):
    """The path is complete (an arbitrary iteration was checked, or infeasible)."""


class Restart(Control):
    """Knowledge about a loop changed: explore the contract again."""


class Unsupported(Control):
    """The code left the supported subset."""


class Budget(Control):
    pass


class TooManyFailures(Control):
    """Enough obligations failed; the rest of the contract is not explored."""


ENG = None  # the running engine


def eng():
    if ENG is None:
        raise Unsupported("symbolic value used outside a run")
    return ENG


# ---------------------------------------------------------------- values
def issym(x):
    return isinstance(x, Sym)


def lift(x):
    """Python number -> z3 term (None if not a number)."""
    if isinstance(x, Sym):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, numbers.Integral):
        return z3.IntVal(int(x))
    if isinstance(x, fractions.Fraction):
        return rv(x)
    if isinstance(x, numbers.Real):
        f = float(x)
        if not math.isfinite(f):
            raise Unsupported("arithmetic between a symbolic value and %r" % f)
        return rv(f)
    if type(x).__name__ in ("float64", "float32"):
        return rv(float(x))
    if type(x).__name__ == "ndarray" and getattr(x, "ndim", 1) == 0:
        return lift(x.item())
    return None


def wrap_term(t):
    s = t.sort()
    if s == INT:
        return SymInt(t)
    if s == REAL:
        return SymReal(t)
    if s == BOOL:
        return SymBool(t)
    raise Unsupported("sort %s" % s)


def toreal(t):
    if t.sort() == INT:
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    if t.sort() == BOOL:
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    return t


def toint(t):
    if t.sort() == BOOL:
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def _isconst(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def _arith(op):
    def f(self, other):
        o = lift(other)
        if o is None:
            return NotImplemented
        return _bin(op, self.z, o)
    return f


def _rarith(op):
    def f(self, other):
        o = lift(other)
        if o is None:
            return NotImplemented
        return _bin(op, o, self.z)
    return f


def _num(t):
    return toint(t) if t.sort() == BOOL else t


def _simp(t):
    """Fold constants: a constant term becomes a Python number."""
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return wrap_term(t)


def _bin(op, a, b):
    a, b = _num(a), _num(b)
    if op in ("+", "-", "*"):
        if a.sort() != b.sort():
            a, b = toreal(a), toreal(b)
        t = a + b if op == "+" else (a - b if op == "-" else a*b)
        if t.sort() == INT and z3.is_int_value(z3.simplify(t)):
            return _simp(t)
        return wrap_term(t)
    if op == "/":
        ea = eng()
        if ea.decide(b == 0):
            raise ZeroDivisionError("division by zero")
        a, b = toreal(a), toreal(b)
        if _isconst(b):
            return SymReal(a*rv(1/b.as_fraction()))
        t = RDIV(a, b)
        ea.axiom(t)
        return SymReal(t)
    if op in ("//", "%"):
        e = eng()
        if e.decide(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if a.sort() == INT and b.sort() == INT:
            if _isconst(b) and b.as_long() > 0:
                return SymInt(a / b if op == "//" else a % b)
            if e.decide(b > 0):
                q = FDIV(a, b)
            else:
                a, b = -a, -b
                q = FDIV(a, b)
                if op == "%":
                    e.axiom(q)
                    return SymInt(-(a - b*q))
            e.axiom(q)
            return SymInt(q if op == "//" else a - b*q)
        a, b = toreal(a), toreal(b)
        if _isconst(b):
            q = z3.ToReal(z3.ToInt(a*rv(1/b.as_fraction())))
        else:
            d = RDIV(a, b)
            e.axiom(d)
            q = z3.ToReal(z3.ToInt(d))
        return SymReal(q if op == "//" else a - b*q)
    if op == "**":
        if z3.is_int_value(b) and 0 <= b.as_long() <= 4:
            t = z3.IntVal(1) if a.sort() == INT else z3.RealVal(1)
            for _ in range(b.as_long()):
                t = t*a
            return wrap_term(t)
        raise Unsupported("power")
    raise Unsupported(op)


def _compare(op):
    def f(self, other):
        if isinstance(other, float) and not math.isfinite(other):
            # every symbolic number is finite
            if other != other:
                return op == "!="
            return {"<": other > 0, "<=": other > 0, ">": other < 0, ">=": other < 0,
                    "==": False, "!=": True}[op]
        o = lift(other)
        if o is None:
            return NotImplemented
        a, b = self.z, o
        if a.sort() != b.sort():
            a, b = _num(a), _num(b)
        if a.sort() != b.sort():
            a, b = toreal(a), toreal(b)
        if op in ("==", "!="):
            t = a == b
            if op == "!=":
                t = z3.Not(t)
        else:
            a, b = _num(a), _num(b)
            t = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        s = z3.simplify(t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return SymBool(t)
    return f


def shown(v):
    """Text standing for a symbolic value (pyvc.packing finds the value again)."""
    if ENG is None:
        return "<sym>"
    d = ENG.memo.setdefault("shown", {})
    k = "<sym%d>" % v.z.get_id()
    d[k] = v
    return k


class Sym:
    __slots__ = ("z",)
    __array_ufunc__ = None

    def __init__(self, z):
        self.z = z

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __repr__(self):
        return "<sym %s>" % str(self.z)[:40]

    __str__ = __repr__

    def __format__(self, spec):
        return shown(self)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __iter__(self):
        raise TypeError("symbolic number is not iterable")

    __lt__ = _compare("<")
    __le__ = _compare("<=")
    __gt__ = _compare(">")
    __ge__ = _compare(">=")
    __eq__ = _compare("==")
    __ne__ = _compare("!=")

    # numpy scalar look-alikes
    def item(self):
        return self

    @property
    def real(self):
        return self


Sym.__iter__ = None  # not iterable (and collections.abc.Iterable agrees)


class _SymNum(Sym):
    __slots__ = ()
    __add__ = _arith("+")
    __radd__ = _rarith("+")
    __sub__ = _arith("-")
    __rsub__ = _rarith("-")
    __mul__ = _arith("*")
    __rmul__ = _rarith("*")
    __truediv__ = _arith("/")
    __rtruediv__ = _rarith("/")
    __floordiv__ = _arith("//")
    __rfloordiv__ = _rarith("//")
    __mod__ = _arith("%")
    __rmod__ = _rarith("%")
    __pow__ = _arith("**")

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __neg__(self):
        return wrap_term(-_num(self.z))

    def __pos__(self):
        return self

    def __abs__(self):
        t = _num(self.z)
        return wrap_term(z3.If(t >= 0, t, -t))

    def __bool__(self):
        return eng().decide(_num(self.z) != 0)

    def __int__(self):
        raise Unsupported("int() of a symbolic value in native code")

    def __float__(self):
        raise Unsupported("float() of a symbolic value in native code")

    def __index__(self):
        raise Unsupported("symbolic index in native code")

    def __round__(self, n=None):
        if n is not None:
            if issym(n):
                raise Unsupported("round with symbolic digits")
            m = 10**n if n >= 0 else fractions.Fraction(1, 10**-n)
            r = py_round(self*m)
            return r if self.z.sort() != REAL else SymReal(toreal(r.z)*rv(fractions.Fraction(1)/m))
        return py_round(self)

    def __trunc__(self):
        return py_int(self)

    def __floor__(self):
        return py_floor(self)

    def __ceil__(self):
        return py_ceil(self)


POW2 = z3.Function("pow2", INT, INT)


class SymInt(_SymNum):
    __slots__ = ()

    def bit_length(self):
        t = self.z
        v = BITLEN(z3.If(t >= 0, t, -t))
        return SymInt(v)

    def __and__(self, o):
        raise Unsupported("bit operation")

    __or__ = __xor__ = __lshift__ = __rshift__ = __rand__ = __ror__ = __and__

    def __rlshift__(self, o):
        e = eng()
        if not isinstance(o, int) or o not in (0, 1):
            raise Unsupported("shift")
        if e.decide(self.z < 0):
            raise ValueError("negative shift count")
        t = POW2(self.z)
        e.assume(t >= 1)
        return SymInt(t) if o else 0

    def __invert__(self):
        return SymInt(-self.z - 1)

    @property
    def numerator(self):
        return self

    def astype(self, t):
        fits(self, t)
        return self


def fits(v, dtype):
    """A conversion to a type of numpy keeps the number: narrow integers are an obligation,
    short floats are out of reach."""
    import numpy as np
    t = np.dtype(dtype)
    if t.kind in "fc" and t.itemsize < 8:
        raise Unsupported("floating-point numbers of less than double precision")
    if t.kind in "iu" and v is not None and not isinstance(v, (SymReal, float)):
        if t.itemsize >= 8 and t.kind == "i":
            return
        if not issym(v):
            if not np.iinfo(t).min <= v <= np.iinfo(t).max:
                raise Unsupported("number that does not fit its type")
        elif t.itemsize >= 4 and t.kind == "i":
            eng().uses("numbers given to int32 arrays fit them: maps have fewer than 2**31 tracts")
        else:
            eng().prove(conj(v >= int(np.iinfo(t).min), v <= int(np.iinfo(t).max)), "a number fits %s" % t.name)


class SymReal(_SymNum):
    __slots__ = ()

    def is_integer(self):
        return SymBool(z3.IsInt(self.z))

    def astype(self, t):
        import numpy as np
        if np.issubdtype(t, np.integer):
            v = py_int(self)
            fits(v, t)
            return v
        fits(self, t)
        return self


class SymBool(_SymNum):
    __slots__ = ()

    def __bool__(self):
        return eng().decide(self.z)

    def __and__(self, o):
        return conj(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return neg(conj(neg(self), neg(o)))

    __ror__ = __or__

    def __invert__(self):
        return neg(self)

    def __xor__(self, o):
        return SymBool(z3.Xor(self.z, lift(o)))


numbers.Integral.register(SymInt)
numbers.Real.register(SymReal)
numbers.Integral.register(SymBool)


# ------------------------------------------------------------ primitives
def _intquot(t):
    """floor of a quotient of integers, as integer division; None if t is not one."""
    if z3.is_app(t) and t.decl().eq(RDIV):
        a, b = t.arg(0), t.arg(1)
        ai = a.arg(0) if z3.is_app_of(a, z3.Z3_OP_TO_REAL) else \
            (z3.IntVal(a.as_fraction().numerator) if z3.is_rational_value(a) and a.as_fraction().denominator == 1
             else None)
        if ai is not None and z3.is_app_of(b, z3.Z3_OP_TO_REAL) and eng().entails(b.arg(0) > 0):
            q = FDIV(ai, b.arg(0))
            eng().axiom(q)
            return q
    return None


def py_floor(x):
    if not issym(x):
        return math.floor(x)
    t = _num(x.z)
    q = _intquot(t)
    if q is not None:
        return SymInt(q)
    return SymInt(z3.ToInt(t)) if t.sort() == REAL else SymInt(t)


def py_ceil(x):
    if not issym(x):
        return math.ceil(x)
    t = _num(x.z)
    return SymInt(-z3.ToInt(-t)) if t.sort() == REAL else SymInt(t)


def py_int(x):
    """int(): truncation."""
    t = _num(x.z)
    if t.sort() == INT:
        return SymInt(t)
    e = eng()
    q = _intquot(t)
    if q is not None and e.entails(t.arg(0) >= 0):
        return SymInt(q)
    if e.entails(t >= 0):
        return SymInt(z3.ToInt(t))
    return SymInt(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


def py_round(x):
    t = _num(x.z)
    if t.sort() == INT:
        return SymInt(t)
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    half = z3.RealVal("1/2")
    return SymInt(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))


def ite(c, a, b):
    if not issym(c):
        return a if c else b
    if a is b:
        return a
    x, y = lift(a), lift(b)
    if x is None or y is None:
        return a if c else b
    if x.sort() != y.sort():
        if BOOL in (x.sort(), y.sort()):
            x, y = _num(x), _num(y)
        if x.sort() != y.sort():
            x, y = toreal(x), toreal(y)
    if z3.eq(x, y):
        return a
    return wrap_term(z3.If(c.z, x, y))


def neg(a):
    if not issym(a):
        return not a
    return SymBool(z3.Not(truth(a)))


def truth(a):
    """z3 Bool of a value's truth."""
    if isinstance(a, z3.BoolRef):
        return a
    if not issym(a):
        return z3.BoolVal(bool(a))
    return a.z if a.z.sort() == BOOL else _num(a.z) != 0


def conj(*args):
    out = []
    for a in args:
        if issym(a) or isinstance(a, z3.BoolRef):
            out.append(truth(a))
        elif not a:
            return False
    if not out:
        return True
    return SymBool(z3.And(*out)) if len(out) > 1 else SymBool(out[0])


def disj(*args):
    return neg(conj(*[neg(a) for a in args]))


def implies(a, b):
    return disj(neg(a), b)


def sym_cos(x):
    return SymReal(COS(toreal(x.z)))


def sym_sin(x):
    return SymReal(SIN(toreal(x.z)))


class _Prims:
    """Installed as standin.prims.SYM."""
    issym = staticmethod(issym)

    @staticmethod
    def isint(x):
        return isinstance(x, (SymInt, SymBool)) or (isinstance(x, numbers.Integral))

    floor = staticmethod(py_floor)
    ceil = staticmethod(py_ceil)
    ite = staticmethod(ite)
    conj = staticmethod(conj)
    neg = staticmethod(neg)

    @staticmethod
    def toreal(x):
        return SymReal(toreal(x.z)) if issym(x) else x

    @staticmethod
    def wrap(x, period):
        t = toreal(x.z)
        p = fractions.Fraction(period)
        return SymReal(t - rv(p)*z3.ToReal(z3.ToInt(t*rv(1/p))))

    sin = staticmethod(sym_sin)
    cos = staticmethod(sym_cos)

    @staticmethod
    def vector(x, y, z):
        return ENG.vector(x, y, z)

    hooks = {}

    @staticmethod
    def hook(name, *args):
        h = _Prims.hooks.get(name)
        return h(*args) if h is not None and ENG is not None else None

    @staticmethod
    def named(base, x, facts, of):
        """A fresh constant for x, with consequences of its definition (each proved from
        the definition alone): the given ones, and bounds the contract asked for."""
        e = ENG
        if e is None or not z3.is_app_of(x.z, z3.Z3_OP_ITE):
            return x
        v = wrap_term(e._fresh(base, x.z.sort()))
        e.assume(v.z == x.z, heavy=True)
        hyp, fs = facts(v)
        out = [(hyp, fs)]
        for lo, hi, past in e.memo.get("bounds", ()):
            if base == "past":
                out.append(([of[0] <= hi], [v <= past]))
            else:
                out.append(([w >= lo for w in of], [v >= lo]))
                out.append(([w <= past for w in of], [v <= past]))
        ds = [v.z == x.z] + [p.z == d for p, d in e.memo.get("bound_defs", ())]
        for hyp, fs in out:
            hyp, fs = [truth(f) for f in hyp], [truth(f) for f in fs]
            f = z3.Implies(z3.And(*hyp), z3.And(*fs)) if hyp else z3.And(*fs)
            st, _ = solve.prove(ds, f, 3.0, want_model=False)
            if st == "proved":
                e.assume(f)
        return v

    @staticmethod
    def mutate(obj):
        if ENG is not None:
            ENG.on_mutate(obj)


# -------------------------------------------------------------- the engine
class Obligation:
    __slots__ = ("name", "status", "backend", "detail", "wall", "model", "pc")

    def __init__(self, name, status, backend, detail="", wall=0.0, model=None):
        self.name, self.status, self.backend = name, status, backend
        self.detail, self.wall, self.model = detail, wall, model


class Engine:
    def __init__(self, timeout=10.0, max_paths=4000, deadline=None, log=None):
        self.timeout = timeout
        self.max_paths = max_paths
        self.deadline = deadline
        self.log = log
        self.obligations = []      # of the final (non-restarted) exploration
        self.paths = 0
        self.completed = 0         # paths that reached the end of the contract
        self.covers = {}
        self.assumptions = set()
        self.feas_cache = {}
        self.cutloops = set()
        self.modset = {}
        self.houdini = {}          # loop id -> set of dropped candidate keys
        self.memo_kinds = {}       # loop id -> {name: kinds}
        self.functions = set()     # instrumented functions executed
        self.restarts = 0
        self.failed = False
        self.scale = 1             # of the time limits for inferring invariants
        self.unknown_drops = 0
        self.templates = []        # contract-supplied invariant templates
        self.notes = []

    # ------------------------------------------------------------ exploring
    def run(self, contract):
        global ENG
        while True:
            try:
                self._explore(contract)
                return
            except Restart as r:
                self.restarts += 1
                if self.restarts > 300:
                    raise Unsupported("loop invariants did not stabilise (%s)" % (r,))
            finally:
                ENG = None

    def _explore(self, contract):
        global ENG
        self.obligations = []
        self.nfailed = 0
        self.paths = self.completed = 0
        self.covers = {}
        self.summaries = {}
        self.houdini_used = {}
        self.kinds_used = set()
        self.lowers = {}
        prefix = []
        while True:
            self._reset(prefix)
            ENG = self
            try:
                contract(self)
                self.completed += 1
            except PathEnd:
                pass
            except Unsupported:
                if not self._vacuous():
                    raise
            except Control:
                raise
            except (TypeError, AttributeError, NameError, NotImplementedError, RecursionError) as exc:
                # may be the machinery's limits rather than the code's fault
                tb = traceback.format_exc()
                if not self._vacuous():
                    raise Unsupported("%s: %s\n%s" % (type(exc).__name__, exc, tb[-1500:]))
            except Exception as exc:
                last = traceback.extract_tb(exc.__traceback__)[-1].filename
                if last.endswith(("pyvc/solve.py", "pyvc/instrument.py")) or "site-packages" in last:
                    raise Unsupported("%s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc()[-1500:]))
                try:
                    self._unexpected(exc)
                except PathEnd:
                    pass
            finally:
                ENG = None
            self.paths += 1
            if self.paths > self.max_paths:
                raise Budget("more than %d paths" % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Budget("time limit")
            # next path: flip the last decision with an untried side
            d = self.decisions
            while d and not d[-1][1]:
                d.pop()
            if not d:
                return
            last = d.pop()
            d.append((not last[0], False))
            prefix = d

    def _vacuous(self):
        """The path's condition is contradictory after all."""
        return solve.prove(self.pc, z3.BoolVal(False), 4.0, want_model=False, quick=True)[0] == "proved"

    def _reset(self, prefix):
        self.prefix = list(prefix)
        self.decisions = []
        self.pos = 0
        self.pc = []
        self.counter = {}
        self.nfresh = 0
        self.loopstack = []
        self.foralls = []
        self.inputs = {}
        self.serial = 0
        self.memo = {}
        self.heavy = set()
        self.solver = z3.Solver()
        self.solver.set("timeout", 1500)
        self.solver.set("smt.arith.nl", False)
        self.solver.set("smt.arith.solver", 2)
        self.solver2, self.added2, self.asserted = None, 0, []
        self.axdone = set()
        self.symbolic_decisions = 0
        solve.PrefixSums.registry.clear()
        solve.PrefixSums.elems.clear()

    def _unexpected(self, exc):
        tb = traceback.extract_tb(exc.__traceback__)
        where = "; ".join("%s:%s" % (f.filename.split("/")[-1], f.lineno) for f in tb[-3:])
        name = "no unexpected %s" % type(exc).__name__
        self._record(name, z3.BoolVal(False), "%s at %s" % (exc, where))

    # ----------------------------------------------------------- conditions
    def axiom(self, t):
        """Background facts about a new uninterpreted application, for feasibility."""
        if t.get_id() in self.axdone:
            return
        self.axdone.add(t.get_id())
        for a in solve._axioms([t], set()):
            self.solver.add(a)
            self.asserted.append(a)

    def _add(self, c):
        self.pc.append(c)
        if c.get_id() not in self.heavy:
            self.solver.add(c)
            self.asserted.append(c)

    def _second(self, cs):
        """z3's other arithmetic solver, where the first one does not know."""
        if self.solver2 is None:
            self.solver2 = z3.Solver()
            self.solver2.set("timeout", 300)
            self.solver2.set("smt.arith.nl", False)
            self.solver2.set("smt.arith.solver", 6)
        self.solver2.add(*self.asserted[self.added2:])
        self.added2 = len(self.asserted)
        return self.solver2.check(*cs) == z3.unsat

    def _refuted(self, *cs):
        """Is the path condition with cs plainly contradictory?  (remembered across
        re-executions: equal formulas have equal identities)"""
        key = (tuple(f.get_id() for f in self.pc), tuple(c.get_id() for c in cs))
        r = self.feas_cache.get(key)
        if r is None:
            v = self.solver.check(*cs)
            v = v == z3.unsat or v == z3.unknown and self._second(cs)
            r = self.feas_cache[key] = (v, list(self.pc), cs)   # kept alive
        return r[0]

    def _feasible(self, c):
        return not self._refuted(c)

    def entails(self, c):
        """Quick check that the path condition implies c."""
        c = truth(c)
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return self._refuted(z3.Not(c))

    def decide(self, c):
        c = truth(c) if not isinstance(c, z3.BoolRef) else c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.loopstack:
            for l in self.loopstack:
                l.touched = True
        self.symbolic_decisions = getattr(self, "symbolic_decisions", 0) + 1
        if self.pos < len(self.prefix):
            v, other = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append((v, other))
            self._add(c if v else z3.Not(c))
            return v
        self.pos += 1
        if self.deadline and time.time() > self.deadline:
            raise Budget("time limit")
        ft = self._feasible(c)
        ff = self._feasible(z3.Not(c)) if ft else True
        v = ft
        self.decisions.append((v, ft and ff))
        self._add(c if v else z3.Not(c))
        return v

    def choose(self, label, n=2):
        """Demonic choice among n alternatives (no condition attached)."""
        for i in range(n - 1):
            b = self.fresh_bool("choice!" + label)
            if self.decide(b.z):
                return i
        return n - 1

    def assume(self, c, heavy=False):
        """heavy: tried without it first, when proving (its consequences are noted apart)."""
        c = truth(c)
        if heavy:
            self.heavy.add(c.get_id())
        s = z3.simplify(c)
        if z3.is_true(s):
            return
        if z3.is_false(s):
            raise PathEnd()
        self._add(c)

    def live(self):
        """End the path if its condition is plainly contradictory."""
        if self._refuted():
            raise PathEnd()

    # ------------------------------------------------------------- fresh
    def _name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    def _fresh(self, base, sort):
        name = self._name(base)
        ks = [l.k for l in self.loopstack if l.taking]
        if not ks:
            t = z3.Const(name, sort)
        else:
            # a Skolem function of the iteration
            f = z3.Function("%s@%s" % (name, "/".join(str(l.ident) for l in self.loopstack if l.taking)),
                            *([INT]*len(ks) + [sort]))
            t = f(*ks)
        return t

    def fresh_int(self, base, lo=None, hi=None):
        t = self._fresh(base, INT)
        if lo is not None:
            self.assume(t >= lift(lo))
        if hi is not None:
            self.assume(t <= lift(hi))
        return SymInt(t)

    def fresh_real(self, base, lo=None, hi=None):
        t = self._fresh(base, REAL)
        if lo is not None:
            self.assume(t >= toreal(lift(lo)))
        if hi is not None:
            self.assume(t <= toreal(lift(hi)))
        return SymReal(t)

    def fresh_bool(self, base):
        return SymBool(self._fresh(base, BOOL))

    suffix = ""     # of the names of inputs (several objects of one kind)

    def input_int(self, name, lo=None, hi=None):
        name += self.suffix
        v = self.fresh_int(name, lo, hi)
        self.inputs[name] = v
        return v

    def input_real(self, name, lo=None, hi=None):
        name += self.suffix
        v = self.fresh_real(name, lo, hi)
        self.inputs[name] = v
        return v

    def input_bool(self, name):
        name += self.suffix
        v = self.fresh_bool(name)
        self.inputs[name] = v
        return v

    # --------------------------------------------------------- obligations
    def prove(self, c, name, timeout=None, by=()):
        """One obligation: the path condition implies c.  by: facts the path condition
        implies from which c is to be proved first, without anything else (a hint)."""
        c = truth(c)
        return self._record(name, c, "", timeout, [truth(f) for f in by])

    def _from(self, by, c):
        """c from consequences of the path condition alone."""
        known = set()
        for f in self.pc:
            known.add(f.get_id())
            known.add(z3.simplify(f).get_id())
        for f in by:
            if f.get_id() not in known and z3.simplify(f).get_id() not in known and \
                    solve.prove(self.pc, f, 4.0, want_model=False, quick=True)[0] != "proved":
                return "unknown", "hint"
        st, info = solve.prove(by, c, 10.0, want_model=False)
        return (st, info) if st == "proved" else ("unknown", "hint")

    def _record(self, name, c, detail="", timeout=None, by=()):
        t0 = time.time()
        facts = self.pc
        st = None
        if by:
            st, info = self._from(by, c)
        if st != "proved" and self.heavy:
            st, info = solve.prove(self.light(), c, 4.0, want_model=False, quick=True)
        if st != "proved":
            st, info = solve.prove(facts, c, timeout or self.timeout)
        o = Obligation(name, st, info if st == "proved" else "", detail, time.time() - t0)
        if st == "refuted":
            o.model = self._model_inputs(info)
            o.detail = detail or "goal: %s" % str(c)[:300]
        elif st == "unknown":
            o.detail = (detail + " " if detail else "") + "solver: %s; goal: %s" % (info, str(c)[:300])
        self.obligations.append(o)
        if st != "proved":
            self.failed = True
            self.nfailed += 1
            if self.log:
                self.log("  FAILED %s [%s] %s %s" % (name, st, o.detail, o.model))
        if self.nfailed >= 4:
            raise TooManyFailures()
        if st == "proved":
            self._add(c)   # later obligations may use it
        else:
            raise PathEnd()
        return True

    def check(self, c, timeout=None):
        """Is c implied?  Not an obligation (used to infer invariants)."""
        c = truth(c)
        if self.heavy:
            st, _ = solve.prove(self.light(), c, 3.0*self.scale, want_model=False, quick=True)
            if st == "proved":
                return True
        st, _ = solve.prove(self.pc, c, timeout or min(self.timeout, 3.0*self.scale), want_model=False)
        if st == "unknown":
            self.unknown_drops += 1
        return st == "proved"

    def light(self):
        return [f for f in self.pc if f.get_id() not in self.heavy]

    def cover(self, name):
        """Vacuity guard: some path must reach here with a satisfiable condition."""
        if self.covers.get(name):
            return
        r, m = solve.satisfiable(self.pc, 5.0)
        if r or (r is None and self.covers.get(name) is None):
            self.covers[name] = True if r else None

    def fail(self, name, detail):
        self._record(name, z3.BoolVal(False), detail)

    def _model_inputs(self, m):
        out = {}
        try:
            for k, v in self.inputs.items():
                if not issym(v):
                    out[k] = v
                    continue
                x = m.eval(v.z, model_completion=True)
                out[k] = model_value(x)
        except Exception as exc:  # models of nonlinear reals can be awkward
            out["_model_error"] = str(exc)
        return out

    # ---------------------------------------------------------- misc hooks
    def on_mutate(self, obj):
        for l in self.loopstack:
            l.mutated(obj)

    def vector(self, x, y, z):
        return SymVector(x, y, z)

    def uses(self, text):
        """Declare an assumption the contract relies on."""
        self.assumptions.add(text)


def model_value(x):
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        f = x.as_fraction()
        return float(f)
    if z3.is_algebraic_value(x):
        return float(x.approx(20).as_fraction())
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return str(x)


class SymVector:
    """A 3-vector with symbolic components."""

    def __init__(self, x, y, z):
        self.c = (x, y, z)

    def __getitem__(self, i):
        return self.c[i]

    def __len__(self):
        return 3

    def __iter__(self):
        return iter(self.c)

    def x(self):
        return self.c[0]

    def y(self):
        return self.c[1]

    def z(self):
        return self.c[2]


def install_prims():
    from standin import prims
    prims.SYM = _Prims
