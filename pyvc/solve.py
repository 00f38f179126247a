"""Query discharge: background-axiom instantiation plus a solver portfolio.

A query is a list of z3 formulas; `unsat` means the obligation holds.
"""
import itertools
import os
import sys
import time
from fractions import Fraction

import z3

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()

# Uninterpreted symbols with background axioms, instantiated per query.
FDIV = z3.Function("fdiv", INT, INT, INT)        # floor division, divisor > 0
RDIV = z3.Function("rdiv", REAL, REAL, REAL)     # real division
COS = z3.Function("cos", REAL, REAL)
SIN = z3.Function("sin", REAL, REAL)
BITLEN = z3.Function("bitlen", INT, INT)
POW2 = z3.Function("pow2", INT, INT)
SQRT = z3.Function("sqrt", REAL, REAL)

import math
PI = z3.RealVal(str(Fraction(math.pi)))

SLOW = float(os.environ.get("PYVC_SLOW", "0"))
STATS = {"queries": 0, "solver_s": 0.0, "z3": 0, "z3-lemmas": 0, "cvc5": 0, "cache": 0, "trivial": 0}


def rv(x):
    f = Fraction(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 \
        else z3.RealVal(str(f.numerator))


# ---------------------------------------------------------------- term tools
def walk(fs):
    """All distinct subterms of the formulas."""
    seen = set()
    out = []
    stack = list(fs)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(t)
        if z3.is_quantifier(t):
            continue
        stack.extend(t.children())
    return out


class PrefixSums:
    """Axioms of the prefix-sum function of one symbolic list (see loops.VList)."""
    registry = {}
    elems = {}

    def __init__(self, name, elem, length, lower):
        # elem: z3 term function; lower: proved lower bound (>= 0) of all elements, or None
        self.fn = z3.Function(name, INT, INT)
        self.elem, self.length, self.lower = elem, length, lower
        PrefixSums.registry[self.fn.get_id()] = self
        self.elemfn = elem(z3.IntVal(0)).decl()
        PrefixSums.elems[self.elemfn.get_id()] = self


def _axioms(terms, done):
    """Instances of the background axioms for the applications among terms."""
    ax = []
    cos, sums, bl = [], {}, []
    for t in terms:
        if not z3.is_app(t):
            continue
        d = t.decl()
        if d.kind() != z3.Z3_OP_UNINTERPRETED or t.num_args() == 0:
            continue
        if z3.is_var(t.arg(0)):
            continue
        key = t.get_id()
        if d.eq(FDIV):
            if key in done:
                continue
            done.add(key)
            a, b = t.arg(0), t.arg(1)
            ax.append(z3.Implies(b > 0, z3.And(b*t <= a, a < b*t + b)))
            ax.append(z3.Implies(z3.And(b > 0, a >= 0), z3.And(t >= 0, t <= a)))
        elif d.eq(RDIV):
            if key in done:
                continue
            done.add(key)
            a, b = t.arg(0), t.arg(1)
            ax.append(z3.Implies(b != 0, b*t == a))
            ax.append(z3.Implies(z3.And(b > 0, a >= 0), t >= 0))
            ax.append(z3.Implies(z3.And(b > 0, a > 0), t > 0))
            ax.append(z3.Implies(z3.And(b > 0, a < 0), t < 0))
            ax.append(z3.Implies(z3.And(b > 0, a <= b), t <= 1))
            ax.append(z3.Implies(z3.And(b > 0, a < b), t < 1))
        elif d.eq(COS):
            cos.append(t)
            if key in done:
                continue
            done.add(key)
            x = t.arg(0)
            ax += [t >= -1, t <= 1, 2*t >= 2 - x*x]
            half = PI/2
            # concavity on [-pi/2, pi/2]
            ax.append(z3.Implies(z3.And(x >= 0, x <= half), PI*t >= PI - 2*x))
            ax.append(z3.Implies(z3.And(x <= 0, x >= -half), PI*t >= PI + 2*x))
        elif d.eq(SQRT):
            if key in done:
                continue
            done.add(key)
            x = t.arg(0)
            ax += [t >= 0, z3.Implies(x >= 0, t*t == x)]
        elif d.eq(BITLEN):
            bl.append(t)
            if key in done:
                continue
            done.add(key)
            x = t.arg(0)
            ax += [t >= 0, z3.Implies(x >= 0, x < POW2(t)),
                   z3.Implies(x >= 1, z3.And(t >= 1, x >= POW2(t - 1))),
                   z3.Implies(x == 0, t == 0), POW2(z3.IntVal(0)) == 1]
        elif d.get_id() in PrefixSums.registry:
            sums.setdefault(d.get_id(), []).append(t)
            if key in done:
                continue
            done.add(key)
            ps = PrefixSums.registry[d.get_id()]
            x = t.arg(0)
            ax.append(z3.Implies(x == 0, t == 0))
            if ps.lower is not None:
                ax.append(z3.Implies(z3.And(x >= 0, x <= ps.length), t >= ps.lower*x))
                ax.append(z3.Implies(z3.And(x >= 0, x < ps.length), ps.elem(x) >= ps.lower))
        elif d.get_id() in PrefixSums.elems:
            # an element: the prefix up to it matters too
            ps = PrefixSums.elems[d.get_id()]
            sums.setdefault(ps.fn.get_id(), []).append(ps.fn(t.arg(0)))
    for fid, apps in sums.items():
        ids = set()
        apps[:] = [t for t in apps if not (t.get_id() in ids or ids.add(t.get_id()))]
    # decreasing cosine on [0, pi]
    for a, b in itertools.combinations(cos, 2):
        key = ("cos", a.get_id(), b.get_id())
        if key in done:
            continue
        done.add(key)
        x, y = a.arg(0), b.arg(0)
        u, v = z3.If(x >= 0, x, -x), z3.If(y >= 0, y, -y)
        ax.append(z3.Implies(z3.And(u <= v, v <= PI), a >= b))
        ax.append(z3.Implies(z3.And(v <= u, u <= PI), b >= a))
        ax.append(z3.Implies(x == -y, a == b))
    for a, b in itertools.combinations(bl, 2):
        key = ("bl", a.get_id(), b.get_id())
        if key not in done:
            done.add(key)
            ax.append(z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) <= b.arg(0)), a <= b))
            ax.append(z3.Implies(z3.And(b.arg(0) >= 0, b.arg(0) <= a.arg(0)), b <= a))
            ax.append(z3.Implies(a <= b, POW2(a) <= POW2(b)))
            ax.append(z3.Implies(b <= a, POW2(b) <= POW2(a)))
    # monotone prefix sums
    for fid, apps in sums.items():
        ps = PrefixSums.registry[fid]
        zero = ps.fn(z3.IntVal(0))
        for t in apps:
            key = ("step", t.get_id())
            if key in done:
                continue
            done.add(key)
            x = t.arg(0)
            ax.append(z3.Implies(z3.And(x >= 1, x <= ps.length),
                                 t == ps.fn(x - 1) + ps.elem(x - 1)))
        if ps.lower is None:
            continue
        for a, b in itertools.permutations(apps, 2):
            key = ("mono", a.get_id(), b.get_id())
            if key in done:
                continue
            done.add(key)
            x, y = a.arg(0), b.arg(0)
            ax.append(z3.Implies(z3.And(0 <= x, x < y, y <= ps.length),
                                 z3.And(a + ps.elem(x) <= b, a + ps.lower*(y - x) <= b,
                                        ps.elem(x) >= ps.lower)))
        del zero
    return ax


class _Info:
    """What the lemma generators need of one formula (computed once)."""
    __slots__ = ("f", "apps", "prods", "atoms", "norm")


_infos = {}


def info(f):
    r = _infos.get(f.get_id())
    if r is None:
        r = _Info()
        r.f = f     # kept alive: ids are reused otherwise
        r.apps = [t for t in walk([f]) if z3.is_app(t) and t.num_args() > 0
                  and t.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        r.prods = r.atoms = r.norm = None
        _infos[f.get_id()] = r
    return r


def normal(f):
    r = info(f)
    if r.norm is None:
        r.norm = z3.simplify(f, som=True)
    return r.norm


def _products(f):
    """(products, atoms) of a normalised formula."""
    r = info(f)
    if r.prods is None:
        prods, atoms = {}, []
        for t in walk([f]):
            if not z3.is_app(t):
                continue
            k = t.decl().kind()
            if k in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
                for key, (c, fac) in _monomials(t).items():
                    if len(fac) >= 2:
                        prods[key] = fac
            elif k in _CMP and t.num_args() == 2 and t.arg(0).sort() in (INT, REAL):
                d = _difference(t.arg(0), t.arg(1))
                if not any(len(x) >= 2 for _, x in _mono(d).values()):
                    atoms.append(d)
        r.prods, r.atoms = prods, atoms
    return r.prods, r.atoms


_CMP = (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ)
_diffs, _monos, _lemmas = {}, {}, {}


def _difference(a, b):
    k = (a.get_id(), b.get_id())
    r = _diffs.get(k)
    if r is None:
        r = _diffs[k] = (z3.simplify(a - b, som=True), a, b)
    return r[0]


def _mono(d):
    r = _monos.get(d.get_id())
    if r is None:
        r = _monos[d.get_id()] = (_monomials(d), d)
    return r[0]


def saturate(fs, rounds=2):
    done = set()
    fs = list(fs)
    for _ in range(rounds):
        seen, apps = set(), []
        for f in fs:
            for t in info(f).apps:
                if t.get_id() not in seen:
                    seen.add(t.get_id())
                    apps.append(t)
        new = _axioms(apps, done)
        if not new:
            break
        fs = fs + new
    return fs


# ------------------------------------------------- lemmas about products
def _monomials(t):
    """t (som-normalised, arithmetic) as {tuple of factor ids: (coef, factors)}"""
    res = {}
    todo = [t]
    if z3.is_add(t):
        todo = t.children()
    for m in todo:
        coef, fac = Fraction(1), []
        st = [m]
        while st:
            x = st.pop()
            if z3.is_mul(x):
                st.extend(x.children())
            elif z3.is_rational_value(x) or z3.is_int_value(x):
                coef *= x.as_fraction() if z3.is_rational_value(x) else x.as_long()
            elif z3.is_app_of(x, z3.Z3_OP_UMINUS):
                coef = -coef
                st.append(x.arg(0))
            elif z3.is_app_of(x, z3.Z3_OP_POWER) and z3.is_int_value(x.arg(1)):
                st.extend([x.arg(0)]*x.arg(1).as_long())
            elif z3.is_app_of(x, z3.Z3_OP_TO_REAL) and z3.is_app(x.arg(0)) \
                    and (z3.is_add(x.arg(0)) or z3.is_mul(x.arg(0))):
                fac.append(x)
            else:
                fac.append(x)
        fac.sort(key=lambda f: f.get_id())
        key = tuple(f.get_id() for f in fac)
        c0, _ = res.get(key, (0, None))
        res[key] = (c0 + coef, fac)
    return res


def product_lemmas(fs, cap=600):
    """Instances of  t >= 0 and c >= 0  ->  t*c >= 0  for atoms t and factors c
    of the products in the query, when all products of t*c already occur."""
    mons, factors, atoms = set(), {}, {}
    for f in fs:
        prods, ats = _products(f)
        for key, fac in prods.items():
            if key not in mons:
                mons.add(key)
                for x in fac:
                    factors[x.get_id()] = x
        for d in ats:
            atoms[d.get_id()] = d
    if not mons:
        return []
    # pairwise order of factors
    for a, b in itertools.combinations(list(factors.values()), 2):
        if a.sort() == b.sort() and len(factors) <= 14:
            d = _difference(a, b)
            atoms.setdefault(d.get_id(), d)
    for f in factors.values():
        atoms.setdefault(f.get_id(), f)
    out = []
    for d in list(atoms.values()):
        dm = _mono(d)
        keys = [k for k, (_, fac) in dm.items() if fac]
        for c in factors.values():
            cid = c.get_id()
            if not keys or not all(tuple(sorted(k + (cid,))) in mons for k in keys):
                continue
            out += _lemma(d, c)
            if len(out) > cap:
                return out
    return out


def _lemma(d, c):
    k = (d.get_id(), c.get_id())
    r = _lemmas.get(k)
    if r is not None:
        return r[0]
    cc = c
    if c.sort() != d.sort():
        cc = z3.ToReal(c) if d.sort() == REAL and c.sort() == INT else None
    out = []
    if cc is not None:
        p = z3.simplify(d*cc, som=True)
        out.append(z3.Implies(z3.And(d >= 0, c >= 0), p >= 0))
        out.append(z3.Implies(z3.And(d <= 0, c >= 0), p <= 0))
        if d.sort() == INT:
            p1 = z3.simplify((d - 1)*cc, som=True)
            p2 = z3.simplify((d + 1)*cc, som=True)
            out.append(z3.Implies(z3.And(d >= 1, c >= 0), p1 >= 0))
            out.append(z3.Implies(z3.And(d <= -1, c >= 0), p2 <= 0))
        else:
            out.append(z3.Implies(z3.And(d > 0, c > 0), p > 0))
            out.append(z3.Implies(z3.And(d < 0, c > 0), p < 0))
    _lemmas[k] = (out, d, c)
    return out


# ------------------------------------------------------------- the portfolio
_cache = {}


def _z3(fs, timeout, nl=True, seed=0):
    s = z3.SolverFor("QF_UFLIRA") if False else z3.Solver()
    s.set("timeout", int(timeout*1000))
    if not nl:
        s.set("smt.arith.nl", False)
    if seed:
        s.set("random_seed", seed)
    s.add(*fs)
    r = s.check()
    return r, s


def _cvc5(fs, timeout):
    try:
        return _cvc5_run(fs, timeout)
    except Exception:
        return "unknown"


def _cvc5_run(fs, timeout):
    import cvc5
    s = z3.Solver()
    s.add(*fs)
    text = s.to_smt2()
    slv = cvc5.Solver()
    slv.setOption("tlimit-per", str(int(timeout*1000)))
    slv.setOption("nl-ext-tplanes", "true")
    parser = cvc5.InputParser(slv)
    parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + text, "q")
    sm = parser.getSymbolManager()
    res = "unknown"
    while True:
        cmd = parser.nextCommand()
        if cmd.isNull():
            break
        o = cmd.invoke(slv, sm)
        o = str(o).strip()
        if o in ("sat", "unsat", "unknown"):
            res = o
    return res


def prove(hyps, goal, timeout=10.0, want_model=True, quick=False):
    """('proved', backend) | ('refuted', model) | ('unknown', reason)"""
    g = z3.simplify(goal)
    if z3.is_true(g):
        STATS["trivial"] += 1
        return "proved", "simplifier"
    fs = [h for h in hyps] + [z3.Not(g)]
    key = (quick, timeout, frozenset(f.get_id() for f in fs))
    if key in _cache:
        STATS["cache"] += 1
        return _cache[key][0]
    t0 = time.time()
    STATS["queries"] += 1
    try:
        r = _prove(fs, timeout, want_model, quick)
    finally:
        STATS["solver_s"] += time.time() - t0
        if SLOW and time.time() - t0 > SLOW:
            print("slow %.1f s, timeout %.1f, %d facts: %s" % (time.time() - t0, timeout, len(fs), str(g)[:300]),
                  file=sys.stderr)
    _cache[key] = (r, fs)  # keep fs alive: ids are reused otherwise
    return r


def _prove(fs, timeout, want_model, quick=False):
    sat = saturate(fs)
    norm = [normal(f) for f in sat]
    lem = product_lemmas(norm)
    if lem:
        r, s = _z3(norm + lem, min(timeout, 4.0), nl=False)
        if r == z3.unsat:
            STATS["z3-lemmas"] += 1
            return "proved", "z3 (linear + product lemmas)"
    r, s = _z3(norm + lem, timeout)
    if r == z3.unsat:
        STATS["z3"] += 1
        return "proved", "z3"
    if r == z3.sat:
        return "refuted", s.model()
    if quick:
        return "unknown", "quick"
    if lem:
        r, s = _z3(norm, timeout)
        if r == z3.unsat:
            STATS["z3"] += 1
            return "proved", "z3"
        if r == z3.sat:
            return "refuted", s.model()
    r = _cvc5(sat, timeout)
    if r == "unsat":
        STATS["cvc5"] += 1
        return "proved", "cvc5"
    r, s = _z3(norm + lem, timeout, seed=7)
    if r == z3.unsat:
        STATS["z3"] += 1
        return "proved", "z3"
    if r == z3.sat:
        return "refuted", s.model()
    return "unknown", s.reason_unknown()


def satisfiable(fs, timeout=5.0):
    """True / False / None"""
    sat = [normal(f) for f in saturate(fs)]
    r, s = _z3(sat, timeout)
    if r == z3.sat:
        return True, s.model()
    if r == z3.unsat:
        return False, None
    return None, None
