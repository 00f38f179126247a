"""struct and hashlib for instrumented code.

Packed bytes are sequences of parts: concrete bytes, fields (a value packed in a known
number of bytes) and repeated fields (a symbolic number of values).  A digest is the
sequence of bytes it was computed from; digests are equal exactly when the sequences are
(the hash function is assumed free of collisions)."""
import hashlib as _hashlib
import re
import struct as _struct

import z3

from . import core, loops
from .core import issym, lift, truth, toreal, SymInt, SymReal, SymBool, Unsupported, conj, neg, INT, REAL, BOOL

FLT = z3.Function("float32", REAL, REAL)
PREFIX = z3.Function("text_prefix", INT, INT, INT)
CODE = z3.Function("text_of_bytes", INT, INT)
INTS = {"b": 8, "B": 8, "h": 16, "H": 16, "i": 32, "I": 32, "l": 32, "L": 32, "q": 64, "Q": 64}


class Field:
    """One value in `size` bytes."""

    def __init__(self, code, size, z, swap=False):
        self.code, self.size, self.z, self.swap = code, size, z, swap

    def same(self, o):
        return z3.simplify(self.z == o.z)

    def decoded(self, raw):
        """The condition that the value is packed as these bytes."""
        if self.code[0] == "s":
            return z3.simplify(self.z == lift(Text.known(raw)))
        (v,) = _struct.unpack((">" if self.swap else "<") + self.code, raw)
        if isinstance(v, float) and v != v:
            return z3.BoolVal(False)
        return z3.simplify(self.z == (toreal(lift(v)) if self.z.sort() == REAL else lift(v)))


class Rep:
    """n fields of one format."""

    def __init__(self, n, code, size, elem, swap=False):
        self.n, self.code, self.size, self.elem, self.swap = n, code, size, elem, swap


class Text(str):
    """An arbitrary text of a known number of ASCII characters (identified by a number)."""
    _ids = {}

    def __new__(cls, z, n=3):
        s = str.__new__(cls, "?<%s>" % z.get_id())
        s.z, s.n = z, n
        return s

    @classmethod
    def known(cls, raw):
        """The number of a known text."""
        return -1 - int.from_bytes(raw, "big")

    def _pyvc_len(self):
        return self.n

    def __len__(self):
        return self.n if isinstance(self.n, int) else core.ENG.concrete(self.n)

    def __eq__(self, o):
        if isinstance(o, Text):
            return SymBool(z3.simplify(self.z == o.z))
        if isinstance(o, str):
            if len(o) != len(self):
                return False
            return SymBool(self.z == lift(Text.known(o.encode())))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else neg(r)

    __hash__ = str.__hash__

    def encode(self, *a, **k):
        return SymBytes([Field("s", self.n, self.z)])

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattribute__(self, name):
        if name in ("upper", "lower", "strip", "title", "capitalize", "ljust", "rjust", "replace", "split", "swapcase"):
            raise Unsupported("text method " + name)
        return str.__getattribute__(self, name)


class SymBytes:
    def __init__(self, parts):
        self.parts = parts

    def __add__(self, o):
        return SymBytes(self.parts + bytes_parts(o))

    def __radd__(self, o):
        return SymBytes(bytes_parts(o) + self.parts)

    def _pyvc_len(self):
        return total_length(self.parts)

    def __len__(self):
        n = self._pyvc_len()
        return n if isinstance(n, int) else core.ENG.concrete(n)

    def __eq__(self, o):
        if isinstance(o, (bytes, SymBytes)):
            return same_stream(self.parts, bytes_parts(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else neg(r)

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("_pyvc"):
            raise AttributeError(n)
        raise Unsupported("bytes." + n)


def bytes_parts(b):
    if isinstance(b, SymBytes):
        return list(b.parts)
    if isinstance(b, (bytes, bytearray, memoryview)):
        return [bytes(b)] if len(b) else []
    raise TypeError("a bytes-like object is required, not %s" % type(b).__name__)


def plen(p):
    if isinstance(p, bytes):
        return len(p)
    if isinstance(p, Field):
        return p.size
    return p.n*p.size


def total_length(parts):
    t = 0
    for p in parts:
        t = t + plen(p)
    return t


def merge(parts):
    out = []
    for p in parts:
        if isinstance(p, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += p
        elif not (isinstance(p, bytes) and not p):
            out.append(p)
    return out


# ------------------------------------------------------------------- comparison
def same_stream(a, b):
    """Are the byte sequences equal?  (a condition)"""
    e = core.eng()
    a, b = merge(a), merge(b)
    la, lb = total_length(a), total_length(b)
    eqlen = la == lb
    if eqlen is False:
        return False
    conds = [] if eqlen is True else [eqlen]
    foralls = []
    unknown = False
    i = j = 0
    while i < len(a) and j < len(b):
        p, q = a[i], b[j]
        if isinstance(p, bytes) and isinstance(q, bytes):
            n = min(len(p), len(q))
            if p[:n] != q[:n]:
                return False
            _rest(a, i, p, n)
            _rest(b, j, q, n)
            i += len(p) == n
            j += len(q) == n
            continue
        if isinstance(p, Field) and isinstance(q, Field) and (p.code, p.size, p.swap) == (q.code, q.size, q.swap):
            conds.append(SymBool(p.same(q)))
            i, j = i + 1, j + 1
            continue
        if isinstance(p, Field) and isinstance(q, bytes) and len(q) >= p.size:
            conds.append(SymBool(p.decoded(q[:p.size])))
            _rest(b, j, q, p.size)
            i, j = i + 1, j + (len(q) == p.size)
            continue
        if isinstance(q, Field) and isinstance(p, bytes) and len(p) >= q.size:
            conds.append(SymBool(q.decoded(p[:q.size])))
            _rest(a, i, p, q.size)
            i, j = i + (len(p) == q.size), j + 1
            continue
        if isinstance(p, Rep) and isinstance(q, Rep) and (p.code, p.size, p.swap) == (q.code, q.size, q.swap) and \
                e.check(core.implies(conj(*conds), p.n == q.n)):
            foralls.append((p, q))
            i, j = i + 1, j + 1
            continue
        unknown = True
        break
    c = conj(*conds)
    if c is False:
        return False
    if c is not True and z3.is_false(z3.simplify(truth(c))):
        return False
    if not foralls and not unknown:
        return c
    r = e.fresh_bool("same_bytes")
    e.assume(core.implies(r, c))
    differ = [neg(c)]
    for p, q in foralls:
        def fact(k, p=p, q=q):
            return core.implies(conj(r, k >= 0, k < p.n), SymBool(_z(p, k) == _z(q, k)))
        e.memo.setdefault("same_bytes", []).append(fact)
        w = e.fresh_int("differs_at")
        differ.append(conj(w >= 0, w < p.n, SymBool(_z(p, w) != _z(q, w))))
    if not unknown:
        e.assume(core.disj(r, *differ))
    return r


def _z(p, k):
    v = p.elem(k)
    return value(p.code, v)


def _rest(parts, i, p, n):
    if n < len(p):
        parts[i] = p[n:]


def at(e, k):
    """What equalities of repeated fields say about position k."""
    for f in e.memo.get("same_bytes", ()):
        e.assume(f(k))


# ----------------------------------------------------------------------- struct
def value(code, v):
    """The value as packed: a z3 term."""
    if hasattr(v, "_pyvc_scalar"):
        v = v._pyvc_scalar()
    if code in INTS:
        if isinstance(v, (SymReal, float)):
            raise _struct.error("required argument is not an integer")
        z = lift(v)
        return z3.If(z, z3.IntVal(1), z3.IntVal(0)) if z.sort() == BOOL else z
    if code == "?":
        z = lift(v)
        return z if z.sort() == BOOL else z3.simplify(z != 0)
    if code in "df":
        z = lift(v)
        if z.sort() == BOOL:
            z = z3.If(z, z3.IntVal(1), z3.IntVal(0))
        z = toreal(z)
        return FLT(z) if code == "f" else z
    raise Unsupported("struct format " + code)


def _bounds(code):
    n = INTS[code]
    return (0, 2**n - 1) if code.isupper() else (-2**(n - 1), 2**(n - 1) - 1)


def _concrete(v):
    return not issym(v) and not hasattr(v, "_pyvc_scalar") and not isinstance(v, (SymBytes, Text))


def parse(fmt):
    """[(count, code)], little endian?"""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "@"
    if fmt and fmt[0] in "@=<>!":
        order, fmt = fmt[0], fmt[1:]
    if order not in "<>!=":
        raise Unsupported("struct format in native alignment")
    items = []
    e = core.ENG
    shown = e.memo.get("shown", {}) if e is not None else {}
    for m in re.finditer(r"\s*(?:(\d+)|(<sym\d+>))?([a-zA-Z?])", fmt):
        n = int(m.group(1)) if m.group(1) else shown[m.group(2)] if m.group(2) else None
        items.append((n, m.group(3)))
    if re.sub(r"\s*(?:(\d+)|(<sym\d+>))?([a-zA-Z?])", "", fmt).strip():
        raise _struct.error("bad char in struct format")
    return items, order in ">!"


def _one(code, v, swap):
    if _concrete(v):
        return _struct.pack((">" if swap else "<") + code, v)
    if isinstance(v, (SymBytes, Text, str)):
        raise _struct.error("required argument is not a number")
    if code in INTS:
        if isinstance(v, SymReal):
            raise _struct.error("required argument is not an integer")
        lo, hi = _bounds(code)
        if isinstance(v, SymInt) and not core.eng().decide(truth(conj(v >= lo, v <= hi))):
            raise _struct.error("argument out of range")
    return Field(code, _struct.calcsize("<" + code), value(code, v), swap)


def _text(n, v):
    if isinstance(v, (str,)):
        raise _struct.error("argument for 's' must be a bytes object")
    if isinstance(v, SymBytes):
        if len(v.parts) == 1 and isinstance(v.parts[0], Field) and v.parts[0].code == "s":
            f = v.parts[0]
            if not isinstance(f.size, int):
                raise Unsupported("text of unknown length")
            if n == f.size:
                return [f]
            if n > f.size:
                return [f, b"\0"*(n - f.size)]
            return [Field("s:%d/%d" % (n, f.size), n, PREFIX(f.z, z3.IntVal(n)))] if n else []
        raise Unsupported("packing of composed bytes")
    return [_struct.pack("<%ds" % n, v)]


def pack(fmt, *vals):
    if all(_concrete(v) for v in vals) and (isinstance(fmt, bytes) or "<sym" not in fmt):
        return _struct.pack(fmt, *vals)
    return _pack(fmt, list(vals), None)


def _pyvc_star(pos, starred, **kw):
    fmt, *vals = pos
    return _pack(fmt, vals, starred)


def _pack(fmt, vals, starred):
    """The values, then those of the starred list (any number)."""
    items, swap = parse(fmt)
    out = []
    for n, (cnt, code) in enumerate(items):
        if code == "x":
            out.append(b"\0"*(1 if cnt is None else cnt))
            continue
        if code == "s":
            if not vals:
                raise Unsupported("text from a list")
            out += _text(1 if cnt is None else cnt, vals.pop(0))
            continue
        cnt = 1 if cnt is None else cnt
        if isinstance(cnt, int):
            if len(vals) < cnt and starred is not None:
                m = starred._pyvc_len()
                if isinstance(m, int):
                    vals, starred = vals + list(starred), None
                else:
                    raise Unsupported("list packed in a fixed number of fields")
            if len(vals) < cnt:
                raise _struct.error("pack expected more items for packing")
            for _ in range(cnt):
                out.append(_one(code, vals.pop(0), swap))
        else:
            if vals or starred is None:
                raise Unsupported("symbolic number of fields for listed values")
            if not core.eng().decide(truth(cnt == starred._pyvc_len())):
                raise _struct.error("pack expected another number of items")
            if code in INTS or code not in "df?":
                raise Unsupported("a list of " + code)
            s, starred = starred, None
            out.append(Rep(cnt, code, _struct.calcsize("<" + code),
                           _elements(s), swap))
    if vals or starred is not None and core.eng().decide(truth(starred._pyvc_len() != 0)):
        raise _struct.error("pack expected fewer items for packing")
    return SymBytes(merge(out))


def _elements(s):
    if isinstance(s, loops.SymSeq):
        return s.elem
    if isinstance(s, loops.VList):
        parts = list(s.parts)
        return lambda k: s._get_in(parts, k)
    raise Unsupported("packing of a slice")


pack._pyvc_star = _pyvc_star


# ---------------------------------------------------------------------- hashlib
class HashValue:
    """hash() of a digest: equal for equal digests."""

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        if not isinstance(o, HashValue):
            return core.eng().fresh_bool("hash_equal")
        c = self.d == o.d
        r = core.eng().fresh_bool("hash_equal")
        core.eng().assume(core.implies(c, r))
        return r

    def __ne__(self, o):
        return neg(self == o)

    __hash__ = None


class Digest:
    """The digest of a byte sequence."""
    _pyvc_clone = True

    def __init__(self, name, size, parts, form="bytes"):
        self.name, self.size, self.parts, self.form = name, size, merge(parts), form

    def __eq__(self, o):
        if o is self:
            return True
        if not isinstance(o, Digest):
            return False
        if (self.name, self.size, self.form) != (o.name, o.size, o.form):
            return False
        core.eng().uses("%s has no collisions: digests are equal exactly when the bytes hashed are" % self.name)
        return same_stream(self.parts, o.parts)

    def __ne__(self, o):
        return neg(self == o)

    __hash__ = None

    def _pyvc_hash(self):
        return HashValue(self)

    def __len__(self):
        return self.size*(2 if self.form == "hex" else 1)

    def hex(self):
        return Digest(self.name, self.size, self.parts, "hex")

    def __str__(self):
        return "<digest>"

    __repr__ = __str__

    def __format__(self, s):
        return "<digest>"

    def __getitem__(self, i):
        raise Unsupported("part of a digest")


class Hash:
    def __init__(self, name, data=b""):
        self.name = name
        self.digest_size = _hashlib.new(name).digest_size
        self.parts = []
        self.update(data)

    def update(self, b):
        if isinstance(b, str):
            raise TypeError("Strings must be encoded before hashing")
        self.parts = self.parts + bytes_parts(b)

    def copy(self):
        h = Hash(self.name)
        h.parts = list(self.parts)
        return h

    def digest(self):
        return Digest(self.name, self.digest_size, self.parts)

    def hexdigest(self):
        return Digest(self.name, self.digest_size, self.parts, "hex")


def _new(name):
    def f(data=b"", **k):
        return Hash(name, data)
    return f


def install(shims, Shim):
    shims["struct"] = Shim(_struct, pack=pack)
    shims["hashlib"] = Shim(_hashlib, new=lambda name, data=b"", **k: Hash(name, data),
                            **{n: _new(n) for n in ("sha1", "sha256", "sha512", "md5", "sha384", "sha224")})
