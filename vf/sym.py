"""z3-backed proxy values.

``SInt``  Python int (mathematical integer)         ``SBool`` bool
``SReal`` Python float, treated as an exact real     ``SBytes``/``SStr`` fixed-length sequences
``SView`` symbolic-length byte string (a window on a symbolic stream)
``SOpt``  value-or-None with a symbolic guard        ``VList``/``VSet`` containers with guarded members
``SMap``  dict with symbolic keys                    ``SOpaque`` text whose content is not tracked
"""

from __future__ import annotations

import z3

from vf import core
from vf.core import MergeFail, Unsupported


class Sym:
    __slots__ = ()
    real = None  # the Python type it stands for

    def __getattr__(self, n):
        if self.real is not None and n[:2] != "__" and hasattr(self.real, n):
            raise Unsupported(f"{self.real.__name__}.{n}")  # the engine's limit, not the program's error
        raise AttributeError(f"{self.real.__name__ if self.real else type(self).__name__!r} object has no attribute {n!r}")


def is_sym(x):
    return isinstance(x, Sym)


def deep_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(deep_sym(i, depth - 1) for i in x)
    if depth and isinstance(x, dict):
        return any(deep_sym(i, depth - 1) for i in x.values())
    return False


def zint(x):
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, SBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    raise Unsupported(f"not an integer: {type(x).__name__}")


def zreal(x):
    if isinstance(x, SReal):
        return x.z
    if isinstance(x, (SInt, SBool)):
        return z3.ToReal(zint(x))
    if isinstance(x, (bool, int)):
        return z3.RealVal(int(x))
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        from fractions import Fraction

        # decimal reading of the literal: 0.1 means 1/10 (floats are treated as reals)
        return z3.RealVal(str(Fraction(repr(x))))
    raise Unsupported(f"not a number: {type(x).__name__}")


def zbool(x):
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    t = sym_truth(x)
    if t is None:
        return z3.BoolVal(bool(x))
    return t


def sym_truth(x):
    """z3 truth of a symbolic value, or None when its truth is a concrete matter."""
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, SInt):
        if x.lo is not None and x.lo > 0 or x.hi is not None and x.hi < 0:
            return z3.BoolVal(True)
        return x.z != 0
    if isinstance(x, SReal):
        return x.z != 0
    if isinstance(x, SOpt):
        inner = sym_truth(x.val)
        if inner is None:
            inner = z3.BoolVal(bool(x.val))
        return z3.And(z3.Not(x.none), inner)
    if isinstance(x, VList):
        return x.z_nonempty()
    if isinstance(x, VSet):
        return x.z_nonempty()
    if isinstance(x, SView):
        return x.hi > x.lo
    return None


def wrap_bool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


def truth(x):
    """bool(x), forking if symbolic."""
    return bool(x)


class SBool(Sym):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return core.ctx().branch(self.z)

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return wrap_bool(self.z == zbool(o))
        if isinstance(o, (int, SInt)):
            return wrap_bool(zint(self) == zint(o))
        if isinstance(o, SReal) or isinstance(o, float):
            return wrap_bool(zreal(self) == zreal(o))
        return NotImplemented if isinstance(o, Sym) else False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, (SBool, bool)):
            return wrap_bool(z3.And(self.z, zbool(o)))
        return as_sint(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SBool, bool)):
            return wrap_bool(z3.Or(self.z, zbool(o)))
        return as_sint(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SBool, bool)):
            return wrap_bool(z3.Xor(self.z, zbool(o)))
        return as_sint(self) ^ o

    __rxor__ = __xor__

    def __int__(self):
        raise Unsupported("int(SBool) in C code")

    def __index__(self):
        return int(bool(self))

    def __str__(self):
        raise Unsupported("str() of SBool in C code")

    def __format__(self, spec):
        raise Unsupported("format of SBool in C code")

    def __repr__(self):
        return f"SBool({self.z})"

    def _i(self):
        return as_sint(self)

    def __add__(self, o):
        return as_sint(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return as_sint(self) - o

    def __rsub__(self, o):
        return o - as_sint(self)

    def __mul__(self, o):
        return as_sint(self) * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return as_sint(self) < o

    def __le__(self, o):
        return as_sint(self) <= o

    def __gt__(self, o):
        return as_sint(self) > o

    def __ge__(self, o):
        return as_sint(self) >= o


def neg(x):
    if x is NotImplemented:
        return x
    if isinstance(x, SBool):
        return wrap_bool(z3.Not(x.z))
    return not x


def as_sint(b):
    return SInt(z3.If(b.z, z3.IntVal(1), z3.IntVal(0)), 0, 1)


def _num(x):
    return isinstance(x, (int, SInt, SBool)) and True


def bounds(x):
    if isinstance(x, SInt):
        return x.lo, x.hi
    if isinstance(x, SBool):
        return 0, 1
    return int(x), int(x)


def mk(z, lo=None, hi=None):
    z = z3.simplify(z) if _small(z) else z
    if z3.is_int_value(z):
        return z.as_long()
    return SInt(z, lo, hi)


def _small(z):
    return True


class SInt(Sym):
    """Symbolic Python int; ``lo``/``hi`` are sound static bounds (None = unknown)."""

    __slots__ = ("z", "lo", "hi", "origin", "parts", "quot", "digit")

    def __init__(self, z, lo=None, hi=None, origin=None, parts=None):
        self.z = z
        self.digit = None  # (value, i, upper): this is the code of the hex digit (value // 16**i) % 16
        self.lo = lo
        self.hi = hi
        self.quot = None  # (value, k): this is value // 256**k
        self.origin = origin  # (value, k): this is (value // 256**k) % 256
        self.parts = parts  # tuple of byte terms, big-endian, whose value this is

    # arithmetic
    def __add__(self, o):
        if isinstance(o, (float, SReal)):
            return SReal(zreal(self) + zreal(o))
        if not _num(o):
            return NotImplemented
        a, b = bounds(self), bounds(o)
        return mk(self.z + zint(o), _s(a[0], b[0]), _s(a[1], b[1]))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (float, SReal)):
            return SReal(zreal(self) - zreal(o))
        if not _num(o):
            return NotImplemented
        a, b = bounds(self), bounds(o)
        return mk(self.z - zint(o), _d(a[0], b[1]), _d(a[1], b[0]))

    def __rsub__(self, o):
        if isinstance(o, (float, SReal)):
            return SReal(zreal(o) - zreal(self))
        if not _num(o):
            return NotImplemented
        return (SInt(zint(o), *bounds(o))).__sub__(self)

    def __mul__(self, o):
        if isinstance(o, (float, SReal)):
            return SReal(zreal(self) * zreal(o))
        if isinstance(o, (str, bytes, list, tuple)):
            raise Unsupported("sequence repetition by symbolic int")
        if not _num(o):
            return NotImplemented
        a, b = bounds(self), bounds(o)
        lo = hi = None
        if None not in a and None not in b:
            c = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
            lo, hi = min(c), max(c)
        elif a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
            lo = a[0] * b[0]
        return mk(self.z * zint(o), lo, hi)

    __rmul__ = __mul__

    def __neg__(self):
        return mk(-self.z, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        hi = None
        if self.lo is not None and self.hi is not None:
            hi = max(abs(self.lo), abs(self.hi))
        return SInt(z3.If(self.z >= 0, self.z, -self.z), 0, hi)

    def _divmod(self, o):
        if isinstance(o, (float, SReal)):
            raise Unsupported("float floor division")
        if not _num(o):
            return None
        if isinstance(o, (SInt, SBool)):
            if truth(o == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            u = unique_value(o)
            if u is None:
                raise Unsupported("division by a symbolic int")
            o = u
        o = int(o)
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        a, oo = self, o
        if oo < 0:
            a, oo = -self, -oo
        k256 = (oo.bit_length() - 1) // 8 if oo > 1 and oo & (oo - 1) == 0 and oo.bit_length() % 8 == 1 else 0
        if k256 and o > 0 and a.parts is not None and len(a.parts) > k256:
            return bytes_int(a.parts[:-k256]), bytes_int(a.parts[-k256:])
        q = a.z / oo  # z3 integer division floors for positive divisors
        m = a.z % oo
        qlo = None if a.lo is None else a.lo // oo
        qhi = None if a.hi is None else a.hi // oo
        if a.lo is not None and a.hi is not None and a.lo // oo == a.hi // oo:
            base = a.lo // oo
            quo = base
            mo = mk(a.z - base * oo, a.lo - base * oo, a.hi - base * oo)
        else:
            quo = mk(q, qlo, qhi)
            mo = mk(m, 0, oo - 1)
        if k256 and o > 0 and a.lo is not None and a.lo >= 0:
            base, sh = a.quot or (a, 0)
            if isinstance(quo, SInt):
                quo.quot = (base, sh + k256)
                if base.hi is not None and base.hi < 256 ** (sh + k256 + 1):
                    quo.origin = (base, sh + k256)
            if k256 == 1 and isinstance(mo, SInt):
                mo.origin = (base, sh)
        if o < 0:
            mo = -mo
        return quo, mo

    def __floordiv__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r[0]

    def __mod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r[1]

    def __divmod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r

    def __rfloordiv__(self, o):
        return SInt(zint(o), *bounds(o)).__floordiv__(self)

    def __rmod__(self, o):
        if isinstance(o, str):
            return SOpaque()
        return SInt(zint(o), *bounds(o)).__mod__(self)

    def __truediv__(self, o):
        if isinstance(o, (SInt, SReal, SBool)):
            if truth(o == 0):
                raise ZeroDivisionError("division by zero")
        elif isinstance(o, (int, float)):
            if o == 0:
                raise ZeroDivisionError("division by zero")
        else:
            return NotImplemented
        return SReal(zreal(self) / zreal(o))

    def __rtruediv__(self, o):
        if truth(self == 0):
            raise ZeroDivisionError("division by zero")
        return SReal(zreal(o) / zreal(self))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("symbolic power")

    def __rpow__(self, o):
        u = unique_value(self)
        if u is not None:
            return o**u
        raise Unsupported("symbolic exponent")

    # bits
    def __lshift__(self, k):
        if isinstance(k, SInt):
            k = _must_unique(k, "shift")
        return self * (1 << k)

    def __rlshift__(self, o):
        k = _must_unique(self, "shift")
        return o << k

    def __rshift__(self, k):
        if isinstance(k, SInt):
            k = _must_unique(k, "shift")
        return self // (1 << k)

    def __rrshift__(self, o):
        return o >> _must_unique(self, "shift")

    def __and__(self, m):
        if isinstance(m, SBool):
            m = as_sint(m)
        if isinstance(m, SInt):
            u = unique_value(m)
            if u is not None:
                m = u
            else:
                u = unique_value(self)
                if u is not None:
                    return m & u
                return _bitwise(self, m, "and")
        if not isinstance(m, int):
            return NotImplemented
        m = int(m)
        if m == 0:
            return 0
        if m < 0:
            if m == -1:
                return self
            return self - (self & ~m)
        out = 0
        bit = 0
        while (m >> bit) != 0:
            if (m >> bit) & 1:
                start = bit
                while (m >> bit) & 1:
                    bit += 1
                chunk = (self >> start) % (1 << (bit - start))
                out = out + (chunk << start if not isinstance(chunk, int) else chunk << start)
            else:
                bit += 1
        return out

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SBool):
            o = as_sint(o)
        if isinstance(o, int):
            if o == 0:
                return self
            return self + o - (self & int(o))
        if not isinstance(o, SInt):
            return NotImplemented
        for a, b in ((self, o), (o, self)):
            if b.lo is not None and b.hi is not None and b.lo >= 0:
                k = b.hi.bit_length()
                if core.ctx().valid(a.z % (1 << k) == 0):
                    return a + b
        return self + o - _bitwise(self, o, "and")

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SBool):
            o = as_sint(o)
        if isinstance(o, int):
            return self + o - 2 * (self & int(o))
        if not isinstance(o, SInt):
            return NotImplemented
        return self + o - 2 * _bitwise(self, o, "and")

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    # comparison
    def _cmp(self, o, op):
        if isinstance(o, (float, SReal)):
            if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
                inf = o == float("inf")
                return {"lt": inf, "le": inf, "gt": (o == float("-inf")), "ge": (o == float("-inf"))}[op]
            a, b = zreal(self), zreal(o)
        elif _num(o):
            lo1, hi1 = self.lo, self.hi
            lo2, hi2 = bounds(o)
            if op == "lt":
                if hi1 is not None and lo2 is not None and hi1 < lo2:
                    return True
                if lo1 is not None and hi2 is not None and lo1 >= hi2:
                    return False
            elif op == "le":
                if hi1 is not None and lo2 is not None and hi1 <= lo2:
                    return True
                if lo1 is not None and hi2 is not None and lo1 > hi2:
                    return False
            elif op == "gt":
                if lo1 is not None and hi2 is not None and lo1 > hi2:
                    return True
                if hi1 is not None and lo2 is not None and hi1 <= lo2:
                    return False
            elif op == "ge":
                if lo1 is not None and hi2 is not None and lo1 >= hi2:
                    return True
                if hi1 is not None and lo2 is not None and hi1 < lo2:
                    return False
            a, b = self.z, zint(o)
        else:
            return NotImplemented
        return wrap_bool({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op])

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        if isinstance(o, (float, SReal)):
            if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
                return False
            return wrap_bool(zreal(self) == zreal(o))
        if _num(o):
            lo2, hi2 = bounds(o)
            if self.hi is not None and lo2 is not None and self.hi < lo2:
                return False
            if self.lo is not None and hi2 is not None and self.lo > hi2:
                return False
            return wrap_bool(self.z == zint(o))
        if isinstance(o, SOpt):
            return NotImplemented
        return False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __bool__(self):
        t = sym_truth(self)
        return core.ctx().branch(t)

    def __hash__(self):
        return hash(concretize(self, 80, "hash"))

    def __index__(self):
        return concretize(self, 80, "__index__")

    def __int__(self):
        raise Unsupported("int() of symbolic in C code")

    def __float__(self):
        raise Unsupported("float() of symbolic in C code")

    def __round__(self, n=None):
        if n is None or (isinstance(n, int) and n >= 0):
            return self
        raise Unsupported("round(SInt, negative)")

    def __trunc__(self):
        return self

    def __format__(self, spec):
        raise Unsupported("format of symbolic int in C code")

    def __str__(self):
        raise Unsupported("str() of symbolic int in C code")

    def __repr__(self):
        return f"SInt({self.z})"

    def bit_length(self):
        if self.lo is None or self.lo < 0 or self.hi is None:
            raise Unsupported("bit_length of unbounded")
        out = 0
        for k in range(self.hi.bit_length()):
            out = out + SInt(z3.If(self.z >= (1 << k), z3.IntVal(1), z3.IntVal(0)), 0, 1)
        return out

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if signed:
            raise Unsupported("signed to_bytes")
        if truth(self < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if truth(self >= 1 << (8 * length)):
            raise OverflowError("int too big to convert")
        bs = int_bytes(self, length)
        if byteorder == "little":
            bs = bs[::-1]
        return SBytes(bs)

    def as_integer_ratio(self):
        return (self, 1)

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self


def _s(a, b):
    return None if a is None or b is None else a + b


def _d(a, b):
    return None if a is None or b is None else a - b


def _bitwise(a, b, op):
    (alo, ahi), (blo, bhi) = bounds(a), bounds(b)
    if alo is None or blo is None or alo < 0 or blo < 0 or (ahi is None and bhi is None):
        raise Unsupported("bitwise op on unbounded symbolic ints")
    hi = min(x for x in (ahi, bhi) if x is not None)
    n = hi.bit_length()
    if n > 64:
        raise Unsupported("bitwise op too wide")
    out = 0
    for k in range(n):
        ba, bb = (a >> k) % 2, (b >> k) % 2
        out = out + SInt(z3.If(z3.And(zint(ba) == 1, zint(bb) == 1), z3.IntVal(1 << k), z3.IntVal(0)), 0, 1 << k)
    return out


def unique_value(x):
    """The only feasible value of a symbolic int under the path condition, or None."""
    if isinstance(x, int):
        return int(x)
    if isinstance(x, SBool):
        x = as_sint(x)
    if x.lo is not None and x.lo == x.hi:
        return x.lo
    c = core.ctx()
    v = core.z3.simplify(x.z)
    if z3.is_int_value(v):
        return v.as_long()
    if core._check(c.solver) != z3.sat:
        return None
    m = c.solver.model().eval(x.z, model_completion=True)
    if not z3.is_int_value(m):
        return None
    if c.valid(x.z == m):
        return m.as_long()
    return None


def _must_unique(x, what):
    u = unique_value(x)
    if u is None:
        raise Unsupported(f"symbolic {what}")
    return u


def concretize(x, limit, why):
    """Fork over every feasible value of x (complete when the domain is finite and small)."""
    if isinstance(x, int):
        return int(x)
    c = core.ctx()
    if x.lo is not None and x.hi is not None and x.hi - x.lo + 1 <= limit:
        for k in range(x.lo, x.hi):
            if c.branch(x.z == k):
                return k
        c.add(x.z == x.hi) if False else None
        if c.branch(x.z == x.hi):
            return x.hi
        raise core.PathEnd("infeasible concretization")
    u = unique_value(x)
    if u is not None:
        return u
    # data-dependent enumeration
    vals = []
    c.solver.push()
    try:
        while len(vals) <= limit:
            if core._check(c.solver) != z3.sat:
                break
            m = c.solver.model().eval(x.z, model_completion=True)
            if not z3.is_int_value(m):
                raise Unsupported(f"{why}: cannot enumerate")
            vals.append(m.as_long())
            c.solver.add(x.z != m)
    finally:
        c.solver.pop()
    if len(vals) > limit:
        raise Unsupported(f"{why}: too many values of a symbolic int")
    for k in sorted(vals):
        if c.branch(x.z == k):
            return k
    raise core.PathEnd("infeasible concretization")


# -- reals ----------------------------------------------------------------------------

class SReal(Sym):
    """A Python float treated as an exact real (machine rounding is not modelled)."""

    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z
        core.ctx().ex.unit.assumptions.add("floating point treated as exact real arithmetic")

    def _b(self, o, f):
        if isinstance(o, (int, float, SInt, SBool, SReal)):
            return SReal(f(self.z, zreal(o)))
        return NotImplemented

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if truth(o == 0):
            raise ZeroDivisionError("float division by zero")
        return self._b(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        if truth(self == 0):
            raise ZeroDivisionError("float division by zero")
        return self._b(o, lambda a, b: b / a)

    def __neg__(self):
        return SReal(-self.z)

    def __abs__(self):
        return SReal(z3.If(self.z >= 0, self.z, -self.z))

    def __floordiv__(self, o):
        return SReal(z3.ToReal(z3.ToInt(zreal(self) / zreal(o))))

    def __round__(self, n=None):
        # round-half-even at n decimals, over the reals
        k = 10 ** (n or 0)
        s = self.z * k
        fl = z3.ToInt(s)
        frac = s - z3.ToReal(fl)
        r = z3.If(frac < z3.RealVal("1/2"), fl, z3.If(frac > z3.RealVal("1/2"), fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
        if n is None:
            return mk(r)
        return SReal(z3.ToReal(r) / k)

    def __trunc__(self):
        return mk(z3.If(self.z >= 0, z3.ToInt(self.z), -z3.ToInt(-self.z)))

    def __floor__(self):
        return mk(z3.ToInt(self.z))

    def is_integer(self):
        return wrap_bool(z3.IsInt(self.z))

    def _c(self, o, f):
        if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
            return f(0.0, o)
        if isinstance(o, (int, float, SInt, SBool, SReal)):
            r = f(self.z, zreal(o))
            return wrap_bool(r)
        return NotImplemented

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented and not isinstance(o, Sym) else r

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __bool__(self):
        return core.ctx().branch(self.z != 0)

    def __hash__(self):
        raise Unsupported("hash of symbolic float")

    def __float__(self):
        raise Unsupported("float() of symbolic in C code")

    def __int__(self):
        raise Unsupported("int() of symbolic in C code")

    def __str__(self):
        raise Unsupported("str() of SReal in C code")

    def __format__(self, spec):
        raise Unsupported("format of SReal in C code")

    def __repr__(self):
        return f"SReal({self.z})"


# -- bytes / strings of known length --------------------------------------------------

def int_bytes(v, n):
    """Big-endian bytes of a value known to be in [0, 256**n)."""
    if isinstance(v, int):
        return [(v >> (8 * (n - 1 - i))) & 0xFF for i in range(n)]
    if v.parts is not None and len(v.parts) <= n:
        return [0] * (n - len(v.parts)) + list(v.parts)
    out = []
    for i in range(n):
        sh = 8 * (n - 1 - i)
        b = (v >> sh) % 256 if sh else v % 256
        if isinstance(b, SInt):
            b = SInt(b.z, 0, 255, origin=(v, n - 1 - i))
        out.append(b)
    return out


def bytes_int(bs):
    """Big-endian integer value of a list of byte values."""
    if all(isinstance(b, int) for b in bs):
        return int.from_bytes(bytes(bs), "big")
    if len(bs) == 1:
        return bs[0]
    # re-assembly of the bytes of one known value
    lead = 0
    while lead < len(bs) and isinstance(bs[lead], int) and bs[lead] == 0:
        lead += 1
    rest = bs[lead:]
    first = rest[0] if rest else None
    n = len(rest)
    if isinstance(first, SInt) and first.origin is not None and first.origin[1] == n - 1:
        v = first.origin[0]
        if v.hi is not None and v.hi < 256**n and all(
            isinstance(b, SInt) and b.origin is not None and b.origin[0] is v and b.origin[1] == n - 1 - k for k, b in enumerate(rest)
        ):
            return v
    z = None
    lo = hi = 0
    for b in bs:
        bl, bh = bounds(b)
        z = zint(b) if z is None else z * 256 + zint(b)
        lo, hi = lo * 256 + (bl or 0), hi * 256 + (255 if bh is None else bh)
    return SInt(z3.simplify(z), lo, hi, parts=tuple(bs))


def _norm_slice(k, n):
    return range(n)[k]


class SeqBase(Sym):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = list(v)

    def __iter__(self):
        return iter([self._elt(x) for x in self.v])

    def __bool__(self):
        return len(self.v) > 0

    def vlen(self):
        return len(self.v)

    def __len__(self):
        return len(self.v)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
                k = slice(*[None if x is None else concretize(x, 400, "slice bound") for x in (k.start, k.stop, k.step)])
            return self._mk(self.v[k])
        if isinstance(k, SInt):
            k = concretize(k, 400, "index")
        return self._elt(self.v[k])

    def _cat(self, a, b):
        return self._mk(list(a) + list(b))

    def __hash__(self):
        if all(isinstance(x, int) for x in self.v):
            return hash(self.concrete())
        raise Unsupported("hash of symbolic sequence")

    def _eqlist(self, o):
        if len(self.v) != len(o):
            return False
        conds = []
        for a, b in zip(self.v, o):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    return False
                continue
            e = a == b
            if e is False:
                return False
            if e is True:
                continue
            conds.append(e.z)
        if not conds:
            return True
        return wrap_bool(z3.And(*conds))

    def __mul__(self, n):
        return self._mk(self.v * n)

    __rmul__ = __mul__


class SBytes(SeqBase):
    __slots__ = ()

    def _mk(self, v):
        if all(isinstance(x, int) for x in v):
            return bytes(v)
        return SBytes(v)

    def _elt(self, x):
        return x

    def concrete(self):
        return bytes(self.v)

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return self._cat(self.v, o)
        if isinstance(o, SBytes):
            return self._cat(self.v, o.v)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return self._cat(o, self.v)
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return self._eqlist(list(o))
        if isinstance(o, SBytes):
            return self._eqlist(o.v)
        if isinstance(o, SView):
            return NotImplemented
        return False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    __hash__ = SeqBase.__hash__

    def find(self, sub, start=0, end=None):
        n = len(self.v)
        subv = list(sub) if isinstance(sub, (bytes, bytearray)) else ([sub] if isinstance(sub, (int, SInt)) else sub.v)
        start, stop, _ = slice(start, end).indices(n)
        m = len(subv)
        for i in range(start, stop - m + 1):
            if truth(self._mk(self.v[i : i + m]) == (bytes(subv) if all(isinstance(x, int) for x in subv) else SBytes(subv))):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def startswith(self, p):
        if isinstance(p, tuple):
            raise Unsupported("startswith tuple")
        return self._mk(self.v[: len(p)]) == p

    def endswith(self, p):
        return self._mk(self.v[len(self.v) - len(p) :]) == p if len(p) <= len(self.v) else False

    def hex(self, *a):
        return SOpaque("hex")

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding
        e = enc.lower().replace("-", "").replace("_", "")
        if e in ("latin1", "iso88591"):
            return mkstr(self.v)
        if e in ("ascii", "utf8"):
            out = []
            for b in self.v:
                hi = truth(b >= 128)
                if hi:
                    if errors == "ignore" and e == "ascii":
                        continue
                    if errors == "replace" and e == "ascii":
                        out.append(0xFFFD)
                        continue
                    if e == "ascii" and errors == "strict":
                        raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "ordinal not in range(128)")
                    raise Unsupported("utf-8 multi-byte decode")
                out.append(b)
            return mkstr(out)
        raise Unsupported(f"decode {enc}")

    def rstrip(self, chars=None):
        v = list(self.v)
        while v and truth(_in_bytes(v[-1], chars)):
            v.pop()
        return self._mk(v)

    def lstrip(self, chars=None):
        v = list(self.v)
        while v and truth(_in_bytes(v[0], chars)):
            v.pop(0)
        return self._mk(v)

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def replace(self, a, b, *n):
        if n or len(a) != 1:
            raise Unsupported("bytes.replace")
        out = []
        for x in self.v:
            if truth(x == a[0]):
                out.extend(b)
            else:
                out.append(x)
        return self._mk(out)

    def join(self, parts):
        return join_bytes(self, parts)

    def rjust(self, n, ch=b" "):
        return self._mk([*ch] * max(0, n - len(self.v)) + self.v)

    def ljust(self, n, ch=b" "):
        return self._mk(self.v + [*ch] * max(0, n - len(self.v)))

    def __repr__(self):
        return f"SBytes(len={len(self.v)})"

    def __buffer__(self, flags):
        raise Unsupported("buffer of symbolic bytes")


def _in_bytes(x, chars):
    if chars is None:
        chars = b" \t\n\r\x0b\x0c"
    c = [x == ch for ch in chars]
    return any_of(c)


def any_of(conds):
    zs = []
    for c in conds:
        if c is True:
            return True
        if c is False:
            continue
        zs.append(zbool(c))
    if not zs:
        return False
    return wrap_bool(z3.Or(*zs))


def all_of(conds):
    zs = []
    for c in conds:
        if c is False:
            return False
        if c is True:
            continue
        zs.append(zbool(c))
    if not zs:
        return True
    return wrap_bool(z3.And(*zs))


def mkbytes(v):
    v = list(v)
    if all(isinstance(x, int) for x in v):
        return bytes(v)
    return SBytes(v)


def join_bytes(sep, parts):
    out = []
    first = True
    for p in parts:
        if not first:
            out.extend(list(sep) if isinstance(sep, bytes) else sep.v)
        first = False
        out.extend(list(p) if isinstance(p, (bytes, bytearray)) else p.v)
    return mkbytes(out)


def mkstr(v):
    v = list(v)
    if all(isinstance(x, int) for x in v):
        return "".join(map(chr, v))
    return SStr(v)


_WS = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xA0]


HEX_CODES = (frozenset(b"0123456789abcdef"), frozenset(b"0123456789ABCDEF"))


def codes(x):
    """The codes a character written as a hex digit can have, or None."""
    d = getattr(x, "digit", None)
    return d and HEX_CODES[d[2]]


def _range_cond(x, ranges):
    if isinstance(x, int):
        return any(a <= x <= b for a, b in ranges)
    if codes(x):
        seen = {_range_cond(c, ranges) for c in codes(x)}
        if len(seen) == 1:
            return seen.pop()
    return any_of([wrap_bool(z3.And(x.z >= a, x.z <= b)) for a, b in ranges])


def _latin_ranges(pred):
    out, start = [], None
    for i in range(256):
        if pred(chr(i)):
            if start is None:
                start = i
            end = i
        elif start is not None:
            out.append((start, end))
            start = None
    if start is not None:
        out.append((start, end))
    return out


_ALNUM = _latin_ranges(str.isalnum)
_ALPHA = _latin_ranges(str.isalpha)
_DIGIT = _latin_ranges(str.isdigit)
_DECIMAL = _latin_ranges(str.isdecimal)
_UPPER = _latin_ranges(str.isupper)
_LOWER = _latin_ranges(str.islower)
_PRINT = _latin_ranges(str.isprintable)


class SStr(SeqBase):
    """String of concrete length whose characters (code points 0..255) may be symbolic."""

    __slots__ = ()

    def _mk(self, v):
        return mkstr(v)

    def _elt(self, x):
        return mkstr([x])

    def concrete(self):
        return "".join(map(chr, self.v))

    @staticmethod
    def codes(o):
        return [ord(c) for c in o] if isinstance(o, str) else o.v

    def __add__(self, o):
        if isinstance(o, (str, SStr)):
            return self._cat(self.v, SStr.codes(o))
        if isinstance(o, SOpaque):
            return o
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return self._cat(SStr.codes(o), self.v)
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return self._eqlist(SStr.codes(o))
        if isinstance(o, SOpaque):
            return NotImplemented
        return False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    __hash__ = SeqBase.__hash__

    def _all(self, ranges):
        if not self.v:
            return False
        return all_of([_range_cond(x, ranges) for x in self.v])

    def isalnum(self):
        return self._all(_ALNUM)

    def isalpha(self):
        return self._all(_ALPHA)

    def isdigit(self):
        return self._all(_DIGIT)

    def isdecimal(self):
        return self._all(_DECIMAL)

    def isprintable(self):
        return all_of([_range_cond(x, _PRINT) for x in self.v])

    def isascii(self):
        return all_of([x < 128 for x in self.v])

    def isupper(self):
        return all_of([neg(_range_cond(x, _LOWER)) for x in self.v]) & any_of([_range_cond(x, _UPPER) for x in self.v])

    def isspace(self):
        return bool(self.v) and all_of([any_of([x == w for w in _WS]) for x in self.v])

    def _instrip(self, x, chars):
        cs = _WS if chars is None else SStr.codes(chars)
        return any_of([x == c for c in cs])

    def lstrip(self, chars=None):
        v = list(self.v)
        while v and truth(self._instrip(v[0], chars)):
            v.pop(0)
        return mkstr(v)

    def rstrip(self, chars=None):
        v = list(self.v)
        while v and truth(self._instrip(v[-1], chars)):
            v.pop()
        return mkstr(v)

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def replace(self, a, b, *n):
        if n or len(a) != 1:
            raise Unsupported("str.replace")
        ac = SStr.codes(a)[0]
        c = core.ctx()
        if isinstance(b, str) and sum(1 for x in self.v if not isinstance(x, int) and c.feasible(x.z == ac)) > 1 and _homable(self.v):
            return SText([Hom(self.v)]).replace(a, b)
        out = []
        for x in self.v:
            if truth(x == ac):
                out.extend(SStr.codes(b))
            else:
                out.append(x)
        return mkstr(out)

    def upper(self):
        c = core.ctx()
        if any(not isinstance(x, int) and not c.valid(x.z < 128) for x in self.v) and _homable(self.v):
            return SText([Hom(self.v)]).upper()
        out = []
        for x in self.v:
            if isinstance(x, int):
                u = chr(x).upper()
                if len(u) != 1:
                    raise Unsupported("upper expands")
                out.append(ord(u))
            else:
                if not core.ctx().valid(x.z < 128):
                    if truth(x >= 128):
                        raise Unsupported("upper of non-ascii")
                out.append(SInt(z3.If(z3.And(x.z >= 97, x.z <= 122), x.z - 32, x.z), 0, 255))
        return mkstr(out)

    def startswith(self, p):
        if isinstance(p, tuple):
            return any_of([self.startswith(q) for q in p])
        return mkstr(self.v[: len(p)]) == p

    def endswith(self, p):
        return mkstr(self.v[len(self.v) - len(p) :]) == p if len(p) <= len(self.v) else False

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding
        e = enc.lower().replace("-", "").replace("_", "")
        out = []
        for x in self.v:
            if e in ("latin1", "iso88591"):
                if truth(x > 255):
                    raise UnicodeEncodeError("latin-1", "\u0178", 0, 1, "ordinal not in range(256)")
                out.append(x)
            elif e in ("utf8", "ascii"):
                if truth(x >= 128):
                    if e == "ascii":
                        raise UnicodeEncodeError("ascii", "\xff", 0, 1, "ordinal not in range(128)")
                    # two-byte form (code points are < 0x800)
                    hi = 0xC0 + x // 64
                    lo = 0x80 + x % 64
                    out += [hi, lo]
                else:
                    out.append(x)
            else:
                raise Unsupported(f"encode {enc}")
        return mkbytes(out)

    def join(self, parts):
        return join_str(self, parts)

    def rjust(self, n, ch=" "):
        return mkstr([ord(ch)] * max(0, n - len(self.v)) + self.v)

    def ljust(self, n, ch=" "):
        return mkstr(self.v + [ord(ch)] * max(0, n - len(self.v)))

    def zfill(self, n):
        return self.rjust(n, "0")

    def contains(self, sub):
        sv = SStr.codes(sub)
        m = len(sv)
        return any_of([mkstr(self.v[i : i + m])._eqlist(sv) if isinstance(mkstr(self.v[i : i + m]), SStr)
                       else mkstr(self.v[i : i + m]) == mkstr(sv) for i in range(len(self.v) - m + 1)])

    def __contains__(self, sub):
        return truth(self.contains(sub))

    def __format__(self, spec):
        raise Unsupported("format of symbolic str in C code")

    def __str__(self):
        raise Unsupported("str() of symbolic str in C code")

    def __repr__(self):
        return f"SStr(len={len(self.v)})"

    def find(self, sub, start=0, end=None):
        sv, n = SStr.codes(sub), len(self.v)
        start, stop, _ = slice(start, end).indices(n)
        for i in range(start, stop - len(sv) + 1):
            if truth(mkstr(self.v[i : i + len(sv)]) == mkstr(sv)):
                return i
        return -1

    def splitlines(self, keepends=False):
        if keepends:
            raise Unsupported("SStr.splitlines(keepends)")
        out, cur, prev = [], [], None
        for x in self.v:
            if truth(any_of([x == c for c in (10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029)])):
                cr = truth(x == 13)
                if not (prev == "cr" and not cur and truth(x == 10)):
                    out.append(mkstr(cur))
                cur, prev = [], "cr" if cr else "nl"
            else:
                cur.append(x)
                prev = None
        return VList(out + [mkstr(cur)] if cur else out)

    def split(self, sep=None, maxsplit=-1):
        if not isinstance(sep, str) or len(sep) != 1:
            raise Unsupported("SStr.split")
        c, out, cur, code = core.ctx(), [], [], ord(sep)
        for x in SStr.codes(self):
            if 0 <= maxsplit <= len(out):
                cur.append(x)
            elif (x == code) if isinstance(x, int) else c.branch(zint(x) == code):
                out.append(mkstr(cur))
                cur = []
            else:
                cur.append(x)
        out.append(mkstr(cur))
        return out


def join_str(sep, parts):
    out = []
    first = True
    parts = list(parts)
    if any(type(p) is SText for p in parts) and not any(isinstance(p, SOpaque) and type(p) is not SText for p in parts):
        ps = []
        for i, p in enumerate(parts):
            if i and sep:
                ps.append(sep)
            ps.extend(p.parts if type(p) is SText else [p])
        return SText(ps)
    for p in parts:
        if isinstance(p, SOpaque):
            return SOpaque()
        if not first:
            out.extend(SStr.codes(sep))
        first = False
        out.extend(SStr.codes(p))
    return mkstr(out)


class SOpaque(Sym):
    """Text (or any value) whose content is not tracked: log lines, exception messages."""

    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __add__(self, o):
        return self

    __radd__ = __add__
    __mod__ = __add__

    def __str__(self):
        return "<opaque>"

    def __format__(self, spec):
        return "<opaque>"

    def __repr__(self):
        return "<opaque>"

    def __bool__(self):
        raise Unsupported(f"truth of opaque value {self.why}")

    def __eq__(self, o):
        raise Unsupported(f"comparison of opaque value {self.why}")

    def __hash__(self):
        raise Unsupported(f"hash of opaque value {self.why}")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"attribute {n} of opaque value {self.why}")

    def __iter__(self):
        raise Unsupported(f"iteration over opaque value {self.why}")

    def __len__(self):
        raise Unsupported(f"len of opaque value {self.why}")

    def __getitem__(self, k):
        raise Unsupported(f"subscript of opaque value {self.why}")

    def __lt__(self, o):
        raise Unsupported(f"comparison of opaque value {self.why}")

    __le__ = __gt__ = __ge__ = __lt__


_IDENT = tuple(chr(i) for i in range(256))


def _homable(v):
    return all((x if isinstance(x, int) else (bounds(x)[1] if bounds(x)[1] is not None else 999)) <= 255 for x in v)


def _ranges(pred):
    out = []
    for i in range(256):
        if pred(i):
            if out and out[-1][1] == i - 1:
                out[-1] = (out[-1][0], i)
            else:
                out.append((i, i))
    return out


class Hom:
    """Image of a byte string under a per-byte map (decode, then replace / upper / lower).

    Keeping the map instead of the characters means the operations need no case split; the text
    is only expanded when something looks at individual characters.
    """

    __slots__ = ("v", "t")

    def __init__(self, v, t=_IDENT):
        self.v = list(v)
        self.t = t

    def map(self, f):
        t = tuple(f(x) for x in self.t)
        if any(len(x) > 1 for x in t) and f is not str.upper:
            raise Unsupported("text map")
        return Hom(self.v, t)

    def length(self):
        one = _ranges(lambda i: len(self.t[i]) == 1)
        two = _ranges(lambda i: len(self.t[i]) == 2)
        n = 0
        for x in self.v:
            if isinstance(x, int):
                n = n + len(self.t[x])
            else:
                z = z3.If(zbool(_range_cond(x, one)), 1, z3.If(zbool(_range_cond(x, two)), 2, 0)) if two else z3.If(zbool(_range_cond(x, one)), 1, 0)
                n = SInt(z, 0, 2) + n
        return n

    def every(self, pred):
        """Every character of the text satisfies pred (vacuously true for an empty text)."""
        ok = _ranges(lambda i: all(pred(ch) for ch in self.t[i]))
        return all_of([_range_cond(x, ok) for x in self.v])

    def nonempty(self):
        ok = _ranges(lambda i: len(self.t[i]) > 0)
        return any_of([_range_cond(x, ok) for x in self.v])

    def expand(self):
        c = core.ctx()
        lens = {n: _ranges(lambda i: len(self.t[i]) == n) for n in (0, 1, 2)}
        out = []
        for x in self.v:
            if isinstance(x, int):
                out.extend(map(ord, self.t[x]))
            elif lens[0] and truth(_range_cond(x, lens[0])):
                pass
            elif lens[2] and truth(_range_cond(x, lens[2])):
                i = concretize(x, 16, "expanding character")
                out.extend(map(ord, self.t[i]))
            else:
                z, rest = x.z, []
                deltas = {}
                for i in range(256):
                    if len(self.t[i]) == 1 and ord(self.t[i]) != i:
                        deltas.setdefault(ord(self.t[i]) - i, []).append(i)
                hi = 255
                for d, idx in deltas.items():
                    idx = [i for i in idx if c.feasible(x.z == i)] if len(idx) <= 2 else idx
                    if not idx:
                        continue
                    hi = max(hi, max(idx) + d)
                    s = set(idx)
                    z = z3.If(zbool(_range_cond(x, _ranges(lambda i: i in s))), x.z + d, z)
                out.append(SInt(z, 0, hi))
        return mkstr(out)


def _hom_is(parts, want):
    """The condition under which a mapped text is exactly ``want``."""
    at = {0: [True]}
    for h in parts:
        for x in h.v:
            nxt = {}
            for j, conds in at.items():
                c = any_of(conds)
                for n in (0, 1, 2):
                    ok = _ranges(lambda i: len(h.t[i]) == n and want.startswith(h.t[i], j))
                    if ok and j + n <= len(want):
                        nxt.setdefault(j + n, []).append(all_of([c, _range_cond(x, ok)]))
            at = nxt
    return any_of(at.get(len(want), []))


def one_to_one(h):
    """Character codes of a Hom, one per byte; -1 for a byte that is mapped to no or several characters."""
    t, out = h.t, []
    for x in h.v:
        if isinstance(x, int):
            out.append(ord(t[x]) if len(t[x]) == 1 else -1)
            continue
        z = z3.IntVal(-1)
        for d in {ord(y) - i for i, y in enumerate(t) if len(y) == 1}:
            z = z3.If(zbool(_range_cond(x, _ranges(lambda i, d=d: len(t[i]) == 1 and ord(t[i]) - i == d))), x.z + d, z)
        out.append(SInt(z3.simplify(z), -1, 0x10FFFF))
    return out


class SText(SOpaque):
    """Text with symbolic numbers rendered lazily: only *using* the text decides their digits."""

    __slots__ = ("parts", "_f")

    def __init__(self, parts):
        self.why = "text"
        self.parts = list(parts)
        self._f = None

    def force(self):
        if self._f is None:
            from vf.rt import render_num

            self._f = join_str("", [render_num(*p) if isinstance(p, tuple) else p.expand() if isinstance(p, Hom) else p for p in self.parts])
        return self._f

    def _hom(self):
        """The parts as per-byte maps when the text is built from bytes and constants only."""
        if self._f is not None or not any(isinstance(p, Hom) for p in self.parts):
            return None
        out = []
        for p in self.parts:
            if isinstance(p, tuple):
                return None
            if isinstance(p, Hom):
                out.append(p)
            elif _homable(SStr.codes(p)):
                out.append(Hom(SStr.codes(p)))
            else:
                return None
        return out

    def replace(self, a, b, *n):
        h = self._hom()
        if h is None or n or not (isinstance(a, str) and isinstance(b, str) and len(a) == 1 and len(b) <= 1):
            return self.force().replace(a, b, *n)
        return SText([p.map(lambda s: s.replace(a, b)) for p in h])

    def upper(self):
        h = self._hom()
        return self.force().upper() if h is None else SText([p.map(str.upper) for p in h])

    def lower(self):
        h = self._hom()
        return self.force().lower() if h is None else SText([p.map(str.lower) for p in h])

    def _every(self, name, pred, empty):
        h = self._hom()
        if h is None:
            return getattr(self.force(), name)()
        r = all_of([p.every(pred) for p in h])
        return r if empty else all_of([r, any_of([p.nonempty() for p in h])])

    def isalnum(self):
        return self._every("isalnum", str.isalnum, False)

    def isalpha(self):
        return self._every("isalpha", str.isalpha, False)

    def isdigit(self):
        return self._every("isdigit", str.isdigit, False)

    def isdecimal(self):
        return self._every("isdecimal", str.isdecimal, False)

    def isprintable(self):
        return self._every("isprintable", str.isprintable, True)

    def isascii(self):
        return self._every("isascii", str.isascii, True)

    def vlen(self):
        h = self._hom()
        if h is None:
            from vf.rt import vf_len

            return vf_len(self.force())
        n = 0
        for p in h:
            n = n + p.length()
        return n

    # -- questions the constant parts answer without deciding any number's digits --
    def _solid(self):
        """The parts, when they are constants, characters and plain decimal numbers; None otherwise."""
        if self._f is not None:
            return None
        out = []
        for p in self.parts:
            if isinstance(p, Hom) or isinstance(p, tuple) and p[1] not in ("", "d"):
                return None
            if not isinstance(p, tuple) and len(p) == 0:
                continue
            if isinstance(p, str) and not isinstance(p, Sym) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        return out

    @staticmethod
    def _lacks(p, ch):
        """Whether the part certainly does not contain the character (never one of a number's)."""
        if isinstance(p, tuple):
            return True
        return all(c != ord(ch) if isinstance(c, int) else (c.lo is not None and c.lo > ord(ch)) or (c.hi is not None and c.hi < ord(ch)) or not core.ctx().feasible(c.z == ord(ch)) for c in SStr.codes(p))

    def _cut(self, ch, most=-1):
        """The pieces between occurrences of a character that no number contains; None when that is not plain."""
        ps = self._solid()
        if ps is None or not isinstance(ch, str) or len(ch) != 1 or ch in "0123456789-":
            return None
        out, cur = [], []
        for p in ps:
            if isinstance(p, str) and not isinstance(p, Sym):
                if most >= 0 and len(out) >= most:
                    cur.append(p)
                    continue
                bits = p.split(ch) if most < 0 else p.split(ch, most - len(out))
                cur.append(bits[0])
                for b in bits[1:]:
                    out.append(cur)
                    cur = [b]
            elif most >= 0 and len(out) >= most or self._lacks(p, ch):
                cur.append(p)
            else:
                return None
        return [as_text(c) for c in [*out, cur]]

    def split(self, sep=None, maxsplit=-1):
        r = self._cut(sep, maxsplit) if sep is not None else None
        return self.force().split(sep, maxsplit) if r is None else r

    def splitlines(self, keepends=False):
        ps = self._solid()
        others = "\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"
        if ps is None or keepends or not all(self._lacks(p, c) for p in ps for c in others):
            return self.force().splitlines()
        r = self._cut("\n")
        if r is None:
            return self.force().splitlines()
        return r[:-1] if isinstance(r[-1], str) and r[-1] == "" else r

    def strip(self, chars=None):
        ps = self._solid()
        blank = lambda c: truth(c.isspace()) if isinstance(c, Sym) else c.isspace()  # noqa: E731
        if ps and chars is None and all(isinstance(p, tuple) or not blank(p[i]) for p, i in ((ps[0], 0), (ps[-1], -1))):
            return self
        return self.force().strip(chars)

    def find(self, sub, *a):
        ps = self._solid()
        if ps is not None and not a and isinstance(sub, str) and len(sub) == 1 and sub not in "0123456789-":
            at = 0
            for p in ps:
                if isinstance(p, tuple):
                    at = None
                elif isinstance(p, str) and not isinstance(p, Sym):
                    if sub in p:
                        if at is None:
                            break
                        return at + p.index(sub)
                    at = None if at is None else at + len(p)
                elif not self._lacks(p, sub):
                    break
                else:
                    at = None if at is None else at + len(p)
            else:
                return -1
        return self.force().find(sub, *a)

    def contains(self, sub):
        if isinstance(sub, str) and len(sub) == 1 and sub not in "0123456789-":
            ps = self._solid()
            if ps is not None and (any(isinstance(p, str) and not isinstance(p, Sym) and sub in p for p in ps)):
                return True
            if ps is not None and all(self._lacks(p, sub) for p in ps if not isinstance(p, str) or isinstance(p, Sym)):
                return False
        return self.force().contains(sub)

    def startswith(self, p, *a):
        ps = self._solid()
        if ps and not a and isinstance(p, str) and isinstance(ps[0], str) and not isinstance(ps[0], Sym) and len(ps[0]) >= len(p):
            return ps[0].startswith(p)
        if ps and not a and isinstance(p, str) and not isinstance(p, Sym) and p and isinstance(ps[0], tuple) and p[0] not in "-0123456789":
            return False
        return self.force().startswith(p, *a)

    def endswith(self, p, *a):
        ps = self._solid()
        if ps and not a and isinstance(p, str) and isinstance(ps[-1], str) and not isinstance(ps[-1], Sym) and len(ps[-1]) >= len(p):
            return ps[-1].endswith(p)
        if ps and not a and isinstance(p, str) and not isinstance(p, Sym) and p and isinstance(ps[-1], tuple) and p[-1] not in "0123456789":
            return False
        return self.force().endswith(p, *a)

    def number(self):
        """The number this is the decimal text of, or None."""
        ps = self._solid()
        return ps[0][0] if ps is not None and len(ps) == 1 and isinstance(ps[0], tuple) else None

    def _exactly(self, o):
        """Whether the two texts agree, decided by their structure alone; None when it does not decide."""
        a, b = self._solid(), o._solid()
        if a is None or b is None:
            return None
        for x, y in zip(a, b):
            if isinstance(x, str) and isinstance(y, str) and not isinstance(x, Sym) and not isinstance(y, Sym):
                m = min(len(x), len(y))
                if x[:m] != y[:m]:
                    return False
            break
        if len(a) != len(b):
            return None
        conds = []
        for i, (x, y) in enumerate(zip(a, b)):
            if isinstance(x, tuple) and isinstance(y, tuple):
                nxt = a[i + 1] if i + 1 < len(a) else None
                if nxt is not None and not (isinstance(nxt, str) and not isinstance(nxt, Sym) and nxt[0] not in "0123456789"):
                    return None
                conds.append(wrap_bool(zbool(x[0] == y[0])))
            elif isinstance(x, str) and isinstance(y, str) and not isinstance(x, Sym) and not isinstance(y, Sym):
                if x != y:
                    return None
            else:
                return None
        return all_of(conds)

    def same(self, o):
        """Syntactic agreement of two lazy texts: a condition, or None when it says nothing."""
        if not isinstance(o, SText) or len(self.parts) != len(o.parts):
            return None
        conds = []
        for a, b in zip(self.parts, o.parts):
            if isinstance(a, Hom) and isinstance(b, Hom) and len(a.v) == len(b.v):
                agree = _ranges(lambda i: a.t[i] == b.t[i])
                for x, y in zip(a.v, b.v):
                    if x is not y:
                        conds.append(wrap_bool(zbool(x == y)))
                    if agree != [(0, 255)]:
                        conds.append(_range_cond(x, agree))
            elif isinstance(a, tuple) and isinstance(b, tuple) and a[1:] == b[1:]:
                conds.append(wrap_bool(zbool(a[0] == b[0])))
            elif isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                conds.append(a == b)
            else:
                return None
        return all_of(conds)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.force(), n)

    def __add__(self, o):
        return join_str("", [self, o])

    def __radd__(self, o):
        return join_str("", [o, self])

    def __eq__(self, o):
        if o is self:
            return True
        if o is None or (not isinstance(o, (Sym, str, Guarded)) and type(o).__eq__ in (int.__eq__, float.__eq__, bytes.__eq__, list.__eq__, tuple.__eq__, dict.__eq__)):
            return False
        if isinstance(o, SOpaque) and not isinstance(o, SText):
            raise Unsupported(f"comparison of opaque value {o.why}")
        if isinstance(o, str) and not isinstance(o, Sym):
            h = self._hom()
            if h is not None and len(o) <= 64:
                return _hom_is(h, o)
        if type(o) is SText:
            s = self._exactly(o)
            if s is not None:
                return s
        s = self.same(o)
        if s is not None and truth(s):
            return True  # otherwise the texts may still coincide: compare the characters
        return self.force() == (o.force() if isinstance(o, SText) else o)

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __hash__(self):
        return hash(self.force())

    def __getitem__(self, k):
        ps = self._solid()
        if ps and isinstance(k, slice) and k.step is None and all(x is None or type(x) is int for x in (k.start, k.stop)):
            a, b = k.start or 0, k.stop
            flat = lambda p, n: isinstance(p, str) and not isinstance(p, Sym) and len(p) >= n  # noqa: E731
            if a >= 0 and (b is None or b < 0) and (a == 0 or flat(ps[0], a)) and (b is None or flat(ps[-1], -b)) and (len(ps) > 1 or b is None or flat(ps[0], a - b)):
                ps = list(ps)
                if b is not None:
                    ps[-1] = ps[-1][:b]
                ps[0] = ps[0][a:]
                return as_text(ps)
        return self.force()[k]

    def __iter__(self):
        return iter(self.force())

    def __bool__(self):
        if any(isinstance(p, tuple) or isinstance(p, (str, SStr)) and len(p) > 0 for p in self.parts):
            return True
        return truth(any_of([p.nonempty() for p in self.parts if isinstance(p, Hom)]))


def as_text(parts):
    """One text of these parts: a str when they are all constant."""
    parts = [p for p in parts if isinstance(p, tuple) or len(p)]
    if all(not isinstance(p, tuple) and (isinstance(p, SStr) or isinstance(p, str)) for p in parts):
        if not any(isinstance(p, Sym) for p in parts):
            return "".join(parts)
        return mkstr([c for p in parts for c in SStr.codes(p)])
    return SText(parts)


class Undef(SOpaque):
    """Value of a loop-carried local the invariant does not mention."""

    __slots__ = ()


# -- optional -------------------------------------------------------------------------

class SOpt(Sym):
    """``val`` or None; ``none`` is the z3 guard of being None.

    Any use other than an ``is None`` test first decides the guard (forking), so no operation
    silently assumes the value is present.
    """

    __slots__ = ("none", "val")

    def __init__(self, none, val):
        self.none = none
        self.val = val

    def force(self):
        if core.ctx().branch(self.none):
            return None
        return self.val

    def __bool__(self):
        return core.ctx().branch(sym_truth(self))

    def __eq__(self, o):
        if o is None:
            return wrap_bool(self.none)
        if isinstance(o, SOpt):
            inner = self.val == o.val
            return wrap_bool(z3.Or(z3.And(self.none, o.none), z3.And(z3.Not(self.none), z3.Not(o.none), zbool(inner))))
        inner = self.val == o
        return wrap_bool(z3.And(z3.Not(self.none), zbool(inner)))

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __hash__(self):
        return hash(self.force())

    def __iter__(self):
        return iter(self.force())

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.force(), n)

    def __str__(self):
        raise Unsupported("str() of SOpt in C code")

    def __format__(self, spec):
        raise Unsupported("format of SOpt in C code")

    def __repr__(self):
        return f"SOpt({self.none},{self.val})"

    def __index__(self):
        return self.force().__index__()


def _opt_op(name, rname=None):
    import operator

    fn = getattr(operator, name)

    def f(self, *o):
        a = self.force()
        return fn(a, *[x.force() if isinstance(x, SOpt) else x for x in o])

    def r(self, o):
        return fn(o, self.force())

    return f, r


for _n in ["add", "sub", "mul", "truediv", "floordiv", "mod", "lshift", "rshift", "and_", "or_", "xor"]:
    _f, _r = _opt_op(_n)
    _d0 = _n.rstrip("_")
    setattr(SOpt, f"__{_d0}__", _f)
    setattr(SOpt, f"__r{_d0}__", _r)
for _n in ["lt", "le", "gt", "ge"]:
    _f, _ = _opt_op(_n)
    setattr(SOpt, f"__{_n}__", _f)
for _n in ["neg", "abs", "invert"]:
    _f, _ = _opt_op(_n)
    setattr(SOpt, f"__{_n}__", _f)
SOpt.__round__ = lambda self, n=None: round(self.force(), n) if n is not None else round(self.force())


# -- merging --------------------------------------------------------------------------

def merge_values(c, a, b):
    """ite(c, a, b); raises MergeFail when the two cannot be joined."""
    if a is b:
        return a
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        try:
            if type(a) is type(b) and isinstance(a, (int, str, bytes, float, type(None))) and a == b:
                return a
        except Exception:
            pass
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return wrap_bool(z3.If(c, zbool(a), zbool(b)))
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and not isinstance(a, bool) and not isinstance(b, bool):
        if not isinstance(a, SInt) and type(a) is not int or not isinstance(b, SInt) and type(b) is not int:
            raise MergeFail("int subclass")
        (al, ah), (bl, bh) = bounds(a), bounds(b)
        lo = None if al is None or bl is None else min(al, bl)
        hi = None if ah is None or bh is None else max(ah, bh)
        return mk(z3.If(c, zint(a), zint(b)), lo, hi)
    if isinstance(a, (SReal, SInt, int, float)) and isinstance(b, (SReal, SInt, int, float)):
        if isinstance(a, (SReal, float)) and isinstance(b, (SReal, float)):
            return SReal(z3.If(c, zreal(a), zreal(b)))
        raise MergeFail("int/float")
    if a is None or b is None or isinstance(a, SOpt) or isinstance(b, SOpt):
        an, av = (a.none, a.val) if isinstance(a, SOpt) else ((z3.BoolVal(True), None) if a is None else (z3.BoolVal(False), a))
        bn, bv = (b.none, b.val) if isinstance(b, SOpt) else ((z3.BoolVal(True), None) if b is None else (z3.BoolVal(False), b))
        if av is None:
            val = bv
        elif bv is None:
            val = av
        else:
            val = merge_values(c, av, bv)
        none = z3.simplify(z3.If(c, an, bn))
        if z3.is_false(none):
            return val
        if z3.is_true(none):
            return None
        return SOpt(none, val)
    for x, y in ((a, b), (b, a)):
        m = getattr(type(x), "__vf_merge__", None)
        if m is not None:
            r = m(x, c if x is a else z3.Not(c), y)
            if r is not NotImplemented:
                return r
    if isinstance(a, SOpaque) and isinstance(b, (SOpaque, str)) or isinstance(b, SOpaque) and isinstance(a, str):
        return SOpaque("merge")
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is type(b) is tuple:
        return tuple(merge_values(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (SBytes, bytes)) and isinstance(b, (SBytes, bytes)) and len(a) == len(b):
        return mkbytes(merge_values(c, x, y) for x, y in zip(list(a), list(b)))
    raise MergeFail(f"cannot merge {type(a).__name__} / {type(b).__name__}")


# -- containers with guarded members ---------------------------------------------------

class Guarded:
    __slots__ = ("g", "v")

    def __init__(self, g, v):
        self.g = g
        self.v = v


def _plain(v):
    return isinstance(v, (str, int, float, bytes)) and not isinstance(v, Sym) or type(v) is tuple and all(_plain(i) for i in v)


class VList(list, Sym):
    """list whose items may be present only under a guard."""

    def __init__(self, it=()):
        list.__init__(self, it.raw() if isinstance(it, VList) else it)

    def raw(self):
        return list(list.__iter__(self))

    def guarded(self):
        return any(isinstance(x, Guarded) for x in list.__iter__(self))

    def items_g(self):
        for x in list.__iter__(self):
            if isinstance(x, Guarded):
                yield x.g, x.v
            else:
                yield z3.BoolVal(True), x

    def __iter__(self):
        if not self.guarded():
            return list.__iter__(self)
        return self._forking()

    def _forking(self):
        for x in self.raw():
            if isinstance(x, Guarded):
                if core.ctx().branch(x.g):
                    yield x.v
            else:
                yield x

    def resolve(self):
        """Fork on every guard; afterwards this is a plain list of known length."""
        if self.guarded():
            vals = list(self._forking())
            list.clear(self)
            list.extend(self, vals)
        return self

    def z_nonempty(self):
        gs = []
        for x in self.raw():
            if isinstance(x, Guarded):
                gs.append(x.g)
            else:
                return z3.BoolVal(True)
        return z3.Or(*gs) if gs else z3.BoolVal(False)

    def vlen(self):
        n, s = 0, None
        for x in self.raw():
            if isinstance(x, Guarded):
                t = z3.If(x.g, z3.IntVal(1), z3.IntVal(0))
                s = t if s is None else s + t
            else:
                n += 1
        if s is None:
            return n
        return SInt(s + n, n, len(self.raw()))

    def __len__(self):
        if not self.guarded():
            return list.__len__(self)
        raise Unsupported("len() of guarded list in C code")

    def __bool__(self):
        if not self.guarded():
            return list.__len__(self) > 0
        return core.ctx().branch(self.z_nonempty())

    def __getitem__(self, k):
        if not self.guarded():
            if isinstance(k, SInt):
                k = concretize(k, 400, "list index")
            return list.__getitem__(self, k)
        if isinstance(k, int) and k >= 0:
            n = -1
            for x in self.raw():
                if isinstance(x, Guarded):
                    if core.ctx().branch(x.g):
                        n += 1
                        if n == k:
                            return x.v
                else:
                    n += 1
                    if n == k:
                        return x
            raise IndexError("list index out of range")
        self.resolve()
        return list.__getitem__(self, k)

    def __eq__(self, o):
        g = self._eq_distinct(o)
        if g is not None:
            return g
        if self.guarded():
            self.resolve()
        if isinstance(o, VList) and o.guarded():
            o.resolve()
        if not isinstance(o, list) or list.__len__(self) != list.__len__(o):
            return False
        return all_of([a == b for a, b in zip(list.__iter__(self), list.__iter__(o))])

    def _eq_distinct(self, o):
        """Exact equality of lists of distinct concrete members, without deciding the guards."""
        if not isinstance(o, list):
            return None
        o = o if isinstance(o, VList) else VList(o)
        if not self.guarded() and not o.guarded():
            return None
        a, b = list(self.items_g()), list(o.items_g())
        for xs in (a, b):
            vals = [v for _, v in xs]
            if not all(_plain(v) for v in vals) or len(set(vals)) != len(vals):
                return None
        pa, pb = {v: (i, g) for i, (g, v) in enumerate(a)}, {v: (i, g) for i, (g, v) in enumerate(b)}
        conds = [pa[v][1] == pb[v][1] if v in pa and v in pb else z3.Not((pa.get(v) or pb.get(v))[1]) for v in {**pa, **pb}]
        both = [v for v in pa if v in pb]
        for i, x in enumerate(both):
            for y in both[i + 1:]:
                if pb[x][0] > pb[y][0]:  # other order: they must not both be present
                    conds.append(z3.Not(z3.And(pa[x][1], pa[y][1])))
        return wrap_bool(z3.And(*conds)) if conds else True

    def __ne__(self, o):
        return neg(self.__eq__(o))

    __hash__ = None

    def __add__(self, o):
        r = VList(self)
        list.extend(r, o.raw() if isinstance(o, VList) else list(o))
        return r

    def __radd__(self, o):
        r = VList(o)
        list.extend(r, self.raw())
        return r

    def __iadd__(self, o):
        self.extend(o)
        return self

    def extend(self, o):
        list.extend(self, o.raw() if isinstance(o, VList) else list(o))

    def copy(self):
        return VList(self)

    def __contains__(self, x):
        return truth(self.contains(x))

    def contains(self, x):
        from vf.rt import sym_eq

        return any_of([wrap_bool(z3.And(g, zbool(sym_eq(v, x)))) for g, v in self.items_g()])

    def _need_plain(self):
        self.resolve()

    def sort(self, *, key=None, reverse=False):
        self.resolve()
        list.sort(self, key=key, reverse=reverse)

    def pop(self, *a):
        self.resolve()
        return list.pop(self, *a)

    def index(self, *a):
        self.resolve()
        return list.index(self, *a)

    def count(self, x):
        from vf.rt import count_equal

        return count_equal(self.items_g(), x)

    def remove(self, x):
        self.resolve()
        list.remove(self, x)

    def insert(self, i, x):
        if i != 0:
            self.resolve()
        list.insert(self, i, x)

    def reverse(self):
        list.reverse(self)

    def __setitem__(self, k, x):
        self.resolve()
        list.__setitem__(self, k, x)

    def __delitem__(self, k):
        self.resolve()
        list.__delitem__(self, k)

    def __mul__(self, n):
        return VList(list.__mul__(VList(self.raw()).resolve(), n))

    __rmul__ = __mul__

    def __imul__(self, n):
        self.resolve()
        return list.__imul__(self, n)

    def _ordered(self, o, name):
        for x in (self, o):
            if isinstance(x, VList):
                x.resolve()
        if deep_sym(list(list.__iter__(self))) or deep_sym(list(o)):
            raise Unsupported("ordering of lists of symbolic values")
        return getattr(list, name)(self, o)

    def __lt__(self, o):
        return self._ordered(o, "__lt__")

    def __le__(self, o):
        return self._ordered(o, "__le__")

    def __gt__(self, o):
        return self._ordered(o, "__gt__")

    def __ge__(self, o):
        return self._ordered(o, "__ge__")

    def __reversed__(self):
        self.resolve()
        return list.__reversed__(self)

    def __repr__(self):
        return f"VList({self.raw()!r})"


class VSet(Sym):
    """set over concrete elements, each present under a guard; built incrementally.

    Deliberately not a subclass of set: C code would read the (empty) underlying table.
    """

    __vf_type__ = set
    __slots__ = ("m",)

    def __init__(self, it=()):
        self.m = {}
        for x in it:
            self.add(x)

    @staticmethod
    def _guards(o):
        """{element: guard} of another set-like or iterable."""
        if isinstance(o, VSet):
            return o.m
        out = {}
        for x in (o.raw() if isinstance(o, VList) else o):
            g = z3.BoolVal(True)
            if isinstance(x, Guarded):
                x, g = x.v, x.g
            if deep_sym(x):
                raise Unsupported("symbolic set element")
            out[x] = z3.simplify(z3.Or(out[x], g)) if x in out else g
        return out

    def contains(self, x):
        if isinstance(x, SInt):
            return any_of([wrap_bool(z3.And(g, zbool(x == k))) for k, g in self.m.items()])
        if isinstance(x, Sym):
            raise Unsupported("membership of symbolic value in set")
        g = self.m.get(x)
        return False if g is None else wrap_bool(g)

    def __contains__(self, x):
        return truth(self.contains(x))

    def add(self, x):
        if deep_sym(x):
            raise Unsupported("symbolic set element")
        self.m[x] = z3.BoolVal(True)

    def add_guarded(self, x, g):
        if deep_sym(x):
            raise Unsupported("symbolic set element")
        old = self.m.get(x)
        self.m[x] = g if old is None else z3.simplify(z3.Or(old, g))

    def discard(self, x):
        if deep_sym(x):
            raise Unsupported("symbolic set element")
        self.m.pop(x, None)

    def remove(self, x):
        if not truth(self.contains(x)):
            raise KeyError(x)
        self.m.pop(x, None)

    def pop(self):
        for x in self:
            self.m.pop(x)
            return x
        raise KeyError("pop from an empty set")

    def clear(self):
        self.m = {}

    def z_nonempty(self):
        return z3.Or(*self.m.values()) if self.m else z3.BoolVal(False)

    def __bool__(self):
        return truth(wrap_bool(self.z_nonempty()))

    def __iter__(self):
        for k, g in list(self.m.items()):
            g = z3.simplify(g)
            if z3.is_true(g) or (not z3.is_false(g) and core.ctx().branch(g)):
                yield k

    def vlen(self):
        return VList([Guarded(g, k) for k, g in self.m.items()]).vlen()

    def __len__(self):
        if all(z3.is_true(g) for g in self.m.values()):
            return len(self.m)
        raise Unsupported("len of guarded set in C code")

    def copy(self):
        r = VSet()
        r.m = dict(self.m)
        return r

    def _bin(self, o, f):
        om = VSet._guards(o)
        r = VSet()
        F = z3.BoolVal(False)
        for k in list(self.m) + [k for k in om if k not in self.m]:
            g = z3.simplify(f(self.m.get(k, F), om.get(k, F)))
            if not z3.is_false(g):
                r.m[k] = g
        return r

    @staticmethod
    def _isset(o):
        return isinstance(o, (set, frozenset, VSet)) or type(o) in (type({}.keys()), type({}.items()))

    def __and__(self, o):
        return self._bin(o, z3.And) if self._isset(o) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, z3.Or) if self._isset(o) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, z3.Xor) if self._isset(o) else NotImplemented

    __rxor__ = __xor__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: z3.And(a, z3.Not(b))) if self._isset(o) else NotImplemented

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: z3.And(b, z3.Not(a))) if self._isset(o) else NotImplemented

    def _into(self, r):
        if r is NotImplemented:
            return r
        self.m = r.m
        return self

    def __ior__(self, o):
        return self._into(self | o)

    def __iand__(self, o):
        return self._into(self & o)

    def __isub__(self, o):
        return self._into(self - o)

    def __ixor__(self, o):
        return self._into(self ^ o)

    def _fold(self, os, f):
        r = self.copy()
        for o in os:
            r = r._bin(o, f)
        return r

    def union(self, *os):
        return self._fold(os, z3.Or)

    def intersection(self, *os):
        return self._fold(os, z3.And)

    def difference(self, *os):
        return self._fold(os, lambda a, b: z3.And(a, z3.Not(b)))

    def symmetric_difference(self, o):
        return self._fold([o], z3.Xor)

    def update(self, *os):
        self.m = self.union(*os).m

    def intersection_update(self, *os):
        self.m = self.intersection(*os).m

    def difference_update(self, *os):
        self.m = self.difference(*os).m

    def symmetric_difference_update(self, o):
        self.m = self.symmetric_difference(o).m

    def issubset(self, o):
        if isinstance(o, (set, frozenset)):
            return all_of([neg(wrap_bool(g)) for k, g in self.m.items() if k not in o])
        om, F = VSet._guards(o), z3.BoolVal(False)
        return all_of([wrap_bool(z3.Implies(g, om.get(k, F))) for k, g in self.m.items()])

    def issuperset(self, o):
        F = z3.BoolVal(False)
        return all_of([wrap_bool(z3.Implies(g, self.m.get(k, F))) for k, g in VSet._guards(o).items()])

    def isdisjoint(self, o):
        return neg(wrap_bool(self._bin(o, z3.And).z_nonempty()))

    def __le__(self, o):
        return self.issubset(o) if self._isset(o) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if self._isset(o) else NotImplemented

    def __lt__(self, o):
        return all_of([self.issubset(o), neg(self == o)]) if self._isset(o) else NotImplemented

    def __gt__(self, o):
        return all_of([self.issuperset(o), neg(self == o)]) if self._isset(o) else NotImplemented

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, VSet)):
            return False
        om = o.m if isinstance(o, VSet) else {k: z3.BoolVal(True) for k in o}
        F = z3.BoolVal(False)
        return wrap_bool(z3.And(*[self.m.get(k, F) == om.get(k, F) for k in {**self.m, **om}]))

    def __ne__(self, o):
        return neg(self.__eq__(o))

    __hash__ = None

    def __repr__(self):
        return f"VSet({list(self.m)})"


# -- symbolic-length byte strings ------------------------------------------------------

_BYTES = {}  # (array id, position) -> (array kept alive, range fact, byte)


class SView(Sym):
    """Bytes ``stream[lo:hi]`` of a symbolic byte stream (z3 array Int -> Int)."""

    __slots__ = ("arr", "lo", "hi")

    def __init__(self, arr, lo, hi):
        self.arr = arr
        self.lo = lo
        self.hi = hi

    def vlen(self):
        return mk(z3.simplify(self.hi - self.lo), 0, None)

    def __len__(self):
        raise Unsupported("len of symbolic bytes in C code")

    def _abs(self, i):
        """The byte at a concrete absolute stream position."""
        c = core.ctx()
        key = (self.arr.get_id(), i)
        b = c.byte_seen.get(key)
        if b is None:
            t = _BYTES.get(key)
            if t is None:
                z = z3.Select(self.arr, z3.IntVal(i))
                t = _BYTES[key] = (self.arr, z3.And(z >= 0, z <= 255), SInt(z, 0, 255))
            c.add(t[1])
            b = c.byte_seen[key] = t[2]
        return b

    def _covers(self, p):
        """Is absolute position p (concrete) <= hi?  Forks when both are possible."""
        c = core.ctx()
        k = self.hi.get_id()
        if p <= c.len_lb.get(k, (None, -1))[1]:
            return True
        if c.branch(self.hi >= p):
            c.len_lb[k] = (self.hi, p)
            return True
        return False

    def byte(self, i):
        z = z3.simplify(z3.Select(self.arr, self.lo + i))
        c = core.ctx()
        k = z.get_id()
        if k not in c.byte_seen:
            c.byte_seen[k] = z
            c.add(z3.And(z >= 0, z <= 255))
        return SInt(z, 0, 255)

    def _beyond(self, z, n):
        """Branch on z > n, with n = hi - lo; remembers concrete lower bounds of hi (no solver call when implied)."""
        c = core.ctx()
        a = z3.simplify(z + self.lo)
        if not z3.is_int_value(a):
            return c.branch(z > n)
        p, k = a.as_long(), self.hi.get_id()
        if p <= c.len_lb.get(k, (None, -1))[1]:
            return False
        if c.branch(z > n):
            return True
        c.len_lb[k] = (self.hi, p)
        return False

    def decode(self, encoding="utf-8", errors="strict"):
        if str(encoding).lower().replace("-", "").replace("_", "") not in ("latin1", "iso88591"):
            raise Unsupported("decode of symbolic-length bytes")
        return SAnyText(z3.simplify(self.hi - self.lo))

    def _bound(self, x, default):
        """Python slice bound -> offset z3 term clamped to [0, len]."""
        n = z3.simplify(self.hi - self.lo)
        if x is None:
            return default
        z = zint(x)
        c = core.ctx()
        if isinstance(x, int):
            if x < 0:
                z = n + x
                if c.branch(z < 0):
                    z = z3.IntVal(0)
                return z3.simplify(z)
        else:
            if c.branch(z < 0):
                z = n + z
                if c.branch(z < 0):
                    z = z3.IntVal(0)
                return z3.simplify(z)
        if self._beyond(z, n):
            return n
        return z3.simplify(z)

    def __getitem__(self, k):
        if z3.is_int_value(self.lo):
            off = self.lo.as_long()
            if type(k) is int and k >= 0:
                if self._covers(off + k + 1):
                    return self._abs(off + k)
                raise IndexError("index out of range")
            if type(k) is slice and k.step is None and (k.start is None or (type(k.start) is int and k.start >= 0)):
                a = k.start or 0
                if type(k.stop) is int and k.stop >= 0:
                    if k.stop <= a:
                        return b""
                    if k.stop - a <= 256 and self._covers(off + k.stop):
                        return mkbytes([self._abs(off + i) for i in range(a, k.stop)])
                elif k.stop is None:
                    if self._covers(off + a):
                        return SView(self.arr, z3.IntVal(off + a), self.hi)
                    return b""
        n = z3.simplify(self.hi - self.lo)
        c = core.ctx()
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported("stepped slice of symbolic bytes")
            a = self._bound(k.start, z3.IntVal(0))
            b = self._bound(k.stop, n)
            if z3.is_int_value(a) and z3.is_int_value(b):
                d = max(0, b.as_long() - a.as_long())
                return mkbytes([self.byte(a.as_long() + i) for i in range(d)])
            if c.branch(b < a):
                return b""
            d = z3.simplify(b - a)
            if z3.is_int_value(d) and d.as_long() <= 32:
                return mkbytes([self.byte(a + i) for i in range(d.as_long())])
            return SView(self.arr, z3.simplify(self.lo + a), z3.simplify(self.lo + b))
        z = zint(k)
        if c.branch(z < 0):
            z = z3.simplify(n + z)
            if c.branch(z < 0):
                raise IndexError("index out of range")
        if self._beyond(z + 1, n):
            raise IndexError("index out of range")
        return self.byte(z)

    def __add__(self, o):
        if isinstance(o, bytes) and not o:
            return self
        if isinstance(o, SView):
            c = core.ctx()
            if o.arr is self.arr or o.arr.eq(self.arr):
                if c.valid(o.lo == self.hi):
                    return SView(self.arr, self.lo, o.hi)
        raise Unsupported("concatenation of unrelated symbolic bytes")

    def __radd__(self, o):
        if isinstance(o, bytes) and not o:
            return self
        raise Unsupported("concatenation of unrelated symbolic bytes")

    def match_at(self, pos, pat):
        return z3.And(*[z3.Select(self.arr, pos + i) == b for i, b in enumerate(pat)])

    def find(self, sub, start=0, end=None):
        if not isinstance(sub, (bytes, bytearray)) or end is not None:
            raise Unsupported("find of symbolic pattern")
        c = core.ctx()
        m = len(sub)
        s = self._bound(start, z3.IntVal(0))
        n = z3.simplify(self.hi - self.lo)
        r = z3.Int(c.fresh_name("find"))
        i = z3.Int("i_find")
        if c.branch(z3.Bool(c.fresh_name("found"))):
            c.add(z3.And(r >= s, r + m <= n, self.match_at(self.lo + r, sub)))
            c.add(z3.ForAll([i], z3.Implies(z3.And(i >= self.lo + s, i < self.lo + r), z3.Not(self.match_at(i, sub))),
                            patterns=[z3.Select(self.arr, i)]))
            self._instances(sub, s, r)
            if core._check(c.solver) == z3.unsat:
                raise core.PathEnd("infeasible")
            return SInt(r, 0, None)
        c.add(z3.ForAll([i], z3.Implies(z3.And(i >= self.lo + s, i + m <= self.hi), z3.Not(self.match_at(i, sub))),
                        patterns=[z3.Select(self.arr, i)]))
        # ground instances at the window start help the solver
        for k in range(0, 19):
            p = z3.simplify(self.lo + s + k)
            c.add(z3.Implies(p + m <= self.hi, z3.Not(self.match_at(p, sub))))
        if core._check(c.solver) == z3.unsat:
            raise core.PathEnd("infeasible")
        return -1

    def _instances(self, sub, s, r):
        c = core.ctx()
        for k in range(0, 19):
            p = z3.simplify(self.lo + s + k)
            c.add(z3.Implies(p < self.lo + r, z3.Not(self.match_at(p, sub))))

    def rfind(self, *a):
        raise Unsupported("rfind on symbolic bytes")

    def startswith(self, p):
        n = z3.simplify(self.hi - self.lo)
        return wrap_bool(z3.And(n >= len(p), self.match_at(self.lo, p)))

    def hex(self, *a):
        return SOpaque("hex")

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return wrap_bool(z3.And(self.hi - self.lo == len(o), self.match_at(self.lo, o)))
        raise Unsupported("comparison of symbolic-length bytes")

    def __ne__(self, o):
        return neg(self.__eq__(o))

    __hash__ = None

    def __bool__(self):
        return core.ctx().branch(self.hi > self.lo)

    def __iter__(self):
        raise Unsupported("iteration over symbolic-length bytes")

    def __repr__(self):
        return f"SView[{self.lo}:{self.hi}]"


class SAnyText(SOpaque):
    """Text of unknown length and content (decoded from symbolic-length bytes)."""

    __slots__ = ("n",)

    def __init__(self, n=None):
        self.why = "text of unknown content"
        if n is None:
            n = z3.Int(core.ctx().fresh_name("textlen"))
            core.ctx().add(n >= 0)
        self.n = n

    def vlen(self):
        return mk(self.n, 0, None)

    def __bool__(self):
        return core.ctx().branch(self.n > 0)

    def _part(self, *a, **k):
        r = SAnyText()
        core.ctx().add(r.n <= self.n)
        return r

    lstrip = rstrip = strip = removeprefix = removesuffix = __getitem__ = _part

    def replace(self, *a):
        return SAnyText()

    def upper(self):
        return SAnyText()

    lower = upper

    def split(self, sep=None, maxsplit=-1):
        n = z3.Int(core.ctx().fresh_name("parts"))
        core.ctx().add(n >= (0 if sep is None else 1))
        return SAnyList(n, SAnyText)


class SAnyList(SOpaque):
    """List of unknown length whose elements are unknown."""

    __slots__ = ("n", "make", "known")

    def __init__(self, n, make):
        self.why = "list of unknown content"
        self.n = n
        self.make = make
        self.known = {}

    def vlen(self):
        return mk(self.n, 0, None)

    def __bool__(self):
        return core.ctx().branch(self.n > 0)

    def __getitem__(self, k):
        if not isinstance(k, int) or isinstance(k, bool):
            raise Unsupported("index into a list of unknown length")
        if core.ctx().branch(self.n <= k if k >= 0 else self.n < -k):
            raise IndexError("list index out of range")
        if k not in self.known:
            self.known[k] = self.make()
        return self.known[k]


SBytes.real, SStr.real, SInt.real, SReal.real, SBool.real = bytes, str, int, float, bool
SView.real = bytes
