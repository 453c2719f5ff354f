"""Runtime hooks the instrumented source calls (module global ``__vf__``), and builtin shims.

Every hook falls through to the native operation when no symbolic value is involved, so the
instrumented library behaves as the original on concrete data (checked by running the
repository's own test-suite on it: ``tools/crosscheck_tests.sh``).
"""

from __future__ import annotations

import builtins
import datetime as _dt
import enum
import functools
import json as _json
import logging
import math as _math
import re as _re
import struct as _struct
import sys
import types

import z3

from vf import core
from vf.core import MergeFail, PathEnd, Unsupported
from vf.sym import (
    Guarded, SBool, SBytes, SInt, SOpaque, SOpt, SReal, SStr, SText, SView, Sym, Undef, VList, VSet, all_of, any_of, as_sint,
    bounds, bytes_int, concretize, deep_sym, int_bytes, join_bytes, join_str, merge_values, mk, mkbytes, mkstr, neg,
    sym_truth, truth, unique_value, wrap_bool, zbool, zint, zreal,
)

_MISSING = object()


def sym_eq(a, b):
    """a == b without deciding a symbolic outcome where possible."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return all_of([sym_eq(x, y) for x, y in zip(a, b)])
    if a is b:
        return True
    return a == b


# -- contracts substituted at call sites ------------------------------------------------
CALL_CONTRACTS = {}  # code object -> callable(fn, args, kwargs)


def _code_of(f):
    f = getattr(f, "__func__", f)
    return getattr(f, "__code__", None)


def join_call(f, args, kwargs):
    """Run f on every path and join the results into one value (when f changes nothing it can reach and the results join)."""
    if core.ctx().nest > 3:
        return f(*args, **kwargs)
    try:
        conts = _reachable([getattr(f, "__self__", None), *args, *kwargs.values()])

        def state():
            return [(k, _shallow(k)) for k in conts]

        def rest(st):
            for k, copy in st:
                _restore(k, copy)

        base = state()
        res = core.nested_paths(lambda: f(*args, **kwargs), state, rest, max_paths=32)
        if not res or any(k != "ok" for _, k, _, _ in res) or any(not _same_copy(b[1], e[1]) for r in res for b, e in zip(base, r[3])):
            return f(*args, **kwargs)
        v = res[-1][2]
        for cond, _, x, _ in reversed(res[:-1]):
            v = merge_values(cond, x, v)
        return v
    except (MergeFail, Unsupported):
        return f(*args, **kwargs)


# -- builtin shims ------------------------------------------------------------------------

def vf_len(x):
    if type(x) is SText:
        return x.vlen()
    if isinstance(x, Sym):
        if isinstance(x, SOpt):
            x = x.force()
            return vf_len(x)
        f = getattr(x, "vlen", None)
        if f is None:
            raise TypeError(f"object of type {type(x).__name__} has no len()")
        return f()
    f = getattr(type(x), "__vf_len__", None)
    if f is not None:
        return f(x)
    return builtins.len(x)


_PYTYPE = {SInt: int, SBool: bool, SReal: float, SBytes: bytes, SStr: str, SText: str, SView: bytes}


class SymTypeMeta:
    pass


def py_type(x):
    t = _PYTYPE.get(type(x))
    if t is not None:
        return t
    if isinstance(x, VList):
        return list
    ft = getattr(x, "__vf_type__", None) if isinstance(x, Sym) else None
    return ft or type(x)


def vf_isinstance(x, t):
    if isinstance(x, SOpt):
        x = x.force()
    if isinstance(x, Sym) and not isinstance(x, VList):
        if isinstance(x, SOpaque) and type(x) is not SText:
            raise Unsupported("isinstance of opaque value")
        pt = py_type(x)
        if isinstance(t, tuple):
            return any(vf_isinstance(x, u) for u in t)
        if isinstance(t, types.UnionType):
            return any(vf_isinstance(x, u) for u in t.__args__)
        t = _REALTYPE.get(t, t) if isinstance(t, builtins.type) else t
        return issubclass(pt, t)
    if isinstance(t, tuple):
        t = tuple(_REALTYPE.get(u, u) if isinstance(u, builtins.type) else u for u in t)
    elif isinstance(t, builtins.type):
        t = _REALTYPE.get(t, t)
    return builtins.isinstance(x, t)


_REALTYPE = {}


def vf_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SOpt):
            x = x.force()
        return py_type(x)
    return builtins.type(*a)


def _guarded_iter(it, acc, stop_when):
    """Iterate eagerly; an exception only surfaces if iteration would really have got that far."""
    i = _iter_nofork(it, stop_when)
    while True:
        try:
            x = next(i)
        except StopIteration:
            return
        except Exception:
            if acc:
                g = z3.Or(*acc) if stop_when else z3.Not(z3.And(*acc))
                if core.ctx().branch(g):
                    raise _Decided from None
            raise
        yield x


class _Decided(Exception):
    pass


def vf_next(it, *default):
    if type(it) is not VList:
        return builtins.next(it, *default)
    # a generator expression, evaluated eagerly
    while list.__len__(it):
        x = list.pop(it, 0)
        if not isinstance(x, Guarded):
            return x
        if core.ctx().branch(x.g):
            return x.v
    if default:
        return default[0]
    raise StopIteration


def vf_any(it):
    try:
        return _vf_any(it)
    except _Decided:
        return True


def vf_all(it):
    try:
        return _vf_all(it)
    except _Decided:
        return False


def _vf_any(it):
    acc = []
    for x in _guarded_iter(it, acc, True):
        t = _truth_val(x)
        if t is True:
            return True if not acc else wrap_bool(z3.Or(*acc, z3.BoolVal(True)))
        if t is False:
            continue
        acc.append(t)
    if not acc:
        return False
    return wrap_bool(z3.Or(*acc))


def _vf_all(it):
    acc = []
    for x in _guarded_iter(it, acc, False):
        t = _truth_val(x)
        if t is False:
            return False
        if t is True:
            continue
        acc.append(t)
    if not acc:
        return True
    return wrap_bool(z3.And(*acc))


def _iter_nofork(it, for_any):
    """Iterate; an absent member of a guarded list counts as the neutral truth value."""
    if isinstance(it, VList) and it.guarded():
        return (_member_truth(g, x, for_any) for g, x in it.items_g())
    return iter(it)


def _member_truth(g, x, for_any):
    t = _truth_val(x)
    t = z3.BoolVal(t) if isinstance(t, bool) else t
    return wrap_bool(z3.simplify(z3.And(g, t) if for_any else z3.Implies(g, t)))


def _truth_val(x):
    """True/False or a z3 Bool."""
    t = sym_truth(x) if isinstance(x, Sym) else None
    if t is None:
        return bool(x)
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def vf_sum(it, start=0):
    if isinstance(it, VList) and it.guarded():
        s = start
        for g, v in it.items_g():
            g = z3.simplify(g)
            if z3.is_true(g):
                s = s + v
            else:
                if isinstance(v, (int, SInt)):
                    lo, hi = bounds(v)
                    s = s + SInt(z3.If(g, zint(v), z3.IntVal(0)), None if lo is None else min(0, lo), None if hi is None else max(0, hi))
                else:
                    s = s + SReal(z3.If(g, zreal(v), z3.RealVal(0)))
        return s
    s = start
    for x in it:
        if isinstance(x, SBool):
            x = as_sint(x)
        s = s + x
    return s


def vf_abs(x):
    return abs(x)


def _minmax(args, kw, is_min):
    if len(args) == 1:
        items = list(args[0])
    else:
        items = list(args)
    if not items:
        if "default" in kw:
            return kw["default"]
        raise ValueError("min()/max() arg is an empty sequence")
    key = kw.get("key")
    if not any(isinstance(x, Sym) for x in items) and key is None:
        return (builtins.min if is_min else builtins.max)(items)
    best = items[0]
    for x in items[1:]:
        a, b = (key(x), key(best)) if key else (x, best)
        c = (a < b) if is_min else (a > b)
        if isinstance(c, SBool):
            try:
                best = merge_values(c.z, x, best)
                continue
            except MergeFail:
                pass
        if c:
            best = x
    return best


def vf_min(*a, **k):
    if not deep_sym(a) and not any(hasattr(x, "__vf_cmp__") for x in a):
        return builtins.min(*a, **k)
    return _minmax(a, k, True)


def vf_max(*a, **k):
    if not deep_sym(a) and not any(hasattr(x, "__vf_cmp__") for x in a):
        return builtins.max(*a, **k)
    return _minmax(a, k, False)


def vf_round(x, n=None):
    if isinstance(x, SOpt):
        x = x.force()
    if isinstance(x, Sym):
        return x.__round__(n)
    return builtins.round(x) if n is None else builtins.round(x, n)


def vf_divmod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a // b, a % b
    return builtins.divmod(a, b)


def vf_ord(x):
    if isinstance(x, (SStr, SBytes)):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return x.v[0]
    return builtins.ord(x)


def vf_chr(x):
    if isinstance(x, SInt):
        if truth(x < 0) or truth(x >= 0x110000):
            raise ValueError("chr() arg not in range(0x110000)")
        if not core.ctx().valid(x.z < 256):
            raise Unsupported("chr beyond latin-1")
        return mkstr([x])
    return builtins.chr(x)


def vf_pow(a, b, *m):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a**b
    return builtins.pow(a, b, *m)


def vf_sorted(it, *, key=None, reverse=False):
    if type(it) is VList and it.guarded():
        it = VList(it)
        if key is None and not reverse:
            # members whose order is settled by concrete leading parts stay guarded
            lead = [x.v if isinstance(x, Guarded) else x for x in it.raw()]
            lead = [x[0] if type(x) is tuple and x else x for x in lead]
            if all(type(x) is int for x in lead) and len(set(lead)) == len(lead):
                return VList([x for _, x in builtins.sorted(zip(lead, it.raw()), key=lambda p: p[0])])
        it = it.resolve().raw()
    items = list(it)
    if any(deep_sym(x) for x in items):
        if len(items) <= 1:
            return VList(items)
        ks = [key(x) if key else x for x in items]
        if any(deep_sym(k) for k in ks):
            # insertion sort, forking on comparisons
            out = []
            for k, x in zip(ks, items):
                i = len(out)
                while i > 0 and _lt(k, out[i - 1][0]):
                    i -= 1
                out.insert(i, (k, x))
            r = [x for _, x in out]
            if reverse:
                raise Unsupported("reverse sort of symbolic keys")
            return VList(r)
    return builtins.sorted(items, key=key, reverse=reverse)


def _lt(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if truth(x == y):
                continue
            return _lt(x, y)
        return len(a) < len(b)
    return truth(a < b)


def vf_hash(x):
    if isinstance(x, Sym) or deep_sym(x):
        return SHash(x)
    return HInt(x) if type(x) in (tuple, frozenset) and core.CTX is not None else builtins.hash(x)


class HInt(int):
    """The real hash of a concrete tuple, remembering what was hashed."""

    def __new__(cls, of):
        s = int.__new__(cls, builtins.hash(of))
        s.of = of
        return s


class SHash(Sym):
    """Uninterpreted, collision-free hash of a value holding symbolic parts."""

    __slots__ = ("of",)

    def __init__(self, of):
        self.of = of
        core.ctx().ex.unit.assumptions.add("hash() is collision-free on the values compared")

    def __eq__(self, o):
        return sym_eq(self.of, o.of) if isinstance(o, (SHash, HInt)) else Unsupported_raise("hash compared with int")

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of symbolic hash")


def Unsupported_raise(m):
    raise Unsupported(m)


class _RealInt:
    pass


def vf_hex(x):
    if isinstance(x, Sym):
        return SOpaque("hex")
    return builtins.hex(x)


def vf_repr(x):
    if isinstance(x, Sym) or deep_sym(x):
        return SOpaque("repr")
    return builtins.repr(x)


def _concrete_text(n):
    """A concrete str for a text whose symbolic numbers range over few values (forks over them)."""
    if type(n) is SText:
        return "".join(_concrete_text(p) if not isinstance(p, tuple) else builtins.format(concretize(p[0], 64, "text"), p[1] or "")
                       for p in n.parts)
    if isinstance(n, SStr):
        return "".join(chr(concretize(ch, 64, "text")) for ch in n.v)
    return n


def vf_getattr(o, n, *d):
    return builtins.getattr(o, _concrete_text(n), *d)


def vf_format(x, spec=""):
    return fmt_value(x, spec)


class SRange(Sym):
    """range(a, b) with symbolic bounds (step 1); used by loop contracts."""

    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __iter__(self):
        # data-dependent bound: unrolled by forking when it is small
        i = self.a
        n = 0
        while truth(i < self.b):
            yield i
            i = i + 1
            n += 1
            if n > 70:
                raise Unsupported("symbolic range without loop contract")

    def vlen(self):
        return _minmax((0, self.b - self.a), {}, False)

    def contains(self, x):
        return all_of([x >= self.a, x < self.b])

    def __contains__(self, x):
        return truth(self.contains(x))


def vf_range(*a):
    if any(isinstance(x, Sym) for x in a):
        a = tuple(x.force() if isinstance(x, SOpt) else x for x in a)
        if len(a) == 1:
            return SRange(0, a[0])
        if len(a) == 2 or a[2] == 1:
            return SRange(a[0], a[1])
        raise Unsupported("range with symbolic bounds and step")
    return builtins.range(*a)


def vf_enumerate(it, start=0):
    if isinstance(start, Sym):
        return _senum(it, start)
    return builtins.enumerate(it, start)


def _senum(it, n):
    for x in it:
        yield n, x
        n = n + 1


def vf_set(it=()):
    if core.CTX is not None:
        items = list(it.raw() if isinstance(it, VList) else it)
        if not any(deep_sym(x) for x in items) and not any(isinstance(x, Guarded) for x in items):
            try:
                return VSet(items)
            except TypeError:
                pass
        s = VSet()
        for x in items:
            if isinstance(x, Guarded):
                s.add_guarded(x.v, x.g)
            else:
                s.add(x)
        return s
    return builtins.set(it)


def vf_frozenset(it=()):
    if core.CTX is not None:
        if type(it) is VSet:
            return it.copy()
        if type(it) is VList and it.guarded() and not any(deep_sym(x.v if isinstance(x, Guarded) else x) for x in it.raw()):
            return vf_set(it)
        items = list(it)
        if any(deep_sym(x) for x in items):
            return SFrozen(items)
        return builtins.frozenset(items)
    return builtins.frozenset(it)


class SFrozen(Sym):
    """Immutable bag of possibly symbolic members; compared member-wise in insertion order."""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    def __eq__(self, o):
        if not isinstance(o, (SFrozen, frozenset)):
            return NotImplemented
        other = list(o.items if isinstance(o, SFrozen) else o)
        # members are (key, value) pairs with distinct concrete keys: align by key
        try:
            a = {x[0]: x[1] for x in self.items}
            b = {x[0]: x[1] for x in other}
        except TypeError:
            raise Unsupported("comparison of symbolic frozensets") from None
        if len(a) != len(self.items) or len(b) != len(other) or deep_sym(list(a)) or deep_sym(list(b)):
            raise Unsupported("comparison of symbolic frozensets")
        if set(a) != set(b):
            return False
        return all_of([sym_eq(a[k], b[k]) for k in a])

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of symbolic frozenset")


# int/float/str/bool/bytes/list/tuple/dict are classes: calls are intercepted in `call`

def call_int(x=0, *a, **k):
    if type(x) is SText:
        n = x.number() if not a and not k else None
        if n is not None:
            return n
        ps = x._solid() if not a and not k else None
        if ps is not None and any(isinstance(p, str) and not isinstance(p, Sym) and any(c.isascii() and not c.isspace() and c not in "0123456789_+-" for c in p) for p in ps):
            raise ValueError("invalid literal for int()")
        x = x.force()
    if isinstance(x, SOpt):
        x = x.force()
        if x is None:
            raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'NoneType'")
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return as_sint(x)
    if isinstance(x, SReal):
        return x.__trunc__()
    if isinstance(x, (SStr, SBytes)):
        base = a[0] if a else k.get("base", 10)
        v = x.v
        if not v:
            raise ValueError("invalid literal for int()")
        if base == 0:
            if v[0] == 48 and len(v) > 2 and v[1] in (88, 120):
                base, v = 16, v[2:]
            else:
                if not truth(any_of([z for ch in v for z in (_rng(ch, 48, 57), _above(ch, 255))])):
                    raise ValueError("invalid literal for int()")  # no digit anywhere
                raise Unsupported("int(symbolic text, 0)")
        if base not in (10, 16):
            raise Unsupported("int(str, base)")
        first = getattr(v[0], "digit", None)
        if base == 16 and first and first[1] == len(v) - 1 and first[0].hi is not None and first[0].hi < 16 ** len(v):
            ds = [getattr(ch, "digit", None) for ch in v]
            if all(d and d[0].z.eq(first[0].z) and d[1] == len(v) - 1 - i for i, d in enumerate(ds)):
                return first[0]
        # ascii digits only; anything else is either invalid or outside the model
        out = 0
        for ch in v:
            ok = [_rng(ch, 48, 57)]
            if base == 16:
                ok += [_rng(ch, 65, 70), _rng(ch, 97, 102)]
            if not (base == 16 and getattr(ch, "digit", None)) and not truth(any_of(ok)):
                # whitespace / sign / underscore forms are accepted by Python
                if truth(any_of([ch == c for c in (9, 10, 11, 12, 13, 32, 28, 29, 30, 31, 0x85, 0xA0, 43, 45, 95)])):
                    raise Unsupported("int() of padded/signed symbolic text")
                raise ValueError("invalid literal for int()")
            if base == 10:
                d = ch - 48
            elif isinstance(ch, int):
                d = int(chr(ch), 16)
            else:
                d = SInt(z3.If(ch.z <= 57, ch.z - 48, z3.If(ch.z <= 70, ch.z - 55, ch.z - 87)), 0, 15)
            out = out * base + d
        return out
    if isinstance(x, Sym) and not isinstance(x, (list, SMap)):
        raise Unsupported(f"int({type(x).__name__})")
    if isinstance(x, (SMap, list, tuple, dict, set)):
        raise TypeError("int() argument must be a string, a bytes-like object or a real number")
    if deep_sym(x):
        raise Unsupported("int(container)")
    f = getattr(x, "__vf_int__", None)
    if f:
        return f()
    return builtins.int(x, *a, **k)


def _rng(x, a, b):
    if isinstance(x, int):
        return a <= x <= b
    return wrap_bool(z3.And(x.z >= a, x.z <= b))


def _above(x, n):
    return x > n if isinstance(x, int) else wrap_bool(x.z > n)


def call_float(x=0.0):
    if isinstance(x, SOpt):
        x = x.force()
    if isinstance(x, (SInt, SBool)):
        return SReal(zreal(x))
    if isinstance(x, SReal):
        return x
    if isinstance(x, Sym):
        raise Unsupported(f"float({type(x).__name__})")
    return builtins.float(x)


def call_bool(x=False):
    if isinstance(x, Sym):
        t = sym_truth(x)
        if t is not None:
            return wrap_bool(t)
    return builtins.bool(x)


def call_str(x="", *a, **k):
    if type(x) is SText:
        return x
    if isinstance(x, SStr):
        return x
    if isinstance(x, SOpt):
        return call_str(x.force())
    if isinstance(x, (SBytes,)):
        if a or k:
            return x.decode(*a, **k)
        return SOpaque("str(bytes)")
    if isinstance(x, SInt):
        return fmt_value(x, "")
    if isinstance(x, Sym):
        return SOpaque("str")
    if deep_sym(x) or isinstance(x, Exception) and any(isinstance(i, Sym) for i in x.args):
        return SOpaque("str")
    if core.CTX is not None and not a and not k and not isinstance(x, (str, int, float, bytes, type(None))):
        return fmt_value(x, "")
    return builtins.str(x, *a, **k)


def call_bytes(x=b"", *a, **k):
    if isinstance(x, (SBytes, SView)):
        return x
    if isinstance(x, SStr):
        return x.encode(*(a or k.values()))
    if isinstance(x, (list, tuple)) and deep_sym(x):
        out = []
        for b in x:
            if isinstance(b, Sym):
                if truth(b < 0) or truth(b > 255):
                    raise ValueError("bytes must be in range(0, 256)")
            out.append(b)
        return mkbytes(out)
    if isinstance(x, Sym):
        raise Unsupported("bytes(sym)")
    if isinstance(x, types.GeneratorType):
        return call_bytes(list(x))
    return builtins.bytes(x, *a, **k)


def call_list(x=()):
    if isinstance(x, VList):
        return VList(x)
    if core.CTX is not None:
        return VList(x)
    return builtins.list(x)


def call_tuple(x=()):
    if type(x) is VList and x.guarded():
        x = VList(x).resolve().raw()
    return builtins.tuple(x)


def call_dict(*a, **k):
    if a and (isinstance(a[0], Sym) or type(a[0]) is VDict):
        if k:
            raise Unsupported("dict(symbolic map, **more)")
        return SMap.copy(a[0]) if isinstance(a[0], SStore) else a[0].copy()
    if a and core.CTX is not None and not isinstance(a[0], dict):
        pairs = list(a[0])
        if any(deep_sym(p[0]) for p in pairs):
            m = SMap()
            for kk, v in pairs:
                m[kk] = v
            return m
        return builtins.dict(pairs, **k)
    return builtins.dict(*a, **k)


def fmt_value(x, spec, conv=-1):
    """format(x, spec) as str / SStr / SOpaque."""
    if conv == 114:  # !r
        if isinstance(x, Sym) or deep_sym(x):
            return SOpaque("repr")
        if core.CTX is not None and isinstance(type(x).__repr__, types.FunctionType):
            x = fmt_value(_Repr(x), "")
        else:
            x = builtins.repr(x)
    elif conv == 115:
        x = call_str(x)
    if isinstance(x, SOpt):
        x = x.force()
    if isinstance(spec, Sym):
        return SOpaque("spec")
    if type(x) is SText:
        if not spec:
            return x
        x = x.force()
    if isinstance(x, SStr):
        m = _re.fullmatch(r"(?:(.)?([<>^]))?(\d+)?s?", spec or "")
        if m:
            fill, al, w = m.group(1) or " ", m.group(2) or "<", int(m.group(3) or 0)
            pad = w - len(x)
            if pad <= 0:
                return x
            if al == "<":
                return mkstr(x.v + [ord(fill)] * pad)
            if al == ">":
                return mkstr([ord(fill)] * pad + x.v)
        return SOpaque("strfmt")
    if isinstance(x, SInt):
        m = _re.fullmatch(r"0(\d+)([xXbd])", spec or "")
        if m:
            w, kind = int(m.group(1)), m.group(2)
            base = {"x": 16, "X": 16, "b": 2, "d": 10}[kind]
            if kind == "d" and x.lo is not None and x.lo >= 0 and (x.hi is None or x.hi >= base**w):
                if not truth(x < base**w):
                    return SText([(x, "d")])
                x = SInt(x.z, x.lo, base**w - 1)
            elif (x.lo is None or x.lo < 0 or x.hi is None or x.hi >= base**w) and core.CTX is not None:
                if truth(wrap_bool(z3.And(x.z >= 0, x.z < base**w))):
                    x = SInt(x.z, 0, base**w - 1)
            if x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi < base**w:
                out = []
                for i in range(w - 1, -1, -1):
                    d = (x // base**i) % base
                    if isinstance(d, int):
                        out.append(ord("0123456789abcdef"[d] if kind != "X" else "0123456789ABCDEF"[d]))
                    elif base <= 10:
                        out.append(d + 48)
                    else:
                        off = 87 if kind == "x" else 55
                        ch = SInt(z3.If(d.z < 10, d.z + 48, d.z + off), 48, 15 + off)
                        ch.digit = (x, i, kind == "X")
                        out.append(ch)
                return mkstr(out)
        if (spec or "") in ("", "d"):
            return SText([(x, spec)])
        return SOpaque("intfmt")
    if isinstance(x, SReal):
        m = _re.fullmatch(r"0?\.(\d+)f", spec or "")
        if m and core.ctx().valid(x.z >= 0):
            k = int(m.group(1))
            q = z3.ToInt(x.z * 10**k)
            if core.ctx().valid(z3.ToReal(q) == x.z * 10**k):  # exactly representable: no rounding happens
                n = SInt(q, 0, None)
                frac = [((n // 10**i) % 10) + 48 for i in range(k - 1, -1, -1)]
                return SText([(n // 10**k, ""), *([".", mkstr(frac)] if k else [])])
    if isinstance(x, Sym) or deep_sym(x):
        return SOpaque("fmt")
    if isinstance(x, enum.Enum) or not isinstance(x, (str, int, float, bytes, type(None))):
        if core.CTX is None:
            return builtins.format(x, spec)
        f = type(x).__format__
        if f is object.__format__ or not isinstance(f, types.FunctionType):
            f = None if spec else (lambda y: _native_str(y))
        else:
            f = None
        if f is None:
            f = lambda y: builtins.format(y, spec)  # noqa: E731
        try:
            rs = core.nested_paths(lambda: f(x), max_paths=8)
        except (MergeFail, Unsupported):
            return SOpaque("fmt")
        if any(k == "exc" for _, k, _, _ in rs):
            return f(x)
        if len(rs) == 1:
            return rs[0][2]
        return SOpaque("fmt")
    return builtins.format(x, spec)


class _Repr:
    """formats as repr(x)"""

    def __init__(self, x):
        self.x = x

    def __str__(self):
        return type(self.x).__repr__(self.x)


def _native_str(x):
    f = type(x).__str__
    if f is object.__str__ and isinstance(type(x).__repr__, types.FunctionType):
        f = type(x).__repr__
    if isinstance(f, types.FunctionType):
        return f(x)
    return builtins.str(x)


def render_num(x, spec):
    """decimal rendering of a small natural, one case per digit count"""
    if not (x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi <= 99999) and not core.ctx().valid(z3.And(x.z >= 0, x.z <= 99999)):
        raise Unsupported("decimal rendering of an unbounded int")
    n = 1
    while n < 5 and not truth(x < 10**n):
        n += 1
    return mkstr([48 + (x // 10**i) % 10 for i in range(n - 1, -1, -1)])


# -- symbolic-key maps ------------------------------------------------------------------

class SMap(Sym):
    """dict with possibly symbolic keys: an association log over an optional initial lookup.

    ``init(key)`` returns the initial binding as a value, None meaning "bound to nothing" is
    expressed by raising KeyError or returning an ``SOpt``-guarded presence pair.
    """

    __vf_type__ = dict

    def __init__(self, init=None):
        self.init = init  # callable key -> (present: z3 Bool, value)
        self.log = []  # [(key, present z3 Bool, value)]

    def lookup(self, key):
        """(present z3 Bool, value-or-MISSING)"""
        pres, val = (z3.BoolVal(False), _MISSING) if self.init is None else self.init(key)
        for k, p, v in self.log:
            e = zbool(sym_eq(k, key))
            e = z3.simplify(e)
            if z3.is_false(e):
                continue
            if z3.is_true(e):
                pres, val = p, v
                continue
            pres = z3.simplify(z3.If(e, p, pres))
            if v is _MISSING:
                pass
            elif val is _MISSING:
                val = v
            else:
                try:
                    val = merge_values(e, v, val)
                except MergeFail:
                    if core.ctx().branch(e):
                        pres, val = p, v
        return pres, val

    def __getitem__(self, key):
        p, v = self.lookup(key)
        if v is _MISSING or not core.ctx().branch(p):
            raise KeyError(key)
        return v

    def get(self, key, default=None):
        p, v = self.lookup(key)
        if v is _MISSING:
            return default
        p = z3.simplify(p)
        if z3.is_true(p):
            return v
        if z3.is_false(p):
            return default
        try:
            return merge_values(p, v, default)
        except MergeFail:
            return v if core.ctx().branch(p) else default

    def contains(self, key):
        return wrap_bool(self.lookup(key)[0])

    def __contains__(self, key):
        return truth(self.contains(key))

    def __setitem__(self, key, v):
        self.log.append((key, z3.BoolVal(True), v))

    def __delitem__(self, key):
        if not truth(self.contains(key)):
            raise KeyError(key)
        self.log.append((key, z3.BoolVal(False), _MISSING))

    def pop(self, key, *d):
        p, v = self.lookup(key)
        if v is _MISSING or not core.ctx().branch(p):
            if d:
                return d[0]
            raise KeyError(key)
        self.log.append((key, z3.BoolVal(False), _MISSING))
        return v

    def setdefault(self, key, d=None):
        p, v = self.lookup(key)
        if v is _MISSING or not core.ctx().branch(p):
            self[key] = d
            return d
        return v

    def update(self, other=(), **k):
        for kk, v in _pairs(other):
            self[kk] = v

    def items(self):
        if self.init is not None:
            raise Unsupported("iteration over symbolic map")
        out, live = VList(), {}
        for n, (k, p, v) in enumerate(self.log):  # a later entry for the very same key replaces an earlier one
            p = z3.simplify(p)
            at = ("sym", n) if _key_sym(k) else ("key", k)
            if at in live and not z3.is_true(p) and v is not _MISSING:
                raise Unsupported("iteration over a map with a conditional update")
            live[at] = (k, p, v)
        for k, p, v in live.values():
            if not z3.is_false(p):
                list.append(out, (k, v) if z3.is_true(p) else Guarded(p, (k, v)))
        # duplicates only matter when keys may coincide
        ks = [i.v[0] if isinstance(i, Guarded) else i[0] for i in list.__iter__(out)]
        for i in range(len(ks)):
            for j in range(i):
                if sym_eq(ks[i], ks[j]) is not False and core.ctx().feasible(zbool(sym_eq(ks[i], ks[j]))):
                    raise Unsupported("symbolic map with possibly equal keys")
        return out

    def _part(self, i):
        out = VList()
        for x in list.__iter__(self.items()):
            list.append(out, Guarded(x.g, x.v[i]) if isinstance(x, Guarded) else x[i])
        return out

    def keys(self):
        return self._part(0)

    def values(self):
        return self._part(1)

    def __iter__(self):
        return iter(self.keys())

    def vlen(self):
        return self.items().vlen()

    def __len__(self):
        return self.vlen()

    def __bool__(self):
        if self.init is not None:
            raise Unsupported("truth of symbolic map")
        if all(z3.is_true(p) for _, p, _ in self.log):
            return bool(self.log)
        return any(truth(wrap_bool(x.g)) if isinstance(x, Guarded) else True for x in list.__iter__(self.items()))

    def copy(self):
        m = SMap(self.init)
        m.log = list(self.log)
        return m

    __hash__ = None


SMap.real = dict


class SStore(SMap):
    """An instance of a dict class of the code under contract, with possibly symbolic keys or presence.

    Its methods are the real ones of the class; only the dict operations underneath are the association log's.
    Assumed: constructing one from a mapping copies the mapping."""

    def __init__(self, cls, like=None):
        super().__init__()
        self.cls = cls
        self.default_factory = getattr(cls(), "default_factory", None)
        if like is not None:
            self.init = like.init
            self.log = list(like.log)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        for k in self.cls.__mro__:
            if k in (dict, object) or k.__module__ in ("collections", "typing"):
                break
            f = k.__dict__.get(n)
            if f is not None:
                return f.__get__(self, self.cls)
        raise AttributeError(n)

    @property
    def __vf_type__(self):
        return self.cls

    def __getitem__(self, key):
        p, v = self.lookup(key)
        if v is not _MISSING and core.ctx().branch(p):
            return v
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v

    def copy(self):
        return SStore(self.cls, self)


class VDict(dict):
    """A dict begun empty; it becomes an association log when a key that cannot be hashed is stored."""

    __slots__ = ("sm",)

    def __init__(self):
        self.sm = None

    def lift(self):
        if self.sm is None:
            self.sm = SMap()
            self.sm.log = [(k, z3.BoolVal(True), v) for k, v in dict.items(self)]
            dict.clear(self)
        return self.sm

    def __iter__(self):
        return dict.__iter__(self) if self.sm is None else iter(self.sm)

    def __getitem__(self, k):
        return dict.__getitem__(self, k) if self.sm is None else self.sm[k]

    def __setitem__(self, k, v):
        if self.sm is None and _unhashable(k):
            self.lift()
        if self.sm is None:
            dict.__setitem__(self, k, v)
        else:
            self.sm[k] = v

    def __delitem__(self, k):
        if self.sm is None:
            dict.__delitem__(self, k)
        else:
            del self.sm[k]

    def __contains__(self, k):
        return dict.__contains__(self, k) if self.sm is None else k in self.sm

    def __len__(self):
        return dict.__len__(self) if self.sm is None else len(self.sm)

    def __bool__(self):
        return dict.__len__(self) > 0 if self.sm is None else bool(self.sm)

    def __eq__(self, o):
        if self.sm is None:
            return dict.__eq__(self, o)
        raise Unsupported("comparison of dicts with symbolic keys")

    __hash__ = None

    def keys(self):
        return dict.keys(self) if self.sm is None else self.sm.keys()

    def values(self):
        return dict.values(self) if self.sm is None else self.sm.values()

    def items(self):
        return dict.items(self) if self.sm is None else self.sm.items()

    def copy(self):
        if self.sm is not None:
            return self.sm.copy()
        r = VDict()
        dict.update(r, self)
        return r

    def __deepcopy__(self, memo):
        import copy

        if self.sm is not None:
            raise Unsupported("deepcopy of a dict with symbolic keys")
        r = VDict()
        for k, v in dict.items(self):
            dict.__setitem__(r, k, copy.deepcopy(v, memo))
        return r

    def __reduce__(self):
        return (dict, (dict(self),))


def _unhashable(k):
    """A key whose hash is symbolic, and which stays so (registers and texts; numbers are decided instead)."""
    return isinstance(k, (SText, SStr)) or not isinstance(k, (Sym, tuple)) and _key_sym(k)


def smap_of(x):
    """The association log behind a map with symbolic keys, else None."""
    return x if isinstance(x, SMap) else x.sm if type(x) is VDict else None


def _pairs(o):
    if isinstance(o, (dict, SMap)):
        return list(o.items())
    return list(o)


# -- re shim ------------------------------------------------------------------------------

class SMatch:
    def __init__(self, s, groups):
        self.s = s
        self._g = groups

    def group(self, *n):
        if not n:
            n = (0,)
        r = tuple(self._one(i) for i in n)
        return r[0] if len(r) == 1 else r

    def _one(self, i):
        sp = self._g.get(i)
        return None if sp is None else mkstr(self.s[sp[0] : sp[1]])

    def groups(self):
        return tuple(self._one(i) for i in range(1, max([k for k in self._g] + [0]) + 1))

    def start(self, i=0):
        return self._g[i][0]

    def end(self, i=0):
        return self._g[i][1]

    def span(self, i=0):
        return self._g[i]

    def __getitem__(self, i):
        return self._one(i)


def _char_ok(op, av, ch, icase):
    from re._constants import ANY, CATEGORY, IN, LITERAL, NEGATE, NOT_LITERAL, RANGE
    from vf.sym import codes

    if codes(ch):
        seen = {bool(_char_ok(op, av, c, icase)) for c in codes(ch)}
        if len(seen) == 1:
            return seen.pop()
    if op is LITERAL:
        r = ch == av
        if icase:
            c = chr(av)
            r = any_of([ch == ord(x) for x in {c.lower(), c.upper()}])
        return r
    if op is NOT_LITERAL:
        return neg(ch == av)
    if op is ANY:
        return neg(ch == 10)
    if op is IN:
        negate = False
        cs = []
        for o, a in av:
            if o is NEGATE:
                negate = True
            elif o is LITERAL:
                cs.append(_char_ok(LITERAL, a, ch, icase))
            elif o is RANGE:
                cs.append(_rng(ch, a[0], a[1]))
                if icase:
                    for lo, hi in ((65, 90), (97, 122)):
                        x, y = max(a[0], lo), min(a[1], hi)
                        if x <= y:
                            d = 32 if lo == 65 else -32
                            cs.append(_rng(ch, x + d, y + d))
            elif o is CATEGORY:
                cs.append(_cat(a, ch))
            else:
                raise Unsupported(f"regex set item {o}")
        r = any_of(cs)
        return neg(r) if negate else r
    raise Unsupported(f"regex op {op}")

def _cat(a, ch):
    from vf import sym as S

    nm = str(a)
    if isinstance(ch, int) and not isinstance(ch, Sym):
        c = chr(ch)
        r = {"DIGIT": c.isdecimal(), "WORD": c.isalnum() or c == "_", "SPACE": c.isspace()}.get(nm.replace("NOT_", "").replace("CATEGORY_", ""))
        if r is not None:
            return r != ("NOT_" in nm)
    table = {
        "CATEGORY_DIGIT": S._DECIMAL,
        "CATEGORY_WORD": S._latin_ranges(lambda c: c.isalnum() or c == "_"),
        "CATEGORY_SPACE": S._latin_ranges(str.isspace),
    }
    if nm in table:
        return S._range_cond(ch, table[nm])
    if nm.replace("NOT_", "") in table:
        return neg(S._range_cond(ch, table[nm.replace("NOT_", "")]))
    raise Unsupported(f"regex category {nm}")


def _re_match(pattern, s, mode, flags=0):
    """Backtracking matcher over symbolic characters, forking on character classes."""
    import re._parser as sp

    if isinstance(pattern, _re.Pattern):
        flags, pattern = pattern.flags, pattern.pattern
    tree = sp.parse(pattern, flags & ~_re.UNICODE if False else 0)
    icase = bool(flags & _re.IGNORECASE)
    text = s.v
    n = len(text)

    def char_ok(op, av, ch):
        return _char_ok(op, av, ch, icase)

    from re._constants import ANY, AT, BRANCH, IN, LITERAL, MAX_REPEAT, MIN_REPEAT, NOT_LITERAL, SUBPATTERN

    def m(items, i, pos, groups, k):
        if i == len(items):
            return k(pos, groups)
        op, av = items[i]
        if op in (LITERAL, NOT_LITERAL, ANY, IN):
            if pos >= n:
                return None
            if truth(char_ok(op, av, text[pos])):
                return m(items, i + 1, pos + 1, groups, k)
            return None
        if op is SUBPATTERN:
            gid, _a, _d, sub = av

            def k2(p, g, gid=gid, start=pos):
                if gid is not None:
                    g = {**g, gid: (start, p)}
                return m(items, i + 1, p, g, k)

            return m(list(sub), 0, pos, groups, k2)
        if op is BRANCH:
            for alt in av[1]:
                r = m(list(alt), 0, pos, groups, lambda p, g: m(items, i + 1, p, g, k))
                if r is not None:
                    return r
            return None
        if op in (MAX_REPEAT, MIN_REPEAT):
            lo, hi, sub = av
            hi = min(int(hi), n + 1)
            sub = list(sub)

            def rep(count, p, g):
                def more():
                    if count < hi:
                        return m(sub, 0, p, g, lambda p2, g2: rep(count + 1, p2, g2) if p2 > p or count + 1 <= lo else None)
                    return None

                def stop():
                    return m(items, i + 1, p, g, k) if count >= lo else None

                for f in (more, stop) if op is MAX_REPEAT else (stop, more):
                    r = f()
                    if r is not None:
                        return r
                return None

            return rep(0, pos, groups)
        if op is AT:
            nm = str(av)
            if nm in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                return m(items, i + 1, pos, groups, k) if pos == 0 else None
            if nm == "AT_END_STRING":
                return m(items, i + 1, pos, groups, k) if pos == n else None
            if nm == "AT_END":
                if pos == n or (pos == n - 1 and truth(text[pos] == 10)):
                    return m(items, i + 1, pos, groups, k)
                return None
        raise Unsupported(f"regex op {op}")

    items = list(tree)
    starts = range(n + 1) if mode == "search" else [0]
    for st in starts:
        def fin(p, g, st=st):
            if mode == "fullmatch" and p != n:
                return None
            return SMatch(text, {**g, 0: (st, p)})

        r = m(items, 0, st, {}, fin)
        if r is not None:
            return r
    return None


class _Nfa:
    """Position automaton of a regular expression, for deciding a match as one condition instead of character by character."""

    def __init__(self, pattern, flags, prefix):
        import re._parser as sp

        self.icase = bool(flags & _re.IGNORECASE)
        self.eps, self.edges, self.begin, self.end = [], [], [], []
        self.memo = {}
        s = self.new()
        e = self.seq(list(sp.parse(pattern, 0)), s)
        self.accept = e
        if prefix:
            self.edges[e].append((None, None, e))
        self.start = self.close({s}, True, False)

    def new(self):
        self.eps.append([])
        self.edges.append([])
        self.begin.append([])
        self.end.append([])
        if len(self.eps) > 400:
            raise Unsupported("large regex")
        return len(self.eps) - 1

    def seq(self, items, s):
        from re._constants import ANY, AT, BRANCH, IN, LITERAL, MAX_REPEAT, MAXREPEAT, MIN_REPEAT, NOT_LITERAL, SUBPATTERN

        for op, av in items:
            if op in (LITERAL, NOT_LITERAL, ANY, IN):
                t = self.new()
                self.edges[s].append((op, av, t))
                s = t
            elif op is SUBPATTERN:
                s = self.seq(list(av[3]), s)
            elif op is BRANCH:
                t = self.new()
                for alt in av[1]:
                    self.eps[self.seq(list(alt), s)].append(t)
                s = t
            elif op in (MAX_REPEAT, MIN_REPEAT):
                lo, hi, sub = av
                for _ in range(lo):
                    s = self.seq(list(sub), s)
                t = self.new()
                if hi is MAXREPEAT or hi > 64:
                    if hi is not MAXREPEAT:
                        raise Unsupported("large repeat")
                    loop = self.new()
                    self.eps[s].append(loop)
                    self.eps[self.seq(list(sub), loop)].append(loop)
                    self.eps[loop].append(t)
                else:
                    self.eps[s].append(t)
                    for _ in range(hi - lo):
                        s = self.seq(list(sub), s)
                        self.eps[s].append(t)
                s = t
            elif op is AT and str(av) in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                t = self.new()
                self.begin[s].append(t)
                s = t
            elif op is AT and str(av) == "AT_END_STRING":
                t = self.new()
                self.end[s].append(t)
                s = t
            else:
                raise Unsupported(f"regex op {op}")
        return s

    def close(self, states, begin, end):
        out, work = set(states), list(states)
        while work:
            x = work.pop()
            for t in self.eps[x] + (self.begin[x] if begin else []) + (self.end[x] if end else []):
                if t not in out:
                    out.add(t)
                    work.append(t)
        return frozenset(out)

    def step(self, states, ch):
        key = states, ch
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.close({t for s in states for op, av, t in self.edges[s] if op is None or _char_ok(op, av, ch, self.icase)}, False, False)
        return r

    def run(self, states, text):
        for ch in text:
            if ord(ch) > 255 and self.icase:
                raise Unsupported("case-insensitive wide character")
            states = self.step(states, ord(ch))
        return states

    def decide(self, parts):
        """The condition under which the text made of ``parts`` (byte, output table) matches."""
        from vf.sym import _range_cond

        cur = {self.start: True}
        for x, table in parts:
            nxt = {}
            for st, cond in cur.items():
                if isinstance(x, int):
                    groups = {self.run(st, table[x]): None}
                else:
                    groups = {}
                    for i in range(256):
                        g = groups.setdefault(self.run(st, table[i]), [])
                        if g and g[-1][1] == i - 1:
                            g[-1] = (g[-1][0], i)
                        else:
                            g.append((i, i))
                for t, ranges in groups.items():
                    if t:
                        nxt.setdefault(t, []).append(cond if ranges is None else all_of([cond, _range_cond(x, ranges)]))
            cur = {t: any_of(cs) for t, cs in nxt.items()}
        return any_of([c for st, c in cur.items() if self.accept in self.close(st, False, True)])


_NFA = {}


def _decide_match(real, parts, prefix):
    key = real.pattern, real.flags, prefix
    a = _NFA.get(key)
    if a is None:
        try:
            a = _NFA[key] = _Nfa(real.pattern, real.flags, prefix)
        except Unsupported:
            a = _NFA[key] = False
    if a is False:
        return None
    try:
        return a.decide(parts)
    except Unsupported:
        return None


def _hom_parts(s):
    """The text as (byte, output table) pairs, or None."""
    from vf.sym import _IDENT, _homable

    if type(s) is SText:
        h = s._hom()
        return None if h is None else [(x, p.t) for p in h for x in p.v]
    return [(x, _IDENT) for x in s.v] if _homable(s.v) else None


class LazyMatch:
    """A match known to exist; where its groups lie is worked out only on demand."""

    def __init__(self, real, s, mode):
        self._args = real, s, mode
        self._m = None

    def _force(self):
        if self._m is None:
            real, s, mode = self._args
            self._m = _re_match(real, s.force() if type(s) is SText else s, mode)
        return self._m

    def __getattr__(self, n):
        return getattr(self._force(), n)

    def __getitem__(self, i):
        return self._force()[i]


class SPattern:
    def __init__(self, real):
        self.real = real
        self.pattern = real.pattern
        self.flags = real.flags

    def _do(self, mode, s, *a):
        if isinstance(s, SOpt):
            s = s.force()
        if mode in ("fullmatch", "match") and not a and (type(s) is SText or isinstance(s, SStr)):
            parts = _hom_parts(s)
            d = None if parts is None else _decide_match(self.real, parts, mode == "match")
            if d is not None:
                return LazyMatch(self.real, s, mode) if truth(d) else None
        if type(s) is SText:
            s = s.force()
        if isinstance(s, SStr):
            return _re_match(self.real, s, mode)
        if isinstance(s, SOpaque):
            raise Unsupported("regex on opaque text")
        return getattr(self.real, mode)(s, *a)

    def match(self, s, *a):
        return self._do("match", s, *a)

    def fullmatch(self, s, *a):
        return self._do("fullmatch", s, *a)

    def search(self, s, *a):
        return self._do("search", s, *a)

    def sub(self, repl, s, *a, **k):
        if isinstance(s, SText):
            s = s.force()
        if isinstance(s, (SStr, SBytes)) and not a and not k:
            return re_sub(self.real, repl, s)
        if isinstance(s, Sym):
            raise Unsupported("re.sub on symbolic text")
        return self.real.sub(repl, s, *a, **k)

    def __getattr__(self, n):
        return getattr(self.real, n)


def re_sub(pat, repl, s):
    """re.sub for single-character patterns over symbolic text or bytes, character by character."""
    import re._parser as sp

    tree = list(sp.parse(pat.pattern, pat.flags))
    if len(tree) != 1 or tuple(sp.parse(pat.pattern, pat.flags).getwidth()) != (1, 1) or str(tree[0][0]) not in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
        raise Unsupported("re.sub with multi-character pattern on symbolic text")
    if callable(repl) or isinstance(repl, Sym) or (b"\\" if isinstance(repl, bytes) else "\\") in repl:
        raise Unsupported("re.sub replacement")
    if isinstance(s, SBytes) and ("SPACE" in str(tree) or "WORD" in str(tree)):
        raise Unsupported("character class of bytes")
    new = list(repl) if isinstance(repl, bytes) else SStr.codes(repl)
    out = []
    for ch in s.v:
        hit = _char_ok(*tree[0], ch, bool(pat.flags & _re.IGNORECASE))
        if isinstance(hit, Sym) and len(new) == 1:
            lo, hi = bounds(ch)
            out.append(SInt(z3.If(zbool(hit), z3.IntVal(new[0]), zint(ch)), None if lo is None else min(lo, new[0]), None if hi is None else max(hi, new[0])))
        elif truth(hit):
            out.extend(new)
        else:
            out.append(ch)
    return s._mk(out)


class ReShim:
    def __getattr__(self, n):
        return getattr(_re, n)

    def compile(self, p, flags=0):
        r = _re.compile(p, flags)
        return SPattern(r)

    @staticmethod
    def _p(p, flags=0):
        return p if isinstance(p, SPattern) else SPattern(_re.compile(p, flags))

    def match(self, p, s, flags=0):
        return self._p(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self._p(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self._p(p, flags).search(s)

    def sub(self, p, r, s, *a, **k):
        return self._p(p).sub(r, s, *a, **k)


# -- json shim -------------------------------------------------------------------------------
# Assumed contract of the json module: a document of str-keyed objects, arrays, numbers, texts, booleans and null is
# read back as written, in order, every object passed to object_hook innermost first.

class SJson(SOpaque):
    """A JSON document: its text is never looked at, only loaded again."""

    __slots__ = ("doc",)

    def __init__(self, doc):
        self.why = "json text"
        self.doc = doc


class _Obj:
    def __init__(self, members):
        self.members = members


def _to_doc(x):
    if isinstance(x, (dict, SMap)):
        out = []
        for m in list.__iter__(x.items()) if isinstance(x, SMap) else x.items():
            g, (k, val) = (m.g, m.v) if isinstance(m, Guarded) else (None, m)
            if not isinstance(k, (str, SText, SStr)):
                if isinstance(k, (Sym, int, float, type(None))):
                    raise Unsupported("json: a number as a key")
                raise TypeError(f"keys must be str, int, float, bool or None, not {type(k).__name__}")
            out.append((g, k, _to_doc(val)))
        return _Obj(out)
    if isinstance(x, (list, tuple)):
        if isinstance(x, VList) and x.guarded():
            raise Unsupported("json: array of unknown length")
        return [_to_doc(i) for i in x]
    if x is None or isinstance(x, (bool, int, float, str, SInt, SBool, SReal, SText, SStr)):
        return x
    if isinstance(x, SOpt):
        _to_doc(x.val)
        return x
    if isinstance(x, Sym):
        raise Unsupported(f"json of {type(x).__name__}")
    raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")


def _from_doc(x, hook):
    if isinstance(x, _Obj):
        pairs = [(g, k, _from_doc(val, hook)) for g, k, val in x.members]
        if all(g is None and not _key_sym(k) for g, k, _ in pairs):
            d = {k: val for _, k, val in pairs}
        else:
            d = SMap()
            d.log = [(k, z3.BoolVal(True) if g is None else g, val) for g, k, val in pairs]
        return d if hook is None else hook(d)
    if isinstance(x, list):
        return VList([_from_doc(i, hook) for i in x])
    return x


class JsonShim:
    def __getattr__(self, n):
        return getattr(_json, n)

    @staticmethod
    def dumps(x, **k):
        if core.CTX is None or not (deep_sym(x) or isinstance(x, SMap)):
            return _json.dumps(x, **k)
        if set(k) - {"separators", "indent", "sort_keys"}:
            raise Unsupported("json.dumps options")
        return SJson(_to_doc(x))

    @staticmethod
    def loads(s, object_hook=None, **k):
        if isinstance(s, SJson):
            if k:
                raise Unsupported("json.loads options")
            return _from_doc(s.doc, object_hook)
        if isinstance(s, Sym):
            raise Unsupported("json.loads of symbolic text")
        return _json.loads(s, object_hook=object_hook, **k)


# -- struct shim -----------------------------------------------------------------------------

_FMT = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8, "b": 1, "h": 2, "i": 4, "l": 4, "q": 8, "?": 1}


def _parse_fmt(fmt):
    order = ">"
    if fmt and fmt[0] in "<>!=@":
        order = fmt[0]
        fmt = fmt[1:]
    elif True:
        order = "@"
    out = []
    for cnt, ch in _re.findall(r"(\d*)([a-zA-Z?])", fmt):
        if ch == "s":
            out.append(("s", int(cnt or 1)))
        elif ch == "x":
            out.append(("x", int(cnt or 1)))
        elif ch in _FMT:
            out.extend([(ch, _FMT[ch])] * int(cnt or 1))
        else:
            raise Unsupported(f"struct format {ch}")
    return order, out


class StructShim:
    error = _struct.error

    def __getattr__(self, n):
        return getattr(_struct, n)

    calcsize = staticmethod(_struct.calcsize)

    @staticmethod
    def unpack(fmt, data):
        if isinstance(data, SView):
            need = _struct.calcsize(fmt)
            if truth(data.vlen() != need):
                raise _struct.error(f"unpack requires a buffer of {need} bytes")
            data = mkbytes([data.byte(i) for i in range(need)])
        if not isinstance(data, Sym):
            return _struct.unpack(fmt, data)
        order, items = _parse_fmt(fmt)
        need = _struct.calcsize(fmt)
        if len(data) != need:
            raise _struct.error(f"unpack requires a buffer of {need} bytes")
        if order == "@" and any(n > 1 for c, n in items if c not in "sx"):
            raise Unsupported("native struct order")
        out, p = [], 0
        for ch, n in items:
            bs = data.v[p : p + n]
            p += n
            if ch == "s":
                out.append(mkbytes(bs))
                continue
            if ch == "x":
                continue
            if order in ("<",):
                bs = bs[::-1]
            v = bytes_int(bs)
            if ch.islower():
                half, full = 1 << (8 * n - 1), 1 << (8 * n)
                if isinstance(v, int):
                    v = v - full if v >= half else v
                else:
                    v = SInt(z3.If(v.z >= half, v.z - full, v.z), -half, half - 1)
            elif ch == "?":
                v = v != 0
            out.append(v)
        return tuple(out)

    @staticmethod
    def unpack_from(fmt, data, offset=0):
        n = _struct.calcsize(fmt)
        if not isinstance(data, Sym) and not isinstance(offset, Sym):
            return _struct.unpack_from(fmt, data, offset)
        return StructShim.unpack(fmt, data[offset : offset + n])

    @staticmethod
    def pack(fmt, *vals):
        if not any(isinstance(v, Sym) for v in vals):
            return _struct.pack(fmt, *vals)
        order, items = _parse_fmt(fmt)
        items_v = [x for x in items if x[0] != "x"]
        if len(items_v) != len(vals):
            raise _struct.error("pack expected %d items" % len(items_v))
        out, it = [], iter(vals)
        for ch, n in items:
            if ch == "x":
                out += [0] * n
                continue
            v = next(it)
            if isinstance(v, SOpt):
                v = v.force()
            if ch == "s":
                if isinstance(v, (SStr, str)):
                    raise _struct.error("argument for 's' must be a bytes object")
                bs = list(v) if isinstance(v, bytes) else v.v
                bs = bs[:n] + [0] * (n - len(bs))
                out += bs
                continue
            if v is None or isinstance(v, (SReal, float, str, SStr, bytes, SBytes)):
                raise _struct.error("required argument is not an integer")
            if isinstance(v, SBool):
                v = as_sint(v)
            lo, hi = (0, (1 << (8 * n)) - 1) if not ch.islower() else (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
            if not (truth(v >= lo) and truth(v <= hi)):
                raise _struct.error(f"'{ch}' format requires {lo} <= number <= {hi}")
            if isinstance(v, SInt) and not ch.islower():
                if v.lo is None or v.lo < 0 or v.hi is None or v.hi > hi:
                    v = SInt(v.z, max(lo, v.lo if v.lo is not None else lo), min(hi, v.hi if v.hi is not None else hi),
                             v.origin, v.parts)
            if ch.islower():
                v = v % (1 << (8 * n))
            bs = int_bytes(v, n)
            if order == "<":
                bs = bs[::-1]
            out += bs
        return mkbytes(out)

    class Struct:
        def __init__(self, fmt):
            self.fmt = self.format = fmt
            self.size = _struct.calcsize(fmt)

        def unpack(self, d):
            return StructShim.unpack(self.fmt, d)

        def unpack_from(self, d, offset=0):
            return StructShim.unpack_from(self.fmt, d, offset)

        def pack(self, *v):
            return StructShim.pack(self.fmt, *v)


# -- datetime proxies -------------------------------------------------------------------------

class SDelta(Sym):
    __vf_type__ = _dt.timedelta
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def total_seconds(self):
        return SReal(self.z)

    def _o(self, o):
        if isinstance(o, SDelta):
            return o.z
        if isinstance(o, _dt.timedelta):
            return zreal(o.total_seconds())
        raise Unsupported("timedelta compare")

    def __lt__(self, o):
        return wrap_bool(self.z < self._o(o))

    def __le__(self, o):
        return wrap_bool(self.z <= self._o(o))

    def __gt__(self, o):
        return wrap_bool(self.z > self._o(o))

    def __ge__(self, o):
        return wrap_bool(self.z >= self._o(o))

    def __eq__(self, o):
        return wrap_bool(self.z == self._o(o))

    def __ne__(self, o):
        return wrap_bool(self.z != self._o(o))

    __hash__ = None


class STime(Sym):
    """An aware UTC datetime at a symbolic instant (real seconds)."""

    __vf_type__ = _dt.datetime
    __vf_cmp__ = True
    __slots__ = ("z", "tz")

    def __init__(self, z, tz=_dt.UTC):
        self.z = z
        self.tz = tz

    @property
    def tzinfo(self):
        return self.tz

    def replace(self, tzinfo=None, **k):
        if k:
            raise Unsupported("datetime.replace")
        return STime(self.z, tzinfo)

    def astimezone(self, tz=None):
        if self.tz is None:
            raise Unsupported("naive astimezone")
        return STime(self.z, tz or self.tz)

    def timestamp(self):
        return SReal(self.z)

    def __vf_merge__(self, c, o):
        if not isinstance(o, (STime, _dt.datetime)) or (o.tzinfo is None) != (self.tz is None):
            return NotImplemented
        return STime(z3.If(c, self.z, self._o(o)), self.tz)

    def _o(self, o):
        if isinstance(o, SOpt):
            o = o.force()
            if o is None:
                raise TypeError("can't compare datetime to NoneType")
        if isinstance(o, STime):
            if (o.tz is None) != (self.tz is None):
                raise TypeError("can't compare offset-naive and offset-aware datetimes")
            return o.z
        if isinstance(o, _dt.datetime):
            if (o.tzinfo is None) != (self.tz is None):
                raise TypeError("can't compare offset-naive and offset-aware datetimes")
            return zreal(o.replace(tzinfo=o.tzinfo or _dt.UTC).timestamp())
        raise Unsupported("datetime compare")

    def __sub__(self, o):
        if isinstance(o, (SDelta, _dt.timedelta)):
            d = o.z if isinstance(o, SDelta) else zreal(o.total_seconds())
            return STime(self.z - d, self.tz)
        return SDelta(self.z - self._o(o))

    def __rsub__(self, o):
        return SDelta(self._o(o) - self.z)

    def __add__(self, o):
        d = o.z if isinstance(o, SDelta) else zreal(o.total_seconds())
        return STime(self.z + d, self.tz)

    def __lt__(self, o):
        return wrap_bool(self.z < self._o(o))

    def __le__(self, o):
        return wrap_bool(self.z <= self._o(o))

    def __gt__(self, o):
        return wrap_bool(self.z > self._o(o))

    def __ge__(self, o):
        return wrap_bool(self.z >= self._o(o))

    def __eq__(self, o):
        if isinstance(o, SOpt):
            return NotImplemented
        if not isinstance(o, (STime, _dt.datetime)):
            return False
        return wrap_bool(self.z == self._o(o))

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __bool__(self):
        return True

    __hash__ = None


# -- the hook object --------------------------------------------------------------------------

_CLASS_CALLS = {
    int: call_int, float: call_float, bool: call_bool, str: call_str, bytes: call_bytes,
    list: call_list, tuple: call_tuple, dict: call_dict, set: vf_set, frozenset: vf_frozenset,
}

_BUILTIN_SHIMS = {
    builtins.next: vf_next, builtins.len: vf_len, builtins.isinstance: vf_isinstance, builtins.any: vf_any, builtins.all: vf_all,
    builtins.sum: vf_sum, builtins.min: vf_min, builtins.max: vf_max, builtins.round: vf_round,
    builtins.divmod: vf_divmod, builtins.ord: vf_ord, builtins.chr: vf_chr, builtins.pow: vf_pow,
    builtins.sorted: vf_sorted, builtins.hash: vf_hash, builtins.hex: vf_hex, builtins.repr: vf_repr,
    builtins.getattr: vf_getattr, builtins.format: vf_format, range: vf_range, builtins.enumerate: vf_enumerate, builtins.type: vf_type,
}

_MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "discard",
             "popitem", "sort", "reverse", "appendleft", "popleft", "put_nowait", "send", "write", "set_result",
             "set_exception", "cancel"}


def count_equal(entries, x):
    """How many entries equal x, without deciding any of them."""
    n, s, most = 0, None, 0
    for g, y in entries:
        t = z3.simplify(z3.And(g, zbool(sym_eq(y, x))))
        if z3.is_false(t):
            continue
        if z3.is_true(t):
            n += 1
            continue
        most += 1
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
        s = t if s is None else s + t
    return n if s is None else SInt(s + n, n, n + most)


def _call_builtin_method(f, self, name, args, kwargs):
    if self is int and name == "from_bytes":
        return int_from_bytes(*args, **kwargs)
    """Methods of concrete builtin containers receiving symbolic arguments."""
    t = type(self)
    if self is _dt.datetime and name == "now" and HOOK.clock is not None:
        return HOOK.clock()
    if isinstance(self, tuple) and name == "count" and not kwargs and len(args) == 1:
        return count_equal([(z3.BoolVal(True), x) for x in self], args[0])
    if isinstance(self, str):
        if name == "join":
            if type(args[0]) is VList and args[0].guarded():
                # built from text of unknown presence: the content is not tracked
                for x in args[0].raw():
                    x = x.v if isinstance(x, Guarded) else x
                    if not vf_isinstance(x, str):
                        raise Unsupported("join of guarded non-text")
                return SOpaque("join")
            parts = list(args[0])
            if any(isinstance(p, Sym) for p in parts):
                return join_str(self, parts)
            return f(parts)
        if name == "format":
            return SOpaque("format")
        if name == "encode" or not deep_sym(args):
            return f(*args, **kwargs)
        if name in ("startswith", "endswith", "replace", "find", "count", "strip", "lstrip", "rstrip"):
            raise Unsupported(f"str.{name} with symbolic argument")
    if isinstance(self, (bytes, bytearray)):
        if name == "join":
            parts = list(args[0])
            if any(isinstance(p, Sym) for p in parts):
                return join_bytes(self, parts)
            return f(parts)
        if deep_sym(args):
            raise Unsupported(f"bytes.{name} with symbolic argument")
    if type(self) is VDict and self.sm is not None:
        if name == "clear":
            self.sm.log = []
            return None
        return getattr(self.sm, name)(*args, **kwargs)
    if type(self) is VDict and args and name in ("setdefault",) and _unhashable(args[0]):
        return getattr(self.lift(), name)(*args, **kwargs)
    if isinstance(self, dict) and args and name in ("get", "pop", "setdefault") and not isinstance(args[0], Sym) and _unhashable(args[0]):
        if name == "get":
            return dict_lookup(self, args[0], args[1] if len(args) > 1 else None)
        raise Unsupported(f"dict.{name} with a symbolic key")
    if isinstance(self, dict) and args and deep_sym(args[0]) and not isinstance(args[0], dict):
        if name == "get":
            d = args[1] if len(args) > 1 else None
            return dict_lookup(self, args[0], d)
        if name in ("pop", "setdefault"):
            k = _resolve_key(self, args[0])
            return f(k, *args[1:], **kwargs)
        if name == "update":
            for k, v in _pairs(args[0]):
                HOOK.setitem(self, k, v)
            return None
    if isinstance(self, dict) and name == "update" and args and isinstance(args[0], SMap):
        for k, v in args[0].items():
            HOOK.setitem(self, k, v)
        return None
    if isinstance(self, (set, frozenset)) and args and isinstance(args[0], Sym) and not isinstance(self, VSet):
        if name in ("add", "discard", "remove"):
            raise Unsupported("symbolic element in concrete set")
    return f(*args, **kwargs)


def dict_lookup(d, key, default):
    """dict.get with a symbolic key: merged over the concrete keys when values merge, else forks."""
    cands = [(k, sym_eq(key, k)) for k in d]
    cands = [(k, c) for k, c in cands if c is not False]
    for k, c in cands:
        if c is True:
            return d[k]
    try:
        r = default
        for k, c in reversed(cands):
            r = merge_values(c.z, d[k], r)
        return r
    except MergeFail:
        for k, c in cands:
            if truth(c):
                return d[k]
        return default


def few_values(k, limit):
    """The symbolic number, if it can only have a few values on this path, else None."""
    if k.lo is not None and k.hi is not None and k.hi - k.lo + 1 <= limit or unique_value(k) is not None:
        return k
    c = core.ctx()
    c.solver.push()
    try:
        for _ in range(limit + 1):
            if core._check(c.solver) != z3.sat:
                return k
            m = c.solver.model().eval(k.z, model_completion=True)
            if not z3.is_int_value(m):
                return None
            c.solver.add(k.z != m)
    finally:
        c.solver.pop()
    return None


def _resolve_key(d, key):
    """Decide which concrete key of ``d`` a symbolic key equals (forking); else the key itself."""
    for k in list(d):
        c = sym_eq(key, k)
        if c is False:
            continue
        if truth(c):
            return k
    return _concrete_key(key)


def _concrete_key(key):
    if isinstance(key, SInt):
        return concretize(key, 80, "dict key")
    if isinstance(key, SOpt):
        return _concrete_key(key.force())
    if isinstance(key, tuple):
        return tuple(_concrete_key(k) for k in key)
    if isinstance(key, (SStr, SBytes)):
        raise Unsupported("symbolic text as dict key")
    return key


class Frozen:
    pass


class Hook:
    """The ``__vf__`` object."""

    Undef = Undef

    def __init__(self):
        self.loop_specs = []
        self.clock = None
        self.function_log = None
        self.ignore_log_calls = True

    # calls ---------------------------------------------------------------------------
    def call(self, f, /, *args, **kwargs):
        c = core.CTX
        if c is None:
            return f(*args, **kwargs)
        if CALL_CONTRACTS or self.join_scopes:
            code = _code_of(f)
            if code is not None:
                h = CALL_CONTRACTS.get(code)
                if h is not None:
                    return h(f, args, kwargs)
                if self.join_scopes and f"{getattr(f, '__module__', '')}:{code.co_qualname}".startswith(self.join_scopes):
                    return join_call(f, args, kwargs)
        t = type(f)
        if t is types.BuiltinFunctionType or t is types.BuiltinMethodType:
            sh = _BUILTIN_SHIMS.get(f)
            if sh is not None:
                return sh(*args, **kwargs)
            s = getattr(f, "__self__", None)
            if s is not None and not isinstance(s, types.ModuleType):
                if isinstance(s, Sym):
                    return f(*args, **kwargs)
                return _call_builtin_method(f, s, f.__name__, args, kwargs)
            if deep_sym(args) or deep_sym(kwargs):
                return self.call_c(f, args, kwargs)
            return f(*args, **kwargs)
        if t is type or isinstance(f, type):
            sh = _CLASS_CALLS.get(f)
            if sh is not None:
                return sh(*args, **kwargs)
            sh = _BUILTIN_SHIMS.get(f)
            if sh is not None:
                return sh(*args, **kwargs)
            if isinstance(f, enum.EnumMeta) and args and isinstance(args[0], Sym):
                return enum_call(f, args[0])
            if issubclass(f, dict):
                src = [smap_of(a) for a in (*args, *kwargs.values()) if smap_of(a) is not None]
                if src:
                    if len(src) + len(args) + len(kwargs) != 2:
                        raise Unsupported("construction from a symbolic map and more")
                    return SStore(f, src[0])
            if f in (_dt.datetime, _dt.time, _dt.date) and deep_sym(args):
                return dt_call(f, args, kwargs)
            return f(*args, **kwargs)
        if t is types.MethodType and isinstance(f.__self__, logging.Logger):
            return None
        if t is types.MethodType:
            mm = METHOD_MODELS.get(f.__func__.__qualname__)
            if mm is not None and deep_sym(args):
                return mm(f.__self__, *args, **kwargs)
        if t is types.MethodType and isinstance(f.__self__, type) and issubclass(f.__self__, int) and f.__name__ == "from_bytes":
            return int_from_bytes(*args, **kwargs)
        return f(*args, **kwargs)

    def log(self, func, thunk):
        """A logging statement: its only possible effect is an exception while building the message."""
        c = core.CTX
        if c is None:
            return thunk()
        try:
            fs = core.nested_paths(func, max_paths=8)
            if any(k != "ok" or not isinstance(getattr(v, "__self__", None), logging.Logger) for _, k, v, _ in fs):
                return thunk()
            rs = core.nested_paths(thunk, max_paths=12)
        except (MergeFail, Unsupported):
            c.ex.unit.assumptions.add("building some log messages over symbolic data was assumed not to raise")
            return None
        if any(k == "exc" for _, k, _, _ in rs):
            return thunk()
        return None

    def call_c(self, f, args, kwargs):
        """A C function receiving symbolic data."""
        m = _C_MODELS.get(f)
        if m is not None:
            return m(*args, **kwargs)
        n = getattr(f, "__name__", "?")
        if n == "from_bytes":
            return int_from_bytes(*args, **kwargs)
        return f(*args, **kwargs)  # proxies refuse silent conversion, so this is safe

    # operators -----------------------------------------------------------------------
    def contains(self, container, x):
        if core.CTX is None:
            return x in container
        if type(container) is VDict and container.sm is not None:
            container = container.sm
        elif isinstance(container, (dict, set, frozenset)) and not isinstance(x, Sym) and _unhashable(x):
            return any_of([sym_eq(x, y) for y in container])
        if isinstance(container, SOpt):
            container = container.force()
        f = getattr(container, "contains", None) if isinstance(container, Sym) else None
        if f is not None:
            return f(x)
        if isinstance(x, SOpt):
            if isinstance(container, (tuple, list, set, frozenset)):
                cs = [sym_eq(x, y) for y in container]
                return any_of(cs)
            x = x.force()
        if type(x) is SText:
            if isinstance(container, (tuple, list)) and not any(isinstance(y, (Sym, Guarded)) for y in container):
                return any_of([sym_eq(x, y) for y in container])
            x = x.force()
        if isinstance(x, SOpaque):
            raise Unsupported("membership of opaque value")
        if isinstance(x, Sym) or (isinstance(x, tuple) and deep_sym(x)):
            if isinstance(container, range):
                if isinstance(x, (SInt, SBool)):
                    if container.step == 1:
                        return all_of([x >= container.start, x < container.stop])
                    return any_of([x == y for y in container])
                return False
            if isinstance(container, (frozenset, set)) and isinstance(x, SInt) and len(container) > 8 and all(type(i) is int for i in container):
                return _in_intset(x, container)
            if isinstance(container, (tuple, list, set, frozenset, dict)) or hasattr(container, "__iter__"):
                return any_of([sym_eq(x, y) for y in container])
            raise Unsupported(f"membership in {type(container).__name__}")
        if isinstance(container, (tuple, list)) and any(isinstance(y, Sym) for y in container):
            return any_of([sym_eq(x, y) for y in container])
        if isinstance(x, (str,)) and isinstance(container, SOpaque):
            raise Unsupported("membership in opaque text")
        return x in container

    def not_contains(self, container, x):
        return self.not_(self.contains(container, x))

    def in_(self, x, container):
        return self.contains(container, x)

    def not_in_(self, x, container):
        if core.CTX is None:
            return x not in container
        return self.not_(self.contains(container, x))

    def eq(self, a, b):
        if core.CTX is None:
            return a == b
        return sym_eq(a, b)

    def ne(self, a, b):
        if core.CTX is None:
            return a != b
        if isinstance(a, (Sym, tuple)) or isinstance(b, Sym):
            return neg(sym_eq(a, b))
        return a != b

    def mod(self, a, b):
        if core.CTX is not None and isinstance(a, (str, bytes)) and (isinstance(b, Sym) or deep_sym(b)):
            return SOpaque("%")
        return a % b

    @staticmethod
    def slice(a, b, c):
        return builtins.slice(a, b, c)

    def assign_item(self, v, x, k):
        self.setitem(x, k, v)

    _MODULES = {}

    def module(self, m):
        if m is _re:
            return ReShim()
        if m is _struct:
            return StructShim()
        if m is _json:
            return JsonShim()
        return m

    def from_module(self, modname, name):
        return getattr({"re": ReShim, "struct": StructShim, "json": JsonShim}[modname](), name)

    UNBOUND = Undef("unbound local")
    merge_scopes = ()
    join_scopes = ()

    def merging(self, where, it):
        if core.CTX is None:
            return False
        if where.startswith(self.merge_scopes):
            return True
        # ... or in a helper of the same module that a function of the scope called
        if not self.merge_scopes:
            return False
        mod = where.partition(":")[0]
        if not any(p.startswith(mod + ":") for p in self.merge_scopes):
            return False
        f = sys._getframe(1)
        while f is not None:
            m = f.f_globals.get("__name__", "")
            if m == mod:
                if f"{m}:{f.f_code.co_qualname}".startswith(self.merge_scopes):
                    return True
            elif not m.startswith("vf.") and m != "vf":
                return False
            f = f.f_back
        return False

    @staticmethod
    def snap_locals(loc, names):
        vals = [loc.get(n) for n in names]
        return vals, [v for n, v in loc.items() if not n.startswith("__vf")]

    def is_none(self, x):
        if isinstance(x, SOpt):
            return wrap_bool(x.none)
        return x is None

    def is_not_none(self, x):
        if isinstance(x, SOpt):
            return wrap_bool(z3.Not(x.none))
        return x is not None

    def is_(self, a, b):
        if isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool):
            return sym_eq(a, b)
        if isinstance(a, SOpt):
            a = a.force()
        if isinstance(b, SOpt):
            b = b.force()
        return a is b

    def is_not(self, a, b):
        return neg(self.is_(a, b))

    def not_(self, x):
        if isinstance(x, Sym):
            t = sym_truth(x)
            if t is not None:
                return wrap_bool(z3.Not(t))
        return not x

    def and_t(self, *thunks):
        return self.and_(*thunks, test=True)

    def and_(self, *thunks, test=False):
        if core.CTX is None:
            for th in thunks:
                v = th()
                if not v:
                    return v
            return v
        acc = None
        n = len(thunks)
        for i, th in enumerate(thunks):
            if acc is not None:
                v = self._eval_under(z3.And(*acc), th)
                if v is _MISSING:
                    # cannot stay symbolic: decide what we have and continue natively
                    if not core.ctx().branch(z3.And(*acc)):
                        return False
                    acc = None
                    v = th()
                    if i == n - 1:
                        return v
                    if isinstance(v, Sym) and isinstance(v, SBool):
                        acc = [v.z]
                        continue
                    if not v:
                        return v
                    continue
                if i == n - 1 and not test and not isinstance(v, (bool, SBool)):
                    return v if core.ctx().branch(z3.And(*acc)) else False
                t = _truth_val(v)
                if t is False:
                    return False
                if t is True:
                    continue
                acc.append(t)
                continue
            v = th()
            if test and isinstance(v, Sym):
                t = sym_truth(v)
                if t is not None:
                    v = wrap_bool(t)
            if isinstance(v, SBool):
                if i == n - 1:
                    return v
                acc = [v.z]
                continue
            if i == n - 1:
                return v
            if not v:
                return v
        if acc is None:
            return v
        return wrap_bool(z3.And(*acc))

    def or_t(self, *thunks):
        return self.or_(*thunks, test=True)

    def or_(self, *thunks, test=False):
        if core.CTX is None:
            for th in thunks:
                v = th()
                if v:
                    return v
            return v
        acc = None
        n = len(thunks)
        for i, th in enumerate(thunks):
            if acc is not None:
                v = self._eval_under(z3.Not(z3.Or(*acc)), th)
                if v is _MISSING:
                    if core.ctx().branch(z3.Or(*acc)):
                        return True
                    acc = None
                    v = th()
                    if i == n - 1:
                        return v
                    if isinstance(v, SBool):
                        acc = [v.z]
                        continue
                    if v:
                        return v
                    continue
                if i == n - 1 and not test and not isinstance(v, (bool, SBool)):
                    return True if core.ctx().branch(z3.Or(*acc)) else v
                t = _truth_val(v)
                if t is True:
                    return wrap_bool(z3.Or(*acc, z3.BoolVal(True)))
                if t is False:
                    continue
                acc.append(t)
                continue
            v = th()
            if test and isinstance(v, Sym):
                t = sym_truth(v)
                if t is not None:
                    v = wrap_bool(t)
            if isinstance(v, SBool):
                if i == n - 1:
                    return v
                acc = [v.z]
                continue
            if i == n - 1:
                return v
            if isinstance(v, SOpt) and i == 0 and n == 2:
                # the idiom ``x or default``
                d = thunks[1]()
                try:
                    return merge_values(sym_truth(v), v.val, d)
                except MergeFail:
                    return v.force() or d
            if isinstance(v, SInt) and i == 0 and n == 2:
                d = thunks[1]()
                if isinstance(d, (int, SInt)) and not isinstance(d, bool):
                    return merge_values(sym_truth(v), v, d)
                if v:
                    return v
                return d
            if v:
                return v
        if acc is None:
            return v
        return wrap_bool(z3.Or(*acc))

    def _eval_under(self, guard, th):
        """Evaluate a boolean operand under ``guard`` without deciding it; _MISSING if impossible."""
        c = core.ctx()
        guard = z3.simplify(guard)
        if not c.feasible(guard):
            return False if True else None

        def run():
            c.add(guard)
            return th()

        try:
            res = core.nested_paths(run, max_paths=16)
        except (MergeFail, Unsupported):
            return _MISSING
        vals = []
        for cond, kind, v, _ in res:
            if kind != "ok":
                return _MISSING
            if isinstance(v, (SBool, bool)):
                vals.append((cond, zbool(v)))
            else:
                return _MISSING
        if len(vals) == 1:
            return wrap_bool(vals[0][1])
        return wrap_bool(z3.Or(*[z3.And(cd, v) for cd, v in vals]))

    def ifexp(self, cond, a, b):
        if not isinstance(cond, Sym) or core.CTX is None:
            return a() if cond else b()
        t = sym_truth(cond)
        if t is None:
            return a() if cond else b()
        t = z3.simplify(t)
        if z3.is_true(t):
            return a()
        if z3.is_false(t):
            return b()
        c = core.ctx()
        if not c.feasible(t):
            return b() if not c.branch(t) else a()
        if not c.feasible(z3.Not(t)):
            return a() if c.branch(t) else b()
        try:
            va = self._value_under(t, a)
            vb = self._value_under(z3.Not(t), b)
            return merge_values(t, va, vb)
        except (MergeFail, Unsupported):
            return a() if c.branch(t) else b()

    def _value_under(self, guard, th):
        c = core.ctx()

        def run():
            c.add(guard)
            v = th()
            if isinstance(v, SOpt) and c.valid(z3.Not(v.none)):
                v = v.val
            return v

        res = core.nested_paths(run, max_paths=8)
        if not res or any(k != "ok" for _, k, _, _ in res):
            raise MergeFail("branch raises")
        v = res[-1][2]
        for cond, _, x, _ in reversed(res[:-1]):
            v = merge_values(cond, x, v)
        return v

    def chain(self, first, *rest):
        """a OP b OP c ... with thunks for the later operands."""
        import operator

        ops = {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge, "Eq": sym_eq_op,
               "NotEq": operator.ne, "In": lambda a, b: self.contains(b, a), "NotIn": lambda a, b: self.not_contains(b, a),
               "Is": self.is_, "IsNot": self.is_not}
        left = first
        acc = []
        n = len(rest) // 2
        for i in range(n):
            op, th = rest[2 * i], rest[2 * i + 1]
            right = th()
            r = ops[op](left, right)
            left = right
            if isinstance(r, SBool):
                acc.append(r.z)
                continue
            if not r:
                return r if not acc else False
            if i == n - 1 and not acc:
                return r
        return wrap_bool(z3.And(*acc)) if acc else True

    def getitem(self, x, k):
        if core.CTX is None:
            return x[k]
        if isinstance(x, SOpt):
            x = x.force()
        if isinstance(k, SOpt):
            k = k.force()
        if type(x) is VDict and x.sm is not None:
            return x.sm[k]
        if isinstance(x, dict) and not isinstance(k, Sym) and _unhashable(k):
            for kk in x:
                c = sym_eq(k, kk)
                if c is not False and truth(c):
                    return x[kk]
            if type(x).__missing__ is not None if hasattr(type(x), "__missing__") else False:
                raise Unsupported("default for a symbolic key")
            raise KeyError(k)
        if isinstance(k, Sym) and not isinstance(x, Sym):
            if isinstance(x, enum.EnumMeta):
                x = x.__members__
                for kk in x:
                    c = sym_eq(k, kk)
                    if c is not False and truth(c):
                        return x[kk]
                raise KeyError(k)
            if isinstance(x, dict):
                for kk in x:
                    c = sym_eq(k, kk)
                    if c is not False and truth(c):
                        return x[kk]
                raise KeyError(k)
            if isinstance(x, (list, tuple, str, bytes)) and isinstance(k, SInt):
                n = len(x)
                if truth(k < 0):
                    k = k + n
                    if truth(k < 0):
                        raise IndexError("index out of range")
                if truth(k >= n):
                    raise IndexError("index out of range")
                if isinstance(x, (list, tuple, bytes)) and all(isinstance(i, (int, SInt)) and not isinstance(i, bool) for i in x):
                    r = x[n - 1]
                    for i in range(n - 2, -1, -1):
                        r = merge_values(k.z == i, x[i], r)
                    return r
                return x[concretize(k, 400, "index")]
        if isinstance(k, tuple) and deep_sym(k) and isinstance(x, dict):
            for kk in x:
                c = sym_eq(k, kk)
                if c is not False and truth(c):
                    return x[kk]
            raise KeyError(k)
        if isinstance(k, slice) and not isinstance(x, Sym) and any(isinstance(i, Sym) for i in (k.start, k.stop, k.step)):
            k = slice(*[concretize(i, 400, "slice") if isinstance(i, SInt) else i for i in (k.start, k.stop, k.step)])
        return x[k]

    def setitem(self, x, k, v):
        if isinstance(k, SOpt):
            k = k.force()
        if core.CTX is not None and type(x) is VDict and (x.sm is not None or _unhashable(k)):
            x.lift()[k] = v
            return
        if core.CTX is not None and type(x) is VDict and isinstance(k, SInt) and len(x) < 200:
            kk = k if isinstance(k, int) else few_values(k, 80)
            if kk is None:
                x.lift()[k] = v
                return
        if core.CTX is not None and isinstance(x, dict) and (isinstance(k, Sym) or isinstance(k, tuple) and deep_sym(k)):
            k = _resolve_key(x, k)
        x[k] = v

    def delitem(self, x, k):
        if core.CTX is not None and type(x) is VDict and x.sm is not None:
            del x.sm[k]
            return
        if core.CTX is not None and isinstance(x, dict) and (isinstance(k, Sym) or isinstance(k, tuple) and deep_sym(k)):
            k = _resolve_key(x, k)
        del x[k]

    def fstr(self, *parts):
        out = []
        symbolic = False
        for p in parts:
            if isinstance(p, tuple):
                v, conv, spec = p
                if core.CTX is None:
                    if conv == 114:
                        v = repr(v)
                    elif conv == 115:
                        v = str(v)
                    elif conv == 97:
                        v = ascii(v)
                    p = format(v, spec)
                else:
                    p = fmt_value(v, spec, conv)
            if isinstance(p, Sym):
                symbolic = True
            out.append(p)
        if not symbolic:
            return "".join(out)
        if any(isinstance(p, SOpaque) and type(p) is not SText for p in out):
            return SOpaque("fstring")
        return join_str("", out)

    # containers ----------------------------------------------------------------------
    def mklist(self):
        return VList() if core.CTX is not None else []

    def listcomp(self, gen):
        if core.CTX is None:
            return [e() for c, e in gen if c()]
        out = VList()
        for g, v in self._filtered(gen):
            if z3.is_true(g):
                list.append(out, v)
            else:
                list.append(out, Guarded(g, v))
        return out

    cur_guard = None

    def guard_iter(self, it):
        if core.CTX is None or type(it) is not VList or not it.guarded():
            return it
        return self._guard_iter(it)

    def _guard_iter(self, it):
        for g, x in list(it.items_g()):
            self.cur_guard = None if z3.is_true(g) else g
            yield x

    def map_comp(self, kind, src, plain, per):
        if core.CTX is None or type(src) is not VList or not src.guarded():
            return plain(src)
        return getattr(self, kind)(per(self._guard_iter(src)))

    def _filtered(self, gen):
        for c, e in gen:
            g, self.cur_guard = self.cur_guard, None
            if g is not None:
                if not core.ctx().feasible(g):
                    continue
                cv = self.and_t(lambda: wrap_bool(g), c)
            else:
                cv = c()
            t = _truth_val(cv)
            if t is False:
                continue
            if t is True:
                yield z3.BoolVal(True), e()
                continue
            if not core.ctx().feasible(t):
                continue
            try:
                v = self._value_under(t, e)
                yield t, v
            except (MergeFail, Unsupported):
                if core.ctx().branch(t):
                    yield z3.BoolVal(True), e()

    def genexp(self, gen):
        if core.CTX is None:
            return (e() for c, e in gen if c())
        return self.listcomp(gen)

    def setcomp(self, gen):
        if core.CTX is None:
            return {e() for c, e in gen if c()}
        s = VSet()
        for g, v in self._filtered(gen):
            if z3.is_true(g):
                s.add(v)
            else:
                s.add_guarded(v, g)
        return s

    def dictcomp(self, gen):
        if core.CTX is None:
            return dict(e() for c, e in gen if c())
        pairs, guards = [], []
        for c, e in gen:
            g, self.cur_guard = self.cur_guard, None
            if g is None:
                if truth(c()):
                    pairs.append(e())
                    guards.append(None)
                continue
            # a member that may be absent: its entry is there exactly when it is
            t = _truth_val(self.and_t(lambda: wrap_bool(g), c)) if core.ctx().feasible(g) else False
            if t is False:
                continue
            if t is not True and core.ctx().feasible(t):
                try:
                    kv = self._value_under(t, e)
                    if _key_sym(kv[0]):
                        pairs.append(kv)
                        guards.append(t)
                        continue
                except (MergeFail, Unsupported):
                    pass
                t = core.ctx().branch(t)
            if t is True:
                pairs.append(e())
                guards.append(None)
        if any(g is not None for g in guards):
            m = SMap()
            m.log = [(k, z3.BoolVal(True) if g is None else g, v) for g, (k, v) in zip(guards, pairs)]
            return m
        return self.mkdict(pairs)

    def mkdict(self, pairs):
        pairs = list(pairs)
        if core.CTX is not None and any(_key_sym(k) for k, _ in pairs):
            m = SMap()
            for k, v in pairs:
                m[k] = v
            return m
        if core.CTX is not None and not pairs:
            return VDict()
        return dict(pairs)

    # loops -----------------------------------------------------------------------------
    def loop(self, site, it, loc):
        """Loop contract lookup for a while (it None) or for loop."""
        if core.CTX is None or not self.loop_specs:
            return None
        for spec in reversed(self.loop_specs):
            if spec.matches(site, it, loc):
                return LoopRun(spec, site, it, loc)
        return None

    def enter(self, name):
        if core.CTX is not None:
            core.CTX.ex.unit.functions.add(name)

    # merged for-body execution ------------------------------------------------------------
    def merge_for(self, it, body, get, put):
        """for x in it: body(x), joining the body's outcomes at the end of each iteration.

        ``body`` returns None to go on and (value,) to leave the function with a value; members present under a
        guard are visited under that guard.
        """
        c = core.ctx()
        for x in it.raw() if isinstance(it, VList) else it:
            if isinstance(x, Guarded):
                def step(x=x):
                    return body(x.v) if c.branch(x.g) else None
            else:
                def step(x=x):
                    return body(x)
            vals0, conts = get()
            nv = len(vals0)
            try:
                conts = _reachable(conts)
            except Unsupported:
                r = step()
                if r is not None:
                    return r
                continue
            conts = [k for k in conts if not any(k is v for v in vals0)]

            def state():
                vals, _ = get()
                return [(v, _shallow(v)) for v in list(vals) + conts]

            def rest(st):
                put([v for v, _ in st[:nv]])
                for v, copy in st:
                    _restore(v, copy)

            base = state()
            try:
                res = core.nested_paths(step, state, rest, max_paths=32)
            except (MergeFail, Unsupported):
                rest(base)
                res = None
            if res is not None and not res:
                raise PathEnd("infeasible iteration")
            if res is None or any(k != "ok" for _, k, _, _ in res) or len(res) == 1:
                r = step()
                if r is not None:
                    return r
                continue
            left = [q for q in res if q[2] is not None]
            go = [q for q in res if q[2] is None]
            try:
                if left:
                    if not go or c.branch(z3.Or(*[q[0] for q in left])):
                        v = left[-1][2][0]
                        for cond, _, q, _ in reversed(left[:-1]):
                            v = merge_values(cond, q[0], v)
                        merged = _merge_states(base, left)
                        put(merged[:nv])
                        return (v,)
                merged = _merge_states(base, go)
            except MergeFail:
                rest(base)
                r = step()
                if r is not None:
                    return r
                continue
            put(merged[:nv])
        return None


def _reachable(roots):
    """The mutable state a loop body can reach through its locals: containers, instance attributes and closures (not module globals)."""
    out, seen, work = [], set(), list(roots)
    while work:
        x = work.pop()
        if x is None or isinstance(x, (int, str, bytes, float, enum.Enum, type, types.ModuleType, logging.Logger)) or id(x) in seen:
            continue
        seen.add(id(x))
        if len(seen) > 5000:
            raise Unsupported("too much reachable state")
        if isinstance(x, Guarded):
            work.append(x.v)
            continue
        if isinstance(x, SOpt):
            work.append(x.val)
            continue
        if isinstance(x, Sym) and not isinstance(x, (VList, VSet, SMap)):
            continue
        if isinstance(x, types.MethodType):
            work += [x.__self__, x.__func__]
            continue
        if isinstance(x, types.FunctionType):
            if not x.__module__.startswith("vf."):
                for cell in x.__closure__ or ():
                    try:
                        work.append(cell.cell_contents)
                    except ValueError:
                        pass
            continue
        if isinstance(x, (tuple, frozenset)):
            work += list(x)
            continue
        if isinstance(x, (VSet,)):
            out.append(x)
            continue
        if isinstance(x, list):
            out.append(x)
            work += list(list.__iter__(x))
        elif isinstance(x, dict):
            out.append(x)
            work += list(x.values())
        elif isinstance(x, set):
            out.append(x)
        elif type(x).__module__.startswith("vf.") and not isinstance(x, SMap):
            continue
        d = getattr(x, "__dict__", None)
        if type(d) is dict:
            out.append(d)
            work += list(d.values())
    return out


class Env(dict):
    """Locals at a loop head, with attribute access."""

    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n) from None


class LoopSpec:
    """Loop contract.  Subclasses override the hooks; ``matches`` selects loops by what they are
    (module, kind, state in scope), never by line."""

    name = "loop"
    frame_self = True  # attributes of self not havoced must be unchanged by an iteration

    def matches(self, site, it, loc):
        return False

    def invariant(self, env):
        """[(label, condition)]"""
        return []

    def havoc(self, env, names):
        """Havoc heap state; return {local name: value} for the assigned locals it tracks."""
        return {}

    def variant(self, env):
        return None

    def item(self, env):
        return None

    def has_more(self, env):
        """Whether there is another iteration (None: either)."""
        return None

    def at_back(self, env):
        """extra obligations at the back edge"""
        return []

    havoced_attrs = ()


class LoopRun:
    def __init__(self, spec, site, it, loc):
        self.spec = spec
        self.site = site
        self.it = it
        self.env0 = Env(loc)
        core.ctx().ex.unit.abstract = True

    def head(self, names, loc):
        c = core.ctx()
        sp = self.spec
        env = Env(loc)
        env["__it__"] = self.it
        for lab, cond in sp.invariant(env):
            c.prove(f"{sp.name}: invariant holds on entry: {lab}", cond)
        vals = sp.havoc(env, names)
        for n in names:
            env[n] = vals.get(n, Undef(f"loop-carried local {n}"))
        for _lab, cond in sp.invariant(env):
            c.assume(zbool(cond))
        self.variant0 = sp.variant(env)
        self.env = env
        me = env.get("self")
        self.frame = {k: (v, _shallow(v)) for k, v in vars(me).items() if k not in sp.havoced_attrs} if me is not None and sp.frame_self and hasattr(me, "__dict__") else {}
        return tuple(env[n] for n in names)

    def more(self):
        known = self.spec.has_more(self.env)
        if known is not None:
            return truth(known)
        return core.ctx().branch(z3.Bool(core.ctx().fresh_name("more_iterations")))

    def item(self):
        return self.spec.item(self.env)

    def back(self, loc):
        c = core.ctx()
        sp = self.spec
        env = Env(loc)
        env["__it__"] = self.it
        for lab, cond in sp.invariant(env):
            c.prove(f"{sp.name}: invariant preserved: {lab}", cond)
        for lab, cond in sp.at_back(env):
            c.prove(f"{sp.name}: {lab}", cond)
        v1 = sp.variant(env)
        if v1 is not None:
            c.prove(f"{sp.name}: variant decreases", z3.And(zint(v1) < zint(self.variant0), zint(self.variant0) >= 0))
        for k, (v, copy) in self.frame.items():
            cur = vars(env["self"]).get(k)
            same = cur is v and (copy is None or _same_shallow(cur, copy))
            c.prove(f"{sp.name}: frame (attribute {k} untouched)", z3.BoolVal(bool(same)))
        raise PathEnd("loop back edge")


def _same_shallow(v, copy):
    if isinstance(v, VSet):
        return v.m == copy
    if isinstance(v, list):
        cur = list(list.__iter__(v))
        return len(cur) == len(copy) and all(a is b for a, b in zip(cur, copy))
    if isinstance(v, dict):
        return v.keys() == copy.keys() and all(v[k] is copy[k] for k in v)
    return v == copy


def _key_sym(k):
    if isinstance(k, Sym):
        return True
    if isinstance(k, tuple):
        return any(_key_sym(i) for i in k)
    f = getattr(k, "__vf_symkey__", None)
    if f is not None:
        return f()
    idx = getattr(k, "_idx", None)
    return isinstance(idx, Sym)


def sym_eq_op(a, b):
    return a == b


def _in_intset(x, s):
    """membership in a constant int set, as a union of intervals"""
    vals = builtins.sorted(s)
    runs = []
    for v in vals:
        if runs and v == runs[-1][1] + 1:
            runs[-1][1] = v
        else:
            runs.append([v, v])
    return any_of([wrap_bool(z3.And(x.z >= a, x.z <= b)) if a != b else (x == a) for a, b in runs])


def _shallow(v):
    if isinstance(v, VSet):
        return dict(v.m)
    if isinstance(v, list):
        return list(list.__iter__(v))
    if isinstance(v, dict):
        return dict(v)
    if isinstance(v, set):
        return set(v)
    return None


def _restore(v, copy):
    if copy is None:
        return
    if isinstance(v, VSet):
        v.m = dict(copy)
    elif isinstance(v, list):
        list.clear(v)
        list.extend(v, copy)
    elif isinstance(v, set):
        v.clear()
        v |= copy
    elif isinstance(v, dict):
        v.clear()
        v.update(copy)


def _merge_states(base, res):
    """Join the local-variable and reachable states of several body paths."""
    out, todo = [], []
    for i, (bv, bc) in enumerate(base):
        finals = [(cond, eff[i][0], eff[i][1]) for cond, _, _, eff in res]
        if isinstance(bv, (list, set, dict, VSet)) and all(v is bv for _, v, _ in finals):
            todo.append((bv, bc, [(cond, copy) for cond, _, copy in finals]))
            out.append(bv)
            continue
        v = finals[-1][1]
        undef = [f for f in finals if f[1] is Undef or isinstance(f[1], Undef)]
        if undef and len(undef) != len(finals):
            out.append(bv if isinstance(bv, Undef) else Undef("merged local"))
            continue
        try:
            for cond, x, _ in reversed(finals[:-1]):
                v = merge_values(cond, x, v)
        except MergeFail:
            v = Undef("local differs between merged paths")
        out.append(v)
    for t in todo:
        _merge_container(*t)
    return out


def _same_copy(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and b[k] is x for k, x in a.items())
    return a == b


def _merge_container(v, base, finals):
    if all(_same_copy(base, cp) for _, cp in finals):
        return
    if type(v) is dict or isinstance(v, dict) and not isinstance(v, Sym):
        if any(list(cp) != list(base) for _, cp in finals):
            raise MergeFail("keys added under a guard")
        new = {}
        for k, old in base.items():
            if all(cp[k] is old for _, cp in finals):
                continue
            x = finals[-1][1][k]
            for cond, cp in reversed(finals[:-1]):
                x = merge_values(cond, cp[k], x)
            new[k] = x
        v.update(new)
        return
    if isinstance(v, VSet):
        m = {}
        F = z3.BoolVal(False)
        keys = []
        for _, cp in finals:
            for k in cp:
                if k not in keys:
                    keys.append(k)
        for k in keys:
            g = F
            for cond, cp in finals:
                if k in cp:
                    g = z3.Or(g, z3.And(cond, cp[k]))
            m[k] = base[k] if k in base and all(k in cp and cp[k].eq(base[k]) for _, cp in finals) else z3.simplify(g)
        v.m = m
        return
    if isinstance(v, list):
        n = len(base)
        grown = []
        same_prefix = all(len(cp) >= n for _, cp in finals)
        if not same_prefix:
            raise MergeFail("list shrank")
        changed = [j for j in range(n) if any(cp[j] is not base[j] for _, cp in finals)]
        if changed:
            if any(len(cp) != n for _, cp in finals):
                raise MergeFail("list both updated and grown")
            new = list(base)
            for j in changed:
                x = finals[-1][1][j]
                for cond, cp in reversed(finals[:-1]):
                    x = merge_values(cond, cp[j], x)
                new[j] = x
            list.clear(v)
            list.extend(v, new)
            return
        if not isinstance(v, VList):
            if all(len(cp) == n for _, cp in finals):
                return
            raise MergeFail("plain list grown under a guard")
        for cond, cp in finals:
            for x in cp[n:]:
                if isinstance(x, Guarded):
                    grown.append(Guarded(z3.And(cond, x.g), x.v))
                else:
                    grown.append(Guarded(cond, x))
        list.clear(v)
        list.extend(v, base + grown)
        return
    raise MergeFail("container")


def int_from_bytes(data, byteorder="big", *, signed=False):
    if isinstance(data, SView):
        raise Unsupported("int.from_bytes of symbolic-length bytes")
    if isinstance(data, SBytes):
        if signed:
            raise Unsupported("signed from_bytes")
        bs = data.v if byteorder == "big" else data.v[::-1]
        return bytes_int(bs)
    return int.from_bytes(data, byteorder, signed=signed)


def enum_call(cls, x):
    """EnumClass(symbolic value): fork over the members; otherwise the class's own ``_missing_``."""
    if isinstance(x, SOpt):
        x = x.force()
        if not isinstance(x, Sym):
            return cls(x)
    seen = []
    for val, member in cls._value2member_map_.items():
        if isinstance(x, (SInt, SBool, SReal)) and not isinstance(val, (int, float)):
            continue
        if isinstance(x, SStr) and not isinstance(val, str):
            continue
        c = sym_eq(x, val)
        if c is not False and truth(c):
            return member
        seen.append(val)
    missing = cls._missing_(x)
    if missing is None:
        raise ValueError(f"not a valid {cls.__name__}")
    return missing


class SDateTimeVal(Sym):
    """datetime/time built from symbolic components whose ranges were checked."""

    def __init__(self, cls, fields):
        self.__vf_type__ = cls
        self.cls = cls
        self.fields = fields
        for k, v in fields.items():
            setattr(self, k, v)

    def __eq__(self, o):
        if isinstance(o, SDateTimeVal):
            return all_of([sym_eq(self.fields[k], o.fields[k]) for k in self.fields])
        if isinstance(o, self.cls):
            return all_of([sym_eq(v, getattr(o, k)) for k, v in self.fields.items()])
        return False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of symbolic datetime")

    def __bool__(self):
        return True

    def strftime(self, f):
        key = {"H": ("hour", 2), "M": ("minute", 2), "S": ("second", 2), "d": ("day", 2), "m": ("month", 2)}
        out, i = [], 0
        while i < len(f):
            if f[i] != "%":
                out.append(f[i])
                i += 1
                continue
            name, w = key.get(f[i + 1], (None, 0))
            if name not in self.fields:
                return SOpaque("strftime")
            out.append(fmt_value(self.fields[name], f"0{w}d"))
            i += 2
        if any(isinstance(o, SOpaque) for o in out):
            return SOpaque("strftime")
        return join_str("", out)

    def _cmp(self, o, strict):
        """lexicographic self < o (or <=)"""
        if not isinstance(o, (SDateTimeVal, self.cls)):
            raise TypeError("'<' not supported between instances")
        g = (lambda k: o.fields[k]) if isinstance(o, SDateTimeVal) else (lambda k: getattr(o, k))
        r = z3.BoolVal(not strict)
        for k in reversed(list(self.fields)):
            a, b = zint(self.fields[k]), zint(g(k))
            r = z3.Or(a < b, z3.And(a == b, r))
        return wrap_bool(r)

    def __lt__(self, o):
        return self._cmp(o, True)

    def __le__(self, o):
        return self._cmp(o, False)

    def __gt__(self, o):
        return neg(self._cmp(o, False))

    def __ge__(self, o):
        return neg(self._cmp(o, True))


def dt_call(cls, args, kw):
    if cls is _dt.datetime:
        names = ["year", "month", "day", "hour", "minute", "second", "microsecond"]
    elif cls is _dt.time:
        names = ["hour", "minute", "second", "microsecond"]
    else:
        names = ["year", "month", "day"]
    f = {}
    for n, v in zip(names, args):
        f[n] = v
    for k, v in kw.items():
        if k in names:
            f[k] = v
    tz = kw.get("tzinfo")
    for n in names:
        f.setdefault(n, 0)
    rng = {"year": (1, 9999), "month": (1, 12), "hour": (0, 23), "minute": (0, 59), "second": (0, 59), "microsecond": (0, 999999)}
    for n in names:
        if n in rng:
            lo, hi = rng[n]
            if not (truth(f[n] >= lo) and truth(f[n] <= hi)):
                raise ValueError(f"{n} out of range")
    if "day" in names:
        y, m, d = f["year"], f["month"], f["day"]
        if truth(d < 1):
            raise ValueError("day is out of range for month")
        leap = any_of([all_of([_eq0(y, 4), neg(_eq0(y, 100))]), _eq0(y, 400)])
        maxd = z3.If(zbool(any_of([m == i for i in (4, 6, 9, 11)])), z3.IntVal(30),
                     z3.If(zbool(m == 2), z3.If(zbool(leap), z3.IntVal(29), z3.IntVal(28)), z3.IntVal(31)))
        if truth(d > mk(maxd, 28, 31)):
            raise ValueError("day is out of range for month")
    if not deep_sym(list(f.values())):
        return cls(**f, **({"tzinfo": tz} if tz is not None else {}))
    if tz is not None:
        raise Unsupported("symbolic datetime with tz")
    return SDateTimeVal(cls, f)


def _eq0(y, k):
    r = y % k
    return r == 0


_C_MODELS = {
    _math.floor: lambda x: x.__floor__() if isinstance(x, SReal) else (x if isinstance(x, SInt) else _math.floor(x)),
    _math.isnan: lambda x: False,
    _math.isinf: lambda x: False,
    _math.isfinite: lambda x: True,
    _math.trunc: lambda x: x.__trunc__(),
    builtins.abs: lambda x: abs(x),
    builtins.iter: builtins.iter,
}

# -- crccheck: an uninterpreted function of the input bytes ------------------------------

class SCrc:
    def __init__(self, z):
        self.z = z

    def process(self, data):
        if not len(data):
            return self
        raise Unsupported("incremental CRC")

    def final(self):
        return self.z


def crc_uf(data):
    c = core.ctx()
    c.ex.unit.assumptions.add("CrcModbus is some fixed function of its input bytes with a 16-bit result (uninterpreted)")
    if isinstance(data, SView):
        f = z3.Function("crc_view", z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort(), z3.IntSort())
        z = f(data.arr, data.lo, data.hi)
    else:
        n = len(data.v)
        f = z3.Function(f"crc_{n}", *([z3.IntSort()] * n), z3.IntSort())
        z = f(*[z3.simplify(zint(x)) for x in data.v])
    c.add(z3.And(z >= 0, z <= 0xFFFF))
    return SInt(z, 0, 0xFFFF)


def _crc_process(self, data):
    return SCrc(crc_uf(data))


METHOD_MODELS = {"CrccheckBase.process": _crc_process, "CrcBase.process": _crc_process, "Crc.process": _crc_process,
                 "Crc16Base.process": _crc_process}

HOOK = Hook()

BUILTIN_OVERRIDES = {
    "next": vf_next, "len": vf_len, "isinstance": vf_isinstance, "any": vf_any, "all": vf_all, "sum": vf_sum,
    "min": vf_min, "max": vf_max, "round": vf_round, "divmod": vf_divmod, "ord": vf_ord, "chr": vf_chr,
    "sorted": vf_sorted, "hash": vf_hash, "hex": vf_hex, "repr": vf_repr, "format": vf_format,
}
