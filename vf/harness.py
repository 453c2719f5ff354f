"""Contract units and the three drivers that execute them.

A contract unit is a function ``f(v, case)``.  It creates inputs through ``v``, states
preconditions with ``v.assume``, calls the real library, and states postconditions with
``v.ensure``.  The same text runs

* symbolically (``SymV``)  - every input is arbitrary, every ensure is a proof obligation;
* concretely  (``ConV``)   - on the plain library, with given input values (replay);
* randomly    (``RandV``)  - on the plain library, seeded samples (bounded run-time contract check).
"""

from __future__ import annotations

import asyncio
import datetime as _dt
import importlib
import random
import sys
import traceback


DEBUG = bool(__import__("os").environ.get("VF_DEBUG"))


class AssumeFailed(BaseException):
    pass


class ContractUnit:
    def __init__(self, cid, fn, cases, covers, thorough_cases, bounded, samples, timeout, merge, loops, calls, entry, max_paths, note, joins=()):
        self.joins = joins
        self.cid = cid
        self.fn = fn
        self._cases = cases
        self._thorough_cases = thorough_cases
        self.covers = covers
        self.bounded = bounded
        self.samples = samples
        self.timeout = timeout
        self.merge = merge
        self.loops = loops
        self.calls = calls
        self.entry = entry
        self.max_paths = max_paths
        self.note = note

    def cases(self, tier):
        c = self._thorough_cases if tier == "thorough" and self._thorough_cases is not None else self._cases
        c = c() if callable(c) else c
        return list(c)


REGISTRY = {}


def contract(cid, *, cases=(None,), thorough_cases=None, covers=(), bounded=False, samples=60, timeout=120, merge=(), loops=(),
             calls=(), entry=(), max_paths=20000, note="", joins=()):
    """Register a contract unit.

    covers   labels that must be reachable (vacuity guard)
    bounded  only run as a bounded run-time contract check (never counted as proved)
    merge    module prefixes whose for-loop bodies are joined after every iteration
    loops    loop contracts (callables returning vf.rt.LoopSpec)
    calls    callables installing call contracts, given v.lib
    joins    module:qualified-name prefixes of library functions whose outcomes are joined into one value after each call
    """

    def deco(fn):
        REGISTRY[cid] = ContractUnit(cid, fn, cases, list(covers), thorough_cases, bounded, samples, timeout, merge, loops, calls,
                                     entry, max_paths, note, joins)
        return fn

    return deco


def fake_datetime(get):
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, _dt.datetime)

        def __call__(cls, *a, **k):
            return _dt.datetime(*a, **k)

        def __getattr__(cls, n):
            return getattr(_dt.datetime, n)

    class datetime(metaclass=Meta):
        @staticmethod
        def now(tz=None):
            return get()

    return datetime


class _FakeDatetimeModule:
    def __init__(self, cls):
        self.datetime = cls

    def __getattr__(self, n):
        return getattr(_dt, n)


class Outcome:
    """Result of a library call: a value or an Exception (or, for coroutines, neither: it waits for ever)."""

    def __init__(self, value=None, exc=None, blocked=False):
        self.value = value
        self.exc = exc
        self.blocked = blocked

    @property
    def ok(self):
        return self.exc is None and not self.blocked

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)

    @property
    def exc_name(self):
        return None if self.exc is None else type(self.exc).__name__


class _Lib:
    """``v.lib.plant`` -> module; plain or instrumented depending on the process."""

    _SHORT = {
        "codec": "codec", "framer": "framer", "exceptions": "exceptions", "client": "client.client", "commands": "client.commands",
        "base": "pdu.base", "pdu": "pdu", "heartbeat": "pdu.heartbeat", "lan_config": "pdu.lan_config", "null": "pdu.null",
        "read_registers": "pdu.read_registers", "transparent": "pdu.transparent", "write_registers": "pdu.write_registers",
        "model": "model", "plant": "model.plant", "battery": "model.battery", "splice": "model.battery_splice",
        "register": "model.register", "cache": "model.register_cache", "slot_map": "model.slot_map", "manifest": "model.manifest",
        "inverter": "model.inverter", "threephase": "model.inverter_threephase", "ems": "model.ems", "gateway": "model.gateway",
        "hv_bcu": "model.hv_bcu", "lv_bcu": "model.lv_bcu", "meter": "model.meter", "devices": "model.devices",
        "aio_battery": "model.aio_battery", "identify": "testing.identify", "mock_plant": "testing.mock_plant",
    }

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        m = importlib.import_module("givenergy_modbus." + self._SHORT[n])
        setattr(self, n, m)
        return m


LIB = _Lib()
EPOCH = _dt.datetime(2026, 1, 1, tzinfo=_dt.UTC)


class VBase:
    symbolic = False
    lib = LIB

    def __init__(self):
        self._patches = []
        self._names = {}

    def _name(self, base):
        n = self._names.get(base, 0)
        self._names[base] = n + 1
        return base if n == 0 else f"{base}~{n}"

    def patch(self, obj, attr, value):
        """Replace an attribute for the duration of this run (environment stand-ins only)."""
        if isinstance(obj, dict):
            self._patches.append((obj, attr, obj.get(attr, self), True))
            obj[attr] = value
            return
        old = obj.__dict__.get(attr, self) if hasattr(obj, "__dict__") else getattr(obj, attr)
        self._patches.append((obj, attr, old, False))
        setattr(obj, attr, value)

    # coroutines: real asyncio on a virtual-time loop (vf.aio)
    _loop = None

    @property
    def loop(self):
        if self._loop is None:
            from vf.aio import Loop

            self._loop = Loop()
        return self._loop

    def run(self, fn, /, *a, idle=None, **k):
        """Await fn(*a, **k) to its end on the virtual loop."""
        from vf.aio import Stuck

        async def main():
            r = fn(*a, **k)
            return await r

        try:
            return Outcome(value=self.loop.run(main(), idle))
        except Stuck:
            return Outcome(blocked=True)
        except asyncio.CancelledError as e:
            return Outcome(exc=e)
        except Exception as e:
            if DEBUG:
                traceback.print_exception(e)
            return Outcome(exc=e)

    def clock(self, now):
        """datetime.now() in the library returns ``now`` (a value, or a function of no arguments)."""
        self._now = now if callable(now) else lambda: now
        get = lambda: self._now()  # noqa: E731
        for m in [m for n, m in list(sys.modules.items()) if n.startswith("givenergy_modbus") and m is not None]:
            d = m.__dict__.get("datetime")
            if d is _dt.datetime:
                self.patch(m, "datetime", fake_datetime(get))
            elif d is _dt:
                self.patch(m, "datetime", _FakeDatetimeModule(fake_datetime(get)))

    def unpatch(self):
        if self._loop is not None:
            self._loop.finish()
            self._loop = None
        for obj, attr, old, isd in reversed(self._patches):
            if isd:
                if old is self:
                    obj.pop(attr, None)
                else:
                    obj[attr] = old
            elif old is self:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)
        self._patches = []

    def call(self, fn, /, *a, **k):
        try:
            return Outcome(value=self._invoke(fn, a, k))
        except Exception as e:
            if DEBUG:
                traceback.print_exception(e)
            return Outcome(exc=e)

    def _invoke(self, fn, a, k):
        return fn(*a, **k)

    def tod(self, name):
        """A time of day (hour, minute, second, microsecond)."""
        return self._dt(_dt.time, [self.int(f"{name}.hour", 0, 23), self.int(f"{name}.minute", 0, 59), self.int(f"{name}.second", 0, 59),
                                   self.int(f"{name}.microsecond", 0, 999999)])

    def wallclock(self, name):
        """A naive calendar instant (any valid date and time of day)."""
        y, m = self.int(f"{name}.year", 1, 9999), self.int(f"{name}.month", 1, 12)
        d = self.int(f"{name}.day", 1, 31)
        self.assume(self.Or(d <= 28, self.And(m == 2, d == 29, y % 4 == 0, self.Or(y % 100 != 0, y % 400 == 0)),
                            self.And(m != 2, self.Or(d <= 30, self.And(m != 4, m != 6, m != 9, m != 11)))))
        return self._dt(_dt.datetime, [y, m, d, self.int(f"{name}.hour", 0, 23), self.int(f"{name}.minute", 0, 59),
                                       self.int(f"{name}.second", 0, 59), self.int(f"{name}.microsecond", 0, 999999)])

    def _dt(self, cls, parts):
        return cls(*parts)

    # small helpers available in every mode
    def opt(self, name, maker):
        """None or maker()."""
        return maker() if self.choice(name + ".present", [True, False]) else None

    def mapped_text(self, codes, table):
        """Concatenation of table[c] over the given byte values."""
        return "".join(table[c] for c in codes)

    def filtered(self, pairs):
        """The second components whose condition holds, in order."""
        return [x for c, x in pairs if c]

    def partial(self, entries):
        """A dict whose (key, present, value) entries are there exactly when present holds."""
        return {k: x for k, p, x in entries if p}

    def exact(self, num, den):
        return num / den

    def store(self, entries):
        """A RegisterCache whose (key, present, value) entries are there exactly when present holds."""
        return self.lib.cache.RegisterCache(self.partial(entries))

    def document(self, members):
        """The JSON text of an object with these members, in order."""
        import json

        return "{" + ", ".join(f"{json.dumps(k)}: {json.dumps(x)}" for k, x in members) + "}"

    def maybe(self, unset, x):
        """None if unset, else x."""
        return None if unset else x

    def subset(self, items, flags):
        """The set of the items whose flag holds."""
        return {x for x, f in zip(items, flags) if f}

    def entries(self, xs):
        """[(whether it is there, item)] of a list."""
        return [(True, x) for x in xs]

    def truth(self, x):
        return bool(x)

    def later(self, t, name, lo=0, hi=1000):
        """An instant between lo and hi seconds after t."""
        return t + _dt.timedelta(seconds=self.real(name, lo, hi))

    def near(self, name, other, lo, hi, deltas):
        """An arbitrary int (samples are often ``other`` moved by one of the deltas)."""
        return self.int(name, lo, hi)

    def sparse(self, name, lo, hi):
        """An arbitrary int (samples are often zero)."""
        return self.int(name, lo, hi)

    def typed(self, got, annotation):
        """Whether a value is one the annotation admits unchanged (so that model validation keeps it and does not raise)."""
        import warnings

        from pydantic import TypeAdapter, ValidationError

        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = TypeAdapter(annotation).validate_python(got)
        except ValidationError:
            return False
        return r == got

    def ints(self, name, n, lo, hi):
        return [self.int(f"{name}[{i}]", lo, hi) for i in range(n)]


# -- symbolic ------------------------------------------------------------------------------

class SymV(VBase):
    symbolic = True

    def __init__(self, c):
        super().__init__()
        self.c = c

    def _invoke(self, fn, a, k):
        from vf.rt import HOOK

        return HOOK.call(fn, *a, **k)

    def clock(self, now):
        from vf.rt import HOOK

        HOOK.clock = now if callable(now) else lambda: now

    def unpatch(self):
        from vf.rt import HOOK

        HOOK.clock = None
        super().unpatch()

    def typed(self, got, annotation):
        import types
        import typing

        from vf.rt import SDateTimeVal, STime
        from vf.sym import Guarded, SBool, SInt, SOpaque, SOpt, SReal, SStr, SText, VList

        if isinstance(got, SOpt):
            got = got.force()
        if not isinstance(got, (SBool, SInt, SReal, SStr, SText, SOpaque, VList, SDateTimeVal, STime)):
            return super().typed(got, annotation)
        args = typing.get_args(annotation) if isinstance(annotation, types.UnionType) or typing.get_origin(annotation) is typing.Union else (annotation,)
        for a in args:
            if a is int and isinstance(got, SInt) or a is float and isinstance(got, (SInt, SReal)) or a is bool and isinstance(got, SBool):
                return True
            if a is str and isinstance(got, (SStr, SText, SOpaque)):
                return True
            if a is _dt.datetime and isinstance(got, SDateTimeVal):
                return True
            if typing.get_origin(a) is list and isinstance(got, VList):
                return all(self.typed(x.v if isinstance(x, Guarded) else x, typing.get_args(a)[0]) for x in list.__iter__(got))
        return False

    def mapped_text(self, codes, table):
        from vf.sym import Hom, SText

        return SText([Hom(codes, tuple(table[i] for i in range(256)))])

    def maybe(self, unset, x):
        from vf.sym import SOpt, zbool

        return SOpt(zbool(unset), x)

    def codes_of(self, x):
        """The character codes of a text that has as many characters as bytes it is made from, if it can have the shape of a word at all (letters and digits only), else None."""
        from vf.sym import Hom, SStr, SText, one_to_one

        if x is None:
            return None
        if isinstance(x, str) and not isinstance(x, SStr):
            return [ord(c) for c in x]
        if isinstance(x, SStr):
            return list(x.v)
        if type(x) is SText and len(x.parts) == 1 and isinstance(x.parts[0], Hom):
            return one_to_one(x.parts[0])
        self.unsupported("the codes of this text")

    def text_of(self, codes, lo=0, hi=255):
        """The text of these character codes, known to lie between lo and hi."""
        from vf.sym import SInt, mkstr

        return mkstr([SInt(c.z, lo, hi) if isinstance(c, SInt) else c for c in codes])

    def partial(self, entries):
        import z3

        from vf.rt import SMap
        from vf.sym import zbool

        m = SMap()
        m.log = [(k, z3.simplify(zbool(p)), x) for k, p, x in entries if p is not False]
        return m

    def document(self, members):
        from vf.rt import SJson, _Obj, _to_doc

        return SJson(_Obj([(None, k, _to_doc(x)) for k, x in members]))

    def store(self, entries):
        from vf.rt import SStore

        return SStore(self.lib.cache.RegisterCache, self.partial(entries))

    def refill(self, store, entries):
        """Make a store hold exactly these entries (a havoc)."""
        store.init, store.log = None, self.partial(entries).log

    def subset(self, items, flags):
        from vf.sym import VSet

        s = VSet()
        for x, f in zip(items, flags):
            if f is True:
                s.add(x)
            elif f is not False:
                s.add_guarded(x, f.z)
        return s

    def entries(self, xs):
        from vf.sym import VList, wrap_bool

        if isinstance(xs, VList):
            return [(wrap_bool(g), x) for g, x in xs.items_g()]
        return [(True, x) for x in xs]

    def truth(self, x):
        from vf.sym import Sym, sym_truth, wrap_bool

        t = sym_truth(x) if isinstance(x, Sym) else None
        return bool(x) if t is None else wrap_bool(t)

    def filtered(self, pairs):
        import z3

        from vf.sym import Guarded, VList, zbool

        out = VList()
        for c, x in pairs:
            g = z3.simplify(zbool(c))
            if not z3.is_false(g):
                list.append(out, x if z3.is_true(g) else Guarded(g, x))
        return out

    def int(self, name, lo=None, hi=None):
        import z3

        from vf.sym import SInt

        n = self._name(name)
        if lo is not None and lo == hi:
            self.c.inputs.append((n, lambda m: lo))
            return lo
        z = z3.Int("in:" + n)
        if lo is not None:
            self.c.add(z >= lo)
        if hi is not None:
            self.c.add(z <= hi)
        self.c.inputs.append((n, lambda m: m.eval(z, model_completion=True).as_long()))
        return SInt(z, lo, hi)

    def u16(self, name):
        return self.int(name, 0, 0xFFFF)

    def u8(self, name):
        return self.int(name, 0, 0xFF)

    def bool(self, name):
        import z3

        from vf.sym import SBool

        n = self._name(name)
        z = z3.Bool("in:" + n)
        self.c.inputs.append((n, lambda m: z3.is_true(m.eval(z, model_completion=True))))
        return SBool(z)

    def real(self, name, lo=None, hi=None):
        import z3

        from vf.sym import SReal, zreal

        n = self._name(name)
        z = z3.Real("in:" + n)
        if lo is not None:
            self.c.add(z >= zreal(lo))
        if hi is not None:
            self.c.add(z <= zreal(hi))
        self.c.inputs.append((n, lambda m: _frac(m.eval(z, model_completion=True))))
        return SReal(z)

    def choice(self, name, options):
        n = self._name(name)
        i = self.c.choose(len(options), "ch:" + n)
        self.c.inputs.append((n, lambda m: i))
        return options[i]

    def bytes(self, name, n):
        from vf.sym import mkbytes

        nm = self._name(name)
        v = self._codes(nm, n, 0, 255)
        self.c.inputs.append((nm, lambda m: [_ev(m, x) for x in v]))
        return mkbytes(v)

    def text(self, name, n, lo=0, hi=255):
        from vf.sym import mkstr

        nm = self._name(name)
        v = self._codes(nm, n, lo, hi)
        self.c.inputs.append((nm, lambda m: [_ev(m, x) for x in v]))
        return mkstr(v)

    def _codes(self, nm, n, lo, hi):
        import z3

        from vf.sym import SInt

        out = []
        for i in range(n):
            z = z3.Int(f"in:{nm}[{i}]")
            self.c.add(z3.And(z >= lo, z <= hi))
            out.append(SInt(z, lo, hi))
        return out

    def opt_int(self, name, lo, hi):
        import z3

        from vf.sym import SInt, SOpt

        n = self._name(name)
        z = z3.Int("in:" + n)
        g = z3.Bool("in:" + n + ".none")
        self.c.add(z3.And(z >= lo, z <= hi))
        self.c.inputs.append((n, lambda m: None if z3.is_true(m.eval(g, model_completion=True)) else m.eval(z, model_completion=True).as_long()))
        return SOpt(g, SInt(z, lo, hi))

    def time(self, name, lo=0, hi=10_000_000):
        """An aware UTC instant, seconds after EPOCH."""
        import z3

        from vf.rt import STime

        n = self._name(name)
        z = z3.Real("in:" + n)
        self.c.add(z3.And(z >= lo, z <= hi))
        self.c.inputs.append((n, lambda m: _frac(m.eval(z, model_completion=True))))
        return STime(z + int(EPOCH.timestamp()))

    def later(self, t, name, lo=0, hi=1000):
        from vf.rt import STime

        return STime(t.z + self.real(name, lo, hi).z, t.tz)

    def stream(self, name, max_len=None, gen=None):
        """A byte string of arbitrary (symbolic) length."""
        import z3

        from vf.sym import SView

        n = self._name(name)
        arr = z3.Array("in:" + n, z3.IntSort(), z3.IntSort())
        ln = z3.Int("in:" + n + ".len")
        self.c.add(ln >= 0)
        if max_len is not None:
            self.c.add(ln <= max_len)
        self.c.soft.append(ln <= 400)

        def conc(m):
            k = min(m.eval(ln, model_completion=True).as_long(), 4000)
            return [m.eval(z3.Select(arr, i), model_completion=True).as_long() % 256 for i in range(k)]

        self.c.inputs.append((n, conc))
        return SView(arr, z3.IntVal(0), ln)

    # pieces of a stream
    def part(self, s, lo, hi):
        import z3

        from vf.sym import SView, zint

        return SView(s.arr, z3.simplify(s.lo + zint(lo)), z3.simplify(s.lo + zint(hi)))

    def byte(self, s, i):
        from vf.sym import zint

        return s.byte(zint(i))

    def suffix_of(self, s, e, got):
        """(p, whether got is s[p:e])"""
        import z3

        from vf.sym import SBytes, SView, mk, wrap_bool, zint

        if isinstance(got, SView):
            if not got.arr.eq(s.arr):
                return mk(got.lo), False
            return mk(z3.simplify(got.lo - s.lo), None, None), wrap_bool(got.hi == s.lo + zint(e))
        if isinstance(got, (bytes, bytearray, SBytes)):
            n = len(got) if isinstance(got, (bytes, bytearray)) else got.vlen()
            p = e - n
            return p, self.And(*[got[i] == s.byte(zint(p + i)) for i in range(n)])
        self.unsupported("a buffer that is not bytes")

    def extent_of(self, s, got):
        from vf.sym import SView, mk
        import z3

        if isinstance(got, SView) and got.arr.eq(s.arr):
            return mk(z3.simplify(got.lo - s.lo), None, None), mk(z3.simplify(got.hi - s.lo), None, None)
        self.unsupported("a frame that is not a piece of the stream")

    def piece_of(self, s, got, at):
        """(lo, hi, whether got is s[lo:hi]); short pieces, whose bytes stand alone, are looked for at ``at``."""
        from vf.sym import SBytes, SView

        if isinstance(got, (bytes, SBytes)) and not isinstance(got, SView):
            return at, at + len(got), self.And(*[self.eq(self.byte(s, at + i), x) for i, x in enumerate(list(got))])
        lo, hi = self.extent_of(s, got)
        return lo, hi, True

    def unsupported(self, why):
        from vf import core

        raise core.Unsupported(why)

    def charcode(self, name):
        """A byte (random samples favour letters and digits)."""
        return self.int(name, 0, 255)

    def concretely(self, fn, *args):
        """Run ``fn`` outside the symbolic execution (no symbolic value may reach it)."""
        from vf import core

        c, core.CTX = core.CTX, None
        try:
            return fn(*args)
        finally:
            core.CTX = c

    def _dt(self, cls, parts):
        from vf.rt import SDateTimeVal

        names = ["year", "month", "day", "hour", "minute", "second", "microsecond"]
        return SDateTimeVal(cls, dict(zip(names if cls is _dt.datetime else names[3:], parts)))

    def assume(self, cond):
        self.c.assume(cond)

    def ensure(self, label, cond):
        self.c.prove(label, cond)

    def cover(self, label):
        self.c.cover(label)

    def unreachable(self, label):
        """This point must not be reached."""
        import z3

        self.c.prove(label, z3.BoolVal(False))

    def And(self, *xs):
        from vf.sym import all_of

        return all_of(xs)

    def Or(self, *xs):
        from vf.sym import any_of

        return any_of(xs)

    def Not(self, x):
        from vf.rt import HOOK

        return HOOK.not_(x)

    def Implies(self, a, b):
        import z3

        from vf.sym import wrap_bool, zbool

        return wrap_bool(z3.Implies(zbool(a), zbool(b)))

    def If(self, c, a, b):
        from vf.sym import merge_values, zbool

        return merge_values(zbool(c), a, b)

    def eq(self, a, b):
        from vf.rt import sym_eq

        return sym_eq(a, b)

    def is_none(self, x):
        from vf.rt import HOOK

        return HOOK.is_none(x)

    def assumption(self, text):
        self.c.ex.unit.assumptions.add(text)

    def ghost(self):
        return self.c.ghost


def _ev(m, x):
    return x if isinstance(x, int) else m.eval(x.z, model_completion=True).as_long()


def _frac(r):
    import z3

    if z3.is_algebraic_value(r):
        r = r.approx(10)
    return [r.numerator_as_long(), r.denominator_as_long()]


# -- concrete ------------------------------------------------------------------------------

class ConV(VBase):
    def __init__(self, values):
        super().__init__()
        self.values = values
        self.violations = []
        self.checked = 0
        self.covers = set()
        self.used = {}
        self._ghost = {}

    def _get(self, name, default):
        n = self._name(name)
        x = self.values.get(n, default)
        self.used[n] = x
        return x

    def int(self, name, lo=None, hi=None):
        d = 0 if lo is None else lo
        if lo is None and hi is not None:
            d = min(0, hi)
        if lo is not None and lo <= 0 and (hi is None or hi >= 0):
            d = 0
        x = self._get(name, d)
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise AssumeFailed
        return x

    def u16(self, name):
        return self.int(name, 0, 0xFFFF)

    def u8(self, name):
        return self.int(name, 0, 0xFF)

    def bool(self, name):
        return bool(self._get(name, False))

    def real(self, name, lo=None, hi=None):
        p, q = self._get(name, [0, 1])
        x = p / q
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise AssumeFailed
        return x

    def choice(self, name, options):
        i = self._get(name, 0)
        if not 0 <= i < len(options):
            raise AssumeFailed
        return options[i]

    def bytes(self, name, n):
        b = list(self._get(name, [0] * n))
        b = (b + [0] * n)[:n]
        return bytes(b)

    def text(self, name, n, lo=0, hi=255):
        b = list(self._get(name, [max(lo, 0)] * n))
        b = (b + [lo] * n)[:n]
        return "".join(map(chr, b))

    def opt_int(self, name, lo, hi):
        x = self._get(name, None)
        if x is not None and not lo <= x <= hi:
            raise AssumeFailed
        return x

    def time(self, name, lo=0, hi=10_000_000):
        p, q = self._get(name, [lo, 1])
        return EPOCH + _dt.timedelta(seconds=p / q)

    def stream(self, name, max_len=None, gen=None):
        return bytes(self._get(name, []))

    def assume(self, cond):
        if not cond:
            raise AssumeFailed

    def ensure(self, label, cond):
        self.checked += 1
        if not cond:
            self.violations.append(label)

    def cover(self, label):
        self.covers.add(label)

    def unreachable(self, label):
        self.checked += 1
        self.violations.append(label)

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def If(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return a == b

    def is_none(self, x):
        return x is None

    def assumption(self, text):
        pass

    def unsupported(self, why):
        raise AssumeFailed

    def concretely(self, fn, *args):
        return fn(*args)

    def charcode(self, name):
        return self.int(name, 0, 255)

    def ghost(self):
        return self._ghost


class RandV(ConV):
    """Seeded sampling; remembers what it drew so a failing sample can be replayed."""

    EDGE = [0, 1, 2, 4, 5, 10, 59, 60, 61, 97, 98, 100, 101, 127, 128, 255, 256, 300, 301, 2359, 2400, 4096, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]

    def __init__(self, seed):
        super().__init__({})
        self.r = random.Random(seed)
        self.mode = self.r.random()
        self.hist = []

    def _put(self, name, x):
        n = self._name(name)
        self.used[n] = x
        return x

    def int(self, name, lo=None, hi=None):
        lo_ = -70000 if lo is None else lo
        hi_ = 70000 if hi is None else hi
        x = self._put(name, self._ri(lo_, hi_))
        self.hist.append(x)
        return x

    def _ri(self, lo, hi):
        if lo > hi:
            raise AssumeFailed
        q = self.r.random()
        if q > 0.85 and self.hist:  # correlate with values already drawn
            x = self.r.choice(self.hist) + self.r.choice([0, 0, 0, 1, -1])
            if lo <= x <= hi:
                return x
        if q < 0.15:
            return lo
        if q < 0.3:
            return hi
        if q < 0.55:
            e = [x for x in self.EDGE if lo <= x <= hi]
            if e:
                return self.r.choice(e)
        if q < 0.75:
            return min(hi, lo + self.r.randrange(0, 16))
        return self.r.randint(lo, hi)

    def bool(self, name):
        return self._put(name, self.r.random() < 0.5)

    def real(self, name, lo=None, hi=None):
        lo_, hi_ = -1000 if lo is None else lo, 1000 if hi is None else hi
        if self.r.random() < 0.3:
            p, q = self.r.choice([(lo_, 1), (hi_, 1), (0, 1)])
        else:
            p, q = self.r.randint(int(lo_ * 100), int(hi_ * 100)), 100
        self._put(name, [p, q])
        x = p / q
        if x < lo_ or x > hi_:
            raise AssumeFailed
        return x

    def near(self, name, other, lo, hi, deltas):
        k = self.r.random()
        if k < 0.15:
            return self.int(name, lo, hi)
        x = other if k < 0.8 else other + self.r.choice(deltas) * self.r.choice([1, -1])
        return self._put(name, max(lo, min(hi, x)))

    def charcode(self, name):
        return self._put(name, ord(self.r.choice("ABCXYZabcz0189")) if self.r.random() < 0.95 else self.r.randrange(256))

    def sparse(self, name, lo, hi):
        return self.int(name, lo, hi) if self.r.random() < 0.3 else self._put(name, max(lo, 0))

    def choice(self, name, options):
        i = self.r.randrange(len(options))
        self._put(name, i)
        return options[i]

    def bytes(self, name, n):
        return bytes(self._put(name, [self._ri(0, 255) for _ in range(n)]))

    def text(self, name, n, lo=0, hi=255):
        if self.r.random() < 0.6 and lo <= 48 and hi >= 90:
            v = [self.r.choice(b"0123456789ABCDEFGHXYZ") for _ in range(n)]
        else:
            v = [self.r.randint(lo, hi) for _ in range(n)]
        return "".join(map(chr, self._put(name, v)))

    def opt_int(self, name, lo, hi):
        return self._put(name, None if self.r.random() < 0.3 else self._ri(lo, hi))

    def time(self, name, lo=0, hi=10_000_000):
        span = self.r.choice([10, 400, 2000, hi - lo])
        x = lo + self.r.randrange(0, int(min(span, hi - lo)) + 1)
        self._put(name, [x, 1])
        return EPOCH + _dt.timedelta(seconds=x)

    def stream(self, name, max_len=None, gen=None):
        if gen is not None:
            return bytes(self._put(name, list(gen(self.r))))
        n = self.r.randrange(0, min(max_len or 400, 400))
        return bytes(self._put(name, [self._ri(0, 255) for _ in range(n)]))


def run_concrete(unit, case, v):
    """Returns (violations, harness_error or None)."""
    try:
        unit.fn(v, case)
    except AssumeFailed:
        return None, None
    except Exception as e:
        return v.violations, "".join(traceback.format_exception(e))[-1500:]
    finally:
        v.unpatch()
    return v.violations, None
