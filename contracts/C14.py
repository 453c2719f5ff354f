"""C14: redaction masks the unit digits of every serial number, and leaves everything else."""

import asyncio

from contracts import common_client as K
from contracts import common_link as L
from contracts.common import be16, mbap, transparent
from vf.harness import contract
from vf.rt import LoopSpec

# the identifiers the register map holds: (kind, first register, number of registers)
IDENTIFIERS = (
    ("HR", 8, 5), ("HR", 13, 5), ("IR", 110, 5), ("IR", 114, 5), ("IR", 138, 5), ("IR", 234, 5), ("IR", 354, 5), ("IR", 474, 5), ("IR", 594, 5), ("IR", 714, 5), ("IR", 834, 5),
    ("IR", 954, 5), ("IR", 1627, 5), ("IR", 1841, 5), ("IR", 1846, 5), ("IR", 1848, 5), ("IR", 1851, 5), ("IR", 1855, 5), ("IR", 2066, 5), ("IR", 2071, 5), ("IR", 2076, 5),
    ("IR", 2081, 5), ("MR", 60, 2),
)
OVERLAPPING = ((("IR", 110, 5), ("IR", 114, 5)), (("IR", 1846, 5), ("IR", 1848, 5)), (("IR", 1848, 5), ("IR", 1851, 5)), (("IR", 1851, 5), ("IR", 1855, 5)))
SHARP_S = 0xDF  # the one latin-1 letter that becomes two in upper case


def letter(v, c):
    return v.And(c >= 65, c <= 90)


def digit(v, c):
    return v.And(c >= 48, c <= 57)


def recognised(v, cs):
    """Whether the ten characters have the shape of a serial number: AA9999A999 or AAA9999999."""
    if len(cs) != 10:
        return False
    standard = [letter(v, c) if i in (0, 1, 6) else digit(v, c) for i, c in enumerate(cs)]
    ems = [letter(v, c) if i < 3 else digit(v, c) for i, c in enumerate(cs)]
    return v.Or(v.And(*standard), v.And(*ems))


def upper(v, c):
    return v.If(v.And(c >= 97, c <= 122), c - 32, c)


@contract("C14.serial", cases=range(0, 15), samples=200)
def serial(v, n):
    """Any text: its unit digits are masked if it is a serial number; otherwise it is left, or (fail closed) replaced by nothing."""
    C = v.lib.register.Converter
    kind = v.choice("kind", ["any", "standard", "ems"]) if not v.symbolic else "any"
    cs = []
    for i in range(n):
        c = v.int(f"c{i}", 0, 255)
        if kind != "any":
            c = (65 + c % 26) if i in (0, 1, 6 if kind == "standard" else 2) else 48 + c % 10
        cs.append(c)
    s = bytes(cs).decode("latin1")
    open_, closed = v.call(C.redact_serial, s), v.call(C.redact_serial_strict, s)
    v.ensure("redaction does not fail", open_.ok and closed.ok)
    known = v.truth(recognised(v, cs))
    masked = bytes(cs[:7] + [48, 48, 48]).decode("latin1") if known else None
    v.ensure("a serial number keeps all but its unit digits", v.eq(open_.value, masked if known else s))
    v.ensure("fail closed: anything else is blanked", v.eq(closed.value, masked if known else ""))


@contract("C14.nothing", cases=[None], samples=1)
def nothing(v, s):
    C = v.lib.register.Converter
    v.ensure("no serial stays no serial", C.redact_serial(s) is None and C.redact_serial_strict(s) == "")


def redaction(lib):
    """Call contracts of the two redactors: exactly what C14.serial discharges."""
    from vf import core, rt

    def handler(strict):
        def f(fn, a, k):
            if core.CTX is None:
                return fn(*a, **k)
            v = _V[-1]
            if len(a) != 1 or k:
                v.unsupported("another signature")
            cs = v.codes_of(a[0])
            if cs is None or not v.truth(recognised(v, cs)):
                return "" if strict else a[0]
            return v.text_of([*cs[:7], 48, 48, 48], 48, 90)

        return f

    for name, strict in (("redact_serial", False), ("redact_serial_strict", True)):
        fn = getattr(lib.register.Converter, name, None)
        if fn is not None and hasattr(fn, "__code__"):
            rt.CALL_CONTRACTS[fn.__code__] = handler(strict)


_V = []


@contract("C14.identifiers", cases=["all"], samples=1)
def identifiers(v, _):
    """Every identifier of the register map is looked for."""
    got = {tuple(g) for g in v.lib.cache._get_serial_groups()}
    v.ensure("every identifier is looked for", got >= set(IDENTIFIERS))
    lookups = {(x._idx, type(x).__name__) for kind, base, n in got for x in [getattr(v.lib.register, kind)(base + i) for i in range(n)]}
    own = {(b + i, k) for k, b, n in IDENTIFIERS for i in range(n)}
    v.ensure("and nothing but identifiers", lookups == own)


@contract("C14.overlap", cases=OVERLAPPING, samples=200)
def overlap(v, case):
    """Two identifiers that share registers cannot both be serial numbers: masking one leaves no digit of the other."""
    (_, a, n), (_, b, m) = case
    words = [v.u16(f"w{i}") for i in range(b + m - a)]
    cs = [upper(v, x) for w in words for x in (w // 256, w % 256)]
    one, two = cs[:2 * n], cs[2 * (b - a):]
    v.ensure("never both", v.Not(v.And(recognised(v, one), recognised(v, two))))


def chars(v, words):
    return [x for w in words for x in (w // 256, w % 256)]


def masked(v, before, after):
    """Whether the words after redaction are as they must be: of a serial number, its letters (in either case) and date, and zeros; else the same."""
    a, b = chars(v, before), chars(v, after)
    kept = [v.eq(upper(v, x), upper(v, y)) for x, y in zip(a[:7], b)]
    zeros = [v.eq(y, 48) for y in b[7:]]
    same = [v.eq(x, y) for x, y in zip(before, after)]
    if len(before) != 5:
        return v.And(*same)
    known = recognised(v, [upper(v, x) for x in a])
    return v.If(known, v.And(*kept, *zeros), v.And(*same))


def serial_words(v, name, n):
    """Words that are more often a serial number when sampled."""
    if v.symbolic:
        return [v.u16(f"{name} {i}") for i in range(n)]
    cs, kind = [v.int(f"{name} c{i}", 0, 255) for i in range(2 * n)], v.choice(f"{name} kind", ["any", "standard", "standard", "ems", "lower", "almost"])
    if kind != "any":
        cs = [(97 if kind == "lower" else 65) + c % 26 if i in (0, 1, 2 if kind == "ems" else 6) else 48 + c % 10 for i, c in enumerate(cs)]
    if kind == "almost":
        cs[cs[0] % (2 * n)] = cs[1]
    return [cs[2 * i] * 256 + cs[2 * i + 1] for i in range(n)]


def no_sharp_s(v, words):
    for w in words:
        v.assume(v.And(v.Not(v.eq(w // 256, SHARP_S)), v.Not(v.eq(w % 256, SHARP_S))))


def part(v, kind, base, words, at=()):
    """Entries {index: (present, value)} of a group: each register there or not, with its word or unset."""
    out = {}
    for i, w in enumerate(words):
        there, unset = v.bool(f"there {i}"), v.bool(f"unset {i}")
        if not v.symbolic and v.choice("all there", [True, True, False]):
            there, unset = True, False
        out[base + i] = there, v.maybe(unset, w)
    return out


@contract("C14.store", cases=[(g, "same" if k else "other") for g in IDENTIFIERS for k in (True, False)], calls=(redaction,), samples=60)
def store(v, case):
    """A store holding any part of an identifier, and any other register."""
    _V.append(v)
    (kind, base, n), other = case
    R = getattr(v.lib.register, kind)
    words = serial_words(v, "w", n)
    no_sharp_s(v, words)
    held = part(v, kind, base, words)
    kind2 = kind if other == "same" else ("IR" if kind != "IR" else "HR")
    K, k, value, there = getattr(v.lib.register, kind2), v.int("witness", 0, 65535), v.opt_int("witness value", 0, 65535), v.bool("witness there")
    for g, b, m in IDENTIFIERS:
        if g == kind2:
            v.assume(v.Not(v.And(k >= b, k < b + m)))
    s = v.store([*[(R(i), p, x) for i, (p, x) in held.items()], (K(k), there, value)])
    r = v.call(s.redact_serials)
    v.ensure("a store can be redacted", r.ok)
    out = r.value
    v.ensure("into another store", out is not s)
    whole = v.And(*[v.And(p, v.Not(v.is_none(x))) for p, x in held.values()])
    got = [out.get(R(i)) for i in held]
    for (i, (p, x)), y in zip(held.items(), got):
        v.ensure("the same registers are known", v.eq(R(i) in out, p))
        v.ensure("the original is untouched", v.And(v.eq(R(i) in s, p), v.Implies(p, v.eq(s.get(R(i)), x))))
        v.ensure("an unset register stays unset", v.Implies(v.And(p, v.is_none(x)), v.is_none(y)))
        if kind == "MR":
            v.ensure("a meter's identifier is cleared, even in part", v.Implies(v.And(p, v.Not(v.is_none(x))), v.eq(y, 0)))
        else:
            v.ensure("a part of a serial number is left", v.Implies(v.And(p, v.Not(whole)), v.eq(y, x)))
    if kind != "MR" and v.truth(whole):
        v.ensure("the unit digits of a serial number are masked; other content is left", masked(v, words, got))
    v.ensure("any other register is left", v.And(v.eq(K(k) in out, there), v.Implies(there, v.eq(out.get(K(k)), value))))
    v.ensure("nothing is added", v.eq(len(out), len(s)))


# -- frames ---------------------------------------------------------------------------------

FC = {"HR": 3, "IR": 4, "MR": 0x16}


def field(v, name):
    """The ten bytes of a serial number field."""
    b = v.bytes(name, 10)
    if not v.symbolic:
        how = v.choice(f"{name} shape", ["any", "standard", "ems", "standard", "almost"])
        if how != "any":
            b = bytes(65 + c % 26 if i in (0, 1, 2 if how == "ems" else 6) else 48 + c % 10 for i, c in enumerate(b))
        if how == "almost":
            b = b[:b[0] % 10] + b"\x00" + b[b[0] % 10 + 1:]
    return b


def masked_field(v, b):
    """A field after redaction: a serial number without its unit digits; anything else is blanked."""
    known = recognised(v, [b[i] for i in range(10)])
    if v.truth(known):
        return b[:7] + b"000"
    return b"*" * 10


def feed(v, direction, frame):
    """What comes out of a redactor that is given the frame."""
    red = v.lib.client.FrameRedactor(direction)
    r = v.call(red.feed, frame)
    v.ensure("redacting does not fail", r.ok)
    t = v.call(red.flush)
    v.ensure("nothing is held back", t.ok and len(t.value) == 0)
    return r.value


def words_bytes(words):
    out = b""
    for w in words:
        out = out + be16(w)
    return out


@contract("C14.heartbeat", cases=("rx", "tx"), calls=(redaction,), samples=60)
def heartbeat(v, direction):
    _V.append(v)
    ser, kind = field(v, "serial"), v.u8("type")
    out = feed(v, direction, mbap(ser + bytes([kind]), 1))
    v.ensure("only the serial number is changed, and it is masked", out == mbap(masked_field(v, ser) + bytes([kind]), 1))


@contract("C14.envelope", cases=["write", "write refused", "null", *[f"{k} refused" for k in FC]], calls=(redaction,), samples=60)
def envelope(v, case):
    """Responses without register values: both serial numbers are masked, the rest is as it was."""
    _V.append(v)
    ser, inv, dev, pad = field(v, "serial"), field(v, "inverter"), v.u8("device"), v.bytes("padding", 8)
    v.assume(v.Not(v.And(*[pad[i] == 0 for i in range(7)], pad[7] == 0x2C)))
    kind, *refused = case.split()
    tfc = (128 if refused else 0) + {"write": 6, "null": 0, **FC}[kind]
    rest = words_bytes(v.ints("words", 62 if kind == "null" else 2, 0, 0xFFFF))
    out = feed(v, "rx", transparent(ser, pad, dev, tfc, inv + rest))
    v.ensure("only the serial numbers are changed, and they are masked", out == transparent(masked_field(v, ser), pad, dev, tfc, masked_field(v, inv) + rest))


@contract("C14.request", cases=[*FC, "write"], calls=(redaction,), samples=60)
def request(v, kind):
    _V.append(v)
    ser, dev, pad = field(v, "serial"), v.u8("device"), v.bytes("padding", 8)
    v.assume(v.Not(v.And(*[pad[i] == 0 for i in range(7)], pad[7] == 0x2C)))
    if kind == "write":
        reg = v.u16("register")
        v.assume(reg in v.lib.write_registers.WRITE_SAFE_REGISTERS)
        rest = be16(reg) + be16(v.u16("value"))
    else:
        rest = be16(v.u16("base")) + be16(v.int("count", 1, 60))
    tfc = {"write": 6, **FC}[kind]
    out = feed(v, "tx", transparent(ser, pad, dev, tfc, rest))
    v.ensure("only the serial number is changed, and it is masked", out == transparent(masked_field(v, ser), pad, dev, tfc, rest))


def windows(thorough=False):
    """(kind, base, count): reads that hold an identifier exactly, on the usual grid, with its start or end cut off, and none."""
    out = set()
    for kind, base, n in IDENTIFIERS:
        grid = base // 60 * 60
        out |= {(kind, base, n), (kind, grid, 60), (kind, base + 1, 6), (kind, max(base - 3, 0), n + 2)}
        if base + n > grid + 60:
            out.add((kind, grid + 60, 60))
    heavy = {("IR", 1800, 60), ("IR", 2040, 60)}
    out = out if thorough else out - heavy | {("IR", 1846, 14), ("IR", 2066, 10)}
    return sorted(out | {("HR", 0, 0), ("IR", 0, 60), ("HR", 300, 60), ("MR", 0, 60), ("HR", 60, 4), ("IR", 60, 2), ("MR", 8, 10)})


WRONG = [(w, "wrong") for w in (("HR", 13, 5), ("MR", 60, 2), ("IR", 60, 2), ("HR", 0, 0))]


@contract("C14.read", cases=[(w, "right") for w in windows()] + WRONG, thorough_cases=[(w, "right") for w in windows(True)] + WRONG, calls=(redaction,), samples=20)
def read(v, case):
    """A read response: both serial numbers of the envelope and those among the values are masked; every other value, and the length, are as they were."""
    _V.append(v)
    (kind, base, n), code = case
    ser, inv, dev, pad = b"SA1234G567", b"WF1234G56?", v.u8("device"), b"\x00" * 7 + b"\x8a"
    if n < 9:
        ser, inv, pad = field(v, "serial"), field(v, "inverter"), v.bytes("padding", 8)
        v.assume(v.Not(v.And(*[pad[i] == 0 for i in range(7)], pad[7] == 0x2C)))
    words = v.ints("words", n, 0, 0xFFFF)
    groups = [g for g in IDENTIFIERS if g[0] == kind and base < g[1] + g[2] and g[1] < base + n]
    if not v.symbolic and groups:
        _, b, m = v.choice("identifier", groups)
        for i, w in enumerate(serial_words(v, "w", m)):
            if base <= b + i < base + n:
                words[b + i - base] = w
    for _, b, m in groups:
        no_sharp_s(v, [words[b + i - base] for i in range(m) if base <= b + i < base + n])
    rest = inv + be16(base) + be16(n) + words_bytes(words)
    frame = transparent(ser, pad, dev, FC[kind], rest)
    if code == "wrong":
        frame = frame[:-2] + v.bytes("check code", 2)
    out = feed(v, "rx", frame)
    v.ensure("the length is kept", len(out) == len(frame))
    got = [out[42 + 2 * i] * 256 + out[43 + 2 * i] for i in range(n)]
    v.ensure("outside the values, only the serial numbers are changed, and they are masked; the check code fits",
             out == transparent(masked_field(v, ser), pad, dev, FC[kind], masked_field(v, inv) + be16(base) + be16(n) + words_bytes(got)))
    touched = set()
    for _, b, m in groups:
        inside = [b + i - base for i in range(m) if base <= b + i < base + n]
        if kind == "MR":
            v.ensure("a meter's identifier is cleared, even in part", v.And(*[v.eq(got[i], 0) for i in inside]))
            touched |= set(inside)
        elif len(inside) == m:
            others = [g for g in groups if g[1] != b and abs(g[1] - b) < 5 and g[1] >= base and g[1] + 5 <= base + n]
            second = v.Or(*[recognised(v, [upper(v, c) for c in chars(v, words[g[1] - base:g[1] - base + 5])]) for g in others])
            v.ensure("the unit digits of a serial number are masked; other content is left", v.Or(second, masked(v, [words[i] for i in inside], [got[i] for i in inside])))
            touched |= set(inside)
    v.ensure("every other value is left", v.And(*[v.eq(got[i], words[i]) for i in range(n) if i not in touched]))


# -- stores, one identifier at a time ---------------------------------------------------------

class OverIdentifiers(LoopSpec):
    """Redacting a store, one identifier from any state of the result: it decides about its own registers, from the original's values, and touches no other."""

    name = "identifier"
    frame_self = False

    def matches(self, site, it, loc):
        from vf import core

        g = core.ctx().ghost.get("identifiers")
        return site[2] == "for" and g is not None and "matched" not in g and loc.get("self") is g["store"] and isinstance(it, list) and g["item"] in it

    @staticmethod
    def result(env):
        """The one local that is a store of its own."""
        g = OverIdentifiers.ghost()
        found = [x for k, x in env.items() if k != "self" and not k.startswith("__") and getattr(x, "__vf_type__", None) is g["cls"] and x is not g["store"]]
        if len(found) != 1:
            g["v"].unsupported("which local is the result?")
        return found[0]

    @staticmethod
    def ghost():
        from vf import core

        return core.ctx().ghost["identifiers"]

    def havoc(self, env, names):
        g = self.ghost()
        g["matched"] = True
        g["v"].refill(self.result(env), g["so far"])
        return {}

    def item(self, env):
        return self.ghost()["item"]

    def at_back(self, env):
        g = self.ghost()
        return g["after"](self.result(env))


def changed(v, kind, w, which):
    """A register after a masking that changed some of its bytes."""
    if kind == "MR":
        return v.If(which[0], 0, w)
    hi, lo = (v.If(c, v.If(digit(v, a), 48, upper(v, a)), a) for c, a in zip(which, (w // 256, w % 256)))
    return hi * 256 + lo


def small_change(v, kind, w, e):
    """What one masking may have made of a register: each byte is as it was, a digit that became 0, or a letter in upper case."""
    if kind == "MR":
        return v.Or(v.eq(e, w), v.eq(e, 0))
    return v.And(*[v.Or(v.eq(b, a), v.And(digit(v, a), v.eq(b, 48)), v.And(letter(v, upper(v, a)), v.eq(b, upper(v, a)))) for a, b in zip(chars(v, [w]), chars(v, [e]))])


@contract("C14.step", cases=IDENTIFIERS, calls=(redaction,), loops=(OverIdentifiers,), samples=30, covers=("done",))
def step(v, group):
    """Redacting any store: one identifier, whatever the others made of the result before."""
    _V.append(v)
    kind, base, n = group
    R = getattr(v.lib.register, kind)
    words = serial_words(v, "w", n)
    no_sharp_s(v, words)
    held = part(v, kind, base, words)
    K = getattr(v.lib.register, v.choice("witness kind", ["HR", "IR", "MR"]))
    k, value, there = v.int("witness", 0, 65535), v.opt_int("witness value", 0, 65535), v.bool("witness there")
    if K is R:
        v.assume(v.Not(v.And(k >= base, k < base + n)))
    s = v.store([*[(R(i), p, x) for i, (p, x) in held.items()], (K(k), there, value)])
    # what other identifiers made of these registers before this one
    # (invariant) only changes of the kind masking makes, and none if this one is a serial number itself (C14.overlap)
    is_serial = v.And(*[v.And(p, v.Not(v.is_none(x))) for p, x in held.values()], recognised(v, [upper(v, c) for c in chars(v, words)])) if kind != "MR" else False
    plain = {i: changed(v, kind, w, [v.And(v.bool(f"changed {i} {j}"), v.Not(is_serial)) for j in range(2)]) if v.symbolic else w for i, w in zip(held, words)}
    earlier = {i: v.maybe(v.is_none(x), plain[i]) for i, (p, x) in held.items()}
    before = v.maybe(v.is_none(value), v.u16("witness so far"))
    g = {"v": v, "store": s, "cls": v.lib.cache.RegisterCache, "item": tuple(group), "so far": [*[(R(i), p, earlier[i]) for i, (p, x) in held.items()], (K(k), there, before)]}

    def after(out):
        v.cover("done")
        whole = v.And(*[v.And(p, v.Not(v.is_none(x))) for p, x in held.values()])
        got = {i: out.get(R(i)) for i in held}
        obs = [("no other register is touched", v.And(v.eq(K(k) in out, there), v.Implies(there, v.eq(out.get(K(k)), before)))),
               ("the same registers are known", v.And(*[v.eq(R(i) in out, p) for i, (p, x) in held.items()]))]
        if kind == "MR":
            obs.append(("a meter's identifier is cleared, even in part", v.And(*[v.Implies(p, v.eq(got[i], v.maybe(v.is_none(x), 0))) for i, (p, x) in held.items()])))
        elif v.truth(whole):
            known = recognised(v, [upper(v, c) for c in chars(v, words)])
            zero = v.And(*[v.eq(c, 48) for c in chars(v, words)[7:]])
            left = v.And(*[v.eq(got[i], earlier[i]) for i in held])
            obs.append(("a serial number is masked, from the values of the original", v.Implies(v.And(known, v.Not(zero)), masked(v, words, [got[i] for i in held]))))
            obs.append(("a digit may become 0, a letter upper case, and nothing else happens", v.And(*[small_change(v, kind, x, got[i]) for i, x in zip(held, words)])))
            obs.append(("anything else is left", v.Implies(v.Not(known), left)))
        else:
            obs.append(("a part of a serial number is left", v.And(*[v.Implies(p, v.eq(got[i], earlier[i])) for i, (p, x) in held.items()])))
        return obs

    g["after"] = after
    v.ghost()["identifiers"] = g
    r = v.call(s.redact_serials)
    if v.symbolic and "matched" not in g:
        v.unsupported("no loop of the shape that the loop contract describes")
    v.ensure("a store can be redacted", r.ok)
    v.cover("done")
    v.ensure("the original is untouched", v.And(*[v.And(v.eq(R(i) in s, p), v.Implies(p, v.eq(s.get(R(i)), x))) for i, (p, x) in held.items()], v.eq(K(k) in s, there), v.Implies(there, v.eq(s.get(K(k)), value))))


# -- network announcements --------------------------------------------------------------------

SHAPES = (  # d: any digit, x: any character but a separator; the rest is itself
    ",ddd.ddd.ddd.ddd,ddd.ddd.ddd.d,ddd.ddd.d.ddd\r\n\r\n", ",d.d.d.d,d.d.d.d,d.d.d.d\r\n\r\n", ",dd.dd.dd.dd\r\n", ",", ",,,\r\n", ",xxxx,xxxxxxx,xx\r\n\r\n", ",xxxxxxxxxxxx",
    ",xx,xx,xx,xx,dd,x\r\n", ",xxx;ddd.ddd;xxx\n", ",d,\r\n", "",
)


def body(v, shape):
    out = []
    for i, c in enumerate(shape):
        if c == "d":
            out.append(v.int(f"body {i}", 48, 57))
        elif c == "x":
            n = v.int(f"body {i}", 0, 255)
            v.assume(v.And(*[v.Not(v.eq(n, x)) for x in (10, 13, 44)]))
            out.append(n)
        else:
            out.append(ord(c))
    return bytes(out)


def blank_digits(v, b):
    return bytes([v.If(digit(v, x), 48, x) for x in list(b)])


@contract("C14.announcement", cases=[s for s in SHAPES if s], calls=(redaction,), samples=60)
def announcement(v, shape):
    """A network announcement: its serial number is masked and every digit of its addresses is blanked; all else, and the length, is as it was."""
    _V.append(v)
    ser, csv, check = field(v, "serial"), body(v, shape), v.bytes("check", 2)
    out = feed(v, "rx", mbap(ser + bytes(7) + csv + check, 2))
    v.ensure("only the serial number and the digits are changed", out == mbap(masked_field(v, ser) + bytes(7) + blank_digits(v, csv) + check, 2))


@contract("C14.announced", cases=SHAPES, calls=(redaction,), samples=60)
def announced(v, shape):
    """Redacting the announcement itself."""
    _V.append(v)
    ser, csv, check = field(v, "serial"), body(v, shape), v.u16("check")
    texts = [v.text(n, k) for n, k in (("ip", 11), ("netmask", 3), ("gateway", 0))]
    p = v.lib.lan_config.LanConfigBroadcast(data_adapter_serial_number=ser.decode("latin1"), ip=texts[0], netmask=texts[1], gateway=texts[2], check=check, _csv_raw=csv)
    r = v.call(p.redact)
    v.ensure("it can be redacted", r.ok and type(r.value) is type(p) and r.value is not p)
    q = r.value
    for name, t in zip(("ip", "netmask", "gateway"), texts):
        v.ensure("digits of addresses are blanked, their length is kept", v.eq(getattr(q, name), blank_digits(v, t.encode("latin1")).decode("latin1")))
        v.ensure("the original is untouched", v.eq(getattr(p, name), t))
    v.ensure("the check code is carried through", v.eq(q.check, check))
    v.ensure("it encodes as the original would, masked", v.call(q.encode).value == mbap(masked_field(v, ser) + bytes(7) + blank_digits(v, csv) + be16(check), 2))
    v.ensure("the original still encodes as it did", v.call(p.encode).value == mbap(ser + bytes(7) + csv + be16(check), 2))


# -- plants -----------------------------------------------------------------------------------

@contract("C14.plant", cases=[(g, n) for g in (("HR", 13, 5), ("IR", 114, 5), ("MR", 60, 2)) for n in (10, 9, 11, 0)], calls=(redaction,), samples=40)
def plant(v, case):
    """A plant: every device's store is redacted, the serial numbers of its own are masked or blanked; the copy stands on its own."""
    _V.append(v)
    (kind, base, n), size = case
    R, W = getattr(v.lib.register, kind), v.lib.register.IR
    p = v.lib.plant.Plant()
    words = serial_words(v, "w", n)
    no_sharp_s(v, words)
    witness, stamp = v.u16("witness"), v.time("stamp")
    devices = (0x32, 0x11, 0x70)
    for d in devices:
        p.register_caches[d] = v.store([*[(R(base + i), True, w) for i, w in enumerate(words)], (W(5), True, witness)])
    heads = [field(v, "header") if size == 10 else v.bytes("header", size), field(v, "adapter")]
    p.inverter_serial_number, p.data_adapter_serial_number = (h.decode("latin1") for h in heads)
    p.register_block_updated_at[(0x32, "IR", 0, 60)] = stamp
    p.register_block_present[(0x32, "IR", 0, 60)] = present = frozenset({1, 2})
    r = v.call(p.redact)
    v.ensure("a plant can be redacted", r.ok and type(r.value) is type(p) and r.value is not p)
    q = r.value
    v.ensure("the same devices", v.And(*[d in q.register_caches for d in devices], len(q.register_caches) == len(p.register_caches)))
    for d in devices:
        out = q.register_caches[d]
        v.ensure("every store is a copy", out is not p.register_caches[d])
        got = [out.get(R(base + i)) for i in range(n)]
        if kind == "MR":
            v.ensure("a meter's identifier is cleared", v.And(*[v.eq(x, 0) for x in got]))
        else:
            v.ensure("the unit digits of a serial number are masked; other content is left", masked(v, words, got))
        v.ensure("measurements are left", v.eq(out.get(W(5)), witness))
    for name, h in zip(("inverter_serial_number", "data_adapter_serial_number"), heads):
        want = (h[:7] + b"000").decode("latin1") if v.truth(recognised(v, list(h))) else ""
        v.ensure("a serial number of its own is masked, or blanked if it is none", v.eq(getattr(q, name), want))
        v.ensure("the original keeps its own", v.eq(getattr(p, name), h.decode("latin1")))
    v.ensure("the times are kept", v.And(len(q.register_block_updated_at) == 1, v.eq(q.register_block_updated_at[(0x32, "IR", 0, 60)], stamp), len(q.register_block_present) == 1, q.register_block_present[(0x32, "IR", 0, 60)] == present))
    # the copy and the original go separate ways
    q.register_block_updated_at.clear()
    q.register_block_present.clear()
    for d in devices:
        q.register_caches[d][W(5)] = None
        q.register_caches[d][R(base)] = None
    q.register_caches.clear()
    v.ensure("the original is untouched", v.And(len(p.register_block_updated_at) == 1, len(p.register_block_present) == 1, *[v.eq(p.register_caches[d].get(k), x) for d in devices for k, x in [(W(5), witness), *[(R(base + i), w) for i, w in enumerate(words)]]]))


# -- the stream -------------------------------------------------------------------------------

MARKER = b"\x59\x59\x00\x01"
MAX_RESIDUE = 305


class Emitted:
    """Stands for the output so far of a redactor: what was emitted before (unknown), and the pieces added since."""

    def __init__(self, pieces=()):
        self.pieces = list(pieces)

    def __add__(self, x):
        return Emitted([*self.pieces, x])


class OverStream(LoopSpec):
    """The redactor's loop, one iteration from an arbitrary buffer."""

    name = "redacting step"
    frame_self = False

    def matches(self, site, it, loc):
        from vf import core

        g = core.ctx().ghost.get("redactor")
        return g is not None and site[2] == "while" and loc.get("self") is g["red"] and "contract" not in g

    def havoc(self, env, names):
        from vf import core

        g = core.ctx().ghost["redactor"]
        g["contract"] = True
        outs = [n for n in names if isinstance(env.get(n), bytes) and not env[n]]
        if len(outs) != 1:
            g["v"].unsupported("which local is the output?")
        g["name"] = outs[0]
        return {outs[0]: Emitted()}

    def at_back(self, env):
        from vf import core

        g = core.ctx().ghost["redactor"]
        return g["step"](env[g["name"]])


MASKED = b"<masked>"


def stream_symbolic(v, direction):
    S = v.stream("stream")
    end = v.int("end", 0)
    a, h, e, q = v.int("a", 0), v.int("h", 0), v.int("e", 0), v.int("q", 0)
    v.assume(v.And(a <= h, h <= e, e <= len(S), end == len(S)))
    red = v.lib.client.FrameRedactor(direction)
    attr = [k for k, x in vars(red).items() if isinstance(x, bytes) and not x]
    if len(attr) != 1:
        v.unsupported("which attribute of the redactor is its buffer?")
    attr = attr[0]
    others = {k: x for k, x in vars(red).items() if k != attr}
    setattr(red, attr, v.part(S, a, h))
    frames = []

    def one(frame):
        frames.append(frame)
        return MASKED

    v.patch(red, "_redact_frame", one)

    def word(i):
        return v.byte(S, i) * 256 + v.byte(S, i + 1)

    def marker(i):
        return v.And(*[v.byte(S, i + k) == m for k, m in enumerate(MARKER)])

    # q: an arbitrary frame with no other marker from the buffer's head up to it, nor one within its header
    L = 6 + word(q + 4)
    v.assume(v.And(a <= q, q + 9 <= end, marker(q), word(q + 4) <= 300, L >= 9, *[v.Not(marker(q + k)) for k in range(1, 4)]))
    v.assume(v.Or(q == a, v.Not(v.And(marker(a), word(a + 4) <= 300))))

    def state(pieces):
        cur = getattr(red, attr)
        if {k: x for k, x in vars(red).items() if k not in (attr, "_redact_frame")} != others:
            v.unsupported("the redactor keeps more state than its buffer")
        p, same = v.suffix_of(S, e, cur)
        obs = [("what is kept is the unconsumed end of the stream", v.And(same, a <= p, p <= e))]
        at, seen = a, 0
        for x in pieces:
            if x is MASKED:
                obs.append(("a frame goes out masked, once", seen < len(frames)))
                if seen < len(frames):
                    lo, hi, same = v.piece_of(S, frames[seen], at)
                    obs.append(("a frame is as long as its header says", v.And(same, marker(lo), word(lo + 4) <= 300, hi == lo + 6 + word(lo + 4), lo == at)))
                    at = hi
                seen += 1
            else:
                lo, hi, same = v.piece_of(S, x, at)
                obs += [("what is no frame goes out as it came", v.And(same, lo == at, hi >= lo)), ("no frame goes out unmasked", v.Or(v.Not(v.And(lo <= q, q < hi))))]
                at = hi
        obs += [("everything consumed goes out, in order", v.And(at == p, seen == len(frames)))]
        return p, obs

    def step(out):
        if not isinstance(out, Emitted):
            return [("earlier output is kept", False)]
        p, obs = state(out.pieces)
        v.cover("frame" if frames else "skipped")
        return [*obs, ("every step consumes something", p > a), ("a frame is not passed over", v.Or(p <= q, v.And(q == a, p == q + L, len(frames) == 1)))]

    v.ghost()["redactor"] = {"v": v, "red": red, "step": step}
    r = v.call(red.feed, v.part(S, h, e))
    v.cover("waits for more")
    v.ensure("redacting does not fail", r.ok)
    if not isinstance(r.value, Emitted):
        v.ensure("earlier output is kept", False)
    p, obs = state(r.value.pieces)
    for label, cond in obs:
        v.ensure(label, cond)
    v.ensure("what is held back is bounded", e - p <= MAX_RESIDUE)
    v.ensure("a frame further on is not passed over", p <= q)
    v.ensure("a complete frame is never left waiting", q + L > e)
    v.ensure("nothing is masked when the loop is left", not frames)
    t = v.call(red.flush)
    v.ensure("at the end the rest goes out as it came", v.And(t.ok, v.suffix_of(S, e, t.value)[1], v.suffix_of(S, e, t.value)[0] == p))
    v.ensure("and is forgotten", len(getattr(red, attr)) == 0)


def stream_concrete(v, direction):
    from contracts import C07

    S = v.stream("stream", gen=C07.stream)
    end = len(S)
    v.int("end", 0)
    cuts = sorted({v.int(n, 0) % (end + 1) for n in ("a", "h", "e", "q")} | {0, end})
    k = v.int("chunk", 0, 40)
    if k:
        cuts = sorted(set(cuts) | set(range(0, end, k)))
    frames = []

    def one(frame):
        frames.append(bytes(frame))
        return b"<%d>" % len(frames)

    red = v.lib.client.FrameRedactor(direction)
    v.patch(red, "_redact_frame", one)
    out = b""
    for lo, hi in zip(cuts, cuts[1:]):
        r = v.call(red.feed, S[lo:hi])
        v.ensure("redacting does not fail", r.ok)
        out += r.value
    out += v.call(red.flush).value
    # reference: the frames of the whole stream
    want, at, n, held = b"", 0, 0, []
    while at < end:
        j = S.find(MARKER, at)
        if j < 0:
            break
        want, at = want + S[at:j], j
        if end - at < 6:
            break
        size = int.from_bytes(S[at + 4:at + 6], "big")
        if size > 300:
            want, at = want + S[at:at + 4], at + 4
            continue
        if end - at < 6 + size:
            break
        n += 1
        held.append(S[at:at + 6 + size])
        want, at = want + b"<%d>" % n, at + 6 + size
    v.ensure("everything goes out, in order, frames masked, however it arrived", out == want + S[at:])
    v.ensure("the frames are those of the stream", frames == held)


@contract("C14.stream", cases=("rx", "tx"), covers=("frame", "skipped", "waits for more"), loops=(OverStream,), samples=400, timeout=300)
def stream(v, direction):
    """However the bytes arrive, every frame in them goes out masked and everything else as it came."""
    (stream_symbolic if v.symbolic else stream_concrete)(v, direction)


# -- captures: what the sink is given ------------------------------------------------------------

class Tail:
    """Stands for a redactor (C14.stream): notes what it is fed; what it gives back is arbitrary."""

    def __init__(self, v, direction, log):
        self.v, self.direction, self.log = v, direction, log
        log.append(("made", direction))

    def give(self, what):
        out = self.v.bytes(f"{what} {self.direction}{len(self.log)}", self.v.choice(f"size {what} {self.direction}{len(self.log)}", [0, 3]))
        self.log.append((what, self.direction, out))
        return out

    def feed(self, data):
        self.log.append(("fed", self.direction, data))
        return self.give("out")

    def flush(self):
        return self.give("end")


FAILURES = (None, ValueError("sink"), OSError(28, "full"), RuntimeError("sink"), KeyError("sink"))


def capturing(v, client):
    """A capture under way: what the redactors did, what the sink was given."""
    log, seen = [], []
    fault = v.choice("sink fails", range(len(FAILURES)))

    def sink(direction, data):
        seen.append((direction, data))
        if FAILURES[fault] is not None:
            raise FAILURES[fault]

    v.patch(v.lib.client, "FrameRedactor", lambda direction: Tail(v, direction, log))
    return log, seen, sink


def relayed(v, log, seen):
    """The sink is given exactly what the redactors gave, in order, under their directions."""
    want = [(e[1], e[2]) for e in log if e[0] in ("out", "end") and len(e[2])]
    return len(want) == len(seen) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(want, seen))


class Wire(LoopSpec):
    """The receive and transmit loops, one turn from any state with a capture under way."""

    name = "wire"
    frame_self = False

    def matches(self, site, it, loc):
        from vf import core

        g = core.ctx().ghost.get("capture")
        if g is None or g["client"] is not loc.get("self") or site[2] != "while":
            return False
        g["contract"] = True
        return True

    def at_back(self, env):
        from vf import core

        return core.ctx().ghost["capture"]["after"](1)


@contract("C14.tee", cases=("rx", "tx"), loops=(Wire,), covers=("turn",), samples=60)
def tee(v, direction):
    """While a capture runs, all that is received or sent goes through that direction's redactor, and only its output to the sink."""
    client = K.new_client(v)
    log, seen, sink = capturing(v, client)
    client._capture_sink = sink
    client._capture_redactor_rx, client._capture_redactor_tx = (v.lib.client.FrameRedactor(d) for d in ("rx", "tx"))
    del log[:]
    n = 1 if v.symbolic else v.int("turns", 1, 10)
    chunks = [v.bytes(f"chunk{i}", 4) for i in range(n)]
    if direction == "rx":
        client.framer = Silent()
        client.reader = L.Reader(list(chunks), then="silence")
    else:
        client.writer = L.Writer()
        for c in chunks:
            client.tx_queue.put_nowait((c, None, None))

    def after(k):
        fed = [e for e in log if e[0] == "fed"]
        v.cover("turn")
        return [("what passes on the wire is fed to the redactor of its direction, once, in order", len(fed) == k and all(e[1] == direction and e[2] is c for e, c in zip(fed, chunks))),
                ("the sink is given the redacted bytes, and nothing else", relayed(v, log, seen)),
                ("the connection stays up, whatever the sink does", not client._connection_lost)]

    state = {"client": client, "after": after}
    v.ghost()["capture"] = state
    r = v.run(client._task_network_consumer if direction == "rx" else client._task_network_producer)
    v.ensure("the loop keeps serving", r.blocked)
    if "contract" not in state:
        if v.symbolic:
            v.unsupported("no loop of the shape that the loop contract describes")
        for label, cond in after(n):
            v.ensure(label, cond)


class Silent:
    async def decode(self, data):
        for m in ():
            yield m


@contract("C14.capture", cases=("ends", "cancelled", "second"), covers=("ended",), samples=60)
def capture(v, how):
    """A capture starts with a fresh redactor for each direction, and ends by handing over what they still hold; one at a time."""
    client = K.new_client(v)
    log, seen, sink = capturing(v, client)
    duration = v.real("duration", 0, 1000)
    if how == "second":
        other = client._capture_sink = lambda direction, data: seen.append(None)
        r = v.run(client.capture_frames, sink, duration)
        v.ensure("a second capture is refused", not r.ok and type(r.exc) is RuntimeError)
        v.ensure("the first goes on", client._capture_sink is other and not log and not seen)
        v.cover("ended")
        return
    during = []

    async def sleep(t):
        during.append((t, client._capture_sink is sink, client._capture_redactor_rx, client._capture_redactor_tx))
        if how == "cancelled":
            raise asyncio.CancelledError

    v.patch(v.lib.client.asyncio, "sleep", sleep)
    r = v.run(client.capture_frames, sink, duration)
    v.ensure("it lasts as long as asked", v.And(len(during) == 1, v.eq(during[0][0], duration)))
    v.ensure("it ends as it is ended, whatever the sink does", r.ok if how == "ends" else not r.ok and type(r.exc) is asyncio.CancelledError)
    _, active, rx, tx = during[0]
    v.ensure("a fresh redactor for each direction", active and [e for e in log if e[0] == "made"] == [("made", "rx"), ("made", "tx")] and rx.direction == "rx" and tx.direction == "tx")
    v.ensure("what each still holds is handed over", sorted(e[1] for e in log if e[0] == "end") == ["rx", "tx"] and not [e for e in log if e[0] == "fed"])
    v.ensure("redacted, under its direction, and nothing else", relayed(v, log, seen))
    v.ensure("the capture is over", client._capture_sink is None and client._capture_redactor_rx is None and client._capture_redactor_tx is None)
    v.cover("ended")


@contract("C14.reconnect", cases=(0, 3, 5, 17, 40, 140), samples=6)
def reconnect(v, part):
    """A capture that goes on over a reconnection: a frame cut short by the loss does not hide the frames of the new link from redaction."""
    client = K.new_client(v)
    r1, r2 = L.Reader(then="silence"), L.Reader(then="silence")
    L.network(v, (r1, L.Writer()), (r2, L.Writer()))
    serials = {"inverter_serial_number": "SA1234G567", "data_adapter_serial_number": "WF1234G567"}
    frame = v.lib.pdu.ReadInputRegistersResponse(base_register=60, register_count=60, register_values=list(range(60)), device_address=0x32, **serials).encode()
    value = v.u16("value")
    then = [v.lib.pdu.ReadInputRegistersResponse(base_register=0, register_count=2, register_values=[value, i], device_address=0x11, **serials).encode() for i in range(2)]
    seen = []

    async def main():
        await client.connect()
        loop = asyncio.get_running_loop()
        capture = loop.create_task(client.capture_frames(lambda direction, data: seen.append((direction, data)), 60))
        await asyncio.sleep(1)
        r1.arrive(frame[:part] if part else b"")
        if part:
            await asyncio.sleep(1)
        r1.feed_eof()
        await asyncio.sleep(1)
        await client.connect()
        r2.arrive(then[0])
        await asyncio.sleep(1)
        r2.arrive(then[1])
        await capture
        await client.close()

    r = v.run(main)
    v.ensure("capturing goes on", r.ok)
    fresh = v.lib.client.FrameRedactor("rx")
    want = [fresh.feed(x) for x in then]
    got = [d for direction, d in seen]
    v.ensure("what was received of the cut frame comes first", v.eq(sum((len(d) for d in got), 0), part + sum(len(x) for x in want)))
    v.ensure("every frame of the new link is redacted as ever", len(got) >= 2 and v.And(*[v.eq(a, b) for a, b in zip(got[-2:], want)]))
    v.ensure("no unit digits of a serial", v.And(*[bytes(x[15:18]) not in (b"567",) for x in got[-2:]]))
