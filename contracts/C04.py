"""C04: grid-protection thresholds and irreversible actions need confirmation; thresholds scale exactly."""

from contracts import spec_commands as S
from contracts.C03 import JUNK, expect
from vf.harness import contract

UNCONFIRMED = {"absent": None, "false": False, "none": None, "zero": 0, "empty": ""}


@contract("C04.unconfirmed", cases=[(n, k, a) for n in S.GRID for k in UNCONFIRMED for a in ("int", "real", "true", "str", "none")], samples=4)
def unconfirmed(v, case):
    """Without confirm=True nothing is built, whatever the value."""
    name, k, a = case
    x = v.int("value") if a == "int" else v.real("value", -100000, 100000) if a == "real" else JUNK[a]
    f = getattr(v.lib.commands, name)
    r = v.call(f, x) if k == "absent" else v.call(f, x, confirm=UNCONFIRMED[k])
    v.ensure("refused with ValueError", r.raised(ValueError))


@contract("C04.positional", cases=[*S.GRID, *S.IRREVERSIBLE], samples=2)
def positional(v, name):
    """The confirmation cannot be given by accident as a second positional value."""
    f = getattr(v.lib.commands, name)
    r = v.call(f, 230.0, True) if name in S.GRID else v.call(f, True)
    v.ensure("no write is built", not r.ok)


KINDS = ["int", "real", *JUNK]


@contract("C04.threshold", cases=[(n, k) for n in S.GRID for k in KINDS], covers=(), samples=60)
def threshold(v, case):
    name, kind = case
    reg, scale, lo, hi = S.GRID[name]
    f = getattr(v.lib.commands, name)
    if kind not in ("int", "real"):
        r = v.call(f, JUNK[kind], confirm=True)
        v.ensure("refused with ValueError", r.raised(ValueError))
        return
    x = v.int("value", -100000, 100000) if kind == "int" else v.real("value", -100000, 100000)
    r = v.call(f, x, confirm=True)
    if r.ok:
        v.cover("accepted")
        q = r.value[0]
        v.ensure("exactly one write", len(r.value) == 1)
        v.ensure("its own register", q.register == reg)
        v.ensure("an installer write", v.And(q.installer is True, isinstance(q, v.lib.write_registers.WriteHoldingRegisterRequest)))
        v.ensure("addressed to the inverter", q.device_address == 0x11)
        d = q.value - x * scale
        v.ensure("the value written is the threshold in register units", v.And(d <= 0.0001, d >= -0.0001))
        v.ensure("within the documented range", v.And(q.value >= lo, q.value <= hi))
        v.ensure("passes the installer gate and encodes", v.call(q.encode).ok)
    else:
        v.cover("refused")
        v.ensure("refused with ValueError", r.raised(ValueError))
        if kind == "int":
            v.ensure("a representable in-range threshold is not refused", v.Or(x * scale < lo, x * scale > hi))


@contract("C04.exact", cases=list(S.GRID), samples=200)
def exact(v, name):
    """Every representable threshold in range is accepted and lands on exactly its register value."""
    reg, scale, lo, hi = S.GRID[name]
    n = v.int("n", lo, hi)
    expect(v, v.call(getattr(v.lib.commands, name), n / scale, confirm=True), [(reg, n)], installer=True)


@contract("C04.decimal", cases=list(S.GRID), thorough_cases=list(S.GRID), bounded=True, samples=400, timeout=60,
          note="binary floating point: every register value given as the decimal float a user would type (seeded sample)")
def decimal(v, name):
    """The threshold typed as a decimal (e.g. 0.28, 51.99) is accepted and lands on exactly that register value."""
    reg, scale, lo, hi = S.GRID[name]
    raw = v.int("raw", lo, hi)
    x = round(raw / scale, 2)
    r = v.call(getattr(v.lib.commands, name), x, confirm=True)
    v.ensure("a decimal threshold is accepted", r.ok)
    v.ensure("and lands on exactly that register value", r.ok and r.value[0].value == raw and type(r.value[0].value) is int)


@contract("C04.irreversible", cases=[(n, k) for n in S.IRREVERSIBLE for k in ("true", *UNCONFIRMED)], samples=2)
def irreversible(v, case):
    name, k = case
    f = getattr(v.lib.commands, name)
    if k == "true":
        expect(v, v.call(f, confirm=True), [(S.IRREVERSIBLE[name], 1)], installer=True)
        return
    r = v.call(f) if k == "absent" else v.call(f, confirm=UNCONFIRMED[k])
    v.ensure("refused with ValueError", r.raised(ValueError))


@contract("C04.not_ordinary", samples=60)
def not_ordinary(v, case):
    """No ordinary write can reach what these helpers guard."""
    reg = v.int("register")
    val = v.u16("value")
    v.assume(v.Or(reg in frozenset(range(63, 84)), reg in frozenset(S.IRREVERSIBLE.values())))
    W = v.lib.write_registers.WriteHoldingRegisterRequest
    e = v.call(W(reg, val).encode)
    v.ensure("an ordinary write to a guarded register never encodes", e.raised(v.lib.exceptions.InvalidPduState))


EARLIER = ["the same, confirmed", "another grid setting, confirmed", "an irreversible action, confirmed", "the same, refused", "the same, out of range"]


@contract("C04.history", cases=[(n, k, e) for n in (*S.GRID, *S.IRREVERSIBLE) for k in ("absent", "false", "none") for e in EARLIER], samples=4)
def history(v, case):
    """A confirmation counts for its own call only, whatever was confirmed or refused before."""
    name, k, earlier = case
    first = (name,) if earlier.startswith("the same") else tuple(n for n in S.GRID if n != name) if "grid" in earlier else S.IRREVERSIBLE
    grid = name in S.GRID
    if grid:
        reg, scale, lo, hi = S.GRID[name]
        n, n0 = v.int("n", lo, hi), v.int("earlier n", lo, hi)
    for f in first:
        # the very value asked for later, too
        same = v.choice("with the same value", [True, False]) if f == name and grid else None
        args = [] if f in S.IRREVERSIBLE else [-1] if "out of range" in earlier else [(n if same else n0) / scale] if f == name else [S.GRID[f][2] / S.GRID[f][1]]
        r = v.call(getattr(v.lib.commands, f), *args, **({} if "refused" in earlier else {"confirm": True}))
        if earlier.endswith("confirmed"):
            v.ensure("confirmed, it is built", r.ok)
    args = [n / scale] if grid else []
    helper = getattr(v.lib.commands, name)
    r = v.call(helper, *args) if k == "absent" else v.call(helper, *args, confirm=UNCONFIRMED[k])
    v.ensure("refused with ValueError", r.raised(ValueError))
    expect(v, v.call(helper, *args, confirm=True), [(reg, n)] if grid else [(S.IRREVERSIBLE[name], 1)], installer=True)
