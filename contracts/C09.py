"""C09: good responses commit exactly their registers; bad banks keep the last good values."""

from contracts import common_plant as P
from contracts import spec_battery as S
from contracts.C10 import bounds_report
from vf.harness import contract

# (address, with capabilities, what the address is) and windows
DEVICES = {
    "inverter": (0x11, False, "inverter"), "facade": (0x31, False, "inverter"), "inverter-detected": (0x11, True, "inverter"),
    "bmu": (0x51, True, "bmu"), "bcu": (0x71, False, "bcu"), "bcu-detected": (0x70, True, "bcu"), "lv-bcu": (0xA0, True, "lv_bcu"),
    "meter": (0x03, False, "meter"), "unknown": (0x99, False, "other"), "module": (0x51, False, "other"),
}
WINDOWS = {
    "inverter": [("HR", 0, 60), ("HR", 13, 1), ("HR", 12, 3), ("HR", 10, 10), ("HR", 60, 60), ("HR", 300, 60), ("HR", 1080, 45), ("IR", 0, 60), ("IR", 0, 17),
                 ("IR", 1600, 30), ("HR", 65535, 1)],
    "bmu": [("IR", 60, 60), ("IR", 0, 60), ("IR", 114, 2), ("HR", 0, 60)],
    "bcu": [("IR", 60, 60), ("IR", 120, 60), ("IR", 140, 1), ("HR", 0, 60)],
    "lv_bcu": [("IR", 60, 60), ("IR", 110, 5), ("HR", 0, 60)],
    "meter": [("IR", 60, 30), ("IR", 60, 60), ("HR", 0, 60)],
    "other": [("IR", 60, 60), ("HR", 0, 60), ("IR", 65500, 36)],
}
CASES = [(d, i) for d, (_, _, k) in DEVICES.items() for i in range(len(WINDOWS[k]))]
CAPS = dict(bmu=dict(hv_bmu_addresses=[0x50, 0x51]), lv_bcu=dict(lv_bcu_address=0xA0))
EXTENT = 3


def plant_for(v, device):
    addr, detected, what = DEVICES[device]
    p = v.lib.plant.Plant()
    if detected:
        p.capabilities = v.lib.plant.PlantCapabilities(device_type=v.lib.inverter.Model.HYBRID_GEN2, **CAPS.get(what, {}))
    return p


def fill(v, p, addr, kind, base, n, serial_regs):
    """Arbitrary prior content in and around the window; which of it is known is arbitrary."""
    R = P.register(v, kind)
    other = P.register(v, "IR" if kind == "HR" else "HR")
    idx = set(range(max(0, base - EXTENT), min(65536, base + n + EXTENT)))
    idx |= set(serial_regs[1]) if serial_regs and serial_regs[0] == kind else set()
    known = {i: v.bool(f"known{i}") for i in sorted(idx)}
    old = {i: v.sparse(f"old{i}", 0, 65535) for i in sorted(idx)}
    c = v.partial([(R(i), known[i], old[i]) for i in sorted(idx)])
    c[other(base)] = 7
    p.register_caches[addr] = c
    x = v.lib.cache.RegisterCache()
    x[R(base)] = 4711
    p.register_caches[0x07] = x
    return known, old


GETTERS = {"SinglePhaseInverterRegisterGetter": "inverter", "BatteryRegisterGetter": "battery", "BmuRegisterGetter": "bmu", "BcuRegisterGetter": "bcu",
           "LvBcuRegisterGetter": "lv_bcu", "MeterRegisterGetter": "meter"}
_V = []


def serial_verdict(v, what, incoming, committed):
    """The published rule: a bank carrying serial registers must complete a serial of ten letters or digits."""
    regs = P.SERIAL_OF[what]
    if regs is None:
        return True
    R = P.register(v, regs[0])
    keys = [R(i) for i in regs[1]]
    if not any(k in incoming for k in keys):
        return True
    words = []
    for k in keys:
        x = incoming[k] if k in incoming else committed.get(k)
        words.append(x)
    missing = [v.is_none(x) for x in words]
    return v.And(*[v.Not(m) for m in missing], P.coherent(v, [0 if x is None else x for x in words]))


def coherence(lib):
    """Call contract of the serial check: the published rule (discharged by C09.coherent)."""
    from vf import core, rt

    fn = getattr(lib.register.RegisterGetter, "is_coherent", None)

    def handler(f, a, k):
        what = GETTERS.get(getattr(getattr(f, "__self__", None), "__name__", None))
        if core.CTX is None or k or what is None or len(a) != 2:
            return f(*a, **k)
        return serial_verdict(_V[-1], what, *a)

    if fn is not None:
        rt.CALL_CONTRACTS[fn.__func__.__code__] = handler


@contract("C09.coherent", cases=[(g, z) for g in GETTERS for z in (*range(10), None) if P.SERIAL_OF[GETTERS[g]] or z is None], samples=60, timeout=240)
def coherent(v, case):
    """The serial check accepts exactly what spells a serial, for every content and every split between bank and cache."""
    name, first_nul = case
    cls = next(getattr(m, name) for m in (v.lib.inverter, v.lib.battery, v.lib.hv_bcu, v.lib.lv_bcu, v.lib.meter) if hasattr(m, name))
    regs = P.SERIAL_OF[GETTERS[name]]
    if regs is None:
        r = v.call(cls.is_coherent, {v.lib.register.IR(i): v.u16(f"w{i}") for i in range(60)}, v.lib.cache.RegisterCache())
        v.ensure("no serial, nothing to refuse", r.ok and r.value is True)
        return
    R = P.register(v, regs[0])
    words = []
    for j in range(5):
        pair = []
        for b in (2 * j, 2 * j + 1):
            x = v.charcode(f"b{b}")
            v.assume(v.Not(x == 0xDF))  # (a sharp s spells two letters)
            if first_nul is not None and b == first_nul:
                x = 0
            elif first_nul is None or b < first_nul:
                v.assume(v.Not(x == 0))
            pair.append(x)
        words.append(pair[0] * 256 + pair[1])
    split = v.choice("in the bank", [(0, 1, 2, 3, 4), (0,), (3, 4), (1, 2, 3), ()])
    missing = v.choice("missing", [None, 0, 2, 4])
    incoming, cached = {R(3): 1}, v.lib.cache.RegisterCache()
    for j, i in enumerate(regs[1]):
        if j in split:
            incoming[R(i)] = words[j]
        elif j != missing:
            cached[R(i)] = words[j]
        if j in split and j != 1:
            cached[R(i)] = 0x4141
    r = v.call(cls.is_coherent, incoming, cached)
    want = True if not split else v.And(P.coherent(v, words), missing is None or missing in split)
    v.ensure("accepted exactly when it spells a serial", r.ok and v.eq(v.truth(r.value), want))


@contract("C09.commit", cases=CASES, calls=(bounds_report, coherence), merge=("givenergy_modbus.model.battery_splice",), samples=60)
def commit(v, case):
    """Exactly the window's registers of exactly that device take the values read, or the whole bank is refused."""
    _V[:] = [v]
    device, w = case
    addr, _, what = DEVICES[device]
    kind, base, n = WINDOWS[what][w]
    R, other = P.register(v, kind), P.register(v, "IR" if kind == "HR" else "HR")
    p = plant_for(v, device)
    serial_regs = P.SERIAL_OF[what]
    known, old = fill(v, p, addr, kind, base, n, serial_regs)
    now = v.time("now")
    new = [v.sparse(f"new{i}", 0, 65535) for i in range(n)]
    if what != "other" and serial_regs and v.choice("plausible serial", [True, False]):
        for j, i in enumerate(serial_regs[1]):
            w = v.int(f"s{j}", 0x30, 0x39) * 256 + v.int(f"t{j}", 0x41, 0x5A)
            if base <= i < base + n:
                new[i - base] = w
    at = dict(zip(range(base, base + n), new))
    if kind == "IR" and n == 60:
        v.assume(v.Not(S.substituted(v, new)))
    # the specification
    blank = v.And(n >= 60, *[x == 0 for x in new], v.Or(*[v.And(known[i], v.Not(old[i] == 0)) for i in at]))
    wrong_serial = False
    if serial_regs and serial_regs[0] == kind and set(serial_regs[1]) & set(at):
        words = [at.get(i, old[i]) for i in serial_regs[1]]
        for x in words:
            v.assume(v.And(v.Not(x % 256 == 0xDF), v.Not(x // 256 == 0xDF)))  # (a sharp s spells two letters)
        wrong_serial = v.Not(v.And(P.coherent(v, words), *[True if i in at else known[i] for i in serial_regs[1]]))
    ok = v.And(v.Not(blank), v.Not(wrong_serial))
    check(v, p, addr, kind, base, n, new, known, old, ok, now, R, other, "first")
    if v.choice("again", [False, True]):
        v.assume(ok)
        check(v, p, addr, kind, base, n, new, {**known, **{i: True for i in at}}, {**old, **at}, True, now, R, other, "repeated")


def check(v, p, addr, kind, base, n, new, known, old, ok, now, R, other, label):
    r = v.call(p.update, P.read_response(v, kind, addr, base, new), received_at=now)
    v.ensure(f"{label}: does not fail", r.ok)
    c = p.register_caches[addr]
    kept, stored = [], []
    for i in known:
        got = c.get(R(i))
        was = v.And(v.eq(v.is_none(got), v.Not(known[i])), v.Implies(known[i], v.eq(got, old[i])))
        kept.append(was)
        stored.append(v.eq(got, new[i - base]) if base <= i < base + n else was)
    v.ensure(f"{label}: an acceptable bank is stored, its registers and no other", v.Implies(ok, v.And(*stored)))
    v.ensure(f"{label}: a refused bank changes no register", v.Implies(v.Not(ok), v.And(*kept)))
    v.ensure(f"{label}: the other kind of register is untouched", v.eq(c.get(other(base)), 7) and v.is_none(c.get(other(base + 1))))
    v.ensure(f"{label}: no other device is touched", v.And(set(p.register_caches) == {0x32, addr, 0x07}, p.register_caches[0x32] == {}, len(p.register_caches[0x07]) == 1,
                                                           v.eq(p.register_caches[0x07].get(R(base)), 4711)))
    stamps = p.register_block_updated_at
    if stamps:
        v.ensure(f"{label}: stamped when stored", v.And(ok, set(stamps) == {(addr, kind, base, n)}, v.eq(stamps[(addr, kind, base, n)], now)))
        v.ensure(f"{label}: marked present when stored", p.register_block_present == {(addr, kind, base, n): True})
    else:
        v.ensure(f"{label}: not stamped when refused", v.And(v.Not(ok), p.register_block_present == {}))
    v.ensure(f"{label}: no quality counter moves", all(getattr(p, k) == {} for k in P.COUNTERS))


REPORT = [(g, k, b) for g in GETTERS for k, b in (("HR", 0), ("HR", 60), ("IR", 0), ("IR", 60), ("IR", 120), ("IR", 180)) if (k == "IR" or GETTERS[g] == "inverter")]


@contract("C09.report", cases=REPORT, merge=("givenergy_modbus.model.register:RegisterGetter.validate_bank",), samples=60)
def report(v, case):
    """The bounds report never fails, whatever the bank, and modifies neither the bank nor the stored registers."""
    name, kind, base = case
    cls = next(getattr(m, name) for m in (v.lib.inverter, v.lib.battery, v.lib.hv_bcu, v.lib.lv_bcu, v.lib.meter) if hasattr(m, name))
    R = P.register(v, kind)
    n = v.choice("count", [60, 7])
    incoming = {R(base + i): v.u16(f"new{i}") for i in range(n)}
    cached = v.lib.cache.RegisterCache()
    if v.choice("cached", [True, False]):
        for i in range(0, 60, 2):
            cached[R(base + i)] = v.u16(f"old{i}")
    before = P.copied(incoming), P.copied(cached)
    r = v.call(cls.validate_bank, incoming, cached)
    v.ensure("the report does not fail", r.ok)
    v.ensure("it is a list of field names", v.And(*[isinstance(x, str) for _, x in v.entries(r.value)]))
    v.ensure("the bank and the store are left alone", P.same_value(v, before[0], P.copied(incoming)) and P.same_value(v, before[1], P.copied(cached)))


@contract("C09.insisted", cases=[(what, n) for what in ("blank", "wrong serial", "mixed") for n in (14,)], bounded=True, samples=20,
          note="bounded: fourteen refusals in a row and in turn with good banks, with listed register values; any number of them from any state is the induction of C09.commit")
def insisted(v, case):
    """However often it is repeated, a bad bank is refused, and good ones in between are stored."""
    _V[:] = [v]
    what, n = case
    p = v.lib.plant.Plant()
    R = v.lib.register.HR
    serial = [0x5341, 0x3132, 0x3334, 0x4735, 0x3637]
    now = v.time("now")

    def bank(name, good=True):
        """Registers of a bank: which one it is shows in the last."""
        xs = list(range(100, 160))
        xs[59] = 7 + len(name)
        xs[13:18] = serial if good else [0x2020] * 5
        return xs

    def holds(xs, label):
        c = p.register_caches[0x11]
        v.ensure(label, v.And(*[v.eq(c.get(R(i)), x) for i, x in enumerate(xs)]))

    good = bank("good")
    v.ensure("stored", v.call(p.update, P.read_response(v, "HR", 0x11, 0, good), received_at=now).ok)
    holds(good, "a good bank is stored")
    for turn in range(2 * n):
        bad = [0] * 60 if what == "blank" or what == "mixed" and turn % 2 else bank("bad" + "d" * (turn % 3), False)
        v.ensure("does not fail", v.call(p.update, P.read_response(v, "HR", 0x11, 0, bad), received_at=now).ok)
        holds(good, "a bad bank is refused, however often")
        if turn >= n:
            good = bank("good" + "d" * (turn % 3))
            v.call(p.update, P.read_response(v, "HR", 0x11, 0, good), received_at=now)
            holds(good, "a good bank in between is stored")
