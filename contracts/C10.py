"""C10: the battery splice guard withholds physically impossible readings, passes real ones, and heals."""

from contracts import spec_battery as S
from vf.harness import contract
from vf.rt import LoopSpec

SPLICE = "givenergy_modbus.model.battery_splice"
VALIDATE = "givenergy_modbus.model.register:RegisterGetter.validate_bank"


def trips_match(v, got, want, label):
    """``got`` holds exactly the wanted trips (in any order)."""
    entries = v.entries(got)
    for cond, t in want:
        mine = [(g, x) for g, x in entries if x[0] == t[0]]
        v.ensure(f"{label}: reported exactly when the limit is exceeded", v.eq(v.Or(*[g for g, _ in mine]), cond))
        v.ensure(f"{label}: reported once, with register, class, old and new value",
                 v.And(*[v.Implies(g, v.And(x[1] == t[1], x[2] == t[2], x[3] == t[3])) for g, x in mine],
                       *[v.Not(v.And(a[0], b[0])) for i, a in enumerate(mine) for b in mine[:i]]))
    known = {t[0] for _, t in want}
    v.ensure(f"{label}: nothing else is reported", v.And(*[v.Not(g) for g, x in entries if x[0] not in known]))


@contract("C10.classify", cases=("full", "partial"), merge=(SPLICE,), samples=200)
def classify(v, case):
    """A transition trips exactly the published limits, for all pairs of banks and any subset of known registers."""
    prev, new = bank_pair(v)
    present = None
    if case == "partial":
        present = [v.bool(f"present{i}") for i in range(60)]
    r = v.call(v.lib.splice.classify_transition, prev, new, None if present is None else v.subset(range(60), present))
    v.ensure("classification does not fail", r.ok)
    phys, immut = r.value
    trips_match(v, phys, S.physics(v, prev, new, present), "impossible movement")
    trips_match(v, immut, S.constants(v, prev, new, present), "changed constant")


@contract("C10.shapes", cases=("full", "partial"), merge=(SPLICE,), samples=300)
def shapes(v, case):
    """The two absolute corruption shapes are recognised exactly."""
    frame = [v.sparse(f"f{i}", 0, 65535) for i in range(60)]
    present = None
    if case == "partial":
        present = [v.bool(f"present{i}") for i in range(60)]
    ps = None if present is None else v.subset(range(60), present)
    r = v.call(v.lib.splice.is_corruption_cohort, frame, ps)
    v.ensure("temperature cohort recognised exactly", r.ok and v.eq(bool_(v, r.value), S.cohort(v, frame, present)))
    r = v.call(v.lib.splice.is_internally_impossible, frame, ps)
    v.ensure("impossible bank recognised exactly", r.ok and v.eq(bool_(v, r.value), S.impossible(v, frame, present)))


def bool_(v, x):
    return v.truth(x)


def bank_pair(v):
    prev = v.ints("prev", 60, 0, 65535)
    return prev, [v.near(f"new[{i}]", prev[i], 0, 65535, (0, 300, 301, 50, 51, 200, 201, 1600, 1601, 10, 11)) for i in range(60)]


@contract("C10.eligible", merge=(SPLICE,), samples=300)
def eligible(v, _):
    """Only voltage and capacity surges to possible values may ever be healed, for every transition."""
    prev, new = bank_pair(v)
    trips = S.physics(v, prev, new)
    r = v.call(v.lib.splice.heal_eligible, v.filtered(trips))
    v.ensure("eligible exactly when every movement is a possible surge",
             r.ok and v.eq(v.truth(r.value), v.And(v.Or(*[c for c, _ in trips]), *[v.Implies(c, S.surge(v, t[1], t[3])) for c, t in trips])))


# -- the guard, one reading from any state ------------------------------------------------------

SERIAL = "BG1234G567"
ADDR, OTHER = 0x33, 0x35
STATE = ("_splice_escrow", "_splice_pending_baseline", "_splice_last_seen", "_splice_immut_streak", "_splice_reject_streak")
REGIONS = ("cold", "reseed", "stale", "serial", "multi", "multi-heal", "scalar", "single", "single-held", "single-busy", "clean", "impossible")


def count(v, conds):
    n = 0
    for c in conds:
        n = n + v.If(c, 1, 0)
    return n


def serial_words(s):
    return [ord(s[2 * i]) * 256 + ord(s[2 * i + 1]) for i in range(5)]


def bank(v, name, other=None):
    """60 arbitrary registers with a valid serial."""
    w = dict(zip(S.SERIAL, serial_words(SERIAL)))
    if other is None:
        return [w[i] if i in w else v.int(f"{name}[{i}]", 0, 65535) for i in range(60)]
    return [w[i] if i in w else v.near(f"{name}[{i}]", other[i], 0, 65535, (300, 301, 50, 51, 10, 11, 200, 201)) for i in range(60)]


def reading(v, values, addr=ADDR, base=60):
    return v.lib.pdu.ReadInputRegistersResponse(device_address=addr, base_register=base, register_count=len(values), register_values=list(values),
                                                inverter_serial_number=SERIAL, data_adapter_serial_number="WF1234G567")


def new_plant(v, prev, addr=ADDR):
    p = v.lib.plant.Plant()
    IR = v.lib.register.IR
    for a in (addr, OTHER):
        p.register_caches[a] = v.lib.cache.RegisterCache()
    if prev is not None:
        for i in range(60):
            p.register_caches[addr][IR(60 + i)] = prev[i]
    p.register_caches[OTHER][IR(60)] = 3300
    return p


def usual_bank():
    base = [3300] * 16 + [200, 210, 205, 207, 52800, 250, 0, 52800, 0, 16000, 0, 16000, 0, 8000] + [0] * 7 + [16, 3005, 0, 50, 0, 16000, 210, 200] + [0] * 5
    return base + serial_words(SERIAL) + [0] * 5


_SHAPES = {}


def _probe(v):
    """Does the guard keep its state in the shapes this contract writes?  (Found out by concrete readings.)"""
    import datetime as dt

    base = usual_bank()
    t = [dt.datetime(2026, 1, 1, tzinfo=dt.UTC) + dt.timedelta(seconds=30 * i) for i in range(8)]
    p = new_plant(v, None)
    p.splice_reject_heal_seconds = 300.0

    def go(i, **ch):
        x = list(base)
        for k, y in ch.items():
            x[int(k[1:])] = y
        p.update(reading(v, x), received_at=t[i])

    def tup(k, n):
        x = getattr(p, k, {}).get(ADDR)
        return type(x) is tuple and len(x) == n and x

    go(0)
    a = tup("_splice_pending_baseline", 2)
    ok = a and list(a[0]) == base and a[1] == t[0] and getattr(p, "_splice_last_seen", {}).get(ADDR) == t[0]
    go(1)
    go(2, i0=3900)
    ok = ok and tup("_splice_escrow", 2) == (60, 3900)
    go(3, i38=3006)
    ok = ok and tup("_splice_immut_streak", 3) == (((98, 3006),), t[3], 1)
    go(4, i0=3700, i1=3700)
    b = tup("_splice_reject_streak", 3)
    return bool(ok and b and b[0][0] == 3700 and b[1:] == (t[4], 1))


def state_of(v, p):
    if "ok" not in _SHAPES:
        try:
            _SHAPES["ok"] = v.concretely(_probe, v)
        except Exception:
            _SHAPES["ok"] = False
    if not _SHAPES["ok"]:
        v.unsupported("the guard keeps its state in another form")
    return {k: dict(getattr(p, k)) for k in STATE}


def bounds_report(lib):
    """Call contract: the bounds report is some list of names, and nothing is modified (discharged in C09.report)."""
    import z3

    from vf import core, rt

    fn = getattr(lib.register.RegisterGetter, "validate_bank", None)
    if fn is not None:
        rt.CALL_CONTRACTS[fn.__func__.__code__] = lambda f, a, k: f(*a, **k) if core.CTX is None else rt.VList([rt.Guarded(z3.Bool(core.ctx().fresh_name("bounds")), "field")])


_V = []


def classification(lib):
    """Call contracts of the pure classifiers: exactly what C10.classify, C10.shapes and C10.eligible discharge."""
    from vf import core, rt

    def flags(present):
        return None if present is None else [_V[-1].truth(rt.HOOK.contains(present, i)) for i in range(60)]

    def handler(spec):
        return lambda f, a, k: f(*a, **k) if core.CTX is None or k else spec(_V[-1], *a)

    def transition(v, prev, new, present=None):
        p = flags(present)
        return v.filtered(S.physics(v, prev, new, p)), v.filtered(S.constants(v, prev, new, p))

    table = {
        "classify_transition": transition,
        "is_corruption_cohort": lambda v, frame, present=None: S.cohort(v, frame, flags(present)),
        "is_internally_impossible": lambda v, frame, present=None: S.impossible(v, frame, flags(present)),
        "heal_eligible": lambda v, trips: v.And(v.Or(*[c for c, _ in v.entries(trips)]),
                                                *[v.Implies(c, S.surge(v, t[1], t[3])) for c, t in v.entries(trips)]),
    }
    for name, spec in table.items():
        fn = getattr(lib.splice, name, None)
        if fn is not None and hasattr(fn, "__code__"):
            rt.CALL_CONTRACTS[fn.__code__] = handler(spec)


@contract("C10.step", cases=REGIONS, merge=(SPLICE, VALIDATE), calls=(bounds_report, classification), samples=60, timeout=300)
def step(v, region):
    """One full reading, from an arbitrary stored bank and an arbitrary guard state: the verdict, what is stored, the next state."""
    _V[:] = [v]
    IR = v.lib.register.IR
    now = v.time("now")
    prev = None if region == "cold" else bank(v, "prev")
    new = bank(v, "new", prev)
    p = new_plant(v, prev)
    state_of(v, p)
    heal = v.real("heal", 0, 100000)
    p.splice_heal_seconds = v.real("scalar_heal", 0, 100000)
    p.splice_reject_heal_seconds = heal if region == "multi-heal" else None
    v.assume(v.Not(S.substituted(v, new)))

    region, _, variant = region.partition("-") if region.startswith("single") else (region, "", "")
    busy = variant == "busy" if region == "single" else v.choice("other state", [False, True])
    seen = pending = escrow = immut = streak = None
    if region == "stale" or v.choice("seen", [False, True]):
        seen = v.time("seen")
        p._splice_last_seen[ADDR] = seen
        gap = (now - seen).total_seconds()
        if region == "stale":
            v.assume(gap > S.STALE)
        elif region not in ("cold", "reseed"):
            v.assume(gap <= S.STALE)
    if region in ("cold", "reseed") and v.choice("pending", [False, True]) or busy:
        pending = (bank(v, "pending", new), v.time("pending_at"))
        p._splice_pending_baseline[ADDR] = pending
    if variant == "held" or busy:
        escrow = (v.int("held_ir", 60, 119), v.int("held", 0, 2**32 - 1))
        p._splice_escrow[ADDR] = escrow
    if region == "scalar":
        form = v.choice("immut", [None, (97,), (98,), (97, 98)])
        if form:
            immut = (tuple((r, v.u16(f"sig{r}")) for r in form), v.time("immut_since"), v.int("immut_count", 1, 10**6))
    elif busy:
        immut = (((97, v.u16("sig97")),), v.time("immut_since"), v.int("immut_count", 1, 10**6))
    if immut:
        p._splice_immut_streak[ADDR] = immut
    if region == "multi-heal" and v.choice("streak", [False, True]) or busy:
        streak = (bank(v, "streak", new), v.time("streak_since"), v.int("streak_count", 1, 10**6))
        p._splice_reject_streak[ADDR] = streak

    # the specification
    if prev is not None:
        phys, consts = S.physics(v, prev, new), S.constants(v, prev, new, idxs=S.CONSTANT)
        n = count(v, [c for c, _ in phys])
        scalar = v.Or(*[c for c, _ in consts])
        if region != "reseed":
            v.assume(v.Not(S.impossible(v, prev)))
    if region == "impossible":
        v.assume(S.impossible(v, new))
    else:
        v.assume(v.Not(S.impossible(v, new)))
    if region == "serial":
        k = v.choice("which serial word", list(S.SERIAL))
        hi, lo = v.int("hi", 0x41, 0x5A), v.int("lo", 0x30, 0x39)
        new[k] = hi * 256 + hi if k == 50 else v.If(True, hi, hi) * 256 + lo if k == 53 else v.int("d", 0x30, 0x39) * 256 + lo
        v.assume(v.Not(new[k] == prev[k]))
    if region in ("cold", "reseed"):
        if region == "reseed":
            v.assume(S.impossible(v, prev))
        agree = False
        if pending is not None:
            moved = v.Or(*[c for c, _ in S.physics(v, pending[0], new)], *[c for c, _ in S.constants(v, pending[0], new)])
            agree = v.And((now - pending[1]).total_seconds() <= S.STALE, v.Not(moved))
        accept = v.And(agree, v.Not(S.cohort(v, new)))
    elif region == "stale":
        accept = v.Not(S.cohort(v, new))
    elif region in ("serial", "impossible"):
        accept = False
    elif region == "multi":
        v.assume(v.And(n >= 2, v.Not(scalar)))
        accept = False
    elif region == "multi-heal":
        v.assume(v.And(n >= 2, v.Not(scalar)))
        ok = v.And(*[v.Implies(c, S.surge(v, t[1], t[3])) for c, t in phys])
        accept = False
        if streak is not None:
            moved = v.Or(*[c for c, _ in S.physics(v, streak[0], new)], *[c for c, _ in S.constants(v, streak[0], new)])
            accept = v.And(ok, v.Not(moved), streak[2] + 1 >= S.POLLS, (now - streak[1]).total_seconds() >= heal)
    elif region == "scalar":
        v.assume(scalar)
        same = False
        if immut is not None:
            now_sig = {t[0]: (c, t[3]) for c, t in consts}
            same = v.And(*[v.And(now_sig[r][0], now_sig[r][1] == x) for r, x in immut[0]], *[v.Not(now_sig[r][0]) for r in (97, 98) if r not in dict(immut[0])])
            accept = v.And(same, immut[2] + 1 >= S.POLLS, (now - immut[1]).total_seconds() >= p.splice_heal_seconds)
        else:
            accept = False
    elif region == "single":
        v.assume(v.And(n == 1, v.Not(scalar)))
        accept = False
        if escrow is not None:
            accept = v.Or(*[v.And(c, escrow[0] == t[0], v.Not(S.far(v, t[3], escrow[1], S.THRESHOLDS[t[1]]))) for c, t in phys])
    elif region == "clean":
        v.assume(v.And(n == 0, v.Not(scalar)))
        accept = True

    before = state_of(v, p)
    counters = [dict(getattr(p, k)) for k in ("splice_reject_count", "splice_held_count", "cold_start_held_count")]
    r = v.call(p.update, reading(v, new), received_at=now)
    v.ensure("a reading never raises", r.ok)
    c = p.register_caches[ADDR]
    stored = v.And(*[v.eq(c.get(IR(60 + i)), new[i]) for i in range(60)])
    kept = v.And(*[v.is_none(c.get(IR(60 + i))) if prev is None else v.eq(c.get(IR(60 + i)), prev[i]) for i in range(60)])
    v.ensure("an acceptable reading is stored whole", v.Implies(accept, stored))
    v.ensure("a withheld reading leaves every stored value", v.Implies(v.Not(accept), kept))
    key = (ADDR, "IR", 60, 60)
    stamp = p.register_block_updated_at.get(key)
    v.ensure("only an accepted reading is stamped", v.If(accept, v.eq(stamp, now), v.is_none(stamp)) if stamp is not None else v.Not(accept))
    bumped = count_bumps(v, p, counters)
    v.ensure("a withheld reading is counted once, an accepted one not", v.eq(bumped, v.If(accept, 0, 1)))
    # the state the next reading will meet
    st = {k: getattr(p, k).get(ADDR) for k in STATE}
    esc, pend, sn, imm, strk = (st[k] for k in STATE)
    if region == "impossible":
        want = dict(esc=escrow, pend=pending, sn=seen, imm=immut, strk=streak)
        v.ensure("an impossible bank leaves the guard's memory", v.And(*[same_state(v, x, want[k]) for k, x in (("esc", esc), ("pend", pend), ("imm", imm), ("strk", strk))],
                                                                       v.is_none(sn) if seen is None else v.eq(sn, seen)))
    elif region in ("cold", "reseed"):
        v.ensure("watched from now on", v.eq(sn, now))
        v.ensure("an adopted baseline is no longer pending", v.Implies(accept, pend is None))
        fresh = pend is not None and v.And(v.eq(pend[1], now), *[v.eq(x, y) for x, y in zip(pend[0], new)])
        v.ensure("the latest unconfirmed reading is the one to confirm", v.Or(agree, fresh))
        v.ensure("a refused baseline stays pending", v.Implies(v.And(agree, v.Not(accept)), pend is not None))
    else:
        v.ensure("watched from now on, except when a gap meets corruption", v.eq(sn, v.If(accept, now, seen) if region == "stale" else now))
        v.ensure("nothing is pending once there is a baseline", pend is None)
        if region != "stale":
            held = v.And(esc is not None, region == "single", *[v.Implies(cc, v.And(esc[0] == t[0], esc[1] == t[3])) for cc, t in phys]) if esc is not None else False
            v.ensure("a single doubtful value is remembered until the next reading, and only that", v.Or(held, v.And(esc is None, v.Or(region != "single", accept))))
            if region != "scalar":
                v.ensure("an interrupted run of changed constants starts over", imm is None)
            else:
                going = False
                if imm is not None:
                    is_sig = v.And(*[v.And(now_sig2[r][0], now_sig2[r][1] == x) for now_sig2 in [{t[0]: (cc, t[3]) for cc, t in consts}] for r, x in imm[0]])
                    cont = v.And(v.eq(imm[1], immut[1]), imm[2] == immut[2] + 1) if immut is not None else False
                    going = v.And(is_sig, v.If(same, cont, v.And(v.eq(imm[1], now), imm[2] == 1)))
                v.ensure("a run of one changed constant value is counted from its first reading", v.Or(v.And(accept, imm is None), v.And(v.Not(accept), going)))
            if region != "multi-heal":
                v.ensure("an interrupted surge starts over", strk is None)
            else:
                going = False
                if strk is not None:
                    cont = v.And(v.eq(strk[1], streak[1]), strk[2] == streak[2] + 1) if streak is not None else False
                    going = v.And(*[v.eq(x, y) for x, y in zip(strk[0], new)],
                                  v.If(v.Not(moved), cont, v.And(v.eq(strk[1], now), strk[2] == 1)) if streak is not None else v.And(v.eq(strk[1], now), strk[2] == 1))
                v.ensure("a smooth surge is counted from its first reading", v.Or(v.And(v.Or(accept, v.Not(ok)), strk is None), v.And(ok, v.Not(accept), going)))
        else:
            v.ensure("a new baseline forgets what was doubtful", v.Implies(accept, esc is None and imm is None and strk is None))
    v.ensure("no other device is touched", v.And(list(p.register_caches[OTHER].keys()) == [IR(60)], p.register_caches[OTHER][IR(60)] == 3300,
                                                *[OTHER not in getattr(p, k) for k in STATE]))


def same_state(v, a, b):
    if a is None or b is None:
        return a is None and b is None
    return v.And(*[v.eq(x, y) for x, y in zip(flat(a), flat(b))], len(flat(a)) == len(flat(b)))


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, (tuple, list)) else [x]


def count_bumps(v, p, counters):
    n = 0
    for k, old in zip(("splice_reject_count", "splice_held_count", "cold_start_held_count"), counters):
        n = n + getattr(p, k).get(ADDR, 0) - old.get(ADDR, 0)
    return n


@contract("C10.addresses", cases=(0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x31, 0x11), merge=(SPLICE, VALIDATE), calls=(bounds_report, classification), samples=30)
def addresses(v, addr):
    """Every battery address is guarded against the impossible bank, even read twice; no other device is."""
    _V[:] = [v]
    IR = v.lib.register.IR
    p = v.lib.plant.Plant()
    new = [0] * 16 + bank(v, "new")[16:]
    v.assume(v.And(S.impossible(v, new), v.Not(S.substituted(v, new))))
    t = v.time("t")
    for i in range(2):
        r = v.call(p.update, reading(v, new, addr), received_at=t)
        v.ensure("a reading never raises", r.ok)
        cell = p.register_caches[addr].get(IR(60))
        soc = p.register_caches[addr].get(IR(100))
        if 0x32 <= addr <= 0x37:
            v.ensure("an impossible battery bank is refused", v.is_none(cell) and v.is_none(soc))
        else:
            v.ensure("other devices are not batteries", v.And(v.eq(cell, 0), v.eq(soc, new[40])))


SHORT = ((60, 1), (60, 59), (76, 4), (77, 1), (78, 30), (103, 2), (110, 5), (61, 59))


@contract("C10.short", cases=SHORT, merge=(SPLICE, VALIDATE), calls=(bounds_report, classification), samples=60, timeout=240)
def short(v, case):
    """A partial reading is stored as read, unless it shows the temperature corruption; it is not an observation of the bank."""
    _V[:] = [v]
    lo, n = case
    IR = v.lib.register.IR
    now = v.time("now")
    known = v.choice("known bank", [False, True])
    prev = bank(v, "prev") if known else None
    w = dict(zip(S.SERIAL, serial_words(SERIAL)))
    idx = range(lo - 60, lo - 60 + n)
    new = [w[i] if i in w else v.int(f"new[{i}]", 0, 65535) for i in idx]
    p = new_plant(v, prev)
    r = v.call(p.update, reading(v, new, base=lo), received_at=now)
    v.ensure("a partial reading never raises", r.ok)
    frame = [0] * 60
    for i, x in zip(idx, new):
        frame[i] = x
    withheld = S.cohort(v, frame, [i in idx for i in range(60)])
    c = p.register_caches[ADDR]
    for i in range(60):
        old = None if prev is None else prev[i]
        got = c.get(IR(60 + i))
        if i in idx:
            v.ensure("stored unless corrupt", v.If(withheld, v.eq(got, old) if old is not None else v.is_none(got), v.eq(got, frame[i])))
        else:
            v.ensure("registers not read stay", v.eq(got, old) if old is not None else v.is_none(got))
    seen = state_of(v, p)["_splice_last_seen"]
    v.ensure("not an observation of the whole bank", ADDR not in seen)


# -- histories of readings, through the public interface only --------------------------------------

HISTORIES = ("adopt", "adopt-impossible", "single", "scalar", "serial", "multi", "multi-heal", "gap", "impossible")


@contract("C10.history", cases=HISTORIES, merge=(SPLICE, VALIDATE), samples=40, timeout=240)
def history(v, case):
    """What a reader of the plant sees over a run of readings at arbitrary times, from a fresh plant."""
    IR = v.lib.register.IR
    p = v.lib.plant.Plant()
    base = usual_bank()
    times = [v.time("t0")]

    def feed(values, name):
        t = times[-1]
        r = v.call(p.update, reading(v, values), received_at=t)
        v.ensure(f"{name}: a reading never raises", r.ok)

    def later(lo=0, hi=None):
        t = v.time(f"t{len(times)}")
        gap = (t - times[-1]).total_seconds()
        v.assume(gap >= lo if hi is None else v.And(gap >= lo, gap <= hi))
        times.append(t)

    def value(i):
        return p.register_caches[ADDR].get(IR(60 + i)) if ADDR in p.register_caches else None

    def changed(**ch):
        x = list(base)
        for k, y in ch.items():
            x[int(k[1:])] = y
        return x

    if case == "adopt":
        a = v.int("a", 0, 65535)
        feed(changed(i3=a), "first")
        v.ensure("a first reading is not trusted alone", v.is_none(value(3)))
        later(0, 10000)
        feed(base, "second")
        agree = v.And(v.Not(S.far(v, a, 3300, 300)), (times[-1] - times[-2]).total_seconds() <= S.STALE)
        got = value(3)
        v.ensure("adopted once two readings agree", v.If(agree, v.eq(got, 3300), v.is_none(got)))
        return
    if case == "impossible":
        z = [0] * 16 + base[16:]
        for i in range(3):
            feed(z, f"reading {i}")
            later(0)
        v.ensure("a bank without cell voltages never gets in", v.is_none(value(0)) if value(0) is not None else True)
        return
    if case == "adopt-impossible":
        feed(base, "first")
        later(0, S.STALE)
        z = [0, 0] + base[2:16] + [0, 0] + base[18:]
        feed(z, "second")
        v.ensure("disagreeing readings are not adopted", v.is_none(value(0)))
        later(0, S.STALE)
        feed(z, "third")
        v.ensure("agreeing corrupt readings are not adopted", v.is_none(value(0)))
        later(0, S.STALE)
        feed(base, "fourth")
        later(0, S.STALE)
        feed(base, "fifth")
        v.ensure("the real bank is adopted after all", v.eq(value(0), 3300))
        return
    feed(base, "first")
    later(0, S.STALE)
    feed(base, "second")
    v.ensure("baseline adopted", v.eq(value(0), 3300))
    if case == "single":
        later(0, S.STALE)
        a = v.int("a", 0, 65535)
        v.assume(S.far(v, a, 3300, 300))
        feed(changed(i5=a), "third")
        v.ensure("an impossible movement is withheld", v.eq(value(5), 3300))
        later(0, S.STALE)
        b = v.near("b", a, 0, 65535, (300, 301))
        v.assume(S.far(v, b, 3300, 300))
        feed(changed(i5=b), "fourth")
        v.ensure("a movement read again is accepted", v.eq(value(5), v.If(S.far(v, b, a, 300), 3300, b)))
        later(0, S.STALE)
        feed(base, "fifth")
        v.ensure("a movement back to the last good value needs no confirmation after a rejection", v.Implies(S.far(v, b, a, 300), v.eq(value(5), 3300)))
    elif case in ("scalar", "serial", "multi", "multi-heal"):
        heal = v.real("heal", 0, 3000)
        if case == "scalar":
            p.splice_heal_seconds = heal
        if case == "multi-heal":
            p.splice_reject_heal_seconds = heal
        what = dict(scalar=dict(i38=3010), serial=dict(i51=0x3939)).get(case, dict(i0=3700, i1=3700))
        (k, val), *_ = what.items()
        i, old = int(k[1:]), base[int(k[1:])]
        start = None
        even = case in ("serial", "multi")  # evenly spaced (the gap is arbitrary)
        for n in range(1, 14):
            if even and n > 1:
                times.append(times[-1] + (times[-1] - times[-2]))
            else:
                later(0, S.STALE)
            start = start or times[-1]
            feed(changed(**what), f"reading {n}")
            ok = False
            if case in ("scalar", "multi-heal") and n >= S.POLLS:
                ok = (times[-1] - start).total_seconds() >= heal
            v.ensure(f"accepted exactly after ten readings and the healing time ({n})" if case in ("scalar", "multi-heal") else f"never accepted ({n})",
                     v.eq(value(i), v.If(ok, val, old)))
            if n >= S.POLLS and case in ("scalar", "multi-heal"):
                v.assume(v.Not(ok))
    elif case == "gap":
        later(0)
        a = v.int("a", 0, 65535)
        feed(changed(i5=a), "third")
        gap = (times[-1] - times[-2]).total_seconds() > S.STALE
        v.ensure("after a long silence the next plausible bank is the new baseline", v.eq(value(5), v.If(v.Or(gap, v.Not(S.far(v, a, 3300, 300))), a, 3300)))
