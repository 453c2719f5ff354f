"""C18: freshness and presence reflect exactly the last accepted readings."""

from contracts import common_plant as P
from contracts import spec_battery as S
from contracts.C09 import coherence, bounds_report, _V
from vf.harness import contract

SPLICE = "givenergy_modbus.model.battery_splice"
OUTCOMES = ("accepted", "corrupted", "error", "substituted", "blank", "wrong serial")
KEYS = [(0x11, "HR", 0, 60), (0x11, "IR", 0, 60), (0x11, "IR", 0, 1), (0x11, "IR", 30, 60), (0x11, "IR", 59, 2), (0x11, "IR", 180, 60), (0x33, "IR", 0, 60), (0x11, "HR", 60, 60)]


def stamped_plant(v, keys=KEYS):
    p = v.lib.plant.Plant()
    t = {}
    for i, k in enumerate(keys):
        t[k] = v.time(f"stamp{i}")
        p.register_block_updated_at[k] = t[k]
        p.register_block_present[k] = i % 3 != 1
    return p, t


@contract("C18.stamp", cases=[(o, how) for o in OUTCOMES for how in ("given", "naive", "clock")], calls=(bounds_report, coherence), merge=(SPLICE,), samples=30)
def stamp(v, case):
    """One reading moves exactly its own bank's time, to its own time, and only when it is accepted."""
    _V[:] = [v]
    outcome, how = case
    p, t = stamped_plant(v)
    before = P.state(p)
    t_now = v.time("received")
    key = (0x11, "IR", 0, 60) if outcome != "wrong serial" else (0x11, "HR", 0, 60)
    kind = key[1]
    R = P.register(v, kind)
    new = [v.u16(f"w{i}") for i in range(60)]
    c = v.lib.cache.RegisterCache()
    for i in range(60):
        c[R(i)] = v.u16(f"old{i}")
    p.register_caches[0x11] = c
    old = dict(c)
    if outcome == "accepted":
        v.assume(v.And(v.Or(*[x > 0 for x in new]), v.Not(S.substituted(v, new))))
    elif outcome == "substituted":
        for i, ws in S.SUBSTITUTED.items():
            new[i] = v.If(v.bool(f"known{i}"), ws[0], new[i])
        v.assume(S.substituted(v, new))
    elif outcome == "blank":
        new = [0] * 60
        v.assume(v.Or(*[old[R(i)] > 0 for i in range(60)]))
    elif outcome == "wrong serial":
        new[14] = v.choice("bad", [0, 0x2020, 0x4100])
    m = P.read_response(v, kind, 0x11, 0, new, error=outcome == "error")
    m.crc_failed = outcome == "corrupted"
    when = t_now
    if how == "clock":
        v.clock(t_now)
        when = None
    elif how == "naive":
        when = t_now.replace(tzinfo=None)
    r = v.call(p.update, m, received_at=when)
    v.ensure("does not fail", r.ok)
    got = p.register_block_updated_at
    v.ensure("no bank appears or disappears", set(got) == set(KEYS))
    for k in KEYS:
        want = t_now if k == key and outcome == "accepted" else t[k]
        v.ensure("the bank read is stamped when accepted, no other time moves", v.eq(got[k], want))
        v.ensure("marked present when accepted, no other mark moves", p.register_block_present[k] is (True if k == key and outcome == "accepted" else before["register_block_present"][k]))
    tracked = v.call(p.content_unchanged_seconds, *key, now=t_now)
    v.ensure("content tracked from the first accepted reading", tracked.ok and (v.eq(tracked.value, 0) if outcome == "accepted" else tracked.value is None))


@contract("C18.newest", samples=60)
def newest(v, _):
    """The plant is as fresh as its freshest bank."""
    keys = KEYS[: v.choice("banks", [1, 2, 5])]
    p, t = stamped_plant(v, keys)
    def holds():
        v.ensure("the plant is as fresh as its freshest bank", v.And(*[p.last_updated_at >= s for s in t.values()], v.Or(*[v.eq(p.last_updated_at, s) for s in t.values()])))

    holds()
    # asked again, after banks were read again or forgotten
    k = keys[-1]
    t[k] = p.register_block_updated_at[k] = v.time("read again at")
    holds()
    k = keys[0]
    r = v.call(p.invalidate_presence, *k)
    v.ensure("does not fail", r.ok)
    del t[k]
    if t:
        holds()
    else:
        v.ensure("a plant with nothing known has no age", p.last_updated_at is None)
    v.ensure("a plant never read has no age", v.lib.plant.Plant().last_updated_at is None)


@contract("C18.ages", cases=("given", "naive", "clock"), merge=("givenergy_modbus.model.plant:Plant.register_age",), samples=100)
def ages(v, how):
    """Ages are the clock minus the recorded time, for every clock value, bank and register."""
    p, t = stamped_plant(v)
    now = v.time("now")
    kw = {"now": now}
    if how == "clock":
        v.clock(now)
        kw = v.choice("how", [{}, {"now": None}])
    elif how == "naive":
        kw = {"now": now.replace(tzinfo=None)}
    # asked before, at another time, when the banks were of other ages
    then = v.time("then")
    for k in KEYS:
        v.call(p.block_age, *k, now=then)
    v.call(p.register_age, k[0], P.register(v, k[1])(k[2] + 1), now=then)
    for k in KEYS:
        t[k] = p.register_block_updated_at[k] = v.time(f"stamped again {k}")
    for k in KEYS:
        r = v.call(p.block_age, *k, **kw)
        v.ensure("age of a bank", r.ok and v.eq(r.value, (now - t[k]).total_seconds()))
        v.ensure("presence as recorded", p.block_present(*k) is p.register_block_present[k])
    for k in [(0x11, "IR", 0, 59), (0x12, "IR", 0, 60), (0x11, "IR", 60, 60), (0x33, "HR", 0, 60)]:
        v.ensure("a bank never read has no age", p.block_age(*k, **kw) is None and p.block_present(*k) is None)
        v.ensure("and no content", p.content_unchanged_seconds(*k, **kw) is None)
    dev, kind = v.choice("device", [0x11, 0x33, 0x12]), v.choice("kind", ["IR", "HR"])
    i = v.int("register", 0, 400)
    r = v.call(p.register_age, dev, P.register(v, kind)(i), **kw)
    v.ensure("age of a register does not fail", r.ok)
    covering = [(v.And(b <= i, i < b + n), t[d, q, b, n]) for d, q, b, n in KEYS if d == dev and q == kind]
    some = v.Or(*[c for c, _ in covering])
    v.ensure("a register no bank covers has no age", v.eq(v.is_none(r.value), v.Not(some)))
    if covering and r.value is not None:
        ageing = [(c, (now - s).total_seconds()) for c, s in covering]
        v.ensure("a register is as fresh as the freshest bank covering it", v.And(v.Or(*[v.And(c, v.eq(r.value, a)) for c, a in ageing]), *[v.Implies(c, r.value <= a) for c, a in ageing]))


@contract("C18.unchanged", cases=("given", "naive", "clock"), calls=(bounds_report, coherence), merge=(SPLICE,), samples=100)
def unchanged(v, how):
    """How long a bank reads the same: since the first reading of the current content."""
    _V[:] = [v]
    p = v.lib.plant.Plant()
    base, n = v.choice("window", [(0, 3), (180, 2)])
    kind = v.choice("kind", ["IR", "HR"])
    since, last = None, None
    clock = [v.time("start")]
    v.clock(lambda: clock[0])
    for i in range(3):
        vals = [v.u16(f"a{i}_{j}") if last is None else v.near(f"a{i}_{j}", last[j], 0, 65535, (0, 1)) for j in range(n)]
        t = v.time(f"t{i}")
        clock[0] = t if how == "clock" else v.time(f"clock{i}")
        when = {"given": t, "naive": t.replace(tzinfo=None), "clock": None}[how]
        r = v.call(p.update, P.read_response(v, kind, 0x03, base, vals), received_at=when)
        v.ensure("stored", r.ok)
        same = False if last is None else v.And(*[x == y for x, y in zip(vals, last)])
        z = t if since is None else v.If(same, since, t)
        since, last = z, vals
        now = v.time(f"now{i}")
        q = v.call(p.content_unchanged_seconds, 0x03, kind, base, n, now=now)
        v.ensure("since the first reading of this content", q.ok and v.eq(q.value, (now - since).total_seconds()))


@contract("C18.presence", cases=[(op, k) for op in ("mark_absent", "invalidate_presence") for k in (*KEYS, (0x32, "IR", 60, 60), (0x55, "IR", 60, 60))], samples=20)
def presence(v, case):
    """A bank found absent is marked absent and nothing else; forgetting a bank forgets its mark, time, content and registers, and nothing else."""
    op, key = case
    dev, kind, base, n = key
    p, t = stamped_plant(v)
    IR, HR = v.lib.register.IR, v.lib.register.HR
    for d in (0x11, 0x33):
        c = v.lib.cache.RegisterCache()
        for i in range(0, 240, 7 if d == 0x11 else 11):
            c[IR(i)], c[HR(i)] = v.u16(f"ir{d}_{i}"), v.u16(f"hr{d}_{i}")
        p.register_caches[d] = c
    # one tracked bank
    p.update(P.read_response(v, "IR", 0x11, 300, [1, 2]), received_at=v.time("tracked"))
    now = v.time("now")
    tracked = (0x11, "IR", 300, 2)
    vals = [v.int(f"v{i}", 0x4142, 0x4149) for i in range(n)]
    if dev == 0x11 and n > 1:  # the bank itself has been read
        was = v.time("was")
        q = v.call(p.update, P.read_response(v, kind, dev, base, vals), received_at=was)
        v.ensure("the bank is known before", v.And(q.ok, v.eq(p.content_unchanged_seconds(*key, now=now), (now - was).total_seconds())))
    before = P.state(p)
    r = v.call(getattr(p, op), *key)
    v.ensure("does not fail", r.ok)
    after = P.state(p)
    if op == "mark_absent":
        v.ensure("marked absent", after["register_block_present"].pop(key, None) is False)
        before["register_block_present"].pop(key, None)
        for k in before:
            v.ensure("nothing else changes", P.same_value(v, before[k], after.get(k)))
        return
    for what in ("register_block_present", "register_block_updated_at"):
        v.ensure("mark and time are forgotten", key not in after[what])
        before[what].pop(key, None)
    v.ensure("its age is unknown", p.block_age(*key, now=now) is None and p.block_present(*key) is None and p.content_unchanged_seconds(*key, now=now) is None)
    R = IR if kind == "IR" else HR
    for i in range(base, base + n):
        v.ensure("its registers are forgotten", dev not in p.register_caches or R(i) not in p.register_caches[dev])
        if dev in before["register_caches"]:
            before["register_caches"][dev].pop(R(i), None)
    for k in before:
        if k == "_block_unchanged_since":  # through content_unchanged_seconds
            continue
        v.ensure("nothing else changes", P.same_value(v, before[k], after.get(k)))
    if key != tracked:
        v.ensure("other content stays tracked", p.content_unchanged_seconds(*tracked, now=now) is not None)
    # read again: known again, from that time on
    if dev == 0x11 and n > 1:
        t2 = v.time("again")
        q = v.call(p.update, P.read_response(v, kind, dev, base, vals), received_at=t2)
        v.ensure("a forgotten bank is known again from its next reading", v.And(q.ok, p.block_present(*key) is True, v.eq(p.block_age(*key, now=now), (now - t2).total_seconds()),
                                                                                 v.eq(p.content_unchanged_seconds(*key, now=now), (now - t2).total_seconds())))
