"""C20: polling plans stay within protocol limits and cover what the model needs."""

from contracts import common_client as K
from contracts import spec_models as M
from contracts.C19 import MODELS
from vf.harness import contract

# batteries, meters, controllers, modules, bmus, battery controller page
LAYOUTS = [(0, 0, 0, 0, 0, False), (6, 8, 0, 0, 0, True), (1, 1, 1, 1, 0, False), (2, 0, 3, 4, 0, True), (0, 3, 2, 0, 8, False), (0, 0, 16, 0, 32, False)]


def ascending(v, name, n, lo, hi):
    """n different addresses in [lo, hi], in order."""
    xs = [v.int(f"{name}{i}", lo, hi) for i in range(n)]
    for a, b in zip(xs, xs[1:]):
        v.assume(a < b)
    return xs


def capabilities(v, name, layout, fw=None):
    nb, nm, ns, nmod, nbmu, bcu = layout
    d = {"batteries": ascending(v, "battery", nb, 0x32, 0x37), "meters": ascending(v, "meter", nm, 0x01, 0x08),
         "stacks": ascending(v, "stack", ns, 0, 0x0F), "modules": ascending(v, "module", nmod, 0x50, 0x53),
         "bmus": ascending(v, "bmu", nbmu, 0x50, 0x6F)}
    kw = dict(device_type=v.lib.inverter.Model[name], arm_firmware_version=fw, lv_battery_addresses=d["batteries"], meter_addresses=d["meters"],
              bcu_stacks=[(o, v.u8(f"modules{i}")) for i, o in enumerate(d["stacks"])], aio_battery_module_addresses=d["modules"],
              hv_bmu_addresses=d["bmus"], lv_bcu_address=0xA0 if bcu else None)
    r = v.call(v.lib.plant.PlantCapabilities, **kw)
    v.ensure("capabilities constructed", r.ok)
    return r.value, d


def devices(d, bcu):
    """[(address, input registers)] besides the inverter."""
    full, meter = K.spans((60, 120)), K.spans((60, 90))
    out = [(a, full) for a in d["batteries"] + d["modules"] + d["bmus"]] + [(a, meter) for a in d["meters"]]
    out += [(0x70 + o, full) for o in d["stacks"]]
    if bcu:
        out.append((0xA0, full))
    return out


def within_limits(v, plan):
    v.ensure("only register reads are planned", all(k is not None for _, k, _, _ in plan))
    v.ensure("1 to 60 registers each", v.And(*[v.And(n >= 1, n <= 60) for _, _, _, n in plan]))
    v.ensure("inside the register space", v.And(*[v.And(b >= 0, b + n <= 65536) for _, _, b, n in plan]))
    dup = []
    for i, p in enumerate(plan):
        for q in plan[:i]:
            if p[1] == q[1] and p[2] == q[2] and p[3] == q[3]:
                dup.append(v.eq(p[0], q[0]))
    v.ensure("no read is planned twice", v.Not(v.Or(*dup)) if dup else True)


def covers(v, plan, kind, needed):
    """Exactly the needed registers of each device are read. needed: [(address, registers)]"""
    for addr, want in needed:
        mine = [(v.eq(p[0], addr), p) for p in plan if p[1] == kind]
        ends = {p[2] + p[3] for _, p in mine}
        for reg in sorted(want):
            if reg - 1 in want and reg not in ends:
                continue  # covered by whatever covers the register before it
            v.ensure("registers a device needs are read", v.Or(*[c for c, p in mine if p[2] <= reg < p[2] + p[3]]))
    for p in plan:
        if p[1] == kind:
            span = set(range(p[2], p[2] + p[3]))
            v.ensure("only registers of devices in the plant are read", v.Or(*[v.eq(p[0], a) for a, want in needed if span <= want]))


@contract("C20.refresh", cases=[(m, i) for m in MODELS for i in range(len(LAYOUTS))], samples=20)
def refresh(v, case):
    """With nothing known about freshness, a refresh reads every device's measurement banks."""
    name, i = case
    caps, d = capabilities(v, name, LAYOUTS[i], v.opt_int("fw", 0, 65535))
    if LAYOUTS[i][3] and LAYOUTS[i][4]:
        return
    client = K.new_client(v)
    client.plant.capabilities = caps
    log = K.record_reads(v, client)
    r = v.run(client.refresh, max_age=v.choice("max_age", [None, 30.0]))
    v.ensure("the refresh succeeds", r.ok and r.value is client.plant)
    plan = K.reads(v, log)
    within_limits(v, plan)
    covers(v, plan, "IR", [(K.INVERTER, K.refresh_registers(name))] + devices(d, LAYOUTS[i][5]))
    v.ensure("measurements only", all(p[1] == "IR" for p in plan))


@contract("C20.load", cases=MODELS, samples=20)
def load(v, name):
    """Loading the configuration reads every settings block the model has."""
    fw = v.opt_int("fw", 0, 65535)
    caps, _ = capabilities(v, name, LAYOUTS[2], fw)
    client = K.new_client(v)
    client.plant.capabilities = caps
    log = K.record_reads(v, client)
    r = v.run(client.load_config)
    v.ensure("the load succeeds", r.ok and r.value is client.plant)
    plan = K.reads(v, log)
    within_limits(v, plan)
    extended = name in M.EXTENDED
    if name == "HYBRID_GEN3":
        extended = v.And(v.Not(v.is_none(fw)), (0 if v.is_none(fw) is True or fw is None else fw) > 302)
        ext = [p for p in plan if 240 <= p[2] < 300]
        v.ensure("the extended slots are read exactly when the firmware has them", v.eq(v.If(extended, 1, 0), 1 if ext else 0))
        extended = bool(ext)
    hr, ir = K.config_registers(name, extended)
    covers(v, plan, "HR", [(K.INVERTER, hr)])
    if ir:
        covers(v, plan, "IR", [(K.INVERTER, ir)])
    else:
        v.ensure("no inverter measurements of an EMS", not [p for p in plan if p[1] == "IR"])


# -- freshness ---------------------------------------------------------------------------------

BANKS = [(0x11, 0, 60), (0x11, 180, 60), (0x32, 60, 60), (0x01, 60, 30)]
DECOYS = [lambda b: (b[0], "HR", b[1], b[2]), lambda b: (b[0], "IR", b[1], 1), lambda b: (b[0], "IR", b[1] + 1, b[2] - 1), lambda b: (b[0] + 2, "IR", b[1], b[2])]


def small_plant(v):
    r = v.call(v.lib.plant.PlantCapabilities, device_type=v.lib.inverter.Model.HYBRID_GEN3, lv_battery_addresses=[0x32], meter_addresses=[0x01])
    client = K.new_client(v)
    client.plant.capabilities = r.value
    return client


@contract("C20.fresh", cases=[(f, d) for f in ("max_age", "ir0_max_age") for d in range(-1, len(DECOYS))], samples=200)
def fresh(v, case):
    """A bank is left out exactly when that very bank was stored no longer ago than asked for."""
    param, decoy = case
    client = small_plant(v)
    now = v.time("now")
    v.clock(now)
    age = v.real("max_age", 0, 100000)
    stamps = {}
    for b in BANKS:
        if v.choice(f"stored {b}", [True, False]):
            stamps[b] = v.time(f"at {b}")
            client.plant.register_block_updated_at[(b[0], "IR", b[1], b[2])] = stamps[b]
        if decoy >= 0:
            client.plant.register_block_updated_at[DECOYS[decoy](b)] = now
    log = K.record_reads(v, client)
    r = v.run(client.refresh, **{param: age})
    v.ensure("the refresh succeeds", r.ok)
    plan = [p[:1] + p[2:] for p in K.reads(v, log)]
    for b in BANKS:
        recent = v.And((now - stamps[b]).total_seconds() <= age) if b in stamps else False
        v.ensure("left out exactly when read within the age", v.eq(v.If(recent, 1, 0), 0 if b in plan else 1))
    v.ensure("nothing else, nothing twice", len(set(plan)) == len(plan) and all(p in BANKS for p in plan))


@contract("C20.always", cases=[None], samples=60)
def always(v, _):
    """Without an age limit every bank is read, however fresh."""
    client = small_plant(v)
    now = v.time("now")
    v.clock(now)
    for b in BANKS:
        client.plant.register_block_updated_at[(b[0], "IR", b[1], b[2])] = now
    log = K.record_reads(v, client)
    r = v.run(client.refresh)
    v.ensure("the refresh succeeds", r.ok)
    plan = [p[:1] + p[2:] for p in K.reads(v, log)]
    v.ensure("every bank once", sorted(plan) == sorted(BANKS))


@contract("C20.absent", cases=[None, 0, 30.0], samples=100)
def absent(v, age):
    """A bank known to be absent is not asked for again; a bank known or not known to be there is."""
    client = small_plant(v)
    want = []
    for b in BANKS:
        s = v.choice(f"presence {b}", [None, True, False])
        if s is not None:
            client.plant.register_block_present[(b[0], "IR", b[1], b[2])] = s
        if s is not False:
            want.append(b)
    log = K.record_reads(v, client)
    r = v.run(client.refresh, max_age=age)
    v.ensure("the refresh succeeds", r.ok)
    plan = [p[:1] + p[2:] for p in K.reads(v, log)]
    v.ensure("exactly the banks not known to be absent", sorted(plan) == sorted(want))


@contract("C20.undetected", cases=["refresh", "load_config"])
def undetected(v, what):
    client = K.new_client(v)
    log = K.record_reads(v, client)
    r = v.run(getattr(client, what))
    v.ensure("refused without a detected plant", r.raised(v.lib.exceptions.PlantNotDetected))
    v.ensure("nothing is read", log == [])


def planned(v, client, op, name, d, bcu, fw):
    """Run ``op`` and hold its reads against what the plant ``name`` with devices ``d`` needs."""
    log = K.record_reads(v, client)
    r = v.run(getattr(client, op))
    v.ensure("it succeeds", r.ok and r.value is client.plant)
    plan = K.reads(v, log)
    v.unpatch()
    within_limits(v, plan)
    if op == "refresh":
        covers(v, plan, "IR", [(K.INVERTER, K.refresh_registers(name))] + devices(d, bcu))
        v.ensure("measurements only", all(p[1] == "IR" for p in plan))
        return
    hr, ir = K.config_registers(name, name in M.EXTENDED or name == "HYBRID_GEN3" and fw > 302)
    covers(v, plan, "HR", [(K.INVERTER, hr)])
    covers(v, plan, "IR", [(K.INVERTER, ir)])


# (model, layout, firmware) connected first, then
CHANGES = [(("HYBRID_GEN3", 2, 300), ("HYBRID_GEN3", 1, 310)), (("HYBRID_GEN3", 1, 310), ("HYBRID_GEN3", 1, 300)), (("EMS", 0, 0), ("HYBRID_HV_GEN3", 4, 300)),
           (("AC", 1, 100), ("ALL_IN_ONE", 3, 700)), (("ALL_IN_ONE", 3, 700), ("AC", 0, 100)), (("HYBRID_3PH", 4, 10), ("HYBRID_GEN1", 1, 10)), (("HYBRID_GEN1", 1, 10), ("GATEWAY", 0, 10))]


@contract("C20.again", cases=[(i, op, how) for i in range(len(CHANGES)) for op in ("refresh", "load_config") for how in ("replaced", "edited")], samples=10)
def again(v, case):
    """Polled, then changed, then polled again: the plan is that of the plant as it is now; polled once more, it is the same plan."""
    i, op, how = case
    client = K.new_client(v)
    for turn, (name, layout, fw) in enumerate(CHANGES[i]):
        caps, d = capabilities(v, name, LAYOUTS[layout], fw)
        if how == "replaced" or turn == 0:
            client.plant.capabilities = caps
        else:
            kept = client.plant.capabilities
            for f in type(caps).model_fields:
                setattr(kept, f, getattr(caps, f))
        for _ in range(2):
            planned(v, client, op, name, d, LAYOUTS[layout][5], fw)


@contract("C20.aged", cases=["same client"], samples=100)
def aged(v, _):
    """The age that counts is the one at the time of the refresh, and the limit that of this refresh."""
    client = small_plant(v)
    now, later = v.time("now"), v.time("later")
    stamps = {b: v.time(f"at {b}") for b in BANKS[:2]}
    for b in stamps:
        client.plant.register_block_updated_at[(b[0], "IR", b[1], b[2])] = stamps[b]
    for turn, at in enumerate((now, later)):
        v.clock(at)
        if turn == 1:  # stored again in between
            stamps[BANKS[0]] = v.time("again")
            client.plant.register_block_updated_at[(BANKS[0][0], "IR", BANKS[0][1], BANKS[0][2])] = stamps[BANKS[0]]
        age = v.real(f"max_age {turn}", 0, 100000)
        log = K.record_reads(v, client)
        r = v.run(client.refresh, max_age=age)
        v.ensure("the refresh succeeds", r.ok)
        plan = [p[:1] + p[2:] for p in K.reads(v, log)]
        v.unpatch()
        for b in BANKS:
            recent = v.And((at - stamps[b]).total_seconds() <= age) if b in stamps else False
            v.ensure("left out exactly when read within the age", v.eq(v.If(recent, 1, 0), 0 if b in plan else 1))
