"""C03: a settings helper raises ValueError or builds exactly the documented writes, and they encode."""

from contracts import spec_commands as S
from vf.harness import contract

INF = float("inf")
NAN = float("nan")
JUNK = {"inf": INF, "-inf": -INF, "nan": NAN, "huge": 1e308, "true": True, "false": False, "str": "50", "none": None, "bytes": b"1", "list": [1],
        "bigint": 10**400}


def expect(v, r, want, installer=False, mixed=False):
    """The call succeeded with exactly the writes `want` [(register, value)], all of them encodable."""
    v.ensure("accepted", r.ok)
    if not r.ok:
        return
    reqs = r.value
    v.ensure("exactly the documented writes", len(reqs) == len(want))
    for q, (reg, val) in zip(reqs, want):
        v.ensure("is a write request", isinstance(q, v.lib.write_registers.WriteHoldingRegisterRequest))
        v.ensure("documented register", q.register == reg)
        v.ensure("documented value", q.value == val)
        v.ensure("installer kind as documented", bool(q.installer) == installer)
        v.ensure("addressed to the inverter", q.device_address == 0x11)
        v.ensure("the write passes the gate and encodes", v.call(q.encode).ok)


def refused(v, r):
    v.ensure("refused with ValueError", r.raised(ValueError))


def fn(v, name):
    f = getattr(v.lib.commands, name)
    return f


def number(v, name, kind):
    """An arbitrary argument of the given kind, with the integer it denotes (None: denotes none)."""
    if kind == "int":
        x = v.int(name)
        return x, x
    if kind == "real":
        x = v.real(name, -200000, 200000)
        return x, x
    return JUNK[kind], None


KINDS = ["int", "real", *JUNK]


def _numeric(v, case, table, installer):
    name, kind = case
    reg, lo, hi = table[name]
    x, n = number(v, "value", kind)
    r = v.call(fn(v, name), x)
    if n is None:
        refused(v, r)
        v.cover("refused")
        return
    whole = True if kind == "int" else v.eq(int(n), n)
    good = v.And(whole, lo <= n, n <= hi)
    if r.ok:
        v.ensure("an out-of-range or fractional value is never accepted", good)
        expect(v, r, [(reg, n)], installer)
        if kind == "int" or not v.symbolic:
            v.ensure("value is an int", isinstance(r.value[0].value, int) and not isinstance(r.value[0].value, bool))
        v.cover("accepted")
    else:
        refused(v, r)
        v.ensure("a documented value is not refused", v.Not(good))
        v.cover("refused")


@contract("C03.numeric", cases=[(n, k) for n in S.NUMERIC for k in KINDS], covers=("refused",), samples=25)
def numeric(v, case):
    _numeric(v, case, S.NUMERIC, False)


@contract("C03.numeric_installer", cases=[(n, k) for n in S.NUMERIC_INSTALLER for k in KINDS], covers=("refused",), samples=25)
def numeric_installer(v, case):
    _numeric(v, case, S.NUMERIC_INSTALLER, True)


@contract("C03.choice", cases=[(n, k) for n in S.CHOICE for k in ("int", "member", *JUNK)], samples=25)
def choice(v, case):
    name, kind = case
    reg, allowed = S.CHOICE[name]
    if kind == "member":
        enum = {"set_battery_pause_mode": v.lib.battery.BatteryPauseMode, "set_export_priority": v.lib.battery.ExportPriority}.get(name)
        if enum is None:
            expect(v, v.call(fn(v, name)), [(reg, 1)])
            return
        m = v.choice("member", list(enum))
        v.ensure("every member has a documented code", m.value in allowed)
        expect(v, v.call(fn(v, name), m), [(reg, m.value)])
        return
    x, n = number(v, "value", kind)
    r = v.call(fn(v, name), x)
    if n is None:
        refused(v, r)
    elif r.ok:
        v.ensure("only a documented code is accepted", n in allowed)
        expect(v, r, [(reg, n)])
    else:
        refused(v, r)
        v.ensure("a documented code is not refused", v.Not(n in allowed))


@contract("C03.switch", cases=[(n, k) for n in (*S.SWITCH, *S.SWITCH_INSTALLER) for k in ("bool", "int")], samples=10)
def switch(v, case):
    name, kind = case
    inst = name in S.SWITCH_INSTALLER
    reg = (S.SWITCH_INSTALLER if inst else S.SWITCH)[name]
    x = v.bool("enabled") if kind == "bool" else v.int("enabled")
    want = v.If(x if kind == "bool" else x != 0, 1, 0)
    expect(v, v.call(fn(v, name), x), [(reg, want)], inst)


@contract("C03.constant", cases=list(S.CONSTANT), samples=1)
def constant(v, name):
    expect(v, v.call(fn(v, name)), S.CONSTANT[name])


@contract("C03.charge_target", cases=[(n, k) for n in ("set_charge_target_enabled", "set_charge_target_enabled_3ph", "set_charge_target",
                                                       "set_charge_target_3ph") for k in KINDS], samples=25)
def charge_target(v, case):
    name, kind = case
    enable, target = (1112, 1111) if name.endswith("3ph") else (96, 116)
    x, n = number(v, "target", kind)
    r = v.call(fn(v, name), x)
    if n is None:
        refused(v, r)
        return
    whole = True if kind == "int" else v.eq(int(n), n)
    good = v.And(whole, 4 <= n, n <= 100)
    if r.ok:
        v.ensure("an out-of-range or fractional target is never accepted", good)
        expect(v, r, [(enable, 1), (20, v.If(v.eq(n, 100), 0, 1)), (target, n)])
    else:
        refused(v, r)
        v.ensure("a documented target is not refused", v.Not(good))


def hhmm(t):
    return 0 if t is None else t.hour * 100 + t.minute


def slot_registers(v, pairs, idx):
    """(start, end) registers of slot idx (1-based) as expressions."""
    s = e = 0
    for i, (a, b) in enumerate(pairs, 1):
        s = v.If(v.eq(idx, i), a, s)
        e = v.If(v.eq(idx, i), b, e)
    return s, e


def _slots(v, mode, pairs, call, kind="int"):
    """call(idx, argument) for the endpoint setters (start/end), the slot setter and its reset."""
    x, idx = number(v, "slot", kind)
    tsl = v.lib.model.TimeSlot
    if mode in ("start", "end"):
        t = v.tod("t") if v.choice("time given", [True, False]) else None
        r = v.call(call, x, t)
    elif mode == "reset":
        r = v.call(call, x)
    else:
        a, b = v.tod("start"), v.tod("end")
        ts = tsl(a, b) if mode == "set" or v.choice("slot given", [True, False]) else None
        r = v.call(call, x, ts)
    if idx is None:
        refused(v, r)
        return
    whole = True if kind == "int" else v.eq(int(idx), idx)
    good = v.And(whole, 1 <= idx, idx <= len(pairs))
    if not r.ok:
        refused(v, r)
        v.ensure("an existing slot is not refused", v.Not(good))
        v.cover("refused")
        return
    v.cover("accepted")
    v.ensure("a slot that does not exist is never accepted", good)
    s, e = slot_registers(v, pairs, idx)
    if mode == "start":
        want = [(s, hhmm(t))]
    elif mode == "end":
        want = [(e, hhmm(t))]
    elif mode == "reset" or ts is None:
        want = [(s, 0), (e, 0)]
    else:
        want = [(s, hhmm(a)), (e, hhmm(b))]
    expect(v, r, want)


IDX = ["int", "real", "true", "str", "none", "nan", "inf"]
SLOT_CASES = [(m, d, mode, k) for m in S.SLOTS for d in ("charge", "discharge") for mode in ("start", "end", "set", "reset")
              for k in (IDX if m == "EMS_SLOTS" or mode == "start" else ["int"])]


@contract("C03.slots", cases=SLOT_CASES, samples=25)
def slots(v, case):
    m, d, mode, kind = case
    sm = getattr(v.lib.slot_map, m)
    pairs = S.SLOTS[m][0 if d == "charge" else 1]
    f = fn(v, {"start": f"set_{d}_slot_start", "end": f"set_{d}_slot_end", "set": f"set_{d}_slot", "reset": f"reset_{d}_slot"}[mode])
    if mode == "reset":
        _slots(v, mode, pairs, lambda i: f(i, sm), kind)
    else:
        _slots(v, mode, pairs, lambda i, a: f(i, a, sm), kind)


NAMED = [
    ("set_export_slot_start", "start", "export"), ("set_export_slot_end", "end", "export"), ("set_export_slot", "opt", "export"),
    ("set_ems_export_slot_start", "start", "export"), ("set_ems_export_slot_end", "end", "export"), ("set_ems_export_slot", "opt", "export"),
    ("set_ems_charge_slot_start", "start", "emsc"), ("set_ems_charge_slot_end", "end", "emsc"), ("set_ems_charge_slot", "opt", "emsc"),
    ("set_ems_discharge_slot_start", "start", "emsd"), ("set_ems_discharge_slot_end", "end", "emsd"), ("set_ems_discharge_slot", "opt", "emsd"),
    ("set_smart_load_slot_start", "start", "smart"), ("set_smart_load_slot_end", "end", "smart"), ("set_smart_load_slot", "opt", "smart"),
]
PAIRS = {"export": S.EXPORT_SLOTS, "emsc": S.SLOTS["EMS_SLOTS"][0], "emsd": S.SLOTS["EMS_SLOTS"][1], "smart": S.SMART_LOAD_SLOTS}


@contract("C03.named_slots", cases=[(*n, k) for n in NAMED for k in IDX], samples=25)
def named_slots(v, case):
    name, mode, which, kind = case
    _slots(v, mode, PAIRS[which], fn(v, name), kind)


@contract("C03.pause_slot", cases=("start", "end", "both"), samples=25)
def pause_slot(v, case):
    if case == "both":
        a, b = v.tod("start"), v.tod("end")
        ts = v.lib.model.TimeSlot(a, b) if v.choice("slot given", [True, False]) else None
        r = v.call(fn(v, "set_pause_slot"), ts)
        expect(v, r, [(319, hhmm(a) if ts is not None else 0), (320, hhmm(b) if ts is not None else 0)])
        return
    t = v.tod("t") if v.choice("time given", [True, False]) else None
    expect(v, v.call(fn(v, f"set_pause_slot_{case}"), t), [(319 if case == "start" else 320, hhmm(t))])


@contract("C03.slot_1_2", cases=[(d, i) for d in ("charge", "discharge") for i in (1, 2)], samples=20)
def slot_1_2(v, case):
    d, i = case
    s, e = S.SLOTS["SINGLE_PHASE_SLOTS"][0 if d == "charge" else 1][i - 1]
    a, b = v.tod("start"), v.tod("end")
    expect(v, v.call(fn(v, f"set_{d}_slot_{i}"), v.lib.model.TimeSlot(a, b)), [(s, hhmm(a)), (e, hhmm(b))])
    expect(v, v.call(fn(v, f"reset_{d}_slot_{i}")), [(s, 0), (e, 0)])


@contract("C03.ems_targets", cases=[(n, k1, k2) for n in S.EMS_TARGETS for k1, k2 in
                                    [("int", "int"), ("real", "int"), ("int", "real"), ("true", "int"), ("int", "true"), ("str", "int"),
                                     ("int", "str"), ("int", "inf"), ("inf", "int"), ("nan", "int"), ("int", "nan"), ("int", "none")]], samples=25)
def ems_targets(v, case):
    name, ki, kt = case
    regs = S.EMS_TARGETS[name]
    x, idx = number(v, "slot", ki)
    y, soc = number(v, "soc", kt)
    r = v.call(fn(v, name), x, y)
    if idx is None or soc is None:
        refused(v, r)
        return
    good = v.And(1 <= idx, idx <= 3, 0 <= soc, soc <= 100, v.eq(int(idx), idx), v.eq(int(soc), soc))
    if r.ok:
        v.ensure("an out-of-range slot or target is never accepted", good)
        expect(v, r, [(v.If(v.eq(idx, 1), regs[0], v.If(v.eq(idx, 2), regs[1], regs[2])), soc)])
    else:
        refused(v, r)
        v.ensure("a documented slot and target are not refused", v.Not(good))


@contract("C03.date_time", covers=("accepted", "refused"))
def date_time(v, case):
    d = v.wallclock("dt")
    r = v.call(fn(v, "set_system_date_time"), d)
    if r.ok:
        v.cover("accepted")
        v.ensure("a year the register cannot hold is refused", d.year >= 2000)
        expect(v, r, [(35, d.year - 2000), (36, d.month), (37, d.day), (38, d.hour), (39, d.minute), (40, d.second)])
    else:
        v.cover("refused")
        refused(v, r)
        v.ensure("a year from 2000 on is accepted", d.year < 2000)


@contract("C03.mode_storage", cases=[(m, two) for m in S.SLOTS for two in (False, True)], samples=20)
def mode_storage(v, case):
    m, two = case
    d = S.SLOTS[m][1]
    t1 = v.lib.model.TimeSlot(v.tod("a"), v.tod("b"))
    t2 = v.lib.model.TimeSlot(v.tod("c"), v.tod("d")) if two else None
    export = v.bool("export")
    r = v.call(fn(v, "set_mode_storage"), t1, t2, export, getattr(v.lib.slot_map, m))
    want = [(27, v.If(export, 0, 1)), (59, 1), (d[0][0], hhmm(t1.start)), (d[0][1], hhmm(t1.end)),
            (d[1][0], hhmm(t2.start) if two else 0), (d[1][1], hhmm(t2.end) if two else 0)]
    expect(v, r, want)
    if m == "SINGLE_PHASE_SLOTS" and not two:
        expect(v, v.call(fn(v, "set_mode_storage")), [(27, 1), (59, 1), (56, 1600), (57, 700), (44, 0), (45, 0)])


@contract("C03.export_power_rate", cases=("int", "real", "inf", "-inf", "nan", "huge", "bigint"), samples=40)
def export_power_rate(v, kind):
    x, n = number(v, "rate", kind)
    r = v.call(fn(v, "set_export_power_rate"), x)
    if n is None:
        refused(v, r)
        return
    good = v.And(0 <= n, n <= 100)
    if r.ok:
        v.ensure("an out-of-range rate is never accepted", good)
        q = r.value[0]
        v.ensure("one installer write to the export rate register", v.And(len(r.value) == 1, q.register == 1063, bool(q.installer)))
        v.ensure("the nearest tenth of a percent is written", v.And(q.value * 2 <= n * 20 + 1.0001, q.value * 2 >= n * 20 - 1.0001))
        v.ensure("the write passes the gate and encodes", v.call(q.encode).ok)
    else:
        refused(v, r)
        v.ensure("a documented rate is not refused", v.Not(good))


# -- the command sets offered by the device models ---------------------------------------------

SETS = {
    "single": {**{n: n for n in (
        "disable_charge_target", "set_charge_target_enabled", "set_charge_target", "set_charge_target_soc", "set_enable_charge",
        "set_enable_discharge", "set_inverter_reboot", "set_calibrate_battery_soc", "set_active_power_rate", "set_enable_rtc",
        "set_system_date_time", "set_export_priority", "set_enable_eps", "set_discharge_mode_max_power", "set_discharge_mode_to_match_demand",
        "set_battery_soc_reserve", "set_battery_charge_limit", "set_battery_discharge_limit", "set_battery_power_reserve", "set_mode_dynamic")}},
}
SETS["three"] = {**SETS["single"], "disable_charge_target": "disable_charge_target_3ph", "set_charge_target_enabled": "set_charge_target_enabled_3ph",
                 "set_charge_target": "set_charge_target_3ph", "set_charge_target_soc": "set_charge_target_soc_3ph", "set_enable_charge": "set_ac_charge",
                 "set_battery_soc_reserve": "set_battery_soc_reserve_3ph", "set_mode_dynamic": "set_mode_dynamic_3ph",
                 "set_ac_charge": "set_ac_charge", "set_force_charge": "set_force_charge", "set_force_discharge": "set_force_discharge",
                 "set_battery_reserve_soc": "set_battery_reserve_soc"}
SETS["ems"] = {n: n for n in ("set_ems_plant", "set_ems_export_power_limit")}
MODELS = ("single", "extended", "three", "ems")


def device(v, model):
    if model == "three":
        return v.lib.threephase.ThreePhaseInverter.model_construct()
    if model == "ems":
        return v.lib.ems.Ems.model_construct()
    dtc, fw = ("8001", 449) if model == "extended" else (None, None)
    return v.lib.inverter.SinglePhaseInverter.model_construct(device_type_code=dtc, arm_firmware_version=fw)


@contract("C03.device_scalar", cases=[(m, n) for m in MODELS for n in SETS["single" if m == "extended" else m]], samples=25)
def device_scalar(v, case):
    """A device's own method writes the registers of that kind of device."""
    model, name = case
    what = SETS["single" if model == "extended" else model][name]
    f = getattr(device(v, model), name)
    if what == "set_mode_dynamic_3ph":
        expect(v, v.call(f), [(27, 1), (1109, 4), (59, 0)])
    elif what in S.CONSTANT:
        expect(v, v.call(f), S.CONSTANT[what])
    elif what in S.SWITCH:
        x = v.bool("enabled")
        expect(v, v.call(f, x), [(S.SWITCH[what], v.If(x, 1, 0))])
    elif what in S.NUMERIC:
        reg, lo, hi = S.NUMERIC[what]
        n = v.int("value")
        r = v.call(f, n)
        if r.ok:
            v.ensure("an out-of-range value is never accepted", v.And(lo <= n, n <= hi))
            expect(v, r, [(reg, n)])
        else:
            refused(v, r)
            v.ensure("a documented value is not refused", v.Or(n < lo, n > hi))
    elif what in S.CHOICE:
        reg, allowed = S.CHOICE[what]
        n = v.int("value")
        r = v.call(f, n)
        if r.ok:
            v.ensure("only a documented code is accepted", n in allowed)
            expect(v, r, [(reg, n)])
        else:
            refused(v, r)
            v.ensure("a documented code is not refused", v.Not(n in allowed))
    elif what.startswith("set_charge_target"):
        enable, target = (1112, 1111) if what.endswith("3ph") else (96, 116)
        n = v.int("value")
        r = v.call(f, n)
        if r.ok:
            v.ensure("an out-of-range target is never accepted", v.And(4 <= n, n <= 100))
            expect(v, r, [(enable, 1), (20, v.If(v.eq(n, 100), 0, 1)), (target, n)])
        else:
            refused(v, r)
            v.ensure("a documented target is not refused", v.Or(n < 4, n > 100))
    else:
        d = v.wallclock("dt")
        v.assume(d.year >= 2000)
        expect(v, v.call(f, d), [(35, d.year - 2000), (36, d.month), (37, d.day), (38, d.hour), (39, d.minute), (40, d.second)])


DEVICE_MAP = {"single": "SINGLE_PHASE_SLOTS", "extended": "EXTENDED_SLOTS", "three": "THREE_PHASE_SLOTS"}


@contract("C03.device_slots", cases=[(m, d, mode) for m in DEVICE_MAP for d in ("charge", "discharge") for mode in ("start", "end", "set", "reset")],
          samples=25)
def device_slots(v, case):
    m, d, mode = case
    dev = device(v, m)
    pairs = S.SLOTS[DEVICE_MAP[m]][0 if d == "charge" else 1]
    f = getattr(dev, {"start": f"set_{d}_slot_start", "end": f"set_{d}_slot_end", "set": f"set_{d}_slot", "reset": f"reset_{d}_slot"}[mode])
    _slots(v, mode, pairs, f)


@contract("C03.device_storage", cases=list(DEVICE_MAP), samples=25)
def device_storage(v, m):
    d = S.SLOTS[DEVICE_MAP[m]][1]
    t1 = v.lib.model.TimeSlot(v.tod("a"), v.tod("b"))
    t2 = v.lib.model.TimeSlot(v.tod("c"), v.tod("d")) if v.choice("second", [False, True]) else None
    export = v.bool("export")
    r = v.call(device(v, m).set_mode_storage, t1, t2, export)
    expect(v, r, [(27, v.If(export, 0, 1)), (59, 1), (d[0][0], hhmm(t1.start)), (d[0][1], hhmm(t1.end)),
                  (d[1][0], hhmm(t2.start) if t2 else 0), (d[1][1], hhmm(t2.end) if t2 else 0)])


@contract("C03.ems_device", cases=[n for n in NAMED if n[2] in ("export", "emsc", "emsd")], samples=25)
def ems_device(v, case):
    name, mode, which = case
    _slots(v, mode, PAIRS[which], getattr(device(v, "ems"), name))


@contract("C03.ems_device_targets", cases=list(S.EMS_TARGETS), samples=25)
def ems_device_targets(v, name):
    regs = S.EMS_TARGETS[name]
    idx, soc = v.int("slot"), v.int("soc")
    r = v.call(getattr(device(v, "ems"), name), idx, soc)
    good = v.And(1 <= idx, idx <= 3, 0 <= soc, soc <= 100)
    if r.ok:
        v.ensure("an out-of-range slot or target is never accepted", good)
        expect(v, r, [(v.If(v.eq(idx, 1), regs[0], v.If(v.eq(idx, 2), regs[1], regs[2])), soc)])
    else:
        refused(v, r)
        v.ensure("a documented slot and target are not refused", v.Not(good))
