"""C16: what a settings write stores is what the matching read of the same device reports."""

from contracts import spec_commands as S
from contracts import spec_decode as D
from contracts.C03 import device
from contracts.C15 import SP, TP, getter
from vf.harness import contract

EM = "EmsRegisterGetter"
GETTER = {"single": SP, "extended": SP, "three": TP, "ems": EM}
SLOTS_OF = {"single": "SINGLE_PHASE_SLOTS", "extended": "EXTENDED_SLOTS", "three": "THREE_PHASE_SLOTS", "ems": "EMS_SLOTS"}


def all_slots(model):
    """Every slot attribute the device reports."""
    return [n for n, f in D.CLASSES[GETTER[model]]["fields"].items() if f["pre"] == ["timeslot"]]


def before(v, model, names=()):
    """Prior register values: every slot of the device, and the given attributes, hold anything."""
    regs = {}
    for n in [*all_slots(model), *names]:
        for k, i in D.CLASSES[GETTER[model]]["fields"][n]["regs"]:
            if i not in regs:
                regs[i] = v.u16(f"{k}{i}")
    return regs


def apply(v, regs, reqs):
    new = dict(regs)
    for q in reqs:
        r = q.register
        v.ensure("a definite register", isinstance(r, int) and not isinstance(r, bool))
        new[int(r)] = q.value
    return new


def read(v, model, regs, name):
    HR = v.lib.register.HR
    c = v.lib.cache.RegisterCache()
    for i, x in regs.items():
        c[HR(i)] = x
    r = v.call(getter(v, GETTER[model])(c).get, name)
    v.ensure("reading does not raise", r.ok)
    return r.value


def others_kept(v, model, regs, new, name):
    """No other slot's registers were touched."""
    for n in all_slots(model):
        if n == name or n == name + "_x":
            continue
        for _, i in D.CLASSES[GETTER[model]]["fields"][n]["regs"]:
            v.ensure("every other slot is left as it was", new[i] is regs[i])


def same_time(v, t, u):
    return v.And(v.eq(t.hour, u.hour), v.eq(t.minute, u.minute))


SLOT_CASES = []
for _m in ("single", "extended", "three"):
    for _d in ("charge", "discharge"):
        for _i in range(1, len(S.SLOTS[SLOTS_OF[_m]][0]) + 1):
            SLOT_CASES += [(_m, _d, _i, x) for x in ("set", "start", "end", "reset")]
NAMED = [("ems", f"ems_{d}", d, i) for d in ("charge", "discharge", "export") for i in (1, 2, 3)]
NAMED += [("ems", "export", "export", i) for i in (1, 2, 3)]
SMART = [("single", "smart_load", "smart_load", i) for i in range(1, 11)] + [("three", "smart_load", "smart_load", i) for i in range(1, 11)]


def slot_roundtrip(v, model, regs, name, mode, call):
    """call(method suffix, argument...) performs the write."""
    if mode == "set":
        a, b = v.tod("start"), v.tod("end")
        r = v.call(call, "", v.lib.model.TimeSlot(a, b))
    elif mode in ("start", "end"):
        t = v.tod("t")
        r = v.call(call, "_" + mode, t)
    else:
        r = v.call(call, "reset")
    v.ensure("the slot is settable", r.ok)
    if not r.ok:
        return
    new = apply(v, regs, r.value)
    others_kept(v, model, regs, new, name)
    got = read(v, model, new, name)
    if mode == "set":
        v.ensure("the slot reads back", got is not None)
        v.ensure("start as written", same_time(v, got.start, a))
        v.ensure("end as written", same_time(v, got.end, b))
    elif mode in ("reset", "clear"):
        v.ensure("a reset slot reads as an empty midnight slot", got is not None)
        v.ensure("a reset slot reads as an empty midnight slot", v.And(v.eq(got.start.hour, 0), v.eq(got.start.minute, 0), v.eq(got.end.hour, 0), v.eq(got.end.minute, 0)))
    else:
        k = [i for _, i in D.CLASSES[GETTER[model]]["fields"][name]["regs"]][1 if mode == "start" else 0]
        v.ensure("the other end is left as it was", new[k] is regs[k])
        if got is not None:
            v.cover("read back")
            v.ensure("endpoint as written", same_time(v, got.start if mode == "start" else got.end, t))
        else:
            was = regs[k]
            v.ensure("only an unset other end hides the slot", v.Or(was == 60, was % 100 > 59, was // 100 > 23))


@contract("C16.device_slots", cases=SLOT_CASES, samples=15)
def device_slots(v, case):
    model, d, i, mode = case
    dev = device(v, model)
    name = f"{d}_slot_{i}"
    regs = before(v, model)
    slot_roundtrip(v, model, regs, name, mode,
                   lambda s, *a: getattr(dev, f"reset_{d}_slot")(i) if s == "reset" else getattr(dev, f"set_{d}_slot{s}")(i, *a))


@contract("C16.ems_slots", cases=[(*n, m) for n in NAMED for m in ("set", "start", "end", "clear")], samples=15)
def ems_slots(v, case):
    model, h, d, i, mode = case
    dev = device(v, model)
    regs = before(v, model)
    slot_roundtrip(v, model, regs, f"{d}_slot_{i}", mode,
                   lambda s, *a: getattr(dev, f"set_{h}_slot")(i, None) if s == "reset" else getattr(dev, f"set_{h}_slot{s}")(i, *a))


@contract("C16.smart_load_slots", cases=[(*n, m) for n in SMART for m in ("set", "start", "end", "clear")], samples=15)
def smart_load_slots(v, case):
    model, h, d, i, mode = case
    regs = before(v, model)
    slot_roundtrip(v, model, regs, f"{d}_slot_{i}", mode, lambda s, *a: getattr(v.lib.commands, f"set_{h}_slot" + ("" if s == "reset" else s))(i, *(a or (None,))))


@contract("C16.pause_slot", cases=[(m, x) for m in ("single", "three") for x in ("set", "start", "end", "clear")], samples=15)
def pause_slot(v, case):
    model, mode = case
    regs = before(v, model)
    slot_roundtrip(v, model, regs, "battery_pause_slot_1", mode,
                   lambda s, *a: getattr(v.lib.commands, "set_pause_slot" + ("" if s == "reset" else s))(*(a or (None,))))


@contract("C16.distinct", cases=list(S.SLOTS), samples=1)
def distinct(v, m):
    sm = getattr(v.lib.slot_map, m)
    regs = [r for p in (*sm.charge_slots, *sm.discharge_slots) for r in p]
    v.ensure("slot numbers map to distinct registers", len(set(regs)) == len(regs))


# -- scalar settings: helper -> attribute that reports it, per device ---------------------------

SCALAR = {
    "set_charge_target_soc": "charge_target_soc", "set_battery_soc_reserve": "battery_soc_reserve", "set_battery_charge_limit": "battery_charge_limit",
    "set_battery_discharge_limit": "battery_discharge_limit", "set_battery_power_reserve": "battery_discharge_min_power_reserve",
    "set_active_power_rate": "active_power_rate", "set_battery_charge_limit_ac": "battery_charge_limit_ac",
    "set_battery_discharge_limit_ac": "battery_discharge_limit_ac", "set_battery_nominal_power": "battery_nominal_power",
    "set_battery_nominal_current": "battery_nominal_current", "set_battery_max_charge_pct": "battery_max_charge_pct",
    "set_ev_charger_soc_limit": "ev_charger_soc_limit", "set_generator_start_soc": "generator_start_soc", "set_generator_stop_soc": "generator_stop_soc",
    "set_calibrate_battery_soc": "battery_calibration_stage", "set_battery_pause_mode": "battery_pause_mode", "set_export_priority": "export_priority",
    "set_battery_reserve_soc": "battery_reserve_soc", "set_battery_soc_reserve_3ph": "battery_soc_reserve", "set_charge_target_soc_3ph": "charge_target_soc",
    "set_ems_export_power_limit": "export_power_limit",
}
SWITCHES = {
    "set_enable_charge": "enable_charge", "set_enable_discharge": "enable_discharge", "set_enable_rtc": "enable_rtc", "set_enable_eps": "enable_eps",
    "set_grid_import_limit_enabled": "grid_import_limit_enabled", "set_enable_plant_mode": "enable_plant_mode", "set_enable_micro_grid": "enable_micro_grid",
    "set_enable_ev_charger": "enable_ev_charger", "set_enable_generator": "enable_generator",
    "set_peak_shaving_export_limit_enabled": "peak_shaving_export_limit_enabled", "set_peak_shaving_enabled": "peak_shaving_enabled",
    "set_ac_charge": "ac_charge_enable", "set_force_charge": "force_charge_enable", "set_force_discharge": "force_discharge_enable",
    "set_enable_export_limit_3ph": "enable_export_limit", "set_ems_plant": "plant_status",
}
THREE_ONLY = {"set_battery_reserve_soc", "set_battery_soc_reserve_3ph", "set_charge_target_soc_3ph", "set_ac_charge", "set_force_charge",
              "set_force_discharge", "set_enable_export_limit_3ph"}
EMS_ONLY = {"set_ems_export_power_limit", "set_ems_plant"}
SINGLE_ONLY = {"set_battery_charge_limit_ac", "set_battery_discharge_limit_ac", "set_charge_target_soc", "set_battery_soc_reserve", "set_enable_charge", "set_grid_import_limit_enabled"}
# methods of the three-phase model that go to its own registers
THREE_METHODS = {"set_charge_target_soc": "charge_target_soc", "set_battery_soc_reserve": "battery_soc_reserve", "set_enable_charge": "ac_charge_enable"}


def devices_of(name):
    if name in EMS_ONLY:
        return ["ems"]
    if name in THREE_ONLY:
        return ["three"]
    return ["single"] if name in SINGLE_ONLY else ["single", "three"]


def scalar_holds(v, model, name, f, attr):
    regs = before(v, model, [attr])
    x = v.int("value") if name in SCALAR else v.bool("value")
    r = v.call(f, x)
    if not r.ok:
        v.cover("refused")
        return
    v.cover("written")
    new = apply(v, regs, r.value)
    others_kept(v, model, regs, new, "")
    got = read(v, model, new, attr)
    v.ensure("reported after the write", got is not None)
    if name == "set_ems_plant":
        v.ensure("the switch reads as set", v.eq(got.value != 0, x))
        m = v.lib.ems.Ems.model_construct(plant_status=got)
        v.ensure("the switch reads as set", v.eq(m.plant_enabled, x))
    elif name in SCALAR:
        v.ensure("the value reads back as written", v.eq(got.value if hasattr(got, "value") else got, x))
    else:
        v.ensure("the switch reads as set", v.eq(got, x))


@contract("C16.scalar", cases=[(m, n) for n in (*SCALAR, *SWITCHES) for m in devices_of(n)], covers=(), samples=30)
def scalar(v, case):
    model, name = case
    scalar_holds(v, model, name, getattr(v.lib.commands, name), {**SCALAR, **SWITCHES}[name])


@contract("C16.three_phase_methods", cases=list(THREE_METHODS), samples=30)
def three_phase_methods(v, name):
    scalar_holds(v, "three", name, getattr(device(v, "three"), name), THREE_METHODS[name])


@contract("C16.export_power_rate", samples=60)
def export_power_rate(v, _):
    x = v.real("rate", 0, 100)
    r = v.call(v.lib.commands.set_export_power_rate, x)
    v.ensure("settable", r.ok)
    regs = before(v, "three", ["export_power_rate"])
    got = read(v, "three", apply(v, regs, r.value), "export_power_rate")
    d = got - x
    v.ensure("reads back to the nearest tenth", v.And(got is not None, d <= 0.05001, d >= -0.05001))


@contract("C16.charge_target", cases=[(m, n) for m in ("single", "three") for n in ("set_charge_target", "set_charge_target_enabled", "disable_charge_target")], samples=30)
def charge_target(v, case):
    model, name = case
    enable = "enable_charge" if model == "single" else "ac_charge_enable"
    regs = before(v, model, ["enable_charge_target", "charge_target_soc", enable])
    f = getattr(device(v, model), name)
    if name.startswith("disable"):
        r = v.call(f)
        x = 100
    else:
        x = v.int("target", 4, 100)
        r = v.call(f, x)
    v.ensure("settable", r.ok)
    new = apply(v, regs, r.value)
    v.ensure("the target reads back", v.eq(read(v, model, new, "charge_target_soc"), x))
    v.ensure("a target below 100 is reported as enabled, 100 as no target", v.eq(read(v, model, new, "enable_charge_target"), x != 100))
    if not name.startswith("disable"):
        v.ensure("charging reads as enabled", v.eq(read(v, model, new, enable), True))


@contract("C16.modes", cases=[(m, n) for m in ("single", "three") for n in ("set_discharge_mode_max_power", "set_discharge_mode_to_match_demand",
                                                                          "set_mode_dynamic", "set_mode_storage")], samples=30)
def modes(v, case):
    model, name = case
    regs = before(v, model, ["battery_power_mode", "enable_discharge", "battery_soc_reserve"])
    f = getattr(device(v, model), name)
    want = {"battery_power_mode": 0 if name == "set_discharge_mode_max_power" else 1}
    if name == "set_mode_storage":
        slots = [v.lib.model.TimeSlot(v.tod("a"), v.tod("b")), v.lib.model.TimeSlot(v.tod("c"), v.tod("d"))]
        export = v.bool("export")
        r = v.call(f, *slots, export)
        want = {"battery_power_mode": v.If(export, 0, 1), "enable_discharge": True}
    else:
        r = v.call(f)
    if name == "set_mode_dynamic":
        want.update(enable_discharge=False, battery_soc_reserve=4)
    v.ensure("settable", r.ok)
    new = apply(v, regs, r.value)
    for n, x in want.items():
        got = read(v, model, new, n)
        v.ensure("the mode reads back", got is not None)
        v.ensure("the mode reads back", v.eq(got.value if hasattr(got, "value") else got, x))
    if name == "set_mode_storage":
        for i, s in enumerate(slots, 1):
            got = read(v, model, new, f"discharge_slot_{i}")
            v.ensure("the slot reads back", got is not None)
            v.ensure("the slot reads back", v.And(same_time(v, got.start, s.start), same_time(v, got.end, s.end)))


@contract("C16.grid", cases=list(S.GRID), samples=60)
def grid(v, name):
    attr = name.removeprefix("set_")
    x = v.real("value", -1000, 100000)
    r = v.call(getattr(v.lib.commands, name), x, confirm=True)
    if not r.ok:
        v.cover("refused")
        return
    v.cover("written")
    regs = before(v, "single", [attr])
    got = read(v, "single", apply(v, regs, r.value), attr)
    v.ensure("reported after the write", got is not None)
    d = got - x
    v.ensure("the threshold reads back", v.And(d <= 0.0001, d >= -0.0001))


@contract("C16.ems_targets", cases=[(d, i) for d in ("charge", "discharge", "export") for i in (1, 2, 3)], samples=20)
def ems_targets(v, case):
    d, i = case
    x = v.int("soc", 0, 100)
    regs = before(v, "ems", [f"{d}_target_{i}"])
    r = v.call(getattr(device(v, "ems"), f"set_ems_{d}_target_soc"), i, x)
    v.ensure("settable", r.ok)
    new = apply(v, regs, r.value)
    others_kept(v, "ems", regs, new, "")
    v.ensure("the target reads back", v.eq(read(v, "ems", new, f"{d}_target_{i}"), x))


@contract("C16.clock", cases=["single", "three"], samples=60)
def clock(v, model):
    d = v.wallclock("dt")
    v.assume(d.year >= 2000)
    r = v.call(device(v, model).set_system_date_time, d)
    v.ensure("settable", r.ok)
    got = read(v, model, apply(v, before(v, model, ["system_time"]), r.value), "system_time")
    v.ensure("the clock reads back", got is not None)
    v.ensure("the clock reads back", v.And(v.eq(got.year, d.year), v.eq(got.month, d.month), v.eq(got.day, d.day), v.eq(got.hour, d.hour),
                                          v.eq(got.minute, d.minute), v.eq(got.second, d.second)))


ON_PLANT = [(m, "slot", d, i) for m in ("single", "three") for d in ("charge", "discharge") for i in (1, 2)]
ON_PLANT += [("ems", "slot", d, i) for d in ("charge", "discharge", "export") for i in (1, 2, 3)]
ON_PLANT += [(m, n, None, None) for n in (*SCALAR, *SWITCHES) for m in devices_of(n)]


@contract("C16.plant", cases=ON_PLANT, covers=("written",), samples=15)
def plant(v, case):
    """The plant shows a setting as acknowledged, also where it was looked at just before."""
    model, name, d, i = case
    HR = v.lib.register.HR
    p = v.lib.plant.Plant()
    M = v.lib.inverter.Model
    p.capabilities = v.lib.plant.PlantCapabilities(device_type={"single": M.HYBRID, "three": M.HYBRID_3PH, "ems": M.EMS}[model], inverter_address=0x11)

    def look(attr):
        return getattr(p.ems if model == "ems" else p.inverter, attr)

    attr = f"{d}_slot_{i}" if name == "slot" else {**SCALAR, **SWITCHES}[name]
    p.register_caches[0x11] = v.lib.cache.RegisterCache()
    for k, at in D.CLASSES[GETTER[model]]["fields"][attr]["regs"]:
        p.register_caches[0x11][HR(at)] = v.u16(f"before {at}")
    for turn in ("first", "then"):
        look(attr)
        if name == "slot":
            a, b = v.tod(f"start {turn}"), v.tod(f"end {turn}")
            f = getattr(device(v, model), f"set_ems_{d}_slot" if model == "ems" else f"set_{d}_slot")
            r = v.call(f, i, v.lib.model.TimeSlot(a, b))
        else:
            x = v.int(f"value {turn}", 0, 65535) if name in SCALAR else v.bool(f"value {turn}")
            r = v.call(getattr(v.lib.commands, name), x)
        if not r.ok:
            return
        v.cover("written")
        for q in r.value:
            m = v.lib.pdu.WriteHoldingRegisterResponse(register=q.register, value=q.value, device_address=0x11, inverter_serial_number="SA1234G567", data_adapter_serial_number="WF1234G567")
            v.ensure("the acknowledgement is taken", v.call(p.update, m).ok)
        got = look(attr)
        v.ensure("reported after the write", got is not None)
        if name == "slot":
            v.ensure("the slot shows as written", v.And(same_time(v, got.start, a), same_time(v, got.end, b)))
        elif name in SCALAR:
            v.ensure("the value shows as written", v.eq(got.value if hasattr(got, "value") else got, x))
        elif name == "set_ems_plant":
            v.ensure("the switch shows as set", v.eq(look("plant_enabled"), x))
        else:
            v.ensure("the switch shows as set", v.eq(got, x))
