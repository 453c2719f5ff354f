"""C19: model identification and capabilities are consistent and survive saving."""

import json

from contracts import spec_models as M
from vf.harness import contract

MODELS = ["HYBRID", "AC", "HYBRID_3PH", "EMS", "AC_3PH", "GATEWAY", "ALL_IN_ONE", "HYBRID_GEN1", "HYBRID_GEN2", "HYBRID_GEN3",
          "POLAR", "AIO_COMMERCIAL", "EMS_COMMERCIAL", "HYBRID_HV_GEN3", "ALL_IN_ONE_HYBRID", "HYBRID_GEN4"]
CODES = {"HYBRID": "2", "AC": "3", "HYBRID_3PH": "4", "EMS": "5", "AC_3PH": "6", "GATEWAY": "7", "ALL_IN_ONE": "8",
         "HYBRID_GEN1": "20g1", "HYBRID_GEN2": "20g2", "HYBRID_GEN3": "20g3", "POLAR": "21", "AIO_COMMERCIAL": "41",
         "EMS_COMMERCIAL": "51", "HYBRID_HV_GEN3": "81", "ALL_IN_ONE_HYBRID": "82", "HYBRID_GEN4": "83"}
FAMILY = {2: "HYBRID", 3: "AC", 4: "HYBRID_3PH", 5: "EMS", 6: "AC_3PH", 7: "GATEWAY", 8: "ALL_IN_ONE"}


# -- identification ---------------------------------------------------------------------------

@contract("C19.resolve", cases=list(range(16)), samples=200)
def resolve(v, fam):
    dtc, fw = fam * 4096 + v.int("HR0.low", 0, 4095), v.u16("HR21")
    conds = M.conditions(v, dtc, fw)
    r = v.call(v.lib.inverter.resolve_model, dtc, fw)
    if not r.ok:
        v.ensure("a refusal is a ValueError", r.raised(ValueError))
        v.ensure("only unpublished codes are refused", conds["unknown"])
        return
    v.ensure("unpublished codes are refused", v.Not(conds["unknown"]))
    v.ensure("the published model", conds[r.value.name])


@contract("C19.family", cases=list(range(16)), samples=60)
def family(v, fam):
    """Model(code text) names the family of the code's first digit."""
    Model = v.lib.inverter.Model
    n = fam * 4096 + v.int("low", 0, 4095)
    text = f"{n:04x}"
    r = v.call(Model, text)
    if fam in FAMILY:
        v.ensure("family of the first digit", r.ok and r.value is Model[FAMILY[fam]])
    else:
        v.ensure("other codes are refused", r.raised(ValueError))


@contract("C19.codes", cases=MODELS)
def codes(v, name):
    Model = v.lib.inverter.Model
    v.ensure("the enum value", Model[name].value == CODES[name])
    v.ensure("no other models", len(list(Model)) == len(MODELS))


def bits(fact, name):
    return {"is_hv": name in M.HV, "is_three_phase": name in M.THREE_PHASE, "is_ac_coupled": name in M.AC_COUPLED,
            "has_ac_config_block": name in M.AC_CONFIG, "is_ems": name in M.EMS, "is_gateway": name in M.GATEWAY,
            "has_smart_load_block": False, "has_hv_cabinet_block": False, "has_peak_shaving_block": False}[fact]


FACTS = ["is_hv", "is_three_phase", "is_ac_coupled", "has_ac_config_block", "is_ems", "is_gateway", "has_smart_load_block",
         "has_hv_cabinet_block", "has_peak_shaving_block"]


@contract("C19.facts", cases=MODELS, samples=60)
def facts(v, name):
    model = v.lib.inverter.Model[name]
    fw = v.opt_int("fw", 0, 65535)
    r = v.call(v.lib.plant.PlantCapabilities, device_type=model, arm_firmware_version=fw)
    v.ensure("constructed", r.ok)
    caps = r.value
    v.ensure("the model itself", caps.device_type is model)
    v.ensure("the inverter is addressed at 0x11", caps.inverter_address == 0x11)
    v.ensure("address function", v.lib.inverter.inverter_address_for(model) == 0x11)
    for f in FACTS:
        v.ensure(f, getattr(caps, f) == bits(f, name))
        v.ensure(f + " in the fact table", v.lib.manifest.has_capability(f, model) == bits(f, name))
        v.ensure("unknown model has no facts", v.lib.manifest.has_capability(f, None) == False)  # noqa: E712
    want = True if name in M.EXTENDED else v.And(v.Not(v.is_none(fw)), (0 if fw is None else fw) > 302) if name == "HYBRID_GEN3" else False
    v.ensure("extended slots", v.eq(caps.has_extended_slots, want))
    v.ensure("extended slots in the fact table", v.eq(v.lib.manifest.has_extended_slots(model, fw), want))
    v.ensure("nothing detected yet", caps.meter_addresses == [] and caps.lv_battery_addresses == [] and caps.bcu_stacks == []
             and caps.aio_battery_module_addresses == [] and caps.hv_bmu_addresses == [] and caps.lv_bcu_address is None)


@contract("C19.layout", cases=MODELS)
def layout(v, name):
    """The register layout that the model is decoded with."""
    RC = v.lib.cache.RegisterCache
    inv = v.lib.threephase.select_inverter(v.lib.inverter.Model[name], RC())
    want = v.lib.threephase.ThreePhaseInverter if name in M.THREE_PHASE else v.lib.inverter.SinglePhaseInverter
    v.ensure("three-phase layout exactly for three-phase models", type(inv) is want)


@contract("C19.slot_map", cases=list(range(2, 9)), samples=60)
def slot_map(v, fam):
    dtc, fw = fam * 4096 + v.int("HR0.low", 0, 4095), v.u16("HR21")
    HR = v.lib.register.HR
    cache = v.lib.cache.RegisterCache()
    cache[HR(0)], cache[HR(21)] = dtc, fw
    inv = v.call(v.lib.inverter.SinglePhaseInverter.from_register_cache, cache)
    v.ensure("decodes", inv.ok)
    r = v.call(lambda: inv.value.slot_map)
    v.ensure("has a slot map", r.ok)
    conds = M.conditions(v, dtc, fw)
    ext = M.extended_slots(v, conds, fw)
    if r.value is v.lib.slot_map.EXTENDED_SLOTS:
        v.ensure("ten slots only where supported", ext)
    else:
        v.ensure("else the two-slot map", r.value is v.lib.slot_map.SINGLE_PHASE_SLOTS)
        v.ensure("ten slots wherever supported", v.Not(ext))


# -- saving and restoring -----------------------------------------------------------------------

FIELDS = {"inverter_address": None, "meter_addresses": 8, "lv_battery_addresses": 6, "bcu_stacks": 3, "aio_battery_module_addresses": 4,
          "hv_bmu_addresses": 6, "lv_bcu_address": None, "arm_firmware_version": None}


def record(v, name, field, n):
    """Keyword arguments of a capability record: one field holding anything, the others fixed."""
    kw = {"device_type": v.lib.inverter.Model[name], "meter_addresses": [1, 3], "lv_battery_addresses": [0x32], "bcu_stacks": [(0, 4), (1, 2)],
          "aio_battery_module_addresses": [0x50], "hv_bmu_addresses": [0x51, 0x52], "lv_bcu_address": 0x31, "arm_firmware_version": 449}
    if field == "bcu_stacks":
        kw[field] = [(v.int(f"off{i}", 0, 15), v.u16(f"n{i}")) for i in range(n)]
    elif n is not None:
        kw[field] = [v.u8(f"addr{i}") for i in range(n)]
    elif field == "inverter_address":
        kw[field] = v.u8("addr")
    elif field == "lv_bcu_address":
        kw[field] = v.opt_int("addr", 0, 255)
    else:
        kw[field] = v.opt_int("fw", 0, 65535)
    return kw


def same(v, a, b, label):
    for f in ["device_type", *FIELDS]:
        x, y = getattr(a, f), getattr(b, f)
        if isinstance(x, (list, tuple)):
            v.ensure(label + ": " + f, isinstance(y, (list, tuple)) and len(x) == len(y))
            for p, q in zip(x, y):
                if isinstance(p, (list, tuple)):
                    v.ensure(label + ": " + f, v.And(v.eq(p[0], q[0]), v.eq(p[1], q[1])))
                else:
                    v.ensure(label + ": " + f, v.eq(p, q))
        elif x is None or y is None:
            v.ensure(label + ": " + f, x is None and y is None)
        else:
            v.ensure(label + ": " + f, v.eq(x, y))


CASES = [(f, None) for f, n in FIELDS.items() if n is None] + [(f, n) for f, m in FIELDS.items() if m for n in range(m + 1)]


@contract("C19.save", cases=[(m, f, n) for m in MODELS for f, n in CASES if n is None or n in (0, FIELDS[f]) or m == "ALL_IN_ONE"], samples=20, timeout=240)
def save(v, case):
    """from_dict(to_dict(c)) == c, and the document is the versioned hexadecimal form."""
    name, field, n = case
    PC = v.lib.plant.PlantCapabilities
    kw = record(v, name, field, n)
    a = v.call(PC, **kw)
    v.ensure("constructed", a.ok)
    for f, x in kw.items():
        if f != "device_type" and x is not None:
            y = getattr(a.value, f)
            if isinstance(x, list):
                v.ensure("holds what it was given", len(x) == len(y))
            else:
                v.ensure("holds what it was given", v.eq(x, y))
    d = v.call(a.value.to_dict)
    v.ensure("saving does not raise", d.ok)
    v.ensure("a versioned document", d.value["schema_version"] == 1 and d.value["device_type"] == name)
    v.ensure("every field is saved", sorted(d.value) == sorted(["schema_version", "device_type", *FIELDS]))
    b = v.call(PC.from_dict, d.value)
    v.ensure("restoring does not raise", b.ok)
    same(v, a.value, b.value, "restored")


@contract("C19.legacy", cases=[(m, f, n, s) for m in MODELS for f, n in CASES for s in (False, True)
                               if (n is None or n in (0, FIELDS[f])) and f not in ("lv_bcu_address", "arm_firmware_version", "aio_battery_module_addresses", "hv_bmu_addresses")],
          samples=10)
def legacy(v, case):
    """The unversioned v2.0.0 document (raw integers, enum value or name, optionally *_slave keys) restores to the same record."""
    name, field, n, slave = case
    PC = v.lib.plant.PlantCapabilities
    kw = record(v, name, field, n)
    for f in ("lv_bcu_address", "arm_firmware_version", "aio_battery_module_addresses", "hv_bmu_addresses"):
        del kw[f]
    a = v.call(PC, **kw)
    v.ensure("constructed", a.ok)
    doc = {"device_type": CODES[name], "inverter_address": a.value.inverter_address, "meter_addresses": list(a.value.meter_addresses),
           "lv_battery_addresses": list(a.value.lv_battery_addresses), "bcu_stacks": [list(p) for p in a.value.bcu_stacks]}
    if slave:
        for old, new in (("inverter_slave", "inverter_address"), ("meter_slaves", "meter_addresses"), ("lv_battery_slaves", "lv_battery_addresses"), ("bcu_slaves", "bcu_stacks")):
            doc[old] = doc.pop(new)
    b = v.call(PC.from_dict, doc)
    v.ensure("restoring does not raise", b.ok)
    same(v, a.value, b.value, "restored")


@contract("C19.json", cases=MODELS, samples=40, bounded=True, note="json text is produced by the C json module; sampled")
def json_text(v, name):
    PC = v.lib.plant.PlantCapabilities
    for field, n in [(f, FIELDS[f]) for f in FIELDS]:
        kw = record(v, name, field, n)
        a = PC(**kw)
        b = v.call(lambda: PC.from_dict(json.loads(json.dumps(a.to_dict()))))
        v.ensure("restored from its JSON text", b.ok and b.value == a)
        v.unpatch()


@contract("C19.version", cases=["int", "text", "absent"], samples=40)
def version(v, case):
    PC = v.lib.plant.PlantCapabilities
    doc = PC(device_type=v.lib.inverter.Model.AC).to_dict()
    if case == "int":
        n = v.int("version", -10, 1000)
        doc["schema_version"] = n
    elif case == "text":
        doc["schema_version"] = v.text("version", 1)
        n = 0
    else:
        del doc["schema_version"]
        n = 1
    r = v.call(PC.from_dict, doc)
    if r.ok:
        v.ensure("only the known version loads", n == 1)
    else:
        v.ensure("refused with ValueError", r.raised(ValueError))
        v.ensure("the known version loads", n != 1)


@contract("C19.malformed", cases=["type.text1", "type.text2", "type.int", "address.text", "address.list", "missing type", "missing address", "extra", "both"]
          + ["stack.short", "stack.text"], samples=40)
def malformed(v, case):
    """Unknown device types and malformed values are refused."""
    PC = v.lib.plant.PlantCapabilities
    doc = PC(device_type=v.lib.inverter.Model.AC).to_dict()
    if case.startswith("type"):
        if case == "type.int":
            x = v.int("type", 0, 1)
        else:
            x = v.text("type", int(case[-1]), 33, 126)
            v.assume(v.Not(v.Or(v.eq(x, "AC"), *[v.eq(x[0], d) for d in "2345678"])))
        doc["device_type"] = x
        r = v.call(PC.from_dict, doc)
        v.ensure("an unknown device type is refused with ValueError", r.raised(ValueError))
    elif case == "address.text":
        t = v.text("t", 3, 103, 122)
        doc["inverter_address"] = t
        r = v.call(PC.from_dict, doc)
        v.ensure("not an address: ValueError", r.raised(ValueError))
    elif case == "address.list":
        t = v.text("t", 3, 103, 122)
        doc["meter_addresses"] = ["0x01", t]
        r = v.call(PC.from_dict, doc)
        v.ensure("not an address: ValueError", r.raised(ValueError))
    elif case == "missing type":
        del doc["device_type"]
        v.ensure("refused", v.call(PC.from_dict, doc).raised(KeyError, ValueError))
    elif case == "missing address":
        del doc["inverter_address"]
        v.ensure("refused", v.call(PC.from_dict, doc).raised(KeyError, ValueError))
    elif case == "extra":
        r = v.call(PC, device_type=v.lib.inverter.Model.AC, nonsense=v.u8("x"))
        v.ensure("unknown fields are refused", r.raised(ValueError, TypeError))
        r = v.call(PC.model_validate, {"device_type": v.lib.inverter.Model.AC, "nonsense": v.u8("y")})
        v.ensure("unknown fields are refused on validation too", r.raised(ValueError, TypeError))
    elif case == "both":
        for old, new in (("inverter_slave", "inverter_address"), ("meter_slaves", "meter_addresses"), ("lv_battery_slaves", "lv_battery_addresses"), ("bcu_slaves", "bcu_stacks")):
            x = v.u8(old)
            x = x if old == "inverter_slave" else [(x, 1)] if old == "bcu_slaves" else [x]
            r = v.call(PC, device_type=v.lib.inverter.Model.AC, **{old: x, new: x})
            v.ensure("a field given under both names is refused", r.raised(TypeError))
            r = v.call(PC, device_type=v.lib.inverter.Model.AC, **{old: x})
            v.ensure("the old name alone sets the field", r.ok)
            y = getattr(r.value, new)
            v.ensure("to the given value", v.eq(y, x) if old == "inverter_slave" else v.eq(y[0][0], x[0][0]) if old == "bcu_slaves" else v.eq(y[0], x[0]))
    else:
        doc["bcu_stacks"] = [[v.u8("o")]] if case == "stack.short" else [[v.text("t", 1, 103, 122), 1]]
        v.ensure("malformed stack is refused", v.call(PC.from_dict, doc).raised(ValueError))


# -- deriving capabilities from what the devices answered ---------------------------------------

class Answer:
    """A device's decoded answer: only its own verdict matters."""

    def __init__(self, verdict, bad):
        self.verdict, self.bad = verdict, bad

    def is_valid(self):
        if self.bad:
            raise ValueError("malformed")
        return self.verdict


def stub(v, cls, verdicts, bad):
    """cls.from_register_cache(cache) answers by the cache it is given; `bad` caches do not decode."""

    def build(cache, *a):
        return Answer(verdicts[cache.vf_addr], cache.vf_addr in bad)

    v.patch(cls, "from_register_cache", build)


ADDR = {"meters": list(range(1, 9)), "batteries": list(range(0x32, 0x38)), "bcu": [0x31], "modules": list(range(0x50, 0x60))}


def world(v, dtc, fw, devices, bad=()):
    """Register caches: the inverter, and per (address, registers) a device that may or may not have answered, validly or not."""
    HR, RC = v.lib.register.HR, v.lib.cache.RegisterCache
    inv = RC()
    inv[HR(0)], inv[HR(21)] = dtc, fw
    entries, verdict, here = [(0x11, True, inv)], {}, {}
    for addr, regs, present in devices:
        c = RC()
        for r, x in regs.items():
            c[r] = x
        c.vf_addr = addr
        here[addr] = present
        verdict[addr] = v.bool(f"valid{addr:02x}")
        entries.append((addr, present, c))
    p = v.lib.plant
    for cls in (p.Meter, p.Battery, p.LvBcu, p.AioBatteryModule, p.Bmu):
        stub(v, cls, verdict, bad)
    return v.partial(entries), here, verdict


def same_list(v, label, got, want):
    v.ensure(label, v.eq(list(got), want))


MERGE = ("givenergy_modbus.model.plant:_derive",)
EXAMPLE = {"lv": (0x2001, 449), "hv": (0x8101, 100), "aio": (0x8001, 100), "ems": (0x5001, 100), "gateway": (0x7001, 100), "ac": (0x3001, 200)}


@contract("C19.no_identity", cases=["absent", "empty", "other address"])
def no_identity(v, case):
    HR, RC = v.lib.register.HR, v.lib.cache.RegisterCache
    other = RC()
    other[HR(0)] = v.u16("HR0")
    caches = {"absent": {}, "empty": {0x11: RC()}, "other address": {0x31: other, 0x32: other}}[case]
    r = v.call(v.lib.plant._derive_capabilities, caches)
    v.ensure("refused without the inverter's type", r.raised(v.lib.exceptions.CommunicationError))


@contract("C19.derive_model", cases=list(range(16)), samples=60)
def derive_model(v, fam):
    dtc, fw = fam * 4096 + v.int("HR0.low", 0, 4095), v.u16("HR21")
    caches, _, _ = world(v, dtc, fw, [])
    r = v.call(v.lib.plant._derive_capabilities, caches)
    conds = M.conditions(v, dtc, fw)
    if not r.ok:
        v.ensure("only unpublished codes are refused", v.And(conds["unknown"], r.raised(ValueError)))
        return
    v.ensure("the published model", v.And(v.Not(conds["unknown"]), conds[r.value.device_type.name]))
    got = r.value.arm_firmware_version
    v.ensure("the firmware read", v.eq(0 if got is None else got, fw))


def prior_of(v, kw):
    return v.lib.plant.PlantCapabilities(device_type=v.lib.inverter.Model.HYBRID_GEN1, **kw)


def rejects(v, live):
    log = []

    def note(addr, kind, base, count):
        log.append((addr, kind, base, count))

    return log, (note if live else None)


@contract("C19.derive_meters", cases=[(k, p, live) for k in EXAMPLE for p in (None, (), (2, 5)) for live in (False, True)], samples=40, merge=MERGE)
def derive_meters(v, case):
    kind, prior, live = case
    devices = [(a, {}, v.bool(f"here{a:02x}")) for a in ADDR["meters"]]
    caches, here, valid = world(v, *EXAMPLE[kind], devices)
    log, note = rejects(v, live)
    r = v.call(v.lib.plant._derive_capabilities, caches, None if prior is None else prior_of(v, {"meter_addresses": list(prior)}), note)
    v.ensure("derived", r.ok)
    cand = ADDR["meters"] if prior is None else prior
    same_list(v, "exactly the meters that answered validly", r.value.meter_addresses, v.filtered([(v.And(here[a], valid[a]), a) for a in cand]))
    same_list(v, "exactly the invalid answers are reported absent", log, v.filtered([(v.And(live, here[a], v.Not(valid[a])), (a, "IR", 60, 30)) for a in cand]))
    v.ensure("no battery invented", r.value.lv_battery_addresses == [] and r.value.lv_bcu_address is None and r.value.bcu_stacks == [])


@contract("C19.derive_batteries", cases=[(k, p, live) for k in EXAMPLE for p in (None, (), (0x33, 0x36)) for live in (False, True)], samples=40, merge=MERGE)
def derive_batteries(v, case):
    kind, prior, live = case
    devices = [(a, {}, v.bool(f"here{a:02x}")) for a in ADDR["batteries"] + ADDR["bcu"]]
    caches, here, valid = world(v, *EXAMPLE[kind], devices)
    log, note = rejects(v, live)
    pri = None if prior is None else prior_of(v, {"lv_battery_addresses": list(prior), **({"lv_bcu_address": 0x31} if prior else {})})
    r = v.call(v.lib.plant._derive_capabilities, caches, pri, note)
    v.ensure("derived", r.ok)
    c = r.value
    cand = list(ADDR["batteries"] if prior is None else prior)
    bcu = 0x31 if prior is None or prior else None
    if kind in ("hv", "aio", "ems"):
        cand, bcu = [], None
    same_list(v, "exactly the batteries that answered validly", c.lv_battery_addresses, v.filtered([(v.And(here[a], valid[a]), a) for a in cand]))
    if bcu is None:
        v.ensure("no battery controller page", c.lv_bcu_address is None)
    else:
        v.ensure("the battery controller page exactly when it answered validly",
                 v.eq(0 if c.lv_bcu_address is None else c.lv_bcu_address, v.If(v.And(here[bcu], valid[bcu]), bcu, 0)))
    same_list(v, "exactly the invalid answers are reported absent", log,
              v.filtered([(v.And(live, here[a], v.Not(valid[a])), (a, "IR", 60, 60)) for a in cand + ([bcu] if bcu else [])]))
    v.ensure("nothing else invented", c.meter_addresses == [] and c.bcu_stacks == [] and c.hv_bmu_addresses == [] and c.aio_battery_module_addresses == [])


@contract("C19.derive_batteries_malformed", cases=[(k, live) for k in ("lv", "ac", "gateway") for live in (False, True)], samples=40, merge=MERGE)
def derive_batteries_malformed(v, case):
    """A battery page that does not decode: reported absent on a live plant, refused in an offline dump."""
    kind, live = case
    n = v.choice("which", [0x33, 0x37, 0x31])
    devices = [(a, {}, v.bool(f"here{a:02x}")) for a in ADDR["batteries"] + ADDR["bcu"]]
    caches, here, valid = world(v, *EXAMPLE[kind], devices, bad=(n,))
    log, note = rejects(v, live)
    r = v.call(v.lib.plant._derive_capabilities, caches, None, note)
    if not r.ok:
        v.ensure("only an offline dump with the malformed page is refused", v.And(not live, here[n], r.raised(ValueError)))
        return
    v.ensure("an offline dump with a malformed page is refused", v.Or(live, v.Not(here[n])))
    good = {a: v.And(here[a], valid[a], a != n) for a in here}
    same_list(v, "exactly the batteries that answered validly", r.value.lv_battery_addresses, v.filtered([(good[a], a) for a in ADDR["batteries"]]))
    c = r.value.lv_bcu_address
    v.ensure("battery controller page", v.eq(0 if c is None else c, v.If(good[0x31], 0x31, 0)))
    for a in [*ADDR["batteries"], 0x31]:
        v.ensure("exactly the others are reported absent", v.eq((a, "IR", 60, 60) in log, v.And(live, here[a], v.Not(good[a]))))


def hv_modules(kind, counts):
    if kind == "aio":
        return [0x50 + i for i in range(min(counts[0], 4))]
    return list(range(0x50, 0x50 + min(sum(counts), 0x20)))


@contract("C19.derive_stacks", cases=[(k, p, live) for k in ("hv", "aio") for p in (None, (), (0, 2)) for live in (False, True)] + [("lv", None, False), ("ems", None, False)],
          samples=60)
def derive_stacks(v, case):
    """Battery stacks: as many controllers as the BMS reports, those that answered, with their module counts."""
    kind, prior, live = case
    IR = v.lib.register.IR
    n = v.int("IR61", 0, 4)
    counts = [v.u16(f"IR64.{i}") for i in range(4)]
    devices = [(0xA0, {IR(61): n}, v.bool("hereA0"))]
    devices += [(0x70 + i, {IR(64): counts[i]}, v.bool(f"here7{i}")) for i in range(4)]
    caches, here, valid = world(v, *EXAMPLE[kind], devices)
    log, note = rejects(v, live)
    if hasattr(v.lib.plant, "_hv_bmu_candidates"):
        v.patch(v.lib.plant, "_hv_bmu_candidates", lambda stacks: [])  # contract: C19.module_band; no module answered here
    pri = None if prior is None else prior_of(v, {"bcu_stacks": [(i, 3) for i in prior]})
    r = v.call(v.lib.plant._derive_capabilities, caches, pri, note)
    v.ensure("derived", r.ok)
    want = v.filtered([((v.And(here[0xA0], i < n) if prior is None else i in prior) if kind in ("hv", "aio") and i >= 0 else False, i) for i in range(4)])
    want = [i for i in want if v.And(here[0x70 + i])]
    got = r.value.bcu_stacks
    v.ensure("exactly the controllers that answered", len(got) == len(want))
    for g, i in zip(got, want):
        v.ensure("its index", v.eq(g[0], i))
        v.ensure("its module count", v.eq(g[1], counts[i]))
    v.ensure("no module answered", r.value.hv_bmu_addresses == [] and r.value.aio_battery_module_addresses == [] and len(log) == 0)
    v.ensure("no low-voltage battery", r.value.lv_battery_addresses == [] and r.value.lv_bcu_address is None)


MOD = [("hv", c, None) for c in ((0,), (1,), (4,), (8,), (2, 3), (0, 2), (3, 0, 2))] + [("aio", c, None) for c in ((0,), (1,), (3,), (4,), (9,), (2, 2))]
MOD += [("hv", (4,), ()), ("hv", (4,), (0x51, 0x53)), ("aio", (4,), ()), ("aio", (4,), (0x50, 0x52))]


@contract("C19.derive_modules", cases=[(*c, live) for c in MOD for live in (False, True)], samples=40, merge=MERGE)
def derive_modules(v, case):
    """Battery modules: at 0x50 onwards, as many as the controllers report, those that answered validly."""
    kind, counts, prior, live = case
    IR = v.lib.register.IR
    devices = [(0xA0, {IR(61): len(counts)}, True)] + [(0x70 + i, {IR(64): n}, True) for i, n in enumerate(counts)]
    devices += [(a, {}, v.bool(f"here{a:02x}")) for a in range(0x50, 0x5A)]
    caches, here, valid = world(v, *EXAMPLE[kind], devices)
    log, note = rejects(v, live)
    pri = None
    if prior is not None:
        pri = prior_of(v, {"bcu_stacks": [(i, n) for i, n in enumerate(counts)], ("hv_bmu_addresses" if kind == "hv" else "aio_battery_module_addresses"): list(prior)})
    r = v.call(v.lib.plant._derive_capabilities, caches, pri, note)
    v.ensure("derived", r.ok)
    cand = hv_modules(kind, counts)
    if prior is not None and (kind == "aio" or prior):
        cand = list(prior)
    got = r.value.hv_bmu_addresses if kind == "hv" else r.value.aio_battery_module_addresses
    other = r.value.aio_battery_module_addresses if kind == "hv" else r.value.hv_bmu_addresses
    same_list(v, "exactly the modules that answered validly", got, v.filtered([(v.And(here[a], valid[a]), a) for a in cand]))
    v.ensure("nothing listed as the other kind", other == [])
    same_list(v, "exactly the invalid answers are reported absent", log,
              v.filtered([(v.And(live, here[a], v.Not(valid[a])), (a, "IR", 60, 60)) for a in cand]))


@contract("C19.module_band", cases=[1, 2], thorough_cases=[1, 2, 3], samples=60)
def module_band(v, n):
    """Module addresses never run into the controllers' addresses, whatever counts are reported."""
    stacks = [(i, v.int(f"count{i}", 0, 65535)) for i in range(n)]
    total = 0
    for _, c in stacks:
        total = v.If(total + c < 32, total + c, 32)
    r = v.call(v.lib.plant._hv_bmu_candidates, stacks)
    v.ensure("does not raise", r.ok)
    v.ensure("one address per reported module, up to the band's end", v.eq(len(r.value), total))
    for i, a in enumerate(r.value):
        v.ensure("consecutive from 0x50", v.eq(a, 0x50 + i))


SERIAL_AT = {"battery": 110, "module": 114, "bmu": 114}


@contract("C19.valid", cases=[(k, o) for k in ("battery", "module", "bmu") for o in ("only", "full", "partial", "none")] + [("meter", None), ("lv_bcu", None)], samples=60,
          joins=("givenergy_modbus.model.register:RegisterGetter.", "givenergy_modbus.model.hv_bcu:decode"))
def valid(v, case):
    """A device is there exactly when its answer carries what identifies it."""
    kind, others = case
    IR = v.lib.register.IR
    c = v.lib.cache.RegisterCache()
    build = {"battery": v.lib.battery.Battery.from_register_cache, "bmu": v.lib.hv_bcu.Bmu.from_register_cache,
             "module": lambda x: v.lib.aio_battery.AioBatteryModule.from_register_cache(x, 0x50),
             "meter": v.lib.meter.Meter.from_register_cache, "lv_bcu": v.lib.lv_bcu.LvBcu.from_register_cache}[kind]
    if kind == "meter":
        x = v.u16("IR60")
        c[IR(60)] = x
        want = v.And(x != 0, x <= 5000)
    elif kind == "lv_bcu":
        xs = [v.u16(f"IR{60 + i}") for i in range(4)]
        for i, x in enumerate(xs):
            c[IR(60 + i)] = x
        want = v.Or(*[x != 0 for x in xs])
    else:
        at = SERIAL_AT[kind]
        regs = [v.u16(f"IR{at + i}") for i in range(5)]
        if others == "full":
            for i in range(60, 120):
                c[IR(i)] = v.u16(f"IR{i}x")
        if others != "none":
            for i, x in enumerate(regs[:4] if others == "partial" else regs):
                c[IR(at + i)] = x
        bs = [b for x in regs for b in (x // 256, x % 256)]
    r = v.call(build, c)
    v.ensure("any answer decodes", r.ok)
    ok = v.call(r.value.is_valid)
    v.ensure("has a verdict", ok.ok)
    got = v.If(ok.value, 1, 0) if ok.value is not None else 0
    if kind in ("meter", "lv_bcu"):
        v.ensure("verdict", v.eq(got, v.If(want, 1, 0)))
        return
    if others in ("partial", "none"):
        v.ensure("no identity, not there", v.eq(got, 0))
        return
    if kind == "battery":
        good = [v.Or(v.And(b >= 48, b <= 57), v.And(b >= 65, b <= 90), v.And(b >= 97, b <= 122)) for b in bs]
        v.ensure("a proper serial number is accepted", v.Implies(v.And(*good), v.eq(got, 1)))
        v.ensure("anything else is not", v.Implies(v.And(*[b != 0xDF for b in bs], v.Not(v.And(*good))), v.eq(got, 0)))
    else:
        v.ensure("blank is not there", v.Implies(v.Or(v.And(*[b == 0 for b in bs]), v.And(*[b == 32 for b in bs])), v.eq(got, 0)))
        v.ensure("any other identity is", v.Implies(v.Or(*[v.And(b != 0, b != 32) for b in bs]), v.eq(got, 1)))
