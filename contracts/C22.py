"""C22: acknowledged writes and heartbeats are applied exactly."""

from contracts import common_plant as P
from vf.harness import contract

HOW = ("acknowledged", "error", "corrupted")
# address answered at, the inverter address known (None: not identified yet)
WHERE = [(0x11, None), (0x11, 0x11), (0x31, None), (0x11, 0x31), (0x31, 0x11), (0x32, 0x11), (0x40, None)]


def serials(v):
    return {"inverter_serial_number": v.text("inverter", 10), "data_adapter_serial_number": v.text("adapter", 10)}


def ack(v, dev, reg, value, how):
    m = v.lib.pdu.WriteHoldingRegisterResponse(register=reg, value=value, device_address=dev, error=how == "error", **serials(v))
    if how == "corrupted":
        m.crc_failed = True
    return m


@contract("C22.write", cases=[(w, how, seen) for w in WHERE for how in HOW for seen in (True, False)], samples=40)
def write(v, case):
    """An acknowledged write sets exactly that register of the inverter; everything else about the plant stays."""
    (dev, inverter), how, seen = case
    IR, HR = v.lib.register.IR, v.lib.register.HR
    p = v.lib.plant.Plant(inverter_serial_number="SA1234G567", data_adapter_serial_number="WF1234G567")
    if inverter is not None:
        p.capabilities = v.lib.plant.PlantCapabilities(device_type=v.lib.inverter.Model.HYBRID, inverter_address=inverter)
    target = dev if inverter is None else inverter
    reg, value = v.int("register", 0, 65535), v.u16("value")
    # any store at all: the register written, known or not, and any other register, known or not
    kind, other = v.choice("other kind", ["HR", "IR"]), v.int("other", 0, 65535)
    if kind == "HR":
        v.assume(v.Not(v.eq(other, reg)))
    R = HR if kind == "HR" else IR
    known, held = {}, {}
    for d in (0x11, 0x31, 0x32):
        if seen or d != target:
            known[d] = [(HR(reg), v.bool(f"known{d}"), v.u16(f"old{d}")), (R(other), v.bool(f"other known{d}"), v.u16(f"other{d}"))]
            p.register_caches[d] = v.partial(known[d])
    if target not in known:  # contract of RegisterCache(): an empty store
        v.ensure("a new store is empty", len(v.lib.cache.RegisterCache()) == 0)
        if v.symbolic:
            v.patch(v.lib.plant, "RegisterCache", lambda: v.partial([]))
    stamp = v.time("stamp")
    p.register_block_updated_at[0x11, "HR", 60, 60] = stamp
    p.register_block_present[0x11, "HR", 60, 60] = True
    before = P.state(p, ("register_caches",))
    m = ack(v, dev, reg, value, how)
    r = v.call(p.update, m)
    v.ensure("does not fail", r.ok)
    after = P.state(p, ("register_caches",))
    accepted = how == "acknowledged"
    for k in before:
        if accepted and k in ("data_adapter_serial_number", "inverter_serial_number"):
            own = k == "data_adapter_serial_number" or dev in (0x11, 0x31)
            v.ensure("serial numbers follow the answer", v.eq(after[k], getattr(m, k) if own else before[k]))
        elif how == "corrupted" and k == "crc_failure_count":
            v.ensure("a corrupted acknowledgement is counted", v.eq(after[k].get(dev), 1))
        else:
            v.ensure("nothing else about the plant changes", P.same_value(v, before[k], after.get(k)))
    for d, cache in p.register_caches.items():
        was = known.get(d, [(HR(reg), False, 0), (R(other), False, 0)])
        for i, (q, there, old) in enumerate(was):
            got = cache.get(q)
            unchanged = v.Or(v.And(there, v.Not(v.is_none(got)), v.eq(got, old)), v.And(v.Not(there), v.is_none(got)))
            if d == target and accepted and i == 0:
                v.ensure("an acknowledged write is stored", v.If(reg > 0, v.And(v.Not(v.is_none(got)), v.eq(got, value)), unchanged))
            else:
                v.ensure("no other register changes", unchanged)
    if not accepted:
        v.ensure("no device appears", set(p.register_caches) == set(known))


@contract("C22.read_back", cases=(None, 0x11, 0x31), samples=60)
def read_back(v, inverter):
    """After the acknowledgement the inverter shows the new value."""
    p = v.lib.plant.Plant()
    if inverter is not None:
        p.capabilities = v.lib.plant.PlantCapabilities(device_type=v.lib.inverter.Model.HYBRID, inverter_address=inverter)
    field, reg = v.choice("setting", [("charge_target_soc", 116), ("battery_soc_reserve", 110), ("battery_discharge_min_power_reserve", 114)])
    value = v.int("value", 4, 100)
    r = v.call(p.update, ack(v, 0x11, reg, value, "acknowledged"))
    v.ensure("does not fail", r.ok)
    v.ensure("the inverter shows the new value", v.eq(getattr(p.inverter, field), value))


@contract("C22.heartbeat", samples=100)
def heartbeat(v, _):
    """A heartbeat is answered by a heartbeat of the same adapter type, whatever its content."""
    kind, serial = v.u8("type"), v.text("serial", 10)
    m = v.lib.pdu.HeartbeatRequest(data_adapter_serial_number=serial, data_adapter_type=kind)
    r = v.call(m.expected_response)
    v.ensure("answered", r.ok)
    v.ensure("by a heartbeat", isinstance(r.value, v.lib.pdu.HeartbeatResponse))
    v.ensure("of the same adapter type", v.eq(r.value.data_adapter_type, kind))
    e = v.call(r.value.encode)
    v.ensure("it can be sent", e.ok)
    # 59 59 00 01, length, unit, function 1, ten bytes of serial, type
    v.ensure("framed as one heartbeat", v.And(len(e.value) == 19, e.value[0:8] == bytes.fromhex("59590001000d0101"), v.eq(e.value[18], kind)))
    p = v.lib.plant.Plant()
    before = P.state(p)
    v.ensure("the plant is not touched", v.And(v.call(p.update, m).ok, P.same_value(v, before, P.state(p))))


@contract("C22.again", cases=[(k, how) for k in (None, 0x11, 0x31) for how in ("read", "another write", "the same write", "forgotten", "error", "corrupted")], samples=60)
def again(v, case):
    """Each acknowledgement counts, whatever came before: also one equal to the last, after the register was seen with another value."""
    inverter, between = case
    HR = v.lib.register.HR
    p = v.lib.plant.Plant()
    if inverter is not None:
        p.capabilities = v.lib.plant.PlantCapabilities(device_type=v.lib.inverter.Model.HYBRID, inverter_address=inverter)
    at = 0x11 if inverter is None else inverter
    dev = v.choice("answers at", [0x11, 0x31])
    at = dev if inverter is None else inverter
    reg, value, other = 116, v.int("value", 4, 100), v.int("seen in between", 4, 100)
    cache = p.register_caches.setdefault(at, v.lib.cache.RegisterCache())
    for _ in range(v.choice("times", [1, 3])):
        r = v.call(p.update, ack(v, dev, reg, value, "acknowledged"))
        v.ensure("does not fail", r.ok)
        v.ensure("an acknowledged write is stored", v.eq(cache.get(HR(reg)), value))
    shown = inverter is not None or at == 0x11
    if shown:
        v.ensure("the inverter shows it", v.eq(p.inverter.charge_target_soc, value))
    if between == "read":
        r = v.call(p.update, P.read_response(v, "HR", at, reg, [other]))
        v.ensure("a read is stored", r.ok and v.eq(cache.get(HR(reg)), other))
    elif between == "forgotten":
        del cache[HR(reg)]
    elif between != "the same write":
        how = {"another write": "acknowledged"}.get(between, between)
        r = v.call(p.update, ack(v, dev, reg, other, how))
        v.ensure("only an accepted one is stored", r.ok and v.eq(cache.get(HR(reg)), other if how == "acknowledged" else value))
    r = v.call(p.update, ack(v, dev, reg, value, "acknowledged"))
    v.ensure("does not fail", r.ok)
    v.ensure("the same acknowledgement again is stored again", v.eq(cache.get(HR(reg)), value))
    if shown:
        v.ensure("and shown again", v.eq(p.inverter.charge_target_soc, value))
    if between == "corrupted":
        v.ensure("a corrupted acknowledgement is counted", v.eq(p.crc_failure_count.get(dev), 1))
