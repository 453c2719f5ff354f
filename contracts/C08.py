"""C08: corrupted, error, empty or implausible responses never change plant state."""

from contracts import common as C
from contracts import common_plant as P
from contracts import spec_battery as S
from contracts.C10 import bounds_report
from vf.harness import contract

SPLICE = "givenergy_modbus.model.battery_splice"
ADDRS = (0x11, 0x31, 0x33, 0x51, 0x01, 0x70, 0xA0)
KINDS = ("error-HR", "error-IR", "error-write", "null", "heartbeat", "broadcast", "crc-HR", "crc-IR")


def used_plant(v, addr):
    """A plant that has seen things: arbitrary registers, stamps, counters, identity, of the device and of another one."""
    HR, IR = v.lib.register.HR, v.lib.register.IR
    p = v.lib.plant.Plant()
    for a in {addr, 0x32} if v.choice("known device", [True, False]) else {0x32}:
        c = v.lib.cache.RegisterCache()
        for i in (0, 13, 21, 35, 59, 60, 98, 110):
            c[HR(i)], c[IR(i)] = v.u16(f"hr{a}_{i}"), v.u16(f"ir{a}_{i}")
        p.register_caches[a] = c
        for kind in ("HR", "IR"):
            for b in (0, 60):
                p.register_block_updated_at[(a, kind, b, 60)] = v.time(f"stamp{a}{kind}{b}")
                p.register_block_present[(a, kind, b, 60)] = v.choice(f"present{a}{kind}{b}", [True]) if a == 0x32 else True
        for c in P.COUNTERS:
            getattr(p, c)[a] = v.int(f"{c}{a}", 1, 10**6)
    p.inverter_serial_number, p.data_adapter_serial_number = "CE1111G111", "WF9999G999"
    return p


@contract("C08.ignored", cases=[(k, a) for k in KINDS for a in ADDRS], merge=(SPLICE,), samples=20)
def ignored(v, case):
    """Nothing at all changes, except that a corrupted reading is counted for its device."""
    kind, addr = case
    pdu = v.lib.pdu
    p = used_plant(v, addr)
    before = P.state(p)
    count = p.crc_failure_count.get(addr, 0)
    base, n = v.choice("window", [(0, 60), (60, 60), (13, 5), (110, 1)])
    values = v.ints("value", n, 0, 65535)
    common = dict(device_address=addr, inverter_serial_number="SA1234G567", data_adapter_serial_number="WF1234G567")
    if kind == "heartbeat":
        m = pdu.HeartbeatRequest(data_adapter_serial_number="WF1234G567", data_adapter_type=1)
    elif kind == "broadcast":
        m = v.lib.pdu.LanConfigBroadcast(parameters="WF1234G567,1.2.3.4")
    elif kind == "null":
        m = pdu.NullResponse(**common)
    elif kind == "error-write":
        m = pdu.WriteHoldingRegisterResponse(register=v.u16("register"), value=v.u16("new"), error=True, **common)
    else:
        m = P.read_response(v, kind[-2:], addr, base, values, error=kind.startswith("error"))
    if kind.startswith("crc"):
        m.crc_failed = True
    r = v.call(p.update, m, received_at=v.time("now"))
    v.ensure("ignoring does not fail", r.ok)
    after = P.state(p)
    if kind.startswith("crc"):
        v.ensure("a corrupted reading is counted for its device", v.eq(after["crc_failure_count"].get(addr), count + 1))
        for st in (before, after):
            st["crc_failure_count"].pop(addr, None)
    for k in before:
        v.ensure(f"{k} is left as it was", P.same_value(v, before[k], after.get(k)))
    v.ensure("nothing is added", before.keys() == after.keys())


@contract("C08.substituted", cases=[(b, a) for b in (0, 60, 120, 180, 240, 1020) for a in (0x11, 0x33, 0x51, 0x01, 0x70)], merge=(SPLICE,), samples=30)
def substituted(v, case):
    """The page the dongle substitutes for a real one never reaches the registers, the stamps or the presence marks."""
    base, addr = case
    p = used_plant(v, addr)
    values = [v.u16(f"w{i}") for i in range(60)]
    for i, ws in S.SUBSTITUTED.items():
        values[i] = v.If(v.bool(f"known{i}"), ws[-1], values[i])
    v.assume(S.substituted(v, values))
    before = P.state(p)
    r = v.call(p.update, P.read_response(v, "IR", addr, base, values), received_at=v.time("now"))
    v.ensure("recognising it does not fail", r.ok)
    after = P.state(p)
    # the frame itself is authentic: its device and dongle are known from now on
    after["register_caches"] = {k: x for k, x in after["register_caches"].items() if x or k in before["register_caches"]}
    for k in before:
        if k not in ("inverter_serial_number", "data_adapter_serial_number"):
            v.ensure(f"{k} is left as it was", P.same_value(v, before[k], after.get(k)))


@contract("C08.recognised", cases=(0, 60, 1, 120), samples=200)
def recognised(v, base):
    """Only that page is taken for it: more than five of its fixed words, in a full aligned page."""
    n = v.choice("count", [60, 59])
    values = [v.u16(f"w{i}") for i in range(60)]
    for i, ws in S.SUBSTITUTED.items():
        values[i] = v.If(v.bool(f"known{i}"), ws[0], values[i])
    m = P.read_response(v, "IR", 0x11, base, values[:n])
    r = v.call(m.is_suspicious)
    want = v.And(base % 60 == 0, n == 60, S.substituted(v, values))
    v.ensure("recognised exactly", r.ok and v.eq(v.truth(r.value), want))


@contract("C08.flagged", cases=[(k, n) for k in ("HR", "IR", "MR", "error") for n in (1, 2, 59, 60)], samples=60)
def flagged(v, case):
    """Whatever the bytes of a register reading, it is marked corrupted exactly when its check code is not that of its content."""
    kind, n = case
    tfc = {"HR": 3, "IR": 4, "MR": 0x16, "error": 0x84}[kind]
    serial, inv, pad = v.bytes("dongle", 10), v.bytes("inverter", 10), C.be64(0x8A)
    data = b"" if kind == "error" else v.bytes("registers", 2 * n)
    body = bytes([v.u8("addr"), tfc]) + inv + v.bytes("base", 2) + C.be16(n) + data
    good = C.wire_crc(body)
    wire = bytes([v.near("crc0", good[0], 0, 255, (1, -1, 0)), v.near("crc1", good[1], 0, 255, (0, 1))])
    r = v.call(v.lib.base.ClientIncomingMessage.decode_bytes, C.mbap(serial + pad + body + wire, 2))
    v.ensure("decoded", r.ok)
    v.ensure("marked corrupted exactly when the check code differs", v.eq(v.truth(r.value.crc_failed), v.Not(v.eq(wire, good))))


@contract("C08.tolerated", cases=("HR", "IR"), merge=(SPLICE,), calls=(bounds_report,), samples=40)
def tolerated(v, kind):
    """A corrupted reading passes exactly when its class was told to tolerate it."""
    p = v.lib.plant.Plant()
    values = v.ints("value", 10, 0, 65535)
    m = P.read_response(v, kind, 0x11, 20, values)
    tolerant, failed = v.choice("tolerant", [False, True]), v.choice("failed", [False, True])
    m.crc_failed = failed
    cls = type(m)
    v.patch(cls, "lenient_crc_commit", tolerant)
    r = v.call(p.update, m, received_at=v.time("now"))
    c = p.register_caches.get(0x11, {})
    R = P.register(v, kind)
    got = [c.get(R(20 + i)) for i in range(10)]
    if failed and not tolerant:
        v.ensure("refused", r.ok and all(x is None for x in got) and p.crc_failure_count == {0x11: 1})
    else:
        v.ensure("committed", v.And(r.ok, p.crc_failure_count == {}, *[v.eq(x, y) for x, y in zip(got, values)]))
