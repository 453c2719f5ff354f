"""C11: a response matches a pending request exactly when function, device and range agree."""

from contracts.common import be16, mbap, serial_bytes, transparent
from vf.harness import contract

READS = {"ReadHoldingRegisters": 3, "ReadInputRegisters": 4, "ReadMeterProductRegisters": 0x16}
REQ = tuple(READS) + ("WriteHoldingRegister",)
RESP = REQ + ("Heartbeat", "Null", "LanConfig")


def request(v, kind, tag):
    """A request of the kind and the facts that identify it."""
    dev = v.u8(tag + ".device")
    if kind == "WriteHoldingRegister":
        reg, val = v.u16(tag + ".register"), v.u16(tag + ".value")
        q = v.lib.write_registers.WriteHoldingRegisterRequest(reg, val, device_address=dev)
        return q, (dev, reg)
    base, count = v.u16(tag + ".base"), v.int(tag + ".count", 1, 60)
    q = getattr(v.lib.read_registers, kind + "Request")(base_register=base, register_count=count, device_address=dev)
    return q, (dev, base, count)


def response(v, kind, tag, n=None):
    """A received message, decoded from its wire bytes, and the facts that identify it."""
    ser, inv = v.bytes(tag + ".adapter", 10), v.bytes(tag + ".inverter", 10)
    pad = b"\x00" * 7 + b"\x8a"
    if kind == "Heartbeat":
        t = v.u8(tag + ".type")
        f = mbap(ser + bytes([t]), 1)
        ident = (t,)
    elif kind == "Null":
        f = transparent(ser, pad, v.u8(tag + ".device"), 0, inv + bytes(124))
        ident = ()
    elif kind == "LanConfig":
        f = mbap(ser + bytes(7) + b",10.0.0.2,255.255.255.0,10.0.0.1\r\n\r\n" + v.bytes(tag + ".check", 2), 2)
        ident = ()
    elif kind == "WriteHoldingRegister":
        dev, reg, val, err = v.u8(tag + ".device"), v.u16(tag + ".register"), v.u16(tag + ".value"), v.bool(tag + ".error")
        f = transparent(ser, pad, dev, 6 + v.If(err, 128, 0), inv + be16(reg) + be16(val))
        ident = (dev, reg)
    else:
        dev, base, err = v.u8(tag + ".device"), v.u16(tag + ".base"), n is None
        count = v.u16(tag + ".count") if err else n
        body = b"".join(be16(x) for x in v.ints(tag + ".values", n or 0, 0, 0xFFFF))
        f = transparent(ser, pad, dev, READS[kind] + (128 if err else 0), inv + be16(base) + be16(count) + body)
        ident = (dev, base, count)
    r = v.call(v.lib.base.ClientIncomingMessage.decode_bytes, f)
    v.ensure("received frame decodes", r.ok)
    return r.value, ident


def _pairs():
    out = []
    for a in REQ:
        for b in RESP:
            if b in READS:
                out += [(a, b, None), (a, b, 2), (a, b, 60)]
            else:
                out.append((a, b, None))
    return out


@contract("C11.match", cases=_pairs, covers=("checked",))
def match(v, case):
    a, b, n = case
    q, qi = request(v, a, "req")
    r, ri = response(v, b, "resp", n)
    want = v.And(*[x == y for x, y in zip(qi, ri)]) if a == b else False
    exp = q.expected_response()
    v.ensure("matches exactly the same function, device and range", v.eq(exp.shape_hash() == r.shape_hash(), want))
    v.ensure("comparison agrees with the identifying hash", v.eq(exp.has_same_shape(r), want))
    v.cover("checked")


@contract("C11.requests_distinct", cases=[(a, b) for a in REQ for b in REQ])
def requests_distinct(v, case):
    """Two outstanding requests share a slot only if they ask for the same thing of the same device."""
    a, b = case
    q1, i1 = request(v, a, "one")
    q2, i2 = request(v, b, "two")
    want = v.And(*[x == y for x, y in zip(i1, i2)]) if a == b else False
    v.ensure("pending slot shared exactly by equal questions", v.eq(q1.expected_response().shape_hash() == q2.expected_response().shape_hash(), want))
    v.ensure("a request is never its own answer", v.Not(q1.shape_hash() == q2.expected_response().shape_hash()))


@contract("C11.heartbeat", covers=("done",))
def heartbeat(v, case):
    """A heartbeat's reply is one heartbeat with the same adapter type; heartbeats match by adapter type."""
    r, (t,) = response(v, "Heartbeat", "one")
    s, (u,) = response(v, "Heartbeat", "two")
    v.ensure("same shape iff same adapter type", v.eq(r.has_same_shape(s), t == u))
    e = r.expected_response()
    v.ensure("reply echoes the adapter type", e.data_adapter_type == t)
    v.ensure("reply is an outgoing heartbeat", type(e) is v.lib.heartbeat.HeartbeatResponse)
    v.ensure("the reply expects nothing further", e.expected_response() is None)
    v.cover("done")


@contract("C11.write_equality", covers=("done",))
def write_equality(v, case):
    """Write requests compare equal exactly when they would write the same value to the same place."""
    q1, i1 = request(v, "WriteHoldingRegister", "one")
    q2, i2 = request(v, "WriteHoldingRegister", "two")
    v.ensure("equality", v.eq(q1 == q2, v.And(i1[0] == i2[0], i1[1] == i2[1], q1.value == q2.value)))
    v.cover("done")
