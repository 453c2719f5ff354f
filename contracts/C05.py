"""C05: the wire format. encode produces exactly the documented layout (header length, serials, function
code with error flag, big-endian fields, byte-swapped CRC); decode is its inverse in both directions."""

from contracts.common import be16, be64, mbap, serial_bytes, transparent, wire_crc
from vf.harness import contract

READS = ("ReadHoldingRegisters", "ReadInputRegisters", "ReadMeterProductRegisters")
TFC = {"ReadHoldingRegisters": 3, "ReadInputRegisters": 4, "ReadMeterProductRegisters": 0x16}


@contract("C05.codec", covers=("done",))
def codec(v, case):
    m = v.lib.codec
    a, b = v.u8("a"), v.u16("b")
    c, d = v.int("c", 0, 2**32 - 1), v.int("d", 0, 2**64 - 1)
    s = v.text("s", 10)
    e = m.PayloadEncoder()
    e.add_8bit_uint(a)
    e.add_16bit_uint(b)
    e.add_32bit_uint(c)
    e.add_64bit_uint(d)
    e.add_string(s, 10)
    p = e.payload
    v.ensure("big-endian layout", v.And(p[0] == a, p[1:3] == be16(b), p[3:7] == be16(c // 65536) + be16(c % 65536), p[7:15] == be64(d)))
    v.ensure("string bytes are the characters' latin-1 codes", p[15:] == s.encode("latin1"))
    v.ensure("length", len(p) == 25)
    x = m.PayloadDecoder(p)
    v.ensure("8-bit round trip", x.decode_8bit_uint() == a)
    v.ensure("16-bit round trip", x.decode_16bit_uint() == b)
    v.ensure("remaining counts down", x.remaining_bytes == 22)
    v.ensure("32-bit round trip", x.decode_32bit_uint() == c)
    v.ensure("64-bit round trip", x.decode_64bit_uint() == d)
    v.ensure("string round trip", x.decode_string(10) == s)
    v.ensure("complete", x.decoding_complete)
    v.cover("done")


@contract("C05.codec_refuses", cases=("8", "16", "32", "64"), covers=("refused", "ok"))
def codec_refuses(v, case):
    """A value that does not fit is refused, never truncated."""
    e = v.lib.codec.PayloadEncoder()
    n = v.int("n")
    hi = 2 ** int(case) - 1
    r = v.call(getattr(e, f"add_{case}bit_uint"), n)
    v.ensure("accepted iff it fits", v.eq(r.ok, v.And(n >= 0, n <= hi)))
    v.cover("ok" if r.ok else "refused")
    if not r.ok:
        v.ensure("nothing written", len(e.payload) == 0)


@contract("C05.string_fill", cases=range(0, 14))
def string_fill(v, n):
    """Short serials are left-padded with '*'; long ones keep their last ten characters."""
    s = v.text("s", n)
    e = v.lib.codec.PayloadEncoder()
    e.add_string(s, 10)
    v.ensure("ten bytes, right aligned", e.payload == serial_bytes(s))


@contract("C05.read_request", cases=READS, covers=("encoded", "refused"))
def read_request(v, kind):
    R = getattr(v.lib.read_registers, kind + "Request")
    base, count, dev, pad = v.int("base"), v.int("count"), v.u8("device"), v.int("padding", 0, 2**64 - 1)
    ser = v.text("serial", 10)
    p = v.call(R, base_register=base, register_count=count, device_address=dev, padding=pad, data_adapter_serial_number=ser).value
    e = v.call(p.encode)
    ok = v.And(base >= 0, base <= 0xFFFF, count >= 1, count <= 60)
    v.ensure("encodable iff base is 16-bit and 1..60 registers", v.eq(e.ok, ok))
    if not e.ok:
        v.cover("refused")
        v.ensure("refused as invalid state", e.raised(v.lib.exceptions.InvalidPduState))
        return
    v.cover("encoded")
    want = transparent(serial_bytes(ser), pad, dev, TFC[kind], be16(base) + be16(count))
    v.ensure("exact frame", e.value == want)
    # a server decodes exactly what was asked (a padding that looks like a LAN-config broadcast cannot be sent)
    v.assume(pad != 0x2C)
    d = v.call(v.lib.base.ServerIncomingMessage.decode_bytes, e.value)
    v.ensure("decodes", d.ok)
    q = d.value
    v.ensure("same class", type(q) is R)
    v.ensure("same fields", v.And(q.base_register == base, q.register_count == count, q.device_address == dev, q.padding == pad,
                                  v.eq(q.error, False), q.data_adapter_serial_number == ser))
    v.ensure("re-encodes to the same bytes", v.call(q.encode).value == e.value)


@contract("C05.write_roundtrip", cases=("Request", "Response"), covers=("done",))
def write_roundtrip(v, which):
    w = v.lib.write_registers
    C = getattr(w, "WriteHoldingRegister" + which)
    val, dev, ser = v.u16("value"), v.u8("device"), v.text("serial", 10)
    if which == "Request":
        reg = v.u16("register")
        v.assume(reg in w.WRITE_SAFE_REGISTERS)
        p = v.call(C, reg, val, device_address=dev, data_adapter_serial_number=ser).value
        e = v.call(p.encode)
        want = transparent(serial_bytes(ser), 8, dev, 6, be16(reg) + be16(val))
        D = v.lib.base.ServerIncomingMessage
    else:
        reg = v.u16("register")
        inv, err, pad = v.text("inverter", 10), v.bool("error"), v.int("padding", 0, 255)
        v.assume(pad != 0x2C)
        p = v.call(C, reg, val, device_address=dev, data_adapter_serial_number=ser, inverter_serial_number=inv, error=err, padding=pad).value
        e = v.call(p.encode)
        want = transparent(serial_bytes(ser), pad, dev, 6 + v.If(err, 128, 0), serial_bytes(inv) + be16(reg) + be16(val))
        D = v.lib.base.ClientIncomingMessage
    v.ensure("encodes", e.ok)
    v.ensure("exact frame", e.value == want)
    d = v.call(D.decode_bytes, e.value)
    v.ensure("decodes", d.ok)
    q = d.value
    v.ensure("same class", type(q) is C)
    v.ensure("same fields", v.And(q.register == reg, q.value == val, q.device_address == dev, q.data_adapter_serial_number == ser))
    if which == "Response":
        v.ensure("same error flag", v.eq(q.error, err))
        v.ensure("same inverter serial", q.inverter_serial_number == inv)
        v.ensure("re-encodes to the same bytes", v.call(q.encode).value == e.value)
    v.cover("done")


@contract("C05.write_default_device", covers=("done",))
def defaults(v, case):
    """Writes go to the inverter's set-up address unless told otherwise; reads to 0x32."""
    p = v.lib.write_registers.WriteHoldingRegisterRequest(96, v.u16("value"))
    f = p.encode()
    v.ensure("write addresses 0x11", f[26] == 0x11)
    q = v.lib.read_registers.ReadInputRegistersRequest(base_register=v.u16("base"), register_count=v.int("count", 1, 60)).encode()
    v.ensure("read addresses 0x32", q[26] == 0x32)
    v.cover("done")


def _read_cases():
    return [(k, n) for k in READS for n in ((0, 1, 2, 7, 30, 59, 60) if k != "ReadHoldingRegisters" else range(0, 61))]


@contract("C05.read_response", cases=_read_cases, thorough_cases=lambda: [(k, n) for k in READS for n in range(61)], covers=("ok",), samples=8)
def read_response(v, case):
    """Any well-formed data response decodes to exactly the values on the wire and re-encodes to the same bytes."""
    kind, n = case
    C = getattr(v.lib.read_registers, kind + "Response")
    dev, base, pad = v.u8("device"), v.u16("base"), v.bytes("padding", 8)
    ser, inv = v.bytes("serial", 10), v.bytes("inverter", 10)
    vals = v.ints("values", n, 0, 0xFFFF)
    # the one padding that means "LAN configuration broadcast" instead
    v.assume(v.Not(v.And(*[pad[i] == 0 for i in range(7)], pad[7] == 0x2C)))
    body = b""
    for x in vals:
        body = body + be16(x)
    f = transparent(ser, pad, dev, TFC[kind], inv + be16(base) + be16(n) + body)
    d = v.call(v.lib.base.ClientIncomingMessage.decode_bytes, f)
    v.ensure("decodes", d.ok)
    q = d.value
    v.cover("ok")
    v.ensure("same class", type(q) is C)
    v.ensure("fields as on the wire", v.And(q.base_register == base, q.register_count == n, q.device_address == dev, be64(q.padding) == pad,
                                            v.eq(q.error, False), v.eq(q.crc_failed, False)))
    v.ensure("serials as on the wire", v.And(q.data_adapter_serial_number == ser.decode("latin1"), q.inverter_serial_number == inv.decode("latin1")))
    v.ensure("values as on the wire", v.And(len(q.register_values) == n, *[q.register_values[i] == vals[i] for i in range(n)]))
    td = q.to_dict()
    v.ensure("register map starts at the base", v.And(len(td) == n, *[td[base + i] == vals[i] for i in range(n)]))
    e = v.call(q.encode)
    v.ensure("re-encodes to the same bytes", v.And(e.ok, e.value == f))


@contract("C05.error_response", cases=READS, covers=("ok",))
def error_response(v, kind):
    """A refused read carries no values; error flag and fields survive both directions."""
    C = getattr(v.lib.read_registers, kind + "Response")
    dev, base, n = v.u8("device"), v.u16("base"), v.u16("count")
    ser, inv = v.bytes("serial", 10), v.bytes("inverter", 10)
    f = transparent(ser, 0x12, dev, TFC[kind] + 128, inv + be16(base) + be16(n))
    d = v.call(v.lib.base.ClientIncomingMessage.decode_bytes, f)
    v.ensure("decodes", d.ok)
    q = d.value
    v.cover("ok")
    v.ensure("same class", type(q) is C)
    v.ensure("error flagged", v.eq(q.error, True))
    v.ensure("fields as on the wire", v.And(q.base_register == base, q.register_count == n, q.device_address == dev, v.eq(q.crc_failed, False)))
    v.ensure("no values", len(q.register_values) == 0)
    v.ensure("re-encodes to the same bytes", v.call(q.encode).value == f)


@contract("C05.crc_detected", cases=[(k, n) for k in READS for n in (0, 1, 60)] + [("ReadInputRegisters", -1)], covers=("bad", "good"), samples=8)
def crc_detected(v, case):
    """The check code is compared over every byte from the device address on: flagged iff it differs."""
    kind, n = case
    dev, base = v.u8("device"), v.u16("base")
    inv = v.bytes("inverter", 10)
    err = 0
    if n < 0:
        n, err = 0, 128
    body = b""
    for x in v.ints("values", n, 0, 0xFFFF):
        body = body + be16(x)
    rest = bytes([dev, TFC[kind] + err]) + inv + be16(base) + be16(n) + body
    good = wire_crc(rest)
    delta = v.u16("crc_error")
    crc = (good[0] * 256 + good[1] + delta) % 65536
    f = mbap(v.bytes("serial", 10) + be64(0x8A) + rest + be16(crc), 2)
    d = v.call(v.lib.base.ClientIncomingMessage.decode_bytes, f)
    v.ensure("decodes", d.ok)
    v.ensure("flagged iff the check code differs", v.eq(d.value.crc_failed, delta != 0))
    v.cover("bad" if delta != 0 else "good")
    v.patch(v.lib.read_registers.ReadRegistersResponse, "strict_crc", True)
    s = v.call(v.lib.base.ClientIncomingMessage.decode_bytes, f)
    v.ensure("strict mode rejects exactly the bad ones", v.eq(s.ok, delta == 0))
    if not s.ok:
        v.ensure("strict rejection is InvalidPduState", s.raised(v.lib.exceptions.InvalidPduState))


@contract("C05.heartbeat", covers=("done",))
def heartbeat(v, case):
    ser, typ = v.bytes("serial", 10), v.u8("type")
    f = mbap(ser + bytes([typ]), 1)
    d = v.call(v.lib.base.ClientIncomingMessage.decode_bytes, f)
    v.ensure("decodes", d.ok)
    q = d.value
    v.ensure("same class", type(q) is v.lib.heartbeat.HeartbeatRequest)
    v.ensure("fields", v.And(q.data_adapter_serial_number == ser.decode("latin1"), q.data_adapter_type == typ))
    v.ensure("re-encodes to the same bytes", v.call(q.encode).value == f)
    r = v.call(q.expected_response)
    v.ensure("a reply exists", r.ok and type(r.value) is v.lib.heartbeat.HeartbeatResponse)
    g = v.call(r.value.encode)
    v.ensure("the reply echoes the adapter type in a heartbeat frame", v.And(g.ok, len(g.value) == 19, g.value[7] == 1, g.value[18] == typ))
    b = v.call(v.lib.base.ServerIncomingMessage.decode_bytes, g.value)
    v.ensure("the peer decodes the reply", v.And(b.ok, b.value.data_adapter_type == typ))
    v.cover("done")


@contract("C05.null", covers=("done",), samples=10)
def null(v, case):
    ser, inv, dev = v.bytes("serial", 10), v.bytes("inverter", 10), v.u8("device")
    body = b""
    vals = v.ints("nulls", 62, 0, 0xFFFF)
    for x in vals:
        body = body + be16(x)
    f = transparent(ser, 0x8A, dev, 0, inv + body)
    d = v.call(v.lib.base.ClientIncomingMessage.decode_bytes, f)
    v.ensure("decodes", d.ok)
    v.ensure("same class", type(d.value) is v.lib.null.NullResponse)
    v.ensure("re-encodes to the same bytes", v.call(d.value.encode).value == f)
    v.cover("done")


def messages(v, kind, turn):
    """A message of each kind, with arbitrary content: (class, attributes)."""
    P = v.lib.pdu
    n = lambda x: f"{x} {turn}"
    if kind == "heartbeat":
        return P.HeartbeatResponse, {"data_adapter_serial_number": v.text(n("serial"), 10), "data_adapter_type": v.u8(n("type"))}
    a = {"data_adapter_serial_number": v.text(n("serial"), 10), "device_address": v.u8(n("device"))}
    if kind == "write request":
        return P.WriteHoldingRegisterRequest, {**a, "register": 116, "value": v.u16(n("value"))}
    if kind == "read request":
        return P.ReadInputRegistersRequest, {**a, "base_register": v.u16(n("base")), "register_count": v.int(n("count"), 1, 60)}
    a["inverter_serial_number"] = v.text(n("inverter"), 10)
    if kind == "write response":
        return P.WriteHoldingRegisterResponse, {**a, "register": v.u16(n("register")), "value": v.u16(n("value"))}
    return P.ReadHoldingRegistersResponse, {**a, "base_register": v.u16(n("base")), "register_count": 3, "register_values": [v.u16(n(f"value {i}")) for i in range(3)]}


@contract("C05.again", cases=[(k, c) for k in ("heartbeat", "write request", "read request", "write response", "read response") for c in ("all", "each")], samples=40)
def again(v, case):
    """Encoded again after it changed, a message is encoded as it is now; a frame decoded again is decoded as it reads, whatever became of the first."""
    kind, change = case
    C, first = messages(v, kind, "first")
    _, then = messages(v, kind, "then")
    if change == "each":
        k = v.choice("changed", [x for x in first if x != "register_count"])
        then = {**first, k: then[k]}
    q = C(**first)
    e = v.call(q.encode)
    v.ensure("it can be sent", e.ok)
    for k, x in then.items():
        setattr(q, k, x)
    again, fresh = v.call(q.encode), v.call(C(**then).encode)
    v.ensure("encoded as it is now", again.ok and fresh.ok and v.eq(again.value, fresh.value))
    v.ensure("encoded once more, the same", v.eq(v.call(q.encode).value, again.value))
    if kind in ("write response", "read response"):
        D = v.lib.base.ClientIncomingMessage
        a = v.call(D.decode_bytes, e.value)
        for k, x in then.items():
            setattr(a.value, k, list(x) if k == "register_values" else x)
        if kind == "read response":
            a.value.register_values[0] = 1
        b = v.call(D.decode_bytes, e.value)
        v.ensure("decoded again as it reads", b.ok and v.And(*[v.eq(getattr(b.value, k), x) for k, x in first.items()]))
