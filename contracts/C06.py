"""C06: decode_bytes is total over all byte strings: a message of the right kind, or the documented error."""

from contracts.common import be16
from vf.harness import contract

INCOMING = {3: "ReadHoldingRegistersResponse", 4: "ReadInputRegistersResponse", 6: "WriteHoldingRegisterResponse",
            0x16: "ReadMeterProductRegistersResponse", 0: "NullResponse"}
OUTGOING = {3: "ReadHoldingRegistersRequest", 4: "ReadInputRegistersRequest", 6: "WriteHoldingRegisterRequest",
            0x16: "ReadMeterProductRegistersRequest"}


def header_ok(v, b):
    return v.And(b[0] == 0x59, b[1] == 0x59, b[2] == 0, b[3] == 1, b[4] * 256 + b[5] == len(b) - 6, v.Or(b[6] == 0, b[6] == 1))


def sample(r, d, kind):
    """Frames for the bounded run: mostly well-formed, then damaged."""
    body = bytes(r.randrange(256) for _ in range(r.choice([0, 5, 11, 20, 30, 80, 160])))
    fc = 2
    if kind[0] == 1:
        fc = 1
    elif kind[0] == "fc":
        fc = r.randrange(3, 256)
    elif kind[0] == 2:
        t = kind[1]
        ser = b"AB1234G567"
        if t == "lan":
            body = ser + bytes(7) + r.choice([b",1.2.3.4,5,6\r\n\r\nxx", b",", b",,\r", b",1.2.3.4,255.255.255.0,10.0.0.1\r\n\r\n12"])
        else:
            t = r.randrange(128) if t == "other" else t
            c = r.choice([0, 1, 2, 60, 61, r.randrange(61)])
            vals = bytes(r.randrange(256) for _ in range(2 * (c if r.random() < 0.8 else r.randrange(63))))
            inv = b"SA1234G567" if d == "in" else b""
            body = ser + bytes(7) + b"\x8a" + bytes([r.randrange(256), t + r.choice([0, 0, 128])]) + inv
            body += r.choice([be16(r.randrange(65536)) + be16(c) + vals + b"xx", body, bytes(126), bytes(130)])
    u = r.choice([0, 1])
    f = bytearray(b"\x59\x59\x00\x01" + be16(len(body) + 2) + bytes([u, fc]) + body)
    if kind[0] == "header":
        f[r.randrange(7)] ^= 1 << r.randrange(8)
    elif r.random() < 0.2 and len(f) > 8:
        f[r.randrange(8, len(f))] = r.randrange(256)
    return bytes(f)


def cases():
    out = []
    for d in ("in", "out"):
        out += [(d, "header"), (d, "fc"), (d, 1)]
        out += [(d, 2, t) for t in sorted(set(INCOMING) | {0x7F})] + [(d, 2, "other")]
        out += [(d, 2, "lan")]
    return out


@contract("C06.decode_total", cases=cases, samples=300)
def decode_total(v, case):
    d = case[0]
    root = v.lib.base.ClientIncomingMessage if d == "in" else v.lib.base.ClientOutgoingMessage
    ex = v.lib.exceptions
    b = v.stream("frame", gen=lambda r: sample(r, d, case[1:]))
    kind = case[1]
    n = len(b)
    v.assume(n >= 8)
    tfc = None
    if kind == "header":
        v.assume(v.Not(header_ok(v, b)))
    else:
        v.assume(header_ok(v, b))
        if kind == "fc":
            v.assume(v.Not(v.Or(b[7] == 1, b[7] == 2)))
        else:
            v.assume(b[7] == kind)
    if kind == 2:
        sub = case[2]
        v.assume(n >= 28)
        lan = v.And(*[b[i] == 0 for i in range(18, 25)], b[25] == 0x2C)
        if sub == "lan":
            v.assume(lan)
        else:
            v.assume(v.Not(lan))
            tfc = sub
            m = b[27] % 128
            if sub == "other":
                v.assume(v.Not(v.Or(*[m == t for t in set(INCOMING) | {0x7F}])))
            else:
                v.assume(m == sub)
    r = v.call(root.decode_bytes, b)
    if not r.ok:
        v.cover("refused")
        v.ensure("only the documented decode errors", r.raised(ex.InvalidFrame, ex.InvalidPduState))
        return
    v.cover("accepted")
    p = r.value
    v.ensure("a frame with a wrong header is never accepted", kind not in ("header", "fc"))
    v.ensure("carries the received bytes", p.raw_frame is b)
    if kind == 1:
        v.ensure("function 1 is a heartbeat", type(p).__name__ == ("HeartbeatRequest" if d == "in" else "HeartbeatResponse"))
    elif kind == 2 and case[2] == "lan":
        v.ensure("network announcement", type(p).__name__ == "LanConfigBroadcast")
    elif kind == 2 and tfc is not None:
        want = (INCOMING if d == "in" else OUTGOING).get(tfc)
        v.ensure("message class follows the function code", type(p).__name__ == want)
        v.ensure("error flag is the top bit", v.eq(p.error, b[27] >= 128))
        v.ensure("device address", p.device_address == b[26])
        o = 38 if d == "in" else 28
        if tfc in (3, 4, 0x16):
            v.ensure("range as received", v.And(p.base_register == b[o] * 256 + b[o + 1], p.register_count == b[o + 2] * 256 + b[o + 3]))
            if d == "in" and not p.error:
                v.ensure("as many values as announced", p.register_count == len(p.register_values))
                v.ensure("values as received", v.And(*[x == b[42 + 2 * i] * 256 + b[43 + 2 * i] for i, x in enumerate(p.register_values)]))
        elif tfc == 6:
            v.ensure("register and value as received", v.And(p.register == b[o] * 256 + b[o + 1], p.value == b[o + 2] * 256 + b[o + 3]))


@contract("C06.short", cases=[(d, n) for d in ("in", "out") for n in range(0, 29)])
def short(v, case):
    """Frames too short for a complete transparent header, byte for byte."""
    d, n = case
    root = v.lib.base.ClientIncomingMessage if d == "in" else v.lib.base.ClientOutgoingMessage
    b = v.bytes("frame", n)
    r = v.call(root.decode_bytes, b)
    if r.ok:
        v.ensure("a frame with a wrong header is never accepted", n >= 8 and header_ok(v, b))
        v.ensure("only a heartbeat or a network announcement fits", v.Or(b[7] == 1, type(r.value).__name__ == "LanConfigBroadcast"))
    else:
        v.ensure("only the documented decode errors", r.raised(v.lib.exceptions.InvalidFrame, v.lib.exceptions.InvalidPduState))
