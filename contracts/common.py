"""Shared specification helpers for the contract modules (no library logic is re-used here except
the third-party CRC routine, which is the specification of the check code)."""

from crccheck.crc import CrcModbus

HEADER = b"\x59\x59\x00\x01"


def be16(x):
    return bytes([x // 256, x % 256])


def be64(x):
    out = []
    for i in (7, 6, 5, 4, 3, 2, 1, 0):
        out.append((x // 256**i) % 256)
    return bytes(out)


def wire_crc(body):
    """The check code as it appears on the wire: CRC16/Modbus, low byte first."""
    c = CrcModbus().process(body).final()
    return bytes([c % 256, c // 256])


def mbap(inner, fc):
    """MBAP header + function code for an inner payload."""
    return HEADER + be16(len(inner) + 2) + b"\x01" + bytes([fc]) + inner


def transparent(serial, padding, addr, tfc, rest):
    """A function-2 frame; rest is everything after the transparent function code, before the CRC."""
    inner = serial + (be64(padding) if not isinstance(padding, bytes) else padding) + bytes([addr, tfc]) + rest
    return mbap(inner + wire_crc(inner[18:]), 2)


def serial_bytes(text):
    """10 bytes of a latin-1 serial, left padded with '*' / truncated to its last 10 characters."""
    t = text[-10:]
    b = t.encode("latin1")
    return b"*" * (10 - len(b)) + b
