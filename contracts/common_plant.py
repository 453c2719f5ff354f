"""Shared by the contracts on the plant: plants in an arbitrary state, readings, and what a whole state is."""

SERIAL_OF = {  # device kind: the registers of its own serial number
    "inverter": ("HR", range(13, 18)), "battery": ("IR", range(110, 115)), "bmu": ("IR", range(114, 119)), "bcu": ("IR", range(138, 143)),
    "lv_bcu": None, "meter": None, "other": None,
}
COUNTERS = ("crc_failure_count", "splice_reject_count", "splice_held_count", "cold_start_held_count", "retry_count")


def read_response(v, kind, addr, base, values, **k):
    cls = v.lib.pdu.ReadHoldingRegistersResponse if kind == "HR" else v.lib.pdu.ReadInputRegistersResponse
    k = {"inverter_serial_number": "SA1234G567", "data_adapter_serial_number": "WF1234G567", **k}
    return cls(device_address=addr, base_register=base, register_count=len(values), register_values=list(values), **k)


def register(v, kind):
    return {"HR": v.lib.register.HR, "IR": v.lib.register.IR}[kind]


def state(plant, but=()):
    """Every piece of state of a plant, copied (except what is named in ``but``)."""
    out = {}
    for src in (plant.__dict__, getattr(plant, "__pydantic_private__", None) or {}):
        for k, x in src.items():
            if k not in but:
                out[k] = copied(x)
    return out


def copied(x):
    if hasattr(x, "copied_state"):
        return x.copied_state()
    if isinstance(x, dict):
        return {k: copied(y) for k, y in x.items()}
    if isinstance(x, list):
        return [copied(y) for y in x]
    return x


def same(v, a, b, but=()):
    """Condition: two copied states are equal."""
    return v.And(*[a.keys() == b.keys()], *[same_value(v, a[k], b[k]) for k in a if k in b and k not in but])


def same_value(v, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return v.And(set(a) == set(b), *[same_value(v, a[k], b[k]) for k in a if k in b])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) is type(b):
        return v.And(len(a) == len(b), *[same_value(v, x, y) for x, y in zip(a, b)])
    if a is b:
        return True
    if a is None or b is None:
        return v.And(v.is_none(a), v.is_none(b))
    return v.eq(a, b)


def coherent(v, words):
    """Five words spelling ten letters or digits (NULs aside)."""
    chars = [x for w in words for x in (w // 256, w % 256)]
    ok = [v.Or(v.And(c >= 48, c <= 57), v.And(c >= 65, c <= 90), v.And(c >= 97, c <= 122)) for c in chars]
    return v.And(*ok)
