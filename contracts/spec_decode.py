"""What each conversion in the register map means (independent of the library's Converter class).

``data/register_map.json`` is the reviewed map: for every device family, each attribute's registers,
conversion, bounds, and the codes of every enumeration.  ``data/fault_tables.json`` holds the reviewed
names of the fault bits.  ``holds`` states that a decoded value is what the map defines.
"""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "data", "register_map.json")) as _f:
    _MAP = json.load(_f)
with open(os.path.join(HERE, "data", "fault_tables.json")) as _f:
    FAULTS = json.load(_f)
CLASSES = _MAP["classes"]
ENUMS = _MAP["enums"]
CHARS = [chr(i) for i in range(256)]
# per-byte text of an identifier: NUL padding dropped, letters in upper case
TEXT = {i: "" if i == 0 else c.upper() for i, c in enumerate(CHARS)}
SCALE = {"deci": 10, "centi": 100, "milli": 1000}


def signed16(v, r):
    return v.If(r < 32768, r, r - 65536)


def number(v, f, regs):
    """The number a numeric conversion denotes, or None when the conversion is not numeric."""
    pre, *args = f["pre"]
    r = regs[0]
    if pre == "uint16":
        x = r
    elif pre == "int16":
        x = signed16(v, r)
    elif pre == "uint32":
        x = r * 65536 + regs[1]
    elif pre == "int32":
        x = r * 65536 + regs[1]
        x = v.If(x < 2147483648, x, x - 4294967296)
    elif pre == "duint8":
        x = r // 256 if args == [0] else r % 256
    elif pre == "bitfield":
        lo, hi = args  # most significant bit is bit 0
        x = (r // 2 ** (15 - hi)) % 2 ** (hi - lo + 1)
    elif pre in SCALE:
        x = r / SCALE[pre]
    elif pre == "pf":
        x = v.exact(r - 10000, 10000)
    elif pre == "pf_signed":
        x = signed16(v, r) / 10000
    else:
        return None
    if f["post"] is None:
        return x
    post, *args = f["post"]
    if post in SCALE:
        return x / SCALE[post]
    if post == "negate":
        return -x
    return None


def text(v, regs):
    bs = []
    for r in regs:
        bs += [r // 256, r % 256]
    return v.mapped_text(bs, TEXT)


def latin(v, regs):
    bs = []
    for r in regs:
        bs += [r // 256, r % 256]
    return v.mapped_text(bs, {i: "" if i == 0 else c for i, c in enumerate(CHARS)})


def fault_names(v, table, x):
    """Names of the set bits, in table order; table is [(bit value, name)]."""
    return v.filtered([((x // bit) % 2 == 1, name) for bit, name in table])


def valid_slot(v, r):
    return v.And(r // 100 <= 23, r % 100 <= 59)


def code_known(v, codes, x):
    return v.Or(*[x == c for c in codes])


def enum_holds(v, name, x, got):
    e = ENUMS[name]
    codes = {int(k): n for k, n in e["members"].items()}
    known = code_known(v, codes, x)
    if got is None:
        v.ensure("a known code is not dropped", v.Not(known))
        v.ensure("an unknown code is reported as the documented default", e["unknown"] is None)
        return
    v.ensure("decoded to the code's own member", type(got).__name__ == name)
    member = [c for c, n in codes.items() if n == got.name]
    v.ensure("member is on the map", len(member) == 1)
    if got.name == e["unknown"]:
        v.ensure("default only for its own or an unknown code", v.Or(v.Not(known), x == member[0]))
    else:
        v.ensure("decoded to the code's own member", x == member[0])


def model_holds(v, r, got):
    """HR(0) as a model: its first hex digit is the family."""
    codes = {2: "HYBRID", 3: "AC", 4: "HYBRID_3PH", 5: "EMS", 6: "AC_3PH", 7: "GATEWAY", 8: "ALL_IN_ONE"}
    d = r // 4096
    if got is None:
        v.ensure("a known family is not dropped", v.Not(code_known(v, codes, d)))
    else:
        want = [c for c, n in codes.items() if n == got.name]
        v.ensure("family of the device type code", len(want) == 1)
        v.ensure("family of the device type code", d == want[0])


def holds(v, f, regs, got):
    """`got` is what the map defines for these raw register values."""
    pre, *pargs = f["pre"]
    post = f["post"][0] if f["post"] else None
    x = number(v, f, regs)
    if x is not None:
        zero = v.And(*[r == 0 for r in regs])
        out = False
        if f["min"] is not None:
            out = v.Or(out, x < f["min"])
        if f["max"] is not None:
            out = v.Or(out, x > f["max"])
        out = v.And(v.Not(zero), out)
        if got is None:
            v.ensure("only a value outside its documented bounds is dropped", out)
            v.cover("dropped")
        else:
            v.ensure("a value outside its documented bounds is not reported", v.Not(out))
            v.ensure("decoded to the documented number", v.eq(got, x))
            v.ensure("the number has the documented kind", isinstance(got, float) == isinstance(x, float))
            v.cover("value")
        return
    if pre == "bool" or post == "bool":
        raw = regs[0]
        if pre == "duint8":
            raw = raw // 256 if pargs == [0] else raw % 256
        v.ensure("a flag is a truth value", isinstance(got, bool))
        v.ensure("a flag is set exactly when its register is not zero", v.eq(got, raw != 0))
    elif pre == "hex" and post == "Model":
        model_holds(v, regs[0], got)
    elif pre == "hex" or post == "hex":
        x = regs[0]
        w = pargs[0] if pargs else 4
        if post == "hex":
            w = f["post"][1] if len(f["post"]) > 1 else 4
            x = number(v, {"pre": f["pre"], "post": None}, regs)
        v.ensure("shown as its hexadecimal digits", got is not None and len(got) == w)
        for i in range(w):
            c = ord(got[i])
            v.ensure("shown as its hexadecimal digits", v.eq((x // 16 ** (w - 1 - i)) % 16, v.If(c <= 57, c - 48, c - 87)))
            v.ensure("hexadecimal digits", v.Or(v.And(c >= 48, c <= 57), v.And(c >= 97, c <= 102)))
    elif pre in ("serial", "string"):
        v.ensure("the text of its characters, padding dropped, upper case", got is not None)
        v.ensure("the text of its characters, padding dropped, upper case", got == text(v, regs))
    elif pre == "gateway_version":
        want = latin(v, regs[:2])
        for r in regs[2:]:
            want = want + str(r // 256) + str(r % 256)
        v.ensure("letters then the digits of the version words", got == want)
    elif pre == "firmware_version":
        v.ensure("dashboard form", got == "D0." + str(regs[0]) + "-A0." + str(regs[1]))
    elif pre == "timeslot":
        a, b = regs
        unset = v.Or(a == 60, b == 60, v.Not(valid_slot(v, a)), v.Not(valid_slot(v, b)))
        if got is None:
            v.ensure("only an unset or impossible slot is dropped", unset)
            v.cover("dropped")
        else:
            v.ensure("an unset or impossible slot is not reported", v.Not(unset))
            for t, r in ((got.start, a), (got.end, b)):
                v.ensure("hour and minute of the slot", v.And(v.eq(t.hour, r // 100), v.eq(t.minute, r % 100)))
                v.ensure("whole minutes", v.And(v.eq(t.second, 0), v.eq(t.microsecond, 0)))
            v.cover("value")
    elif pre == "datetime":
        y, mo, d, h, mi, s = regs
        leap = v.And((y + 2000) % 4 == 0, v.Or((y + 2000) % 100 != 0, (y + 2000) % 400 == 0))
        days = v.If(mo == 2, v.If(leap, 29, 28), v.If(v.Or(mo == 4, mo == 6, mo == 9, mo == 11), 30, 31))
        good = v.And(y <= 7999, 1 <= mo, mo <= 12, 1 <= d, d <= days, h <= 23, mi <= 59, s <= 59)
        if got is None:
            v.ensure("only an impossible date is dropped", v.Not(good))
            v.cover("dropped")
        else:
            v.ensure("an impossible date is not reported", good)
            v.ensure("date and time of the clock registers", v.And(v.eq(got.year, y + 2000), v.eq(got.month, mo), v.eq(got.day, d),
                                                                  v.eq(got.hour, h), v.eq(got.minute, mi), v.eq(got.second, s)))
            v.cover("value")
    elif pre in ("nominal_voltage", "nominal_frequency"):
        table = {0: 230, 1: 208, 2: 240} if pre == "nominal_voltage" else {0: 50, 1: 60}
        if got is None:
            v.ensure("a listed option is not dropped", v.Not(code_known(v, table, regs[0])))
        else:
            v.ensure("the option's nominal value", v.Or(*[v.And(regs[0] == k, v.eq(got, n)) for k, n in table.items()]))
    elif post == "fstr":
        r = regs[0]
        v.ensure("version with two decimals", got == str(r // 100) + "." + str(r // 10 % 10) + str(r % 10))
    elif pre == "_inverter_fault_code2":
        v.ensure("names of exactly the set fault bits", got == fault_names(v, FAULTS[pre][pargs[0]], regs[0]))
    elif post in FAULTS:
        x = regs[0] if len(regs) == 1 else regs[0] * 65536 + regs[1]
        v.ensure("names of exactly the set fault bits", got == fault_names(v, FAULTS[post], x))
    elif post in LABELS:
        codes = LABELS[post]
        x = number(v, {"pre": f["pre"], "post": None}, regs)
        if got is None:
            v.ensure("a known status is not dropped", v.Not(code_known(v, codes, x)))
        else:
            want = [c for c, n in codes.items() if n == got.name]
            v.ensure("status of its code", len(want) == 1)
            v.ensure("status of its code", x == want[0])
    elif post in ENUMS:
        enum_holds(v, post, number(v, {"pre": f["pre"], "post": None}, regs), got)
    else:
        raise AssertionError(f"no meaning for {f}")


LABELS = {
    "_charge_status_from": {0: "IDLE", 2: "CHARGING", 3: "FINISHING", 5: "DISCHARGING"},
    "_ems_inverter_suspected_status": {0: "ABSENT", 2: "ONLINE"},
    "_bcu_status_from": {0: "BMS_INITIALISING", 1: "PRECHARGING", 2: "STANDBY", 3: "CHARGING", 4: "DISCHARGING", 5: "ERROR",
                         6: "UPDATING", 7: "POWERED_OFF", 8: "PRODUCTION"},
}
