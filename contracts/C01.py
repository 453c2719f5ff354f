"""C01: nothing outside the reviewed write lists can be put on the wire; values are 16-bit."""

from contracts.common import be16
from contracts.spec_registers import DESTRUCTIVE, FORBIDDEN_ORDINARY, REVIEWED_INSTALLER, REVIEWED_ORDINARY
from vf.harness import contract


def _gate_ok(v, installer, reg, val):
    w = v.lib.write_registers
    lst = w.INSTALLER_WRITE_REGISTERS if installer else w.WRITE_SAFE_REGISTERS
    return v.And(reg in lst, val >= 0, val <= 0xFFFF)


def _spec_allows(v, installer, reg, val):
    lst = REVIEWED_INSTALLER if installer else REVIEWED_ORDINARY
    return v.And(reg in lst, val >= 0, val <= 0xFFFF)


@contract("C01.encode_gate", cases=(False, True), covers=("encoded", "refused"))
def encode_gate(v, installer):
    W = v.lib.write_registers.WriteHoldingRegisterRequest
    reg = v.int("register")
    val = v.int("value")
    dev = v.u8("device")
    r = v.call(W, reg, val, installer=installer, device_address=dev)
    v.ensure("constructing with ints succeeds", r.ok)
    e = v.call(r.value.encode)
    if e.ok:
        v.cover("encoded")
        v.ensure("only a listed register with a 16-bit value is encoded", _spec_allows(v, installer, reg, val))
        if not installer:
            v.ensure("an ordinary write never reaches a grid-protection or destructive register", v.Not(reg in FORBIDDEN_ORDINARY))
        v.ensure("the bytes sent name that register and value", v.And(e.value[27] == 6, e.value[28:32] == be16(reg) + be16(val)))
    else:
        v.cover("refused")
        v.ensure("refusal is the documented error", e.raised(v.lib.exceptions.InvalidPduState))
        v.ensure("nothing was left to send", not hasattr(r.value, "raw_frame"))
        v.ensure("an allowed write is not refused", v.Not(_gate_ok(v, installer, reg, val)))


@contract("C01.encode_gate_after_mutation", cases=(False, True), covers=("encoded", "refused"))
def mutated(v, installer):
    """The gate is evaluated on the state at encode time, not at construction."""
    W = v.lib.write_registers.WriteHoldingRegisterRequest
    p = v.call(W, 96, 1).value
    reg = v.int("register")
    val = v.int("value")
    v.call(p.encode)
    p.register = reg
    p.value = val
    if installer:
        p.installer = True
    e = v.call(p.encode)
    if e.ok:
        v.cover("encoded")
        v.ensure("only a listed register with a 16-bit value is encoded", _spec_allows(v, installer, reg, val))
    else:
        v.cover("refused")
        v.ensure("refusal is the documented error", e.raised(v.lib.exceptions.InvalidPduState))


@contract("C01.lists", covers=("both",))
def lists(v, case):
    """The two write lists: disjoint, within the reviewed lists; nothing dangerous in the ordinary one."""
    w = v.lib.write_registers
    r = v.int("register")
    ordinary = r in w.WRITE_SAFE_REGISTERS
    inst = r in w.INSTALLER_WRITE_REGISTERS
    v.cover("both")
    v.ensure("no register is both ordinary and installer", v.Not(v.And(ordinary, inst)))
    v.ensure("ordinary list within the reviewed list", v.Implies(ordinary, r in REVIEWED_ORDINARY))
    v.ensure("installer list within the reviewed list", v.Implies(inst, r in REVIEWED_INSTALLER))
    v.ensure("grid protection / import limits / destructive registers are not ordinary", v.Implies(r in FORBIDDEN_ORDINARY, v.Not(ordinary)))
    v.ensure("destructive registers stay reachable for the installer", v.Implies(r in DESTRUCTIVE, inst))
    m = v.lib.manifest
    for name in ("WRITE_SAFE_EMS", "WRITE_SAFE_SINGLE_PHASE", "WRITE_SAFE_THREE_PHASE", "WRITE_SAFE_AC_CONFIG"):
        s = getattr(m, name, None)
        if s is not None:
            v.ensure(f"model list {name} within the ordinary list", v.Implies(r in s, ordinary))


@contract("C01.types", cases=("none", "str", "float", "bool", "bytes", "regstr", "regnone"))
def types_(v, case):
    """Only integers are accepted as a register and value; a bool value is a caller bug."""
    W = v.lib.write_registers.WriteHoldingRegisterRequest
    inst = v.bool("installer")
    reg = v.int("register")
    bad = {"none": None, "str": "1", "float": 1.0, "bool": v.bool("b"), "bytes": b"1"}
    if case == "regstr":
        r = v.call(W, "96", 1, installer=inst)
    elif case == "regnone":
        r = v.call(W, None, 1, installer=inst)
    else:
        r = v.call(W, reg, bad[case], installer=inst)
    v.ensure("rejected with ValueError", r.raised(ValueError))


@contract("C01.decode_gate", covers=("accepted", "refused"))
def decode_gate(v, case):
    """A write request arriving on the wire passes the ordinary gate only."""
    from contracts.common import be16, transparent

    reg = v.u16("register")
    val = v.u16("value")
    f = transparent(v.bytes("serial", 10), 8, v.u8("device"), 6, be16(reg) + be16(val))
    r = v.call(v.lib.base.ServerIncomingMessage.decode_bytes, f)
    if r.ok:
        v.cover("accepted")
        v.ensure("only an ordinary register is accepted", reg in REVIEWED_ORDINARY)
        v.ensure("register and value as sent", v.And(r.value.register == reg, r.value.value == val))
    else:
        v.cover("refused")
        v.ensure("refused as an invalid PDU", r.raised(v.lib.exceptions.InvalidPduState))


@contract("C01.only_write_class", cases=range(256))
def only_write_class(v, tfc):
    """No other outgoing message class carries the write function code."""
    T = v.lib.transparent.TransparentRequest
    W = v.lib.write_registers.WriteHoldingRegisterRequest
    r = v.call(T.lookup_transparent_function_decoder, tfc)
    if r.ok:
        v.ensure("function code 6 and only it is a write request", (r.value is W) == (tfc == 6))
        v.ensure("no other class writes", issubclass(r.value, v.lib.write_registers.WriteHoldingRegister) == (tfc == 6))
        v.ensure("class encodes its own function code", r.value.transparent_function_code == tfc)
    else:
        v.ensure("unsupported function codes are refused", r.raised(NotImplementedError))
