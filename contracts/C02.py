"""C02: commands are checked against the connected model, all or nothing."""

from contracts import common_client as K
from contracts.C19 import MODELS
from contracts.spec_registers import REVIEWED_INSTALLER, REVIEWED_ORDINARY, everyday
from vf.harness import contract


def client_for(v, name):
    client = K.new_client(v)
    if name is not None:
        r = v.call(v.lib.plant.PlantCapabilities, device_type=v.lib.inverter.Model[name], arm_firmware_version=v.opt_int("fw", 0, 65535))
        v.ensure("capabilities constructed", r.ok)
        client.plant.capabilities = r.value
    return client


def writes(v, kinds):
    """An arbitrary batch: (request, conditions) per kind of entry."""
    W = v.lib.write_registers.WriteHoldingRegisterRequest
    out = []
    for i, k in enumerate(kinds):
        if k == "read":
            out.append((v.lib.pdu.ReadHoldingRegistersRequest(base_register=0, register_count=60, device_address=0x11), None))
            continue
        reg, val = v.int(f"register{i}"), v.int(f"value{i}")
        r = v.call(W, reg, val, installer=k == "installer")
        v.ensure("request built", r.ok)
        out.append((r.value, (k, reg, val)))
    return out


BATCHES = [("plain",), ("installer",), ("plain", "plain"), ("plain", "installer"), ("installer", "plain"), ("plain", "read", "plain"),
           ("installer", "installer"), ("plain", "plain", "plain"), ()]

# one model per distinct everyday list, every turn from one to another
LISTS = {}
for _m in [None, *MODELS]:
    LISTS.setdefault(frozenset(everyday(_m)), _m)
TURNS = [(a, b) for a in LISTS.values() for b in LISTS.values() if a != b]


@contract("C02.gate", cases=[(m, b, p) for m in [None, *MODELS] for b in BATCHES for p in ("one_shot_command", "installer_command")], samples=60)
def gate(v, case):
    name, kinds, path = case
    client = client_for(v, name)
    batch = writes(v, kinds)
    dry = v.choice("dry_run", [False, True])
    safe = everyday(name)
    ok = []
    for _, w in batch:
        if w is None:
            continue
        kind, reg, val = w
        sixteen = v.And(val >= 0, val <= 0xFFFF)
        if path == "one_shot_command":
            ok.append(v.And(sixteen, reg in safe) if kind == "plain" else False)
        else:
            # an installer-marked write must be one of the installer list to be encodable at all
            ok.append(v.And(sixteen, reg in REVIEWED_INSTALLER) if kind == "installer" else v.And(sixteen, reg in safe))
    allowed = v.And(*ok) if ok else True
    log = K.record_reads(v, client)
    r = v.run(getattr(client, path), [q for q, _ in batch], dry_run=dry)
    if r.ok:
        v.ensure("accepted only if every write is permitted", allowed)
        if dry:
            v.ensure("a dry run sends nothing", log == [])
        else:
            v.ensure("the whole batch is sent, in order", len(log) == len(batch) and all(a is q for a, (q, _) in zip(log, batch)))
    else:
        v.ensure("refused only if some write is not permitted", v.Not(allowed))
        v.ensure("refused with the documented error", r.raised(v.lib.exceptions.InvalidPduState))
        v.ensure("nothing of a refused batch is sent", log == [])


@contract("C02.history", cases=[(a, m, p, how) for a, m in TURNS for p in ("one_shot_command", "installer_command") for how in ("replaced", "edited")], samples=60)
def history(v, case):
    """What was connected, and commanded, before has no say: only the model connected now."""
    before, now, path, how = case
    client = client_for(v, before)
    W = v.lib.write_registers.WriteHoldingRegisterRequest
    log = K.record_reads(v, client)
    reg, val = v.int("register"), v.int("value", 0, 0xFFFF)
    earlier = v.int("earlier", 0, 0xFFFF)
    r = v.call(W, earlier, 1)
    v.ensure("request built", r.ok)
    r = v.run(getattr(client, path), [r.value], dry_run=v.choice("dry_run", [False, True]))
    v.ensure("the earlier command is judged by the earlier model", v.eq(v.If(earlier in everyday(before), 1, 0), 1 if r.ok else 0))
    if how == "replaced" or before is None or now is None:
        r = None if now is None else v.call(v.lib.plant.PlantCapabilities, device_type=v.lib.inverter.Model[now])
        v.ensure("capabilities constructed", r is None or r.ok)
        client.plant.capabilities = None if r is None else r.value
    else:
        client.plant.capabilities.device_type = v.lib.inverter.Model[now]
    r = v.call(W, reg, val)
    v.ensure("request built", r.ok)
    del log[:]
    q = r.value
    r = v.run(getattr(client, path), [q])
    if r.ok:
        v.ensure("accepted only if the model connected now permits it", reg in everyday(now))
        v.ensure("sent", len(log) == 1 and log[0] is q)
    else:
        v.ensure("refused only if the model connected now does not permit it", v.Not(reg in everyday(now)))
        v.ensure("refused with the documented error", r.raised(v.lib.exceptions.InvalidPduState))
        v.ensure("nothing of a refused batch is sent", log == [])


@contract("C02.lists", cases=[None, *MODELS], samples=200)
def lists(v, name):
    """The everyday list of each model, and that everything on it can be encoded."""
    model = None if name is None else v.lib.inverter.Model[name]
    reg = v.int("register", -10, 70000)
    r = v.call(v.lib.manifest.write_safe_registers, model, v.opt_int("fw", 0, 65535))
    v.ensure("has a list", r.ok)
    v.ensure("exactly the documented registers", v.eq(v.If(reg in r.value, 1, 0), v.If(reg in everyday(name), 1, 0)))
    v.ensure("only reviewed registers", v.Implies(reg in r.value, reg in REVIEWED_ORDINARY))
    v.ensure("no installer register", v.Implies(reg in r.value, v.Not(reg in REVIEWED_INSTALLER)))


@contract("C02.failure", cases=[(p, e) for p in ("one_shot_command", "installer_command") for e in ("timeout", "lost")])
def failure(v, case):
    """A write that is not confirmed is not reported as done."""
    path, kind = case
    client = client_for(v, None)
    W = v.lib.write_registers.WriteHoldingRegisterRequest
    batch = [W(96, 1), W(59, 0), W(20, 1)]
    at = v.choice("fails", [0, 1, 2])
    err = TimeoutError("no answer") if kind == "timeout" else v.lib.exceptions.ConnectionLost("gone")
    K.record_reads(v, client, lambda q: err if q is batch[at] else K.Reply())
    r = v.run(getattr(client, path), batch)
    v.ensure("the error reaches the caller", r.exc is err)
