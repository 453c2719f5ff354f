"""C21: a refresh reports success, partial success or failure truthfully."""

import asyncio

from contracts import common_client as K
from contracts.C20 import LAYOUTS, capabilities
from vf.harness import contract

EXC = {"timeout": lambda v: TimeoutError("no answer"), "lost": lambda v: v.lib.exceptions.ConnectionLost("gone"),
       "comms": lambda v: v.lib.exceptions.CommunicationError("bad"), "os": lambda v: OSError("broken pipe"), "value": lambda v: ValueError("bad")}
# model, layout, operation
PLANS = [("EMS", 0, "refresh"), ("EMS", 0, "load_config"), ("HYBRID_GEN1", 0, "refresh"), ("HYBRID_GEN3", 2, "refresh"), ("HYBRID", 0, "load_config"),
         ("AC", 0, "load_config")]


def planned(v, model, layout, op):
    """The reads a fully successful run asks for, in order."""
    caps, _ = capabilities(v, model, LAYOUTS[layout])
    client = K.new_client(v)
    client.plant.capabilities = caps
    log = K.record_reads(v, client)
    r = v.run(getattr(client, op))
    v.ensure("with every answer the run succeeds", r.ok)
    v.unpatch()
    return caps, log


@contract("C21.outcome", cases=[(*p, e) for p in PLANS for e in ("timeout", "lost", "comms", "os", "value", "mixed")], samples=60, covers=("none", "some", "all"))
def outcome(v, case):
    model, layout, op, kind = case
    caps, plan = planned(v, model, layout, op)
    n = len(plan)
    client = K.new_client(v)
    client.plant.capabilities = caps
    bad, excs = [], []

    def answer(req):
        i = len(log) - 1
        if v.choice(f"read {i} fails", [False, True]):
            k = list(EXC)[i % len(EXC)] if kind == "mixed" else kind
            e = EXC[k](v)
            bad.append(i)
            excs.append(e)
            return e
        return K.Reply()

    log = K.record_reads(v, client, answer)
    r = v.run(getattr(client, op))
    v.ensure("every planned read is attempted", len(log) == n and v.And(*[v.And(*[v.eq(x, y) for x, y in zip(p, q)]) for p, q in zip(K.reads(v, log), K.reads(v, plan))]))
    if n == 1:
        v.cover("some")
    X = v.lib.exceptions
    if not bad:
        v.cover("none")
        v.ensure("returns the plant when every read succeeded", r.ok and r.value is client.plant)
        return
    v.ensure("a failed read is reported", r.raised(X.RefreshError))
    if not r.raised(X.RefreshError):
        return
    if len(bad) == n:
        v.cover("all")
        v.ensure("failure exactly when every read failed", r.raised(X.RefreshFailed) and not r.raised(X.RefreshPartiallySucceeded))
    else:
        v.cover("some")
        v.ensure("partial success when some reads failed", r.raised(X.RefreshPartiallySucceeded) and not r.raised(X.RefreshFailed))
        v.ensure("with the plant attached", r.exc.plant is client.plant)
    f = list(r.exc.failures)
    v.ensure("as many failures as failed reads", len(f) == len(bad))
    for g, i in zip(f, bad):
        q = log[i]
        v.ensure("exactly the reads that failed", v.And(v.eq(g.device_address, q.device_address), v.eq(g.base_register, q.base_register),
                                                        v.eq(g.register_count, q.register_count), g.request_type == type(q).__name__))
    got = list(r.exc.cause.exceptions)
    v.ensure("with the errors themselves", len(got) == len(excs) and all(any(a is b for b in excs) for a in got))


@contract("C21.cancelled", cases=[(p, i) for p in (PLANS[0], PLANS[3], PLANS[4]) for i in range(4)])
def cancelled(v, case):
    """A cancellation is never turned into a failed read."""
    (model, layout, op), at = case
    caps, plan = planned(v, model, layout, op)
    client = K.new_client(v)
    client.plant.capabilities = caps
    others = v.choice("others fail", [False, True])
    log = K.record_reads(v, client, lambda req: asyncio.CancelledError() if len(log) - 1 == at % len(plan) else TimeoutError() if others else K.Reply())
    r = v.run(getattr(client, op))
    v.ensure("cancellation is passed on", r.raised(asyncio.CancelledError))


@contract("C21.composed", cases=[p for p in PLANS if p[2] == "refresh"], samples=20)
def composed(v, case):
    """refresh_plant passes on what its parts report, and goes on to measurements only after a clean load."""
    model, layout, _ = case
    caps, _ = capabilities(v, model, LAYOUTS[layout])
    client = K.new_client(v)
    client.plant.capabilities = caps
    full = v.choice("full", [True, False])
    load = v.choice("load", ["ok", "fail"])
    meas = v.choice("measure", ["ok", "fail"])
    IRR = v.lib.pdu.ReadInputRegistersRequest
    log = K.record_reads(v, client, lambda q: TimeoutError() if (meas if full is False or loaded(log) else load) == "fail" else K.Reply())
    n_load = {"EMS": 2, "HYBRID_GEN1": 4, "HYBRID_GEN3": 4}[model]

    def loaded(log):
        return len(log) > n_load

    r = v.run(client.refresh_plant, full)
    X = v.lib.exceptions
    bad = full and load == "fail" or meas == "fail"
    v.ensure("succeeds exactly when its parts do", r.ok == (not bad) and (not bad or r.raised(X.RefreshError)))
    if full and load == "fail":
        v.ensure("nothing is measured after a failed load", len(log) == n_load)
    elif not full:
        v.ensure("no load unless asked", all(isinstance(q, IRR) for q in log))


@contract("C21.again", cases=[(p, q) for p in (PLANS[0], PLANS[2], PLANS[4]) for q in ("all fail", "some fail", "none fails", "cancelled", "lost", "stored in between")], samples=20)
def again(v, case):
    """How earlier runs went has no say in how the next one is reported, or in what it asks for."""
    (model, layout, op), earlier = case
    caps, plan = planned(v, model, layout, op)
    n = len(plan)
    client = K.new_client(v)
    client.plant.capabilities = caps
    X = v.lib.exceptions
    errors = {"all fail": lambda i: TimeoutError(), "some fail": lambda i: TimeoutError() if i == 0 else K.Reply(), "cancelled": lambda i: asyncio.CancelledError(),
              "lost": lambda i: X.ConnectionLost("gone"), "none fails": lambda i: K.Reply(), "stored in between": lambda i: TimeoutError() if i % 2 else K.Reply()}[earlier]
    for _ in range(4):
        log = K.record_reads(v, client, lambda req: errors(len(log) - 1))
        r = v.run(getattr(client, op))
        v.ensure("succeeds only if every read did", r.ok == (earlier == "none fails" or earlier == "stored in between" and n == 1))
        v.unpatch()
    if earlier == "stored in between":
        for q in log:
            kind = "IR" if isinstance(q, v.lib.pdu.ReadInputRegistersRequest) else "HR"
            client.plant.register_block_updated_at[(q.device_address, kind, q.base_register, q.register_count)] = v.time("stored")
    bad = []

    def answer(req):
        if v.choice(f"read {len(log) - 1} fails now", [False, True] if len(log) < 4 else [False]):
            bad.append(req)
            return TimeoutError("no answer")
        return K.Reply()

    log = K.record_reads(v, client, answer)
    r = v.run(getattr(client, op))
    v.ensure("every planned read is attempted", len(log) == n and v.And(*[v.And(*[v.eq(x, y) for x, y in zip(p, q)]) for p, q in zip(K.reads(v, log), K.reads(v, plan))]))
    if not bad:
        v.ensure("returns the plant when every read succeeded", r.ok and r.value is client.plant)
        return
    v.ensure("a failed read is reported", r.raised(X.RefreshFailed if len(bad) == n else X.RefreshPartiallySucceeded))
    if r.raised(X.RefreshError):
        v.ensure("exactly the reads that failed", [(f.base_register, f.register_count) for f in r.exc.failures] == [(q.base_register, q.register_count) for q in bad])
