"""C24: the receive and transmit loops survive bad messages and keep serving."""

from contracts import common_client as K
from contracts import common_link as L
from contracts import common_plant as P
from vf.harness import contract
from vf.rt import LoopSpec

# -- receiving ---------------------------------------------------------------------------------

KINDS = ("bad frame", "bad message", "heartbeat", "announcement", "null", "reading", "reading refused", "reading corrupted", "reading corrupted leniently",
         "write", "write refused", "request")


class Each(LoopSpec):
    """The loop over the messages of a chunk, one iteration from an arbitrary state of the client."""

    name = "receiving"
    frame_self = False

    def matches(self, site, it, loc):
        from vf import core

        g = core.ctx().ghost.get("receive")
        if g is None or g["client"] is not loc.get("self") or site[2] != "async for":
            return False
        g["contract"] = True
        return True

    def item(self, env):
        from vf import core

        return core.ctx().ghost["receive"]["message"]()

    def at_back(self, env):
        from vf import core

        return core.ctx().ghost["receive"]["after"]()


def message(v, kind, i=0):
    """An arbitrary message of a kind, and whether it may complete a request."""
    lib = v.lib
    who = {"inverter_serial_number": "SA1234G567", "data_adapter_serial_number": "WF1234G567"}
    if kind == "bad frame":
        return lib.exceptions.InvalidFrame("bad", b"\x59")
    if kind == "bad message":
        return lib.exceptions.InvalidPduState("bad", None)
    if kind == "heartbeat":
        return lib.pdu.HeartbeatRequest(data_adapter_serial_number="WF1234G567", data_adapter_type=v.u8(f"type{i}"))
    if kind == "announcement":
        return lib.pdu.HeartbeatResponse(data_adapter_serial_number="WF1234G567", data_adapter_type=v.u8(f"type{i}"))
    if kind == "null":
        return lib.pdu.NullResponse(device_address=v.u8(f"device{i}"), nulls=[0] * 62, **who)
    if kind == "request":
        return lib.pdu.ReadInputRegistersRequest(device_address=v.u8(f"device{i}"), base_register=0, register_count=60)
    if kind.startswith("write"):
        return lib.pdu.WriteHoldingRegisterResponse(register=v.u16(f"register{i}"), value=v.u16(f"value{i}"), device_address=v.u8(f"device{i}"), error=kind == "write refused", **who)
    m = P.read_response(v, v.choice(f"bank{i}", ["IR", "HR"]), v.u8(f"device{i}"), v.choice(f"base{i}", [0, 60]), [v.u16(f"word{i}_{j}") for j in range(2)], error=kind == "reading refused")
    if "corrupted" in kind:
        m.crc_failed = True
        if "leniently" in kind:
            m.lenient_crc_commit = True
    return m


class Decoded:
    """The framer decodes the next messages, in order, from each chunk (what C05 and C07 show it does)."""

    def __init__(self, chunks):
        self.chunks = list(chunks)

    async def decode(self, data):
        for m in self.chunks.pop(0) if self.chunks else ():
            yield m


def intact(m):
    return not getattr(m, "crc_failed", False) or getattr(m, "lenient_crc_commit", False)


def in_chunks(v, messages):
    chunks, rest = [], list(messages)
    while rest:
        k = v.int(f"per chunk{len(chunks)}", 0, 5) if len(chunks) < 100 else len(rest)
        chunks.append(rest[:k])
        rest = rest[k:]
    return chunks


@contract("C24.receive", cases=[(k, w) for k in KINDS for w in L.STATES], loops=(Each,), covers=("received",), samples=60)
def receive(v, case):
    """Each message has exactly its own effect, whatever it is and whatever came before, and the next one is served."""
    kind, waiting = case
    client = K.new_client(v)
    n = 1 if v.symbolic else v.int("messages", 1, 30)
    messages = [message(v, kind)] + [message(v, KINDS[v.int(f"kind{i}", 0, len(KINDS) - 1)], i) for i in range(1, n)]
    first = messages[0]
    answers = isinstance(first, v.lib.pdu.TransparentResponse)
    own = L.future(v, waiting) if answers else None
    stranger = L.future(v, "pending")
    another = hash(("another request",))
    client.expected_responses = {another: stranger} if own is None else {first.shape_hash(): own, another: stranger}
    log, too_early = [], []

    def stored(plant, m, **k):
        # the effect on the plant is decided by C08-C10, C18 and C22; here: which messages reach it, and when
        log.append(m)
        if own is not None and L.outcome(own) is m:
            too_early.append(m)

    v.patch(v.lib.plant.Plant, "update", stored)
    chunks = [messages] if v.symbolic else in_chunks(v, messages)
    client.framer = Decoded(chunks)
    client.reader = L.Reader([b"chunk"] * len(chunks), then="silence")
    capture = v.choice("capture", ["none", "working", "failing"])
    if capture != "none":
        seen = []
        client._capture_sink = (lambda direction, data: seen.append(1 // (capture == "working")))
        client._capture_redactor_rx, client._capture_redactor_tx = v.lib.client.FrameRedactor("rx"), v.lib.client.FrameRedactor("tx")
    state = {"client": client}

    def after():
        """Obligations once the messages have been handled."""
        responses = [m for m in messages if isinstance(m, v.lib.pdu.TransparentResponse)]
        beats = [m for m in messages if isinstance(m, v.lib.pdu.HeartbeatRequest)]
        obs = [("every response reaches the plant, once, in the order received, and nothing else does", len(log) == len(responses) and all(a is b for a, b in zip(log, responses))),
               ("the plant is updated before the request completes", not too_early)]
        queued = []
        while client.tx_queue.qsize():
            queued.append(client.tx_queue.get_nowait())
        obs.append(("every heartbeat is answered, once", len(queued) == len(beats)))
        for (frame, sent, response), m in zip(queued, beats):
            obs.append(("by its own answer, which nobody waits for", v.And(sent is None, response is None, v.eq(frame, m.expected_response().encode()))))
        obs.append(("no other request is completed", L.outcome(stranger) == "waiting"))
        if own is not None:
            mine = [m for m in responses if intact(m) and m.shape_hash() == first.shape_hash()] if not v.symbolic else [m for m in responses if intact(m)]
            want = {"pending": mine[0] if mine else "waiting", "resolved": True, "cancelled": "cancelled"}[waiting]
            got = L.outcome(own)
            obs.append(("the first intact answer, and nothing else, completes the request waiting for it", got is want))
        obs.append(("the connection stays up", not client._connection_lost))
        v.cover("received")
        return obs

    state["after"], state["message"] = after, lambda: first
    v.ghost()["receive"] = state
    r = v.run(client._task_network_consumer)
    v.ensure("the receive loop keeps serving", r.blocked)
    if "contract" not in state:
        if v.symbolic:
            v.unsupported("no loop of the shape that the loop contract describes")
        for label, cond in after():
            v.ensure(label, cond)


# -- sending -----------------------------------------------------------------------------------

class Turn(LoopSpec):
    """The transmit loop, one turn from an arbitrary queue."""

    name = "sending"
    frame_self = False

    def matches(self, site, it, loc):
        from vf import core

        g = core.ctx().ghost.get("send")
        if g is None or g["client"] is not loc.get("self") or site[2] != "while":
            return False
        g["contract"] = True
        return True

    def at_back(self, env):
        from vf import core

        return core.ctx().ghost["send"]["after"](1)


@contract("C24.send", cases=[(s, r) for s in L.STATES for r in L.STATES], loops=(Turn,), covers=("handled",), samples=100)
def send(v, case):
    """Queued frames are sent once each, in order, spaced; those whose waiter is gone are skipped; senders are told either way."""
    wait, jitter = v.real("wait", 0, 10), v.real("jitter", 0, 10)
    client = K.new_client(v, tx_message_wait=wait, tx_jitter=jitter)
    v.patch(v.lib.client.random, "uniform", lambda a, b: a + (b - a) * v.real("at random", 0, 1))
    writer = client.writer = L.Writer()
    n = 2 if v.symbolic else v.int("frames", 1, 20)
    items, states = [], []
    for i in range(n):
        states.append(case if i == 0 else (L.STATES[v.int(f"sent{i}", 0, 3)], L.STATES[v.int(f"response{i}", 0, 3)]) if not v.symbolic else ("pending", "pending"))
        items.append((v.bytes(f"frame{i}", 4), L.future(v, states[i][0], "told before"), L.future(v, states[i][1])))
        client.tx_queue.put_nowait(items[i])
    times, write = [], writer.write
    v.patch(writer, "write", lambda data: (times.append(v.loop.time()), write(data)))

    def after(done):
        """Obligations once the first ``done`` frames have had their turn."""
        to_send = [items[i][0] for i in range(done) if states[i][1] not in ("resolved", "cancelled")]
        obs = [("each frame still wanted is sent, once, in order, and no other", len(writer.sent) == len(to_send) and all(a is b for a, b in zip(writer.sent, to_send))),
               ("what is sent is flushed", writer.drained == len(to_send)),
               ("exactly these frames left the queue", client.tx_queue.qsize() == n - done),
               ("the connection stays up", not client._connection_lost)]
        for i in range(done):
            want = {"none": None, "pending": True, "resolved": "told before", "cancelled": "cancelled"}[states[i][0]]
            obs.append(("whoever queued the frame is told, once", want is None or L.outcome(items[i][1]) == want))
            if items[i][2] is not None:
                want = {"pending": "waiting", "resolved": True, "cancelled": "cancelled"}[states[i][1]]
                obs.append(("no answer is made up", L.outcome(items[i][2]) == want))
        for a, b in zip(times, [*times[1:], v.loop.time()]):
            obs.append(("frames are spaced by at least the configured wait", b >= a + wait))
        v.cover("handled")
        return obs

    state = {"client": client, "after": after}
    v.ghost()["send"] = state
    r = v.run(client._task_network_producer)
    v.ensure("the transmit loop keeps serving", r.blocked)
    if "contract" not in state:
        if v.symbolic:
            v.unsupported("no loop of the shape that the loop contract describes")
        for label, cond in after(n):
            v.ensure(label, cond)
