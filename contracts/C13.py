"""C13: losing the connection fails every waiting caller and leaves a clean client."""

import asyncio

from contracts import common_client as K
from contracts import common_link as L
from contracts import common_plant as P
from vf.harness import contract
from vf.rt import LoopSpec

WAYS = ("peer closes", *(f"receive fails {i}" for i in range(5)), "writer closes", *(f"write fails {i}" for i in range(5)), *(f"flush fails {i}" for i in range(5)), "flush stalls")
ERRORS = L.socket_errors


class Teardown(LoopSpec):
    """A loop of the teardown, one iteration from an arbitrary state of it."""

    name = "teardown"
    frame_self = False
    kind = None

    def matches(self, site, it, loc):
        from vf import core

        g = core.ctx().ghost.get("teardown")
        if g is None or g["client"] is not loc.get("self") or site[2] != self.kind or "contract" in g or not g["is it"](it):
            return False
        g["contract"] = True
        return True

    def item(self, env):
        from vf import core

        return core.ctx().ghost["teardown"]["item"]

    def havoc(self, env, names):
        from vf import core

        return {n: core.ctx().ghost["v"].int(f"so far {n}", 0) for n in names if type(env.get(n)) is int}

    def at_back(self, env):
        from vf import core

        return core.ctx().ghost["teardown"]["after"]()


class OverRequests(Teardown):
    kind = "for"


class OverQueue(Teardown):
    kind = "while"

    def havoc(self, env, names):
        from vf import core

        v, client = core.ctx().ghost["v"], core.ctx().ghost["teardown"]["client"]
        if v.truth(v.bool("every frame was taken off already")):
            while not client.tx_queue.empty():
                client.tx_queue.get_nowait()
        return super().havoc(env, names)


def ended(state, got, lost):
    """Whether a future that was in ``state`` is now as the teardown must leave it."""
    if state == "none":
        return True
    if state == "pending":
        return got is lost if lost is not None else got == "cancelled"
    return got is True if state == "resolved" else got == "cancelled"


def begin(v, how):
    """(client, the error waiters are to get, the teardown)"""
    client = K.new_client(v)
    client.connected = True
    lost = v.lib.exceptions.ConnectionLost("gone")
    if how == "lost":
        async def tear():
            client._abort_connection(lost)
        return client, lost, tear
    return client, None, client.close


@contract("C13.requests", cases=[(how, s) for how in ("lost", "closed") for s in L.STATES[1:]], loops=(OverRequests,), covers=("one", "all"), samples=60)
def requests(v, case):
    """However many requests are waiting, the teardown ends each of them."""
    how, state = case
    client, lost, tear = begin(v, how)
    states = [state] if v.symbolic else [L.STATES[v.int(f"state{i}", 1, 3)] for i in range(v.int("requests", 0, 40))] + [state]
    futures = [L.future(v, s) for s in states]
    client.expected_responses = {hash(("request", i)): f for i, f in enumerate(futures)}

    def after():
        v.cover("one")
        return [("every waiting request is ended", v.And(*[ended(s, L.outcome(f), lost) for s, f in zip(states, futures)]))]

    g = {"client": client, "is it": lambda it: not hasattr(it, "__next__") and any(x is futures[0] for x in list(it)), "item": futures[0], "after": after}
    v.ghost()["teardown"], v.ghost()["v"] = g, v
    r = v.run(tear)
    if v.symbolic and "contract" not in g:
        v.unsupported("no loop of the shape that the loop contract describes")
    v.ensure("tearing down does not fail", r.ok)
    v.cover("all")
    v.ensure("nothing stays registered", not client.expected_responses)
    v.ensure("marked disconnected", client.connected is False)
    if "contract" not in g:
        v.cover("one")
        for label, cond in after():
            v.ensure(label, cond)


@contract("C13.queue", cases=[(how, s, t) for how in ("lost", "closed") for s in L.STATES for t in L.STATES], loops=(OverQueue,), covers=("one", "all"), samples=30)
def queue(v, case):
    """However many frames are queued, the teardown ends each, and empties the queue."""
    how, *state = case
    client, lost, tear = begin(v, how)
    states = [tuple(state)] * 2 if v.symbolic else [(L.STATES[v.int(f"sent{i}", 0, 3)], L.STATES[v.int(f"response{i}", 0, 3)]) for i in range(v.int("frames", 0, 19))] + [tuple(state)]
    items = [(b"frame", L.future(v, s), L.future(v, t)) for s, t in states]
    for i in items:
        client.tx_queue.put_nowait(i)
    size = client.tx_queue.qsize()
    client.expected_responses = {hash(("request", n)): i[2] for n, i in enumerate(items) if i[2] is not None}

    def over(n):
        out = []
        for (_, sent, response), (s, t) in list(zip(items, states))[:n]:
            got = L.outcome(sent) if sent is not None else None
            out.append(("whoever queued a frame is told", ended(s, got, lost)))
            if lost is not None and response is not None:
                out.append(("and so is whoever waits for its answer", ended(t, L.outcome(response), lost)))
        return out

    def after():
        v.cover("one")
        return [*over(1), ("the queue shrinks", client.tx_queue.qsize() == size - 1)]

    g = {"client": client, "is it": lambda it: True, "item": None, "after": after}
    v.ghost()["teardown"], v.ghost()["v"] = g, v
    r = v.run(tear)
    if v.symbolic and "contract" not in g:
        v.unsupported("no loop of the shape that the loop contract describes")
    v.ensure("tearing down does not fail", r.ok)
    v.cover("all")
    if "contract" not in g:
        v.cover("one")
        for label, cond in over(len(items)):
            v.ensure(label, cond)
    v.ensure("the queue is empty", client.tx_queue.empty())
    v.ensure("nothing stays registered", not client.expected_responses)


def ends(way):
    errors = ERRORS()
    w = L.Writer()
    r = L.Reader(then="silence")
    if way.startswith("write fails"):
        w.fail_write = errors[int(way[-1])]
    elif way.startswith("flush fails"):
        w.fail_drain = errors[int(way[-1])]
    elif way == "flush stalls":
        w.stall = True
    elif way == "writer closes":
        w.closes_after = 1
    return r, w


def request(v, i):
    return v.lib.pdu.ReadInputRegistersRequest(device_address=0x11 + i, base_register=0, register_count=2)


async def anyway(coro, into):
    """Runs a caller; notes when and how it ended."""
    try:
        into.append((await coro, None))
    except (asyncio.CancelledError, Exception) as e:
        into.append((None, e))


def LONG(v):
    """A frame of 60 registers, from another device than any asked."""
    return P.read_response(v, "IR", 0x32, 60, list(range(60))).encode()


def is_clean(v, client):
    v.ensure("marked disconnected", client.connected is False)
    v.ensure("nothing waits", not client.expected_responses and client.tx_queue.empty())


PARTS = (3, 17, 18, 60, 140)


@contract("C13.drop", cases=[*((w, n, 0) for w in WAYS for n in (1, 3)), *((w, 1, p) for w in ("peer closes", "receive fails 0", "flush stalls") for p in PARTS)], samples=40)
def drop(v, case):
    """The link breaks while callers wait for answers or for their turn: each is told at once; reconnecting starts afresh."""
    way, n, part = case  # how much of a frame was received when it breaks
    client = K.new_client(v)
    v.patch(v.lib.client.random, "uniform", lambda a, b: a + (b - a) * v.choice("jitter", [0, 1]))
    r1, w1 = ends(way)
    w1.fail_close = v.choice("closing reports", [None, *ERRORS()][: 1 if part else None])
    r2, w2 = L.Reader(then="silence"), L.Writer()
    L.network(v, (r1, w1), (r2, w2))
    told = [[] for _ in range(n)]
    at = v.real("at", 0, 5)
    seen = {}

    async def main():
        await client.connect()
        v.ensure("connected", client.connected is True)
        loop = asyncio.get_running_loop()
        callers = [loop.create_task(anyway(client.send_request_and_await_response(request(v, i), timeout=60, retries=2), told[i])) for i in range(n)]
        await asyncio.sleep(at)
        if part:
            r1.arrive(LONG(v)[:part])
            await asyncio.sleep(0)
        start = loop.time()
        if way == "peer closes":
            r1.feed_eof()
        elif way.startswith("receive fails"):
            r1.arrive(ERRORS()[int(way[-1])])
        await asyncio.gather(*callers)
        seen["took"] = loop.time() - start
        for t in (client.network_consumer_task, client.network_producer_task):
            await asyncio.wait([t], timeout=0)
            v.ensure("both loops end", t.done())
        is_clean(v, client)
        again = []
        await anyway(client.send_request_and_await_response(request(v, 0), timeout=60, retries=2), again)
        v.ensure("a request on a lost link is refused at once", isinstance(again[0][1], v.lib.exceptions.ConnectionLost))
        is_clean(v, client)
        await client.connect()
        v.ensure("it can be connected again", client.connected is True and client.reader is r2 and client.writer is w2)
        fresh = []
        caller = loop.create_task(anyway(client.send_request_and_await_response(request(v, 0), timeout=60, retries=0), fresh))
        await asyncio.sleep(1)
        v.ensure("only the new request is sent on the new link", len(w2.sent) == 1)
        r2.arrive(P.read_response(v, "IR", 0x11, 0, [1, 2]).encode())
        await asyncio.sleep(1)
        v.ensure("and is answered by the first frame received on it", caller.done() and fresh[0][0] is not None and list(fresh[0][0].register_values) == [1, 2])
        await client.close()

    r = v.run(main)
    v.ensure("nobody waits for ever", not r.blocked)
    v.ensure("reconnecting does not fail", r.ok)
    for t in told:
        v.ensure("every caller is told the connection is lost", len(t) == 1 and isinstance(t[0][1], v.lib.exceptions.ConnectionLost))
    if way == "peer closes" or way.startswith("receive"):
        v.ensure("at once", v.eq(seen.get("took", 0), 0))
    else:
        v.ensure("without waiting for an answer", seen.get("took", 0) <= 11)


@contract("C13.close", cases=[(w, n, s) for w in ("open", "never opened", "refused", "peer closed") for n in (0, 1, 3) for s in (False, True) if n == 0 or w == "open"], samples=30)
def close(v, case):
    """Closing at any moment, in any state, whatever the socket says, as often as liked."""
    how, n, stuck = case
    client = K.new_client(v)
    v.patch(v.lib.client.random, "uniform", lambda a, b: a + (b - a) * v.choice("jitter", [0, 1]))
    r1, w1 = L.Reader(then="silence"), L.Writer(stall=stuck)
    w1.fail_close = v.choice("closing reports", [None, *ERRORS()])
    L.network(v, (r1, w1) if how != "refused" else OSError(111, "refused"), (L.Reader(then="silence"), L.Writer()))
    told = [[] for _ in range(n)]
    at = v.real("at", 0, 5)

    async def main():
        if how != "never opened":
            refused = []
            await anyway(client.connect(), refused)
            if how == "refused":
                v.ensure("a refused connection is reported", isinstance(refused[0][1], v.lib.exceptions.CommunicationError) and client.connected is False)
        loop = asyncio.get_running_loop()
        callers = [loop.create_task(anyway(client.send_request_and_await_response(request(v, i), timeout=60, retries=2), told[i])) for i in range(n)]
        await asyncio.sleep(at)
        if how == "peer closed":
            r1.feed_eof()
            await asyncio.sleep(0)
        start = loop.time()
        tasks = [t for t in (client.network_consumer_task, client.network_producer_task) if t is not None]
        await client.close()
        for _ in range(v.choice("closed again", [0, 1, 2])):
            await client.close()
        is_clean(v, client)
        v.ensure("the socket is let go", getattr(client, "reader", None) is None and getattr(client, "writer", None) is None)
        if n:
            await asyncio.wait(callers, timeout=1)
        v.ensure("every caller is ended at once", all(c.done() for c in callers) and v.truth(v.eq(loop.time(), start)))
        for t in tasks:
            await asyncio.wait([t], timeout=0)
            v.ensure("both loops end", t.done())
        is_clean(v, client)
        if how != "refused":
            await client.connect()
            v.ensure("it can be connected again", client.connected is True)

    r = v.run(main)
    v.ensure("closing does not fail and ends", r.ok)
    for t in told:
        v.ensure("waiting callers are cancelled or told", len(t) == 1 and isinstance(t[0][1], (asyncio.CancelledError, v.lib.exceptions.ConnectionLost)))


FAILURES = ("timeout", "lost", "communication", "mismatch", "identified")


@contract("C13.detect", cases=FAILURES, samples=20)
def detect(v, failure):
    """An identification that fails with the link leaves no half-open client; a mere mismatch leaves the link up."""
    client = K.new_client(v)
    E = v.lib.exceptions
    w1 = L.Writer(fail_close=v.choice("closing reports", [None, *ERRORS(), RuntimeError("other")]))
    L.network(v, (L.Reader(then="silence"), w1))
    errors = {"timeout": TimeoutError(), "lost": E.ConnectionLost("gone"), "communication": E.CommunicationError("bad"), "mismatch": E.PlantTopologyMismatch("changed", prior=None, actual=None)}

    async def identify(*a, **k):
        if failure in errors:
            raise errors[failure]
        return "capabilities"

    v.patch(client, "_detect", identify)
    out = []

    async def main():
        await client.connect()
        await anyway(client.detect(), out)

    v.run(main)
    v.ensure("the failure is passed on", out[0][1] is errors.get(failure))
    if failure in ("mismatch", "identified"):
        v.ensure("the link stays up", client.connected is True and w1.closed == 0)
    else:
        v.ensure("the link is closed", client.connected is False and w1.closed == 1)
