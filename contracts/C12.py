"""C12: a request is tried boundedly and always ends in its response, a timeout or a lost connection."""

import asyncio

from contracts import common_client as K
from contracts import common_link as L
from contracts import common_plant as P
from vf.harness import contract
from vf.rt import LoopSpec, SRange

# what may happen to one attempt: (again?)
AGAIN = ("silence", "error", "late answer")
FINAL = ("answer", "answered in the queue", "lost in the queue", "lost while waiting", "stuck", "full", "cancelled in the queue", "cancelled while waiting", "cancelled while full", "superseded", "superseded in the queue, cancelled", "superseded while full")


class Attempt(LoopSpec):
    """The attempts, one iteration from the state any number of earlier attempts leaves."""

    name = "attempt"
    frame_self = False

    def matches(self, site, it, loc):
        from vf import core

        g = core.ctx().ghost.get("attempt")
        if g is None or g["client"] is not loc.get("self") or site[2] not in ("while", "for") or "contract" in g:
            return False
        if site[2] == "for":  # for ... in range(...)
            if not isinstance(it, SRange):
                return False
            g["range"] = it
        g["contract"] = True
        return True

    def counter(self, env, names):
        return [n for n in names if type(env.get(n)) is int]

    def invariant(self, env):
        from vf import core
        from vf.sym import all_of

        g = core.ctx().ghost["attempt"]
        if "turns" in g:
            return [("each turn is one attempt", g["world"].sent == g["turns"]), ("no more attempts than retries allow", all_of([g["world"].sent <= g["retries"] + 1])),
                    ("no earlier attempt is still waiting", not g["world"].waiting())]
        if "counter" not in g:
            return [("no attempt has been made", g["world"].sent == 0)]
        t = env[g["counter"]]
        return [("attempts made are counted", (t - g["start"]) == g["world"].sent), ("no more attempts than retries allow", all_of([t >= g["start"], g["world"].sent <= g["retries"] + 1])),
                ("no earlier attempt is still waiting", not g["world"].waiting())]

    def havoc(self, env, names):
        from vf import core

        g = core.ctx().ghost["attempt"]
        own = self.counter(env, names)
        if len(own) != (0 if "range" in g else 1):
            g["v"].unsupported("attempts are counted differently")
        g["world"].sent = g["v"].int("attempts before", 0)
        if "range" in g:
            g["turns"] = g["world"].sent
        else:
            g["counter"], g["start"] = own[0], env[own[0]]
        if g["v"].choice("left by an attempt", ["nothing", "a done future"]) == "a done future":
            f = asyncio.get_running_loop().create_future()
            f.cancel()
            g["client"].expected_responses[g["world"].shape] = f
        if "range" in g:  # before the first turn the target is not bound; it is then not read either, as there is a turn
            return {n: g["range"].a + g["turns"] - 1 for n in names if n not in env}
        return {own[0]: g["start"] + g["world"].sent}

    def has_more(self, env):
        from vf import core

        g = core.ctx().ghost["attempt"]
        return g["range"].a + g["turns"] < g["range"].b if "range" in g else None

    def item(self, env):
        from vf import core

        g = core.ctx().ghost["attempt"]
        g["turns"] = g["turns"] + 1
        return g["range"].a + g["turns"] - 1

    def at_back(self, env):
        from vf import core

        g = core.ctx().ghost["attempt"]
        return g["world"].again()


class World:
    """Everything around one request: the transmit queue and loop, and the peer."""

    def __init__(self, v, client, request, outcomes, timeout, pause, past=False):
        self.past = past
        self.v, self.client, self.device = v, client, request.device_address
        self.outcomes, self.timeout, self.pause = list(outcomes), timeout, pause
        self.shape, self.frame = request.expected_response().shape_hash(), request.encode()
        self.sent = 0  # frames handed to the transmit loop
        self.what = self.item = self.task = self.newer = self.answer = self.sent_at = None
        self.phase = "idle"
        self.prepare()

    def prepare(self):
        if self.outcomes and "full" in self.outcomes[0]:
            while not self.client.tx_queue.full():
                self.client.tx_queue.put_nowait((b"another frame", None, None))

    def waiting(self):
        """A future of this request is registered and still waiting."""
        f = self.client.expected_responses.get(self.shape)
        return f is not None and f is not self.newer and not f.done()

    def queued(self):
        return [i for i in list(self.client.tx_queue._queue) if i[0] is self.frame or self.v.truth(self.v.eq(i[0], self.frame)) is True]

    def step(self):
        """The environment's next move, when nothing else can run.  False: only time can pass."""
        v, c = self.v, self.client
        if self.phase == "idle":
            nxt = self.outcomes[0] if self.outcomes else "silence"
            if "full" in nxt:
                if not c.tx_queue._putters:
                    return False
                self.what, self.phase = self.outcomes.pop(0), "over"
                if "superseded" in nxt:
                    self.supersede()
                if "cancelled" not in nxt:
                    return False
                self.task.cancel()
                return True
            mine = self.queued()
            if not mine:
                return False
            v.ensure("one frame per attempt", len(mine) == 1)
            self.sent = self.sent + 1
            if self.outcomes:
                self.outcomes.pop(0)
            self.what, self.item, self.phase = nxt, mine[0], "queued"
        if self.phase == "queued":
            self.phase = "over"
            if self.what == "stuck":
                return False
            if self.what == "lost in the queue":
                self.lose()
                return True
            if "cancelled" in self.what and "queue" in self.what:
                if "superseded" in self.what:
                    self.supersede()
                self.task.cancel()
                return True
            while c.tx_queue.qsize():
                c.tx_queue.get_nowait()
            if self.what == "answered in the queue":
                self.respond()
            self.item[1].set_result(True)
            self.phase, self.sent_at = "flight", v.loop.time()
            return True
        if self.phase == "flight":
            w = self.what
            self.phase = "idle" if w in AGAIN else "over"
            moves = {"answer": self.respond, "error": lambda: self.respond(True), "lost while waiting": self.lose, "cancelled while waiting": lambda: self.task.cancel(), "superseded": self.supersede}
            if w in moves:
                delay = 0.5 if self.past else v.real("delay", 0, 100)
                v.assume(delay < self.timeout)
                v.loop.call_later(delay, moves[w])
            elif w == "late answer":
                delay = v.real("late", 0, 100)
                v.assume(v.And(delay > 0, v.Or(delay < self.pause, v.eq(self.pause, 0))))
                if v.truth(self.pause > 0):
                    v.loop.call_later(self.timeout + delay, self.respond)
            self.prepare()
            return w in moves
        return False

    def respond(self, error=False):
        f = self.client.expected_responses.get(self.shape)
        if f is not None and not f.done():
            self.answer = P.read_response(self.v, "IR", self.device, 0, [1, 2], error=error)
            f.set_result(self.answer)

    def lose(self):
        self.client._abort_connection(self.v.lib.exceptions.ConnectionLost("gone"))

    def supersede(self):
        """Another caller asks the same (what the first lines of the function do)."""
        self.client.expected_responses[self.shape].cancel()
        self.newer = self.client.expected_responses[self.shape] = self.v.loop.create_future()

    def again(self):
        v = self.v
        return [("another attempt only after a timeout or an error answer", self.what in AGAIN),
                ("an attempt ends within its timeout", v.loop.time() <= self.sent_at + self.timeout + self.pause)]


def expected(outcomes, retries):
    """(frames sent, how it ends) for a history of outcomes."""
    n = 0
    for w in outcomes:
        if "full" in w:
            return n, w
        n += 1
        if w not in AGAIN:
            return n, w
        if n == retries + 1:
            break
    return retries + 1, "silence"


# how earlier requests of the same client went: they have no say
PAST = [("silence",) * 4, ("error",) * 4, ("answer",) * 2, ("silence", "answer", "error")]


@contract("C12.attempts", cases=[*((k, None) for k in (*AGAIN, *FINAL)), *((k, p) for k in ("silence", "error", "answer", "lost while waiting") for p in range(len(PAST)))], loops=(Attempt,), samples=200, timeout=200)
def attempts(v, case):
    """Whatever happens to each attempt: boundedly many, and in the end the response, a timeout or the loss of the link; nothing left pending."""
    kind, history = case
    retries = v.int("retries", 0, None if v.symbolic else 6)
    timeout, pause = v.real("timeout", 0, 100), v.real("pause", 0, 100)
    v.assume(timeout > 0)
    client = K.new_client(v)
    request = v.lib.pdu.ReadInputRegistersRequest(device_address=0x11, base_register=0, register_count=2)
    for w in () if history is None else PAST[history]:  # the same client, the same question
        past = World(v, client, request, [w], 1.0, 0.0, past=True)

        async def ask():
            return await client.send_request_and_await_response(request, timeout=1.0, retries=0, retry_delay=0.0)

        r = v.run(ask, idle=past.step)
        v.ensure("an earlier request ends, too", not r.blocked and r.ok == (w == "answer") and past.sent == 1)
    outcomes = [kind] if v.symbolic else [AGAIN[v.int(f"earlier{i}", 0, 2)] for i in range(v.int("earlier", 0, 6))] + [kind]
    stranger, another = L.future(v, "pending"), hash(("another request",))
    client.expected_responses = {another: stranger}
    world = World(v, client, request, outcomes, timeout, pause)
    before = v.choice("the same asked before", ["none", "pending", "resolved"] if history is None else ["none"])
    earlier = L.future(v, before)
    if earlier is not None:
        client.expected_responses[world.shape] = earlier
    g = {"v": v, "client": client, "world": world, "retries": retries}
    v.ghost()["attempt"] = g
    noisy = v.choice("noisy", [True, False])

    async def main():
        world.task = asyncio.current_task()
        return await client.send_request_and_await_response(request, timeout=timeout, retries=retries, retry_delay=pause, warn_timeout=noisy)

    r = v.run(main, idle=world.step)
    if v.symbolic and "contract" not in g:
        v.unsupported("no loop of the shape that the loop contract describes")
    if "contract" in g:
        end = world.what or "silence"  # silence: the loop was left without another attempt
        v.ensure("no more transmissions than one plus the retries", world.sent <= retries + 1)
    else:
        n, end = expected(outcomes, retries)
        v.ensure("as many transmissions as attempts were needed", v.eq(world.sent, n))
    v.ensure("it ends", not r.blocked)
    E = v.lib.exceptions
    if end in ("answer", "answered in the queue"):
        v.ensure("with the matching answer", r.ok and r.value is world.answer)
    elif end in ("stuck", "full", "superseded while full", *AGAIN):
        v.ensure("with a timeout", r.raised(TimeoutError) and not r.raised(E.ConnectionLost))
    elif end.startswith("lost"):
        v.ensure("with the loss of the link", r.raised(E.ConnectionLost))
    else:
        v.ensure("with the cancellation asked for", r.raised(asyncio.CancelledError))
    if end in AGAIN and world.sent_at is not None and "contract" not in g:
        v.ensure("the last attempt ends within its timeout", v.loop.time() <= world.sent_at + timeout + 1e-6)
    v.ensure("nothing of it stays pending", not world.waiting())
    v.ensure("a frame left in the queue is not transmitted any more", all(i[2].done() for i in world.queued()))
    if earlier is not None:
        v.ensure("an identical request is replaced", L.outcome(earlier) == ("cancelled" if before == "pending" else True))
    if world.newer is not None:
        v.ensure("a newer identical request goes on", client.expected_responses.get(world.shape) is world.newer and L.outcome(world.newer) == "waiting")
    if end == "stuck" or end.startswith("lost"):
        v.ensure("the link is given up", client._connection_lost and client.connected is False)
    else:
        v.ensure("other requests go on", client.expected_responses.get(another) is stranger and L.outcome(stranger) == "waiting" and not client._connection_lost)
