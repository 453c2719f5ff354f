"""Shared by the contracts on the connection: stand-ins for the two ends of the socket, and requests in every state."""

import asyncio


class Reader:
    """The receiving end: what arrives is scripted; afterwards the peer closes (or stays silent)."""

    def __init__(self, script=(), then="eof"):
        self.script = list(script)  # bytes, or exceptions to raise
        self.then = then
        self.ended = False
        self.reads = 0
        self.waiter = None

    def at_eof(self):
        return self.ended

    def feed_eof(self):
        self.ended = True
        self.wake()

    def set_exception(self, exc):
        self.wake()

    def arrive(self, x):
        self.script.append(x)
        self.wake()

    def wake(self):
        if self.waiter is not None and not self.waiter.done():
            self.waiter.set_result(None)

    async def read(self, n=-1):
        self.reads += 1
        if self.reads > 400:
            raise RuntimeError("reads for ever")
        while not self.script and self.then == "silence" and not self.ended:
            self.waiter = asyncio.get_running_loop().create_future()
            await self.waiter
        if self.script:
            x = self.script.pop(0)
            if isinstance(x, BaseException):
                raise x
            return x
        self.ended = True
        return b""


class Writer:
    """The sending end: what is sent is noted; it fails, stalls or closes as scripted."""

    def __init__(self, fail_write=None, fail_drain=None, stall=False, closes_after=None, fail_close=None):
        self.sent = []
        self.drained = 0
        self.closed = 0
        self.fail_write, self.fail_drain, self.stall, self.closes_after, self.fail_close = fail_write, fail_drain, stall, closes_after, fail_close

    def write(self, data):
        if self.fail_write is not None:
            raise self.fail_write
        self.sent.append(data)

    async def drain(self):
        self.drained += 1
        if self.fail_drain is not None:
            raise self.fail_drain
        if self.stall:
            await asyncio.get_running_loop().create_future()

    def is_closing(self):
        return self.closed > 0 or (self.closes_after is not None and len(self.sent) >= self.closes_after)

    def close(self):
        self.closed += 1

    async def wait_closed(self):
        if self.fail_close is not None:
            raise self.fail_close


STATES = ("none", "pending", "resolved", "cancelled")


def future(v, state, result=True):
    """A future somebody may be waiting for, in one of the STATES."""
    if state == "none":
        return None
    f = v.loop.create_future()
    if state == "resolved":
        f.set_result(result)
    elif state == "cancelled":
        f.cancel()
    return f


def outcome(f):
    """What became of a future: waiting, cancelled, or its exception or result."""
    if not f.done():
        return "waiting"
    if f.cancelled():
        return "cancelled"
    return f.exception() or f.result()


def socket_errors():
    return [ConnectionResetError(104, "reset"), BrokenPipeError(32, "broken pipe"), TimeoutError(110, "timed out"), ConnectionAbortedError(103, "aborted"), OSError(113, "no route to host")]


def network(v, *ends):
    """The next connections opened are these (reader, writer) pairs."""
    ends = list(ends)
    opened = []

    async def open_connection(*a, **k):
        x = ends.pop(0)
        if isinstance(x, BaseException):
            raise x
        opened.append(x)
        return x

    v.patch(asyncio, "open_connection", open_connection)
    return opened


class Answer:
    """What a request completes with, when its content does not matter."""

    error = False
