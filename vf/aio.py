"""A virtual-time event loop under the real asyncio.

The coroutines of the library run on the real asyncio (futures, tasks, queues, wait_for, gather);
only the loop underneath is replaced: ready callbacks run in order, timers fire when nothing is
ready, in order of their (possibly symbolic) due time, and nothing else ever happens by itself.
A contract decides what the outside does (peers, sockets) by scheduling its own callbacks, or by
an ``idle`` hook called whenever the library is waiting.  Trusted: asyncio itself, and that
callbacks run one at a time (it is one thread).
"""

from __future__ import annotations

import asyncio
import asyncio.events
import contextvars
import heapq  # noqa: F401

from vf import core


class Stuck(Exception):
    """Nothing is ready and no timer is pending, but the awaited coroutine has not finished."""


class Loop(asyncio.AbstractEventLoop):
    def __init__(self):
        self.now = 0.0
        self.ready = []
        self.timers = []
        self.errors = []
        self.tasks = []
        self.idle = None
        self.seq = 0
        self.steps = 0
        self._closed = False

    # -- what asyncio needs -------------------------------------------------------------
    def get_debug(self):
        return False

    def is_running(self):
        return True

    def is_closed(self):
        return False

    def time(self):
        return self.now

    def create_future(self):
        return asyncio.Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        t = asyncio.Task(coro, loop=self, name=name, context=context)
        self.tasks.append(t)
        return t

    def call_soon(self, cb, *args, context=None):
        h = asyncio.Handle(cb, args, self, context)
        self.ready.append(h)
        return h

    call_soon_threadsafe = call_soon

    def call_later(self, delay, cb, *args, context=None):
        return self.call_at(self.now + delay, cb, *args, context=context)

    def call_at(self, when, cb, *args, context=None):
        h = Timer(when, cb, args, self, context)
        self.seq += 1
        self.timers.append((when, self.seq, h))
        return h

    def call_exception_handler(self, context):
        self.errors.append(context)

    def default_exception_handler(self, context):
        self.errors.append(context)

    # -- running ---------------------------------------------------------------------------
    def _once(self):
        """Run one ready callback, or let the environment move, or advance to the next timer.  False when stuck."""
        while self.ready:
            h = self.ready.pop(0)
            if h._cancelled:
                continue
            self.steps += 1
            if self.steps > 20000:
                raise core.Budget("event loop steps") if core.CTX is not None else RuntimeError("event loop does not come to rest")
            ctx = h._context
            ctx.run(h._callback, *h._args)
            self._control()
            return True
        if self.idle is not None:
            moved = self.idle()
            self._control()
            if moved:
                return True
        live = [t for t in self.timers if not t[2]._cancelled]
        self.timers = live
        if not live:
            return False
        best = live[0]
        for t in live[1:]:
            if t[0] < best[0]:
                best = t
        self.timers.remove(best)
        if best[0] > self.now:
            self.now = best[0]
        self.ready.append(best[2])
        return True

    def _control(self):
        """Engine control flow swallowed by a task surfaces here."""
        from vf.harness import AssumeFailed

        for t in self.tasks:
            if t.done() and not t.cancelled():
                e = t._exception if not hasattr(t, "exception") else t.exception()
                if isinstance(e, (core.Control, AssumeFailed)):
                    raise e
        self.tasks = [t for t in self.tasks if not t.done()] if len(self.tasks) > 200 else self.tasks

    def drive(self, until):
        prev = asyncio.events._get_running_loop()
        asyncio.events._set_running_loop(self)
        try:
            while not until():
                if not self._once():
                    return False
            return True
        finally:
            asyncio.events._set_running_loop(prev)

    def run(self, coro, idle=None):
        """Run a coroutine to its end; Stuck when it waits for something that never comes."""
        self.idle = idle
        prev = asyncio.events._get_running_loop()
        asyncio.events._set_running_loop(self)
        try:
            task = self.create_task(coro) if asyncio.iscoroutine(coro) else asyncio.ensure_future(coro, loop=self)
        finally:
            asyncio.events._set_running_loop(prev)
        if not self.drive(task.done):
            raise Stuck()
        return task.result()

    def within(self, fn, *a, **k):
        """Call a plain function as if from a callback on this loop."""
        prev = asyncio.events._get_running_loop()
        asyncio.events._set_running_loop(self)
        try:
            return fn(*a, **k)
        finally:
            asyncio.events._set_running_loop(prev)

    def finish(self):
        """Drop whatever is left without letting it run (no warnings about pending tasks)."""
        for t in self.tasks:
            if not t.done():
                t._log_destroy_pending = False
                c = t.get_coro()
                try:
                    c.close()
                except BaseException:
                    pass
        self.ready.clear()
        self.timers.clear()


class Timer(asyncio.Handle):
    __slots__ = ("_when", "_scheduled")

    def __init__(self, when, cb, args, loop, context=None):
        super().__init__(cb, args, loop, context)
        self._when = when
        self._scheduled = True

    def when(self):
        return self._when
