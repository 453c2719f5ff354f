"""C23: repeated idle disconnects are reported once per window and no drop is lost."""

import datetime as dt
import random

from contracts import common_client as K
from contracts import common_link as L
from vf.harness import contract

EPOCH = dt.datetime(2026, 1, 1, tzinfo=dt.timezone.utc)
STATE = ("_eof_last_drop_at", "_eof_last_warn_at", "_eof_drop_count")


class Spec:
    """What is to be reported, from the drop times alone."""

    def __init__(self, window):
        self.window = window
        self.last = self.warned = None
        self.suppressed = 0

    def drop(self, now):
        """(to be reported, drops since the last report)"""
        if self.last is not None and (now - self.last).total_seconds() >= self.window:
            self.warned, self.suppressed = None, 0  # quiet for a whole window: a new burst
        self.last = now
        if self.warned is None or (now - self.warned).total_seconds() >= self.window:
            n, self.warned, self.suppressed = self.suppressed + 1, now, 0
            return True, n
        self.suppressed += 1
        return False, 0


class Log:
    """Records what is logged."""

    def __init__(self):
        self.warnings = []

    def warning(self, msg, *a, **k):
        self.warnings.append((msg, a))

    error = critical = exception = warning

    def debug(self, *a, **k):
        pass

    info = debug
    level = 30

    def isEnabledFor(self, level):
        return level >= 30


def drop(v, client, when):
    """The peer closes; what is logged as a warning."""
    log = Log()
    v.patch(v.lib.client, "_logger", log)
    client.connected, client._connection_lost = True, False
    client.reader = L.Reader()
    waiting = L.future(v, "pending")
    client.expected_responses = {hash(("a request",)): waiting}
    v.clock(when)
    r = v.run(client._task_network_consumer)
    v.ensure("the loop ends by itself", r.ok)
    v.ensure("every drop ends the connection", client.connected is False and isinstance(L.outcome(waiting), v.lib.exceptions.ConnectionLost) and not client.expected_responses)
    return log.warnings


def mentions(v, n, record):
    msg, args = record
    numbers = [a for a in args if not isinstance(a, (str, Exception))]
    if numbers:
        return v.Or(*[v.eq(a, n) for a in numbers])
    return any(w == str(n) for w in msg.replace(",", " ").split()) if not v.symbolic else v.unsupported("the number is formatted into the text")


def one(v, record):
    """A report of a single drop states no other number."""
    return v.And(*[v.eq(a, 1) for a in record[1] if not isinstance(a, (str, Exception))])


@contract("C23.drops", cases=(2, 3, 4, 5), covers=("reported", "suppressed", "new burst"), samples=300)
def drops(v, n):
    """A history of drops: each reported or counted, as the window says, and each ends the connection."""
    W = v.lib.client._EOF_REWARN_SECONDS
    client = K.new_client(v)
    spec = Spec(W)
    if not v.symbolic:
        n = n if n < 5 else v.int("drops", 1, 60)
    now = v.time("first")
    for i in range(n):
        if i:
            now = v.later(now, f"gap{i}", 0, 3 * W)
        records = drop(v, client, now)
        fresh = spec.last is None or (now - spec.last).total_seconds() >= W
        report, count = spec.drop(now)
        v.ensure("reported at most once per window", len(records) == (1 if report else 0))
        if report and records:
            v.cover("reported")
            if fresh:
                if i:
                    v.cover("new burst")
                v.ensure("a first drop is not reported as many", one(v, records[0]))
            elif count > 1:
                v.cover("counted")
                v.ensure("the report states how many drops there were since the last", mentions(v, count, records[0]))
        else:
            v.cover("suppressed")


@contract("C23.shutdown", samples=20)
def shutdown(v, _):
    """Closing on purpose is no drop: nothing is reported or counted."""
    client = K.new_client(v)
    log = Log()
    v.patch(v.lib.client, "_logger", log)
    client.reader = L.Reader()
    client._shutting_down = True
    v.clock(v.time("then"))
    r = v.run(client._task_network_consumer)
    v.ensure("ends quietly", r.ok and not log.warnings)
    client._shutting_down = False
    records = drop(v, client, v.time("later"))
    v.ensure("the next drop is the first", v.And(len(records) == 1, one(v, records[0])))


def representation(v):
    """Whether the counters are kept as the inductive step supposes (checked on sample histories)."""
    r = random.Random(7)
    for _ in range(40):
        client = K.new_client(v)
        if not all(hasattr(client, a) for a in STATE):
            return False
        spec, now = Spec(v.lib.client._EOF_REWARN_SECONDS), EPOCH
        for _ in range(r.randrange(1, 12)):
            now += dt.timedelta(seconds=r.choice([0, 1, 50, 100, 150, 200, 299, 300, 301, 700]))
            if client._note_eof_drop(now) != spec.drop(now) or tuple(getattr(client, a) for a in STATE) != (spec.last, spec.warned, spec.suppressed):
                return False
    return True


@contract("C23.step", covers=("report", "suppress"), samples=300)
def step(v, _):
    """One drop after any history: the inductive step behind C23.drops, from every state a history can leave."""
    if not v.concretely(representation, v):
        v.unsupported("the counters are kept differently; decided by C23.drops alone")
    client = K.new_client(v)
    spec = Spec(v.lib.client._EOF_REWARN_SECONDS)
    if v.bool("dropped before"):
        spec.warned = v.time("warned")
        spec.last = v.time("last")
        v.assume(spec.warned <= spec.last)
        spec.suppressed = v.int("suppressed", 0)
        for a, x in zip(STATE, (spec.last, spec.warned, spec.suppressed)):
            setattr(client, a, x)
    now = v.time("now")
    if spec.last is not None:
        v.assume(now >= spec.last)
    r = v.call(client._note_eof_drop, now)
    report, count = spec.drop(now)
    v.ensure("reported or counted as the window says", r.ok and v.truth(v.eq(r.value[0], report)) is True)
    v.cover("report" if report else "suppress")
    if report:
        v.ensure("with the exact number since the last report", v.eq(r.value[1], count))
    for a, x in zip(STATE, (spec.last, spec.warned, spec.suppressed)):
        v.ensure("and the history is kept", v.eq(getattr(client, a), x))
