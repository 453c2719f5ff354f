"""C07: the framer terminates on every stream, however chunked, keeps a bounded residue and loses no well-formed frame.

One step of the framer's loop, from an arbitrary retained buffer, is the unit of induction.  The retained
buffer and the newly received data are arbitrary consecutive pieces S[a:h], S[h:e] of an arbitrary stream S,
so every chunking and every point of the stream is covered.  ``q`` is the place of an arbitrary well-formed
frame; between it and the head of the buffer lies no plausible header (one a frame could be cut from).
"""

from contracts.common import be16
from vf.harness import contract
from vf.rt import LoopSpec

MARKER = b"\x59\x59\x00\x01"
MAX_RESIDUE = 305  # one byte less than the largest frame the header check admits (6 + 300)


def plausible_at(b, i):
    """A header at b[i:] that a frame could be cut from (concrete bytes)."""
    return b[i:i + 4] == MARKER and len(b) >= i + 8 and int.from_bytes(b[i + 4:i + 6], "big") <= 300 and b[i + 6] in (0, 1) and b[i + 7] in (1, 2)


class Decoder:
    """Stand-in for the PDU classes (their own totality is C06): any message, or any exception."""

    KINDS = ("message", "invalid_state", "invalid_frame", "value_error", "lookup", "struct")

    def __init__(self, v):
        self.v = v
        self.frames = []
        self.results = []

    def decode_bytes(self, frame):
        import struct

        ex = self.v.lib.exceptions
        kind = self.v.choice("decoding", self.KINDS)
        r = {"message": lambda: object(), "invalid_state": lambda: ex.InvalidPduState("x", None), "invalid_frame": lambda: ex.InvalidFrame("x", frame),
             "value_error": lambda: ValueError("x"), "lookup": lambda: KeyError("x"), "struct": lambda: struct.error("x")}[kind]()
        self.frames.append(frame)
        self.results.append(r)
        if kind == "message":
            return r
        raise r


def result_ok(v, got, r):
    ex = v.lib.exceptions
    if isinstance(r, Exception) and not isinstance(r, (ex.InvalidPduState, ex.InvalidFrame)):
        return isinstance(got, ex.InvalidFrame)
    return got is r


def buffer_attr(v, fr):
    names = [k for k, x in vars(fr).items() if isinstance(x, (bytes, bytearray)) and len(x) == 0]
    if len(names) != 1:
        v.unsupported("which attribute of the framer is the receive buffer?")
    return names[0]


class Step(LoopSpec):
    """The framer's loop, one iteration from an arbitrary buffer."""

    name = "framing step"
    frame_self = False

    def matches(self, site, it, loc):
        from vf import core

        return "framer" in core.ctx().ghost and site[2] == "while" and loc.get("self") is core.ctx().ghost["framer"]["fr"]

    def at_back(self, env):
        from vf import core

        g = core.ctx().ghost["framer"]
        return g["step"]()


# -- the symbolic step ----------------------------------------------------------------------

def symbolic(v, side):
    S = v.stream("stream")
    end = v.int("end", 0)
    a, h, e, q = v.int("a", 0), v.int("h", 0), v.int("e", 0), v.int("q", 0)
    v.assume(v.And(a <= h, h <= e, e <= len(S), end == len(S)))
    fr = (v.lib.framer.ClientFramer if side == "client" else v.lib.framer.ServerFramer)()
    v.ensure("decodes with the message class of its side", fr.pdu_class is (v.lib.base.ClientIncomingMessage if side == "client" else v.lib.base.ServerIncomingMessage))
    attr = buffer_attr(v, fr)
    others = {k: x for k, x in vars(fr).items() if k not in (attr, "pdu_class")}
    setattr(fr, attr, v.part(S, a, h))
    dec = fr.pdu_class = Decoder(v)
    out = []

    def word(i):
        return v.byte(S, i) * 256 + v.byte(S, i + 1)

    def marker(i):
        return v.And(*[v.byte(S, i + k) == m for k, m in enumerate(MARKER)])

    def header(i):
        return v.And(word(i + 4) <= 300, v.byte(S, i + 6) <= 1, v.byte(S, i + 7) >= 1, v.byte(S, i + 7) <= 2)

    # q: an arbitrary well-formed frame with no plausible header from the buffer's head up to it
    L = 6 + word(q + 4)
    v.assume(v.And(a <= q, q + 21 <= end, marker(q), header(q), L >= 18, *[v.Not(marker(q + k)) for k in range(1, 18)]))
    v.assume(v.Or(q == a, v.Not(v.And(marker(a), header(a)))))

    def step():
        cur = getattr(fr, attr)
        if {k: x for k, x in vars(fr).items() if k not in (attr, "pdu_class")} != others:
            v.unsupported("the framer keeps more state than its buffer")
        p, same = v.suffix_of(S, e, cur)
        obs = [("what is kept is the unconsumed end of the stream", v.And(same, a <= p, p <= e))]
        obs.append(("each frame is decoded once", len(dec.frames) == len(out) and len(out) <= 1))
        if out:
            f = dec.frames[0]
            lo, hi = v.extent_of(S, f)
            obs += [("a decoded frame has a valid header at its start", v.And(marker(lo), header(lo))),
                    ("a decoded frame is exactly as long as its header says", hi == lo + 6 + word(lo + 4)),
                    ("the buffer is advanced exactly over the decoded frame", v.And(lo == a, hi == p)),
                    ("the yielded item is the decoding result", result_ok(v, out[0], dec.results[0])),
                    ("a well-formed frame is decoded whole, and nothing in its place", v.And(q == a, p == q + L))]
            v.cover("frame")
        else:
            obs += [("a well-formed frame further on is kept", p <= q)]
            v.cover("skipped")
        obs += [("every step consumes something", p > a)]
        return obs

    v.ghost()["framer"] = {"fr": fr, "step": step}

    async def drain():
        async for item in fr.decode(v.part(S, h, e)):
            out.append(item)

    r = v.run(drain)
    # the loop was left: this is the state between two calls
    v.cover("waits for more")
    v.ensure("no exception reaches the caller", r.ok)
    v.ensure("nothing is decoded when the loop is left", len(dec.frames) == 0 and not out)
    cur = getattr(fr, attr)
    p, same = v.suffix_of(S, e, cur)
    v.ensure("what is kept is the unconsumed end of the stream", v.And(same, a <= p, p <= e))
    v.ensure("the undecoded residue is bounded", e - p <= MAX_RESIDUE)
    v.ensure("a well-formed frame further on is kept", p <= q)
    v.ensure("a complete well-formed frame is never left waiting", q + L > e)


# -- the whole stream, on the real code --------------------------------------------------------

def frame(r, sizes=None):
    n = r.choice(sizes or [12, 12, 13, 14, 19, 30, 100, 153, 298, 299, 300])
    body = bytes(r.choice([r.randrange(256), 0x59, 0, 1]) for _ in range(n - 2))
    return MARKER + be16(n) + bytes([r.choice([0, 1]), r.choice([1, 2])]) + body


def garbage(r):
    k = r.randrange(9)
    if k == 0:
        return bytes(r.randrange(256) for _ in range(r.randrange(1, 400)))
    if k == 1:
        return MARKER[:r.randrange(1, 4)]
    if k == 2:
        return MARKER * r.randrange(1, 4)
    if k == 3:
        return MARKER + be16(r.choice([301, 302, 400, 65535])) + b"\x01\x02" + bytes(r.randrange(9))
    if k == 4:
        return MARKER + be16(r.randrange(300)) + r.choice([b"\x02\x02", b"\x01\x03", b"\x00\x00", b"\xff\x01"]) + bytes(r.randrange(30))
    if k == 5:
        return frame(r)[:r.randrange(4, 12)]
    if k == 6:
        return bytes(r.choice([0x59, 0, 1]) for _ in range(r.randrange(30)))
    if k == 7:
        return MARKER + be16(r.randrange(20)) + b"\x01\x02"
    return b""


def stream(r):
    parts = []
    if r.random() < 0.12:  # the same mishap over and over
        return b"".join((garbage(r)[:60] + frame(r, [12, 13, 19, 30])) * r.randrange(6, 14) for _ in range(r.randrange(1, 3)))
    for _ in range(r.randrange(1, 7)):
        parts.append(frame(r) if r.random() < 0.6 else garbage(r))
        while r.random() < 0.15:
            parts.append(r.choice(parts))  # the same again
    if r.random() < 0.3:
        parts.append(frame(r)[:r.randrange(4, 20)])
    return b"".join(parts)


def concrete(v, side):
    S = v.stream("stream", gen=stream)
    end = len(S)
    v.int("end", 0)
    a, h, e, q = (v.int(n, 0) for n in ("a", "h", "e", "q"))
    cuts = sorted({c % (end + 1) for c in (a, h, e)} | {min(x, end) for x in (a, h, e)} | {0, end})
    k = v.int("chunk", 0, 40)
    if k:
        cuts = sorted(set(cuts) | set(range(0, end, k)))
    fr = (v.lib.framer.ClientFramer if side == "client" else v.lib.framer.ServerFramer)()
    dec = fr.pdu_class = Decoder(v)
    attr = buffer_attr(v, fr)
    out = []

    async def feed(d):
        n = 0
        async for item in fr.decode(d):
            out.append(item)
            n += 1
            if n > 4 * end + 50:
                raise RuntimeError("does not terminate")

    for lo, hi in zip(cuts, cuts[1:]):
        r = v.run(feed, S[lo:hi])
        v.ensure("no exception reaches the caller", r.ok)
        if not r.ok:
            return
        kept = bytes(getattr(fr, attr))
        v.ensure("what is kept is the unconsumed end of the stream", kept == S[hi - len(kept):hi])
        v.ensure("the undecoded residue is bounded", len(kept) <= MAX_RESIDUE)
        v.ensure("each frame is decoded once", len(out) == len(dec.frames))
    v.ensure("the yielded item is the decoding result", all(result_ok(v, o, x) for o, x in zip(out, dec.results)))
    at = 0
    for f in dec.frames:
        v.ensure("a decoded frame has a valid header at its start", plausible_at(f, 0) or (f[:4] == MARKER and len(f) < 8))
        v.ensure("a decoded frame is exactly as long as its header says", len(f) == 6 + int.from_bytes(f[4:6], "big"))
        i = S.find(f, at)
        v.ensure("decoded frames are disjoint pieces of the stream, in order", i >= 0)
        at = i + len(f)
    # reference walk: while the next plausible header is a well-formed frame, that frame is the next one decoded
    p, n = 0, 0
    while True:
        j = next((i for i in range(p, end) if plausible_at(S, i)), None)
        if j is None:
            break
        L = 6 + int.from_bytes(S[j + 4:j + 6], "big")
        if L < 18 or any(S[j + x:j + x + 4] == MARKER for x in range(1, 18)):
            break  # not a well-formed frame: no claim from here on
        if j + L > end:
            v.ensure("a well-formed frame further on is kept", end - len(kept) <= j)
            break
        v.ensure("a well-formed frame is decoded whole, and nothing in its place", n < len(dec.frames) and dec.frames[n] == S[j:j + L])
        n, p = n + 1, j + L


@contract("C07.step", cases=("client", "server"), covers=("frame", "skipped", "waits for more"), loops=(Step,), samples=400, timeout=300)
def step_unit(v, side):
    (symbolic if v.symbolic else concrete)(v, side)
