"""C17: saved register state restores exactly."""

import sys

from vf.harness import contract
from vf.rt import LoopSpec
from vf.sym import SInt

KINDS = ("HR", "IR", "MR")


def registers(v, kinds, values=True):
    """[(register, whether present, value)]: distinct registers with any value, None being 'unset'."""
    out = []
    for i, k in enumerate(kinds):
        R = getattr(v.lib.register, k)
        n = v.int(f"index{i}", 0, 65535)
        for r, _, _ in out:
            if type(r) is R:
                v.assume(v.Not(v.eq(r._idx, n)))
        out.append((R(n), v.bool(f"present{i}"), v.opt_int(f"value{i}", 0, 65535)))
    return out


def same_store(v, got, want, note):
    """The store holds exactly the entries of ``want`` that are present."""
    for r, here, value in want:
        v.ensure(f"{note}: a saved register is there again, no other is", v.eq(r in got, here))
        v.ensure(f"{note}: with the same value", v.Implies(here, v.eq(got.get(r), value)))


@contract("C17.json", cases=[("HR",), ("IR",), ("MR",), ("HR", "HR"), ("HR", "IR"), ("IR", "MR"), ("MR", "HR", "IR")], samples=40)
def json_text(v, kinds):
    """The JSON form, written and read back."""
    Cache = v.lib.cache.RegisterCache
    entries = registers(v, kinds)
    store = v.store(entries)
    r = v.call(store.json)
    v.ensure("any store can be saved", r.ok)
    back = v.call(Cache.from_json, r.value)
    v.ensure("and loaded", back.ok)
    same_store(v, back.value, entries, "json")
    v.ensure("nothing else appears", len(back.value) <= len(kinds))
    same_store(v, store, entries, "the store saved stays")


# what a member of the document may look like: (key text, whether it names the register)
KEYS = {
    "T(n)": lambda t, n: (f"{t}({n})", True), "T:n": lambda t, n: (f"{t}:{n}", True),
    "truncated": lambda t, n: (f"{t}({n}", False), "no number": lambda t, n: (f"{t}()", False), "other kind": lambda t, n: (f"X{t}({n})", False),
    "no kind": lambda t, n: (f"({n})", False), "no separator": lambda t, n: (f"{t}{n}", False), "more after": lambda t, n: (f"{t}({n})x", False),
    "nested": lambda t, n: (f"{t}({n}(1))", False), "a word": lambda t, n: (f"{t}(n)", False), "fraction": lambda t, n: (f"{t}({n}.5)", False),
    "wrong bracket": lambda t, n: (f"{t}({n}]", False), "colon and bracket": lambda t, n: (f"{t}:{n})", False), "empty": lambda t, n: ("", False),
    "lower case": lambda t, n: (f"{t.lower()}({n})", False), "two colons": lambda t, n: (f"{t}:{n}:1", False),
}
# (value, whether it is a register value)
VALUES = {
    "word": lambda v: (v.int("word", 0, 65535), True), "unset": lambda v: (None, True),
    "negative": lambda v: (v.int("negative", -70000, -1), False), "too big": lambda v: (v.int("too big", 65536, 1 << 40), False),
    "half": lambda v: (1.5, False), "true": lambda v: (True, False), "false": lambda v: (False, False), "text": lambda v: ("5", False),
    "array": lambda v: ([], False), "object": lambda v: ({}, False), "store": lambda v: ({"HR(9)": 3}, False), "infinite": lambda v: (float("inf"), False),
    "nan": lambda v: (float("nan"), False),
}


@contract("C17.member", cases=[(k, x) for k in KEYS for x in VALUES if k in ("T(n)", "T:n") or x in ("word", "unset", "store")], samples=12)
def member(v, case):
    """A document with one member of any form: it is loaded as it reads or skipped, and the other members are as they were."""
    key, val = case
    Cache, L = v.lib.cache.RegisterCache, v.lib.register
    kind = v.choice("kind", KINDS if key in ("T(n)", "T:n") else KINDS[:1])
    other = v.choice("other kind", [kind, KINDS[kind == "HR"]])
    n, m, held = v.int("index", 0, 65535), v.int("other index", 0, 65535), v.opt_int("held", 0, 65535)
    text, named = KEYS[key](kind, n)
    value, fits = VALUES[val](v)
    target, witness = getattr(L, kind)(n), getattr(L, other)(m)
    members = [(text, value), (f"{other}({m})", held)]
    if v.choice("first", [True, False]):
        members.reverse()
    if kind == other:
        v.assume(v.Not(v.eq(n, m)))
    r = v.call(Cache.from_json, v.document(members))
    v.ensure("the document loads", r.ok)
    got, loads = r.value, named and fits
    if loads:
        v.ensure("a well-formed member is loaded as written", v.And(target in got, v.eq(got.get(target), value)))
    v.ensure("the other members are as written", v.And(witness in got, v.eq(got.get(witness), held)))
    v.ensure("nothing else appears", len(got) == (2 if loads else 1))


@contract("C17.refused", cases=["[]", "[1]", '[["a", "b"]]', '["ab"]', '""', '"ab"', "null", "1", "true", "{", "", '{"HR(1)": 1', '{"HR(1)" 1}', "{'HR(1)': 1}", '{"HR(1)": 1} x'], samples=1)
def refused(v, text):
    """A text that is no JSON object is refused."""
    v.ensure("refused", v.call(v.lib.cache.RegisterCache.from_json, text).raised(ValueError))


GRID = 60
# register numbers as they may lie: single, runs, gaps, across the row boundary, far up
LAYOUTS = {
    "none": (), "one": (0,), "run": (3, 4, 5), "gaps": (0, 2, 4, 5, 9), "boundary": (58, 59, 60, 61), "apart": (7, 1000, 65535),
    "block": tuple(range(120, 180)), "two blocks": tuple(range(60, 180)), "spans": (*range(40, 80), 90), "top": (65519, 65520, 65534, 65535),
}


@contract("C17.compact", cases=[(a, b) for a in LAYOUTS for b in ("none", "gaps", "boundary")], samples=20)
def compact(v, case):
    """The hex form of any two devices' stores, written and read back: every value, whatever is known."""
    lib, L = v.lib.cache, v.lib.register
    first, second = (LAYOUTS[c] for c in case)
    banks = v.choice("banks", [("HR", "IR"), ("IR", "MR"), ("MR", "HR")])
    d1, d2 = v.choice("devices", [(0x11, 0x32), (0x32, 0x01), (0x00, 0xFF), (0x100, 0x11)])
    values, unset = {}, v.choice("unset", [0, 1, 2])  # how many registers are there, but unset
    for d, layouts in ((d1, ((banks[0], first), (banks[1], second))), (d2, ((banks[0], second),))):
        values[d] = {getattr(L, b)(i): v.u16(f"{d} {b}{i}") for b, layout in layouts for i in layout}
    stores = {d: lib.RegisterCache(x) for d, x in values.items()}
    for i in range(unset):
        stores[d1][getattr(L, banks[0])(200 + i)] = None
    r = v.call(lib.to_compact, stores)
    v.ensure("any stores can be saved", r.ok)
    back = v.call(lib.parse_compact, r.value)
    v.ensure("and loaded", back.ok)
    v.ensure("the devices with a value are there", sorted(back.value) == sorted(d for d in values if values[d]))
    for d, want in values.items():
        got = back.value.get(d, {})
        v.ensure("the same registers", got.keys() == want.keys())
        v.ensure("with the same values", v.And(*[v.eq(got[k], want[k]) for k in want]))


def roles(fn):
    """Which locals hold the rows formed, and the first and the last register of the row being formed: seen from an example."""
    out = {"rows": set(), "base": set(), "prev": set()}
    name = fn.__module__

    def trace(frame, event, arg):
        if frame.f_globals.get("__name__") != name:
            return None
        if event == "return" and not frame.f_code.co_freevars:
            for n, x in frame.f_locals.items():
                if isinstance(x, list) and list(x) in ([(1, 1)], [(1, 1), (5, 2)]):
                    out["rows"].add(n)
                elif x == 5:
                    out["base"].add(n)
                elif x == 6:
                    out["prev"].add(n)
        return trace

    old = sys.gettrace()
    sys.settrace(trace)
    try:
        fn([1, 5, 6])
    finally:
        sys.settrace(old)
    return out


class Rows(LoopSpec):
    """Forming rows: one more register, above all before it, from any state reached.

    Ghost state: whether the rows already closed hold an arbitrary register ``w``, and whether ``w`` was among the registers so far."""

    name = "rows"
    frame_self = False

    def matches(self, site, it, loc):
        from vf import core

        g = core.ctx().ghost.get("rows")
        if site[2] != "for" or g is None or hasattr(it, "__next__") or g.get("matched"):
            return False
        found = {role: [n for n in names if n in loc] for role, names in g["roles"].items()}
        if any(len(n) != 1 for n in found.values()):
            return False
        g["names"] = {role: n[0] for role, n in found.items()}
        return isinstance(loc[g["names"]["rows"]], list) and all(isinstance(loc[g["names"][n]], (int, SInt)) for n in ("base", "prev"))

    @staticmethod
    def ghost():
        from vf import core

        return core.ctx().ghost["rows"]

    def get(self, env, role):
        return env[self.g["names"][role]]

    def held(self, env):
        v, g = self.v, self.g
        closed = [v.And(b <= g["w"], g["w"] < b + n) for b, n in self.get(env, "rows")]
        return [g["closed"], *closed], v.And(self.get(env, "base") <= g["w"], g["w"] <= self.get(env, "prev"))

    def invariant(self, env):
        self.g = g = self.ghost()
        self.v = v = g["v"]
        g["matched"] = True
        closed, current = self.held(env)
        once = v.And(*[v.Not(v.And(a, b)) for i, a in enumerate([*closed, current]) for b in [*closed, current][:i]])
        return [
            ("the row being formed is within one line of the grid", v.And(0 <= self.get(env, "base"), self.get(env, "base") <= self.get(env, "prev"), self.get(env, "base") // GRID == self.get(env, "prev") // GRID)),
            ("rows closed are below it", v.And(*[v.Implies(c, g["w"] < self.get(env, "base")) for c in closed])),
            ("a register is in one row if it was seen and in none otherwise", v.And(once, v.eq(g["seen"], v.Or(*closed, current)))),
            ("a closed row is not empty, and within one line of the grid", v.And(*[v.And(n >= 1, b // GRID == (b + n - 1) // GRID) for b, n in self.get(env, "rows")])),
        ]

    def havoc(self, env, names):
        v, g = self.v, self.g
        g["closed"], g["seen"] = v.bool("closed rows hold it"), v.bool("seen so far")
        return {g["names"]["base"]: v.int("row base", 0, 65535), g["names"]["prev"]: v.int("last register", 0, 65535)}

    def item(self, env):
        v, g = self.v, self.g
        n = v.int("next register", 0, 65535)
        v.assume(n > self.get(env, "prev"))
        g["seen"] = v.Or(g["seen"], v.eq(n, g["w"]))
        v.cover("one more")
        return n


@contract("C17.rows", cases=["any"], loops=(Rows,), covers=("done",), samples=400)
def rows(v, _):
    """Any registers, in order, are split into rows that hold each of them once and nothing else, none across the grid."""
    blocks = v.lib.cache._compact_blocks
    if v.symbolic:
        some, w = [v.int("first", 0, 65534)], v.int("w", 0, 65535)
        v.ghost()["rows"] = g = {"v": v, "w": w, "closed": False, "seen": v.eq(some[0], w), "roles": roles(blocks)}
        some.append(65535)
    else:
        some = sorted({v.int(f"near {i}", 0, 300) for i in range(v.int("how many near", 0, 200))} | {v.int(f"register {i}", 0, 65535) for i in range(v.int("how many", 0, 40))})
        g = {}
    r = v.call(blocks, some)
    v.ensure("it ends", r.ok)
    got = list(r.value)
    v.ensure("no row is empty or crosses the grid", v.And(*[v.And(n >= 1, b // GRID == (b + n - 1) // GRID) for b, n in got]))
    v.cover("done")
    if g.get("matched"):
        inside = [g["closed"], *[v.And(b <= g["w"], g["w"] < b + n) for b, n in got]]
        v.ensure("a register is in a row if and only if it was given", v.eq(g["seen"], v.Or(*inside)))
        v.ensure("never in two", v.And(*[v.Not(v.And(a, b)) for i, a in enumerate(inside) for b in inside[:i]]))
    elif v.symbolic:
        v.unsupported("the loop that forms rows is not of the shape that the loop contract describes")
    else:
        v.ensure("the rows hold the registers, in order", [b + i for b, n in got for i in range(n)] == some)


def words(v, name, n):
    xs = [v.u16(f"{name} {i}") for i in range(n)]
    return xs, "".join([f"{x:04x}" for x in xs])


# lines of a dump that hold no row: what people paste along, and damaged rows; {h} is four digits of a value, {n} a register number
JUNK = (
    "", "# 10.0.0.1:8899", "Probing HR(0,60)", "HR(0,60) ..", "0x32", "0x32:HR(0,1)", "0x32:XR(0,1) {h}", "0x32:HR(0,2) {h}", "0x32:HR(0,1) {h}0", "0x32:HR(0,1) {h}{h}",
    "0x32:HR(0,1)", "0x32:HR(0,1){h}", "0x32:HR(0;1) {h}", "32:HR(0,1) {h}", "0x:HR(0,1) {h}", "0x32:HR(,1) {h}", "0x32:HR(0,) {h}", "0x32:HR(-1,1) {h}", "0x32:HR(0,1) g{h}",
    "0x32:HR(0,1) {h} {h}", "0x32:HR(0,1) {h} #", "x0x32:HR(0,1) {h}", "0x32:hr(0,1) {h}", "0x32:HR(0,1): {h}", "0x32 HR(0,1) {h}", "HR(0,1): {h}", "0xg2:HR(0,1) {h}", "0x32:HR(0,1.0) {h}", "{h}", "{h}{h}",
)


@contract("C17.lines", cases=[(j, p) for j in JUNK for p in ("before", "after", "both")], samples=10)
def lines(v, case):
    """Lines that are no row do not alter what the rows give."""
    junk, place = case
    xs, digits = words(v, "value", 3)
    bank, device, base = v.choice("bank", KINDS), v.choice("device", [0x32, 0x11, 0]), v.choice("base", [0, 59, 60, 4000, 65533])
    _, h = words(v, "stray", 1)
    stray = "".join([h if x == "{h}" else x for x in __import__("re").split(r"(\{h\})", junk)])
    row = f"0x{device:02x}:{bank}({base},3) {digits}"
    end = v.choice("line end", ["\n", "\r\n"])
    text = end.join([*([stray, "#"] if place != "after" else []), row, *([stray] if place != "before" else []), ""])
    r = v.call(v.lib.cache.parse_compact, text)
    v.ensure("a dump loads", r.ok)
    v.ensure("one device is known", list(r.value) == [device])
    R = getattr(v.lib.register, bank)
    want = {R(base + i): x for i, x in enumerate(xs)}
    got = r.value[device]
    v.ensure("the registers of the row, and no other", got.keys() == want.keys())
    v.ensure("have its values", v.And(*[v.eq(got[k], want[k]) for k in want]))


@contract("C17.reflowed", cases=[(n, how) for n in (1, 2, 5) for how in ("one line", "two lines", "three lines", "by value", "blank between", "cut short", "cut short, then a row", "legacy", "legacy, two headers", "legacy, reflowed", "no header")], samples=20)
def reflowed(v, case):
    """A row reflowed over lines, and the older layout, read as the one line would; a row cut short is skipped and the next still read."""
    n, how = case
    xs, digits = words(v, "value", n)
    bank, device, base = v.choice("bank", KINDS), v.choice("device", [0x32, 0x11, 0]), v.choice("base", [0, 59, 4000])
    ys, more = words(v, "other value", 1)
    a = v.choice("first cut", [0, 1, 2, 4][: 3 if n == 1 else 4])
    b = v.choice("second cut", [len(digits) - 1, len(digits) - 4][: 1 if n < 3 else 2])
    head, last, lost = f"0x{device:02x}:{bank}({base},{n}) ", f"0x{device:02x}:{bank}(60000,1) {more}", False
    old = f"{bank}({base},{n}): "
    title = f"# {bank} probe @ device 0x{device:02x} (10.0.0.1)"
    if how == "one line":
        ls = [head + digits]
    elif how == "two lines":
        ls = [head + digits[:a], digits[a:]]
    elif how == "three lines":
        ls = [head + digits[:a], digits[a:b], digits[b:]] if a else [head + digits[:b], digits[b:]]
    elif how == "by value":
        ls = [head + digits[:4], *[digits[i : i + 4] for i in range(4, len(digits), 4)]]
    elif how == "blank between":
        ls, lost = [head + digits[:b], "", digits[b:]], True
    elif how == "cut short":
        ls, lost = [head + digits[:b], "# end"], True
    elif how == "cut short, then a row":
        ls, lost = [head + digits[:b]], True
    elif how == "legacy":
        ls = [title, old + digits]
    elif how == "legacy, two headers":
        ls = ["# IR probe @ device 0x77", title, old + digits]
    elif how == "legacy, reflowed":
        ls = [title, old + digits[:b], digits[b:]]
    else:
        ls, lost = [old + digits], True
    r = v.call(v.lib.cache.parse_compact, "\n".join([*ls, last]))
    v.ensure("a dump loads", r.ok)
    R = getattr(v.lib.register, bank)
    want = {R(60000): ys[0], **({} if lost else {R(base + i): x for i, x in enumerate(xs)})}
    v.ensure("one device is known", list(r.value) == [device])
    got = r.value[device]
    v.ensure("the registers written, and no other", got.keys() == want.keys())
    v.ensure("have the values written", v.And(*[v.eq(got[k], want[k]) for k in want]))


@contract("C17.again", cases=["json", "compact", "other store"], samples=60)
def again(v, form):
    """Saved again after it changed, a store is saved as it is now; a text loaded again is loaded as it reads, whatever became of the first."""
    lib, L = v.lib.cache, v.lib.register
    keys = [getattr(L, k)(i) for k, i in (("HR", 4), ("HR", 5), ("IR", 70))]
    store = lib.RegisterCache({k: v.u16(f"before {k._idx}") for k in keys})

    def save(s):
        return s.json() if form != "compact" else lib.to_compact({0x32: s})

    def load(text):
        return lib.RegisterCache.from_json(text) if form != "compact" else lib.parse_compact(text)[0x32]

    def holds(back, want, note):
        v.ensure(f"{note}: loads", back.ok)
        v.ensure(f"{note}: the same registers", back.value.keys() == want.keys())
        v.ensure(f"{note}: with the same values", v.And(*[v.eq(back.value[k], want[k]) for k in want]))

    old = dict(store)
    first = v.call(save, store)
    v.ensure("any store can be saved", first.ok)
    if form == "other store":  # as many registers, the same ones
        store = lib.RegisterCache(old)
    new = {k: v.u16(f"after {k._idx}") for k in keys}
    change = v.choice("change", ["a value", "every value", "a register instead", "a register more", "a register less"])
    if change == "a register instead":
        del store[keys[1]]
        new = {keys[0]: new[keys[0]], L.HR(6): new[keys[1]], keys[2]: new[keys[2]]}
    elif change == "a value":
        new = {**old, keys[2]: new[keys[2]]}
    elif change == "a register more":
        new[L.HR(9)] = v.u16("more")
    elif change == "a register less":
        del store[keys[2]]
        del new[keys[2]]
    for k in new:
        store[k] = new[k]
    second = v.call(save, store)
    v.ensure("any store can be saved", second.ok)
    holds(v.call(load, second.value), new, "saved again")
    back = v.call(load, first.value)
    holds(back, old, "the text saved first")
    back.value[keys[0]] = v.u16("edited")
    back.value.pop(keys[2])
    holds(v.call(load, first.value), old, "the same text again")
