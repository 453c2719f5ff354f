"""C15: every raw register value decodes to what the register map defines, and decoding never raises."""

from contracts import spec_decode as D
from contracts import spec_models as M
from vf.harness import contract

REG = {"HR": "HR", "IR": "IR", "MR": "MR"}


def cache_of(v, regs, vals):
    c = v.lib.cache.RegisterCache()
    for (kind, idx), x in zip(regs, vals):
        if x is not None:
            c[getattr(v.lib.register, kind)(idx)] = x
    return c


def getter(v, cname):
    m = D.CLASSES[cname]["module"]
    short = {"inverter_threephase": "threephase"}.get(m, m)
    return getattr(getattr(v.lib, short), cname)


def model(v, cname):
    m = D.CLASSES[cname]["module"]
    return getattr(getattr(v.lib, {"inverter_threephase": "threephase"}.get(m, m)), cname.removesuffix("RegisterGetter"))


@contract("C15.fields", cases=[(c, n) for c in D.CLASSES for n in D.CLASSES[c]["fields"]], samples=25)
def fields(v, case):
    cname, name = case
    f = D.CLASSES[cname]["fields"][name]
    g = getter(v, cname)
    regs = f["regs"]
    vals = [v.u16(f"{k}{i}") for k, i in regs]
    missing = v.choice("missing", [None, *range(len(regs))])
    r = v.call(g(cache_of(v, regs, [None if i == missing else x for i, x in enumerate(vals)])).get, name)
    v.ensure("decoding does not raise", r.ok)
    if not r.ok:
        return
    if missing is not None:
        v.ensure("a missing register gives no value", r.value is None)
        return
    D.holds(v, f, vals, r.value)
    v.ensure("model validation keeps the value", v.typed(r.value, model(v, cname).model_fields[name].annotation))


def built(v, cname, vals):
    """A model built from registers.  The bounded run goes through pydantic; the proof applies the library's own validators to what
    the register map decoded (each field is shown above to be of a type that validation keeps)."""
    m = model(v, cname)
    c = cache_of(v, list(vals), list(vals.values()))
    if not v.symbolic:
        return v.call(m.from_register_cache, c)

    def make():
        d = getter(v, cname)(c).build()
        if hasattr(m, "_apply_field_identity"):
            d = m._apply_field_identity(d)
        return m.model_construct(**d)

    return v.call(make)


def raw_regs(v, cname, names, missing=None):
    out = {}
    for n in names:
        for k, i in D.CLASSES[cname]["fields"][n]["regs"]:
            out.setdefault((k, i), v.u16(f"{k}{i}"))
    if missing is not None:
        for k, i in D.CLASSES[cname]["fields"][missing]["regs"]:
            out[(k, i)] = None
    return out


def attr(v, m, name):
    r = v.call(getattr, m, name)
    v.ensure("reading an attribute does not raise", r.ok)
    return r.value if r.ok else None


def near(v, a, b):
    d = a - b
    return v.And(d < 0.000001, d > -0.000001)


SP, TP = "SinglePhaseInverterRegisterGetter", "ThreePhaseInverterRegisterGetter"
NONNEG = {"grid_import_power": ("p_grid_out", -1), "grid_export_power": ("p_grid_out", 1), "battery_charge_power": ("p_battery", -1),
          "battery_discharge_power": ("p_battery", 1)}


@contract("C15.split_power", cases=[(n, k) for n in NONNEG for k in ("present", "missing")], samples=20)
def split_power(v, case):
    n, k = case
    src, sign = NONNEG[n]
    r = built(v, SP, raw_regs(v, SP, [src], src if k == "missing" else None))
    v.ensure("building does not raise", r.ok)
    x, got = attr(v, r.value, src), attr(v, r.value, n)
    if k == "missing":
        v.ensure("unavailable when its source is", v.And(x is None, got is None))
        return
    v.ensure("the magnitude in its own direction, zero in the other", v.eq(got, v.If(x * sign > 0, x * sign, 0)))


ALIAS3 = {"grid_import_power": "p_meter_import", "grid_export_power": "p_meter_export", "battery_charge_power": "p_battery_charge",
          "battery_discharge_power": "p_battery_discharge"}


@contract("C15.three_phase_power", cases=[*ALIAS3, "p_battery", "e_battery_throughput"], samples=30)
def three_phase_power(v, n):
    src = {"p_battery": ("p_battery_discharge", "p_battery_charge"), "e_battery_throughput": ("e_battery_charge_total", "e_battery_discharge_total")}.get(n) or (ALIAS3[n],)
    miss = v.choice("missing", [None, *src])
    r = built(v, TP, raw_regs(v, TP, src, miss))
    v.ensure("building does not raise", r.ok)
    xs = [attr(v, r.value, s) for s in src]
    got = attr(v, r.value, n)
    if miss is not None or any(x is None for x in xs):
        v.ensure("unavailable when a source is", got is None)
    elif n in ALIAS3:
        v.ensure("the native register", v.eq(got, xs[0]))
    else:
        v.ensure("net or total of the two", near(v, got, xs[0] - xs[1] if n == "p_battery" else xs[0] + xs[1]))
        v.cover("value")


DERIVED = {
    "e_consumption_today": ("e_pv_generation_today", "e_grid_in_day", "e_grid_out_day", "e_ac_charge_today"),
    "e_self_consumption_today": ("e_pv_generation_today", "e_grid_out_day"),
    "e_self_consumption_total": ("e_pv_generation_total", "e_grid_out_total"),
}


@contract("C15.derived_energy", cases=list(DERIVED), covers=("value",), samples=40)
def derived_energy(v, n):
    src = DERIVED[n]
    miss = v.choice("missing", [None, *src])
    r = built(v, SP, raw_regs(v, SP, src, miss))
    v.ensure("building does not raise", r.ok)
    got = attr(v, r.value, n)
    xs = [attr(v, r.value, s) for s in src]
    if any(x is None for x in xs):
        v.ensure("unavailable when an input is", got is None)
        return
    v.cover("value")
    want = xs[0] + xs[1] - xs[2] - xs[3] if len(xs) == 4 else v.If(xs[0] > xs[1], xs[0] - xs[1], 0.0)
    v.ensure("the published balance of its inputs", near(v, got, want))


@contract("C15.pv_direct", covers=("value",), samples=60)
def pv_direct(v, _):
    src = ("e_pv_generation_today", "e_grid_out_day", "e_ac_charge_today", "e_battery_charge_today_alt2")
    miss = v.choice("missing", [None, *src])
    regs = raw_regs(v, SP, src, miss)
    regs[("HR", 0)], regs[("HR", 21)] = 0x2001, 449
    r = built(v, SP, regs)
    v.ensure("building does not raise", r.ok)
    got = attr(v, r.value, "e_pv_direct_today")
    xs = [attr(v, r.value, s) for s in src]
    if any(x is None for x in xs):
        v.ensure("unavailable when an input is", got is None)
        return
    v.cover("value")
    pv, out, ac, bat = xs
    to_bat = v.If(bat > ac, bat - ac, 0.0)
    v.ensure("sunlight used directly", near(v, got, v.If(pv - out - to_bat > 0, pv - out - to_bat, 0.0)))


@contract("C15.identity", cases=[(w, f) for w in ("today", "total", "strings1", "strings2", "undetermined") for f in range(16)], samples=20)
def identity(v, case):
    """Which registers carry PV figures follows from the model; nothing is invented and nothing appears twice."""
    what, fam = case
    dtc, fw = fam * 4096 + v.int("HR0.low", 0, 4095), v.u16("HR21")
    names = {"strings1": ["v_pv1", "i_pv1"], "strings2": ["v_pv2", "i_pv2"]}.get(what, [f"e_pv_generation_{what if what in ('today', 'total') else 'today'}"])
    regs = raw_regs(v, SP, names)
    raw = v.call(getter(v, SP)(cache_of(v, list(regs), list(regs.values()))).get, names[0]).value
    if what == "undetermined":
        side = v.choice("unread", ["HR0", "HR21"])
        regs[("HR", 0)], regs[("HR", 21)] = (None, fw) if side == "HR0" else (dtc, None)
        moved = False
    else:
        regs[("HR", 0)], regs[("HR", 21)] = dtc, fw
        moved = M.either(v, M.conditions(v, dtc, fw), M.IR44_IS_OUTPUT)
    r = built(v, SP, regs)
    v.ensure("building does not raise", r.ok)
    if what.startswith("strings"):
        for n in names:
            got, x = attr(v, r.value, n), v.call(getter(v, SP)(cache_of(v, list(regs), list(regs.values()))).get, n).value
            if got is None:
                v.ensure("string readings kept elsewhere", v.Or(moved, x is None))
            else:
                v.ensure("no string reading on AC-metered models", v.Not(moved))
                v.ensure("with its value", v.eq(got, x))
        return
    t = "total" if what == "total" else "today"
    a, b = attr(v, r.value, f"e_pv_generation_{t}"), attr(v, r.value, f"e_inverter_out_{t}")
    if raw is None:
        v.ensure("nothing read, nothing reported", v.And(a is None, b is None))
    elif a is None:
        v.ensure("moved to inverter output on exactly the listed models", moved)
        v.ensure("with its value", v.eq(b, raw))
    else:
        v.ensure("PV elsewhere", v.Not(moved))
        v.ensure("with its value", v.And(v.eq(a, raw), b is None))


@contract("C15.battery_energy", cases=[(d, t, f) for d in ("charge", "discharge") for t in ("today", "total") for f in range(16)], samples=20)
def battery_energy(v, case):
    d, t, fam = case
    dtc, fw = fam * 4096 + v.int("HR0.low", 0, 4095), v.u16("HR21")
    src = [f"e_battery_{d}_{t}_alt1", f"e_battery_{d}_{t}_alt2"]
    src = [s for s in src if s in D.CLASSES[SP]["fields"]]
    regs = raw_regs(v, SP, src)
    regs[("HR", 0)], regs[("HR", 21)] = dtc, fw
    r = built(v, SP, regs)
    v.ensure("building does not raise", r.ok)
    got = attr(v, r.value, f"e_battery_{d}_{t}")
    table = M.ENERGY_TODAY if t == "today" else M.ENERGY_TOTAL
    conds = M.conditions(v, dtc, fw)
    listed = {a: M.either(v, conds, [n for n, x in table.items() if x == a]) for a in ("alt1", "alt2")}
    for a in ("alt1", "alt2"):
        n = f"e_battery_{d}_{t}_{a}"
        if n in src:
            x = attr(v, r.value, n)
            v.ensure("the register declared for the model", v.Or(v.Not(listed[a]), got is x if got is None or x is None else v.eq(got, x)))
    v.ensure("no figure for other models", v.Or(got is None, listed["alt1"], listed["alt2"]))


@contract("C15.capacity", cases=[SP, TP], samples=60)
def capacity(v, cname):
    dtc, ah = v.u16("HR0"), v.u16("HR55")
    have = v.choice("have", ["both", "HR0", "HR55"])
    r = built(v, cname, {("HR", 0): dtc if have != "HR55" else None, ("HR", 55): ah if have != "HR0" else None})
    v.ensure("building does not raise", r.ok)
    got = attr(v, r.value, "battery_capacity_kwh")
    fam = dtc // 4096
    if got is None:
        v.ensure("unavailable only when an input is", v.Or(have != "both", fam < 2, fam > 8))
        return
    v.ensure("inputs present", have == "both")
    volts = v.If(fam == 8, 307.0, v.If(v.Or(fam == 4, fam == 6), 76.8, 51.2))
    a = attr(v, r.value, "battery_capacity_ah")
    v.ensure("amp hours at the model's nominal voltage", near(v, got, a * volts / 1000))


@contract("C15.battery_wh", cases=["nominal", "measured"], covers=("value",), samples=60)
def battery_wh(v, kind):
    c = "BatteryRegisterGetter"
    src = ("cap_remaining", "num_cells", "v_out")
    miss = v.choice("missing", [None, *src])
    r = built(v, c, raw_regs(v, c, src, miss))
    v.ensure("building does not raise", r.ok)
    got = attr(v, r.value, f"remaining_energy_{kind}_wh")
    cap, cells, vo = (attr(v, r.value, s) for s in src)
    volts = vo
    if kind == "nominal" and cells is not None and cells != 0:
        volts = cells * 3.2
    if cap is None or volts is None:
        v.ensure("unavailable when an input is", got is None)
        return
    v.cover("value")
    d = got - cap * volts
    v.ensure("charge times voltage, in whole Wh", v.And(got is not None, d <= 0.500001, d >= -0.500001))


@contract("C15.cells", cases=[("hv_bcu", "Bmu", i) for i in range(24)] + [("aio_battery", "AioBatteryModule", i) for i in range(24)], samples=30)
def cells(v, case):
    """The module decode that the library really uses agrees with the map on every cell, temperature and the serial."""
    mod, cname, i = case
    c = cname + "RegisterGetter"
    names = [f"v_cell_{i + 1:02d}", f"t_cell_{i + 1:02d}"] + (["serial_number"] if i == 0 else [])
    regs = raw_regs(v, c, names)
    missing = v.choice("missing", [None, *sorted(regs)[:4]])
    if missing is not None:
        regs[missing] = None
    cache = cache_of(v, list(regs), list(regs.values()))
    if v.symbolic:
        r = v.call(v.lib.hv_bcu.decode_cells_temps_serial, cache, base=0)
        get = (lambda n: r.value[n])
    else:
        m = getattr(getattr(v.lib, mod), cname)
        r = v.call(m.from_register_cache, cache, 0x50)
        get = (lambda n: getattr(r.value, n))
    v.ensure("decoding does not raise", r.ok)
    if not r.ok:
        return
    for n in names:
        f = D.CLASSES[c]["fields"][n]
        xs = [regs[tuple(k)] for k in f["regs"]]
        if any(x is None for x in xs):
            v.ensure("a missing register gives no value", get(n) is None)
        else:
            D.holds(v, f, xs, get(n))


@contract("C15.dump", cases=list(D.CLASSES), samples=60, bounded="pydantic's compiled core is outside the verifier: random register contents")
def dump(v, cname):
    """The whole pipeline on arbitrary register contents: build, validate and dump every attribute."""
    regs = sorted({(k, i) for f in D.CLASSES[cname]["fields"].values() for k, i in f["regs"]})
    style = v.choice("style", ["any", "small", "edge", "zero"])
    m = model(v, cname)
    vals = {}
    for k, i in regs:
        if style == "zero":
            vals[(k, i)] = 0
        elif style == "small":
            vals[(k, i)] = v.int(f"{k}{i}", 0, 60)
        elif style == "edge":
            vals[(k, i)] = v.choice(f"{k}{i}", [0, 1, 32767, 32768, 65535, None])
        else:
            vals[(k, i)] = v.u16(f"{k}{i}")
    c = cache_of(v, list(vals), list(vals.values()))
    r = v.call(m.from_register_cache, c, *([0] if cname in ("AioBatteryModuleRegisterGetter",) else []))
    v.ensure("building does not raise", r.ok)
    d = v.call(r.value.model_dump) if r.ok else r
    v.ensure("dumping does not raise", d.ok)
    if r.ok and hasattr(r.value, "is_valid"):
        v.ensure("the presence test does not raise", v.call(r.value.is_valid).ok)
    # after one register changed: as a store that always held these values
    (k, i), x = v.choice("changed", regs), v.u16("changed to")
    c[getattr(v.lib.register, k)(i)] = x
    args = [0] if cname in ("AioBatteryModuleRegisterGetter",) else []
    a, b = v.call(m.from_register_cache, c, *args), v.call(m.from_register_cache, v.lib.cache.RegisterCache(dict(c)), *args)
    v.ensure("decoded as the registers are now", a.ok and b.ok and repr(a.value.model_dump()) == repr(b.value.model_dump()))


# fields whose place in the model follows from the model identity (decided by C15.identity, C15.battery_energy)
MOVED = ("e_pv_generation_today", "e_pv_generation_total", "e_inverter_out_today", "e_inverter_out_total", "v_pv1", "v_pv2", "i_pv1", "i_pv2")


@contract("C15.again", cases=[(c, n) for c in D.CLASSES for n in [*D.CLASSES[c]["fields"]][:: max(1, len(D.CLASSES[c]["fields"]) // 5)]], samples=4)
def again(v, case):
    """The same store decoded again after its registers changed: the registers as they are now, nothing remembered."""
    cname, name = case
    f = D.CLASSES[cname]["fields"][name]
    g, m = getter(v, cname), model(v, cname)
    regs = f["regs"]
    first = [v.u16(f"first {k}{i}") for k, i in regs]
    then = [v.u16(f"then {k}{i}") for k, i in regs]
    how = v.choice("how", ["overwritten", "removed", "another store"])
    address = (0x50,) if cname.startswith(("Bmu", "AioBatteryModule")) else ()
    c = cache_of(v, regs, first)
    kept = g(c)
    before = [v.call(kept.get, name)] + ([] if v.symbolic else [v.call(m.from_register_cache, c, *address)])
    v.ensure("decoding does not raise", all(r.ok for r in before))
    if how == "removed":
        then[0] = None
        c.pop(getattr(v.lib.register, regs[0][0])(regs[0][1]))
    for (kind, idx), x in list(zip(regs, then))[how == "removed":]:
        c[getattr(v.lib.register, kind)(idx)] = x
    if how == "another store":
        c = cache_of(v, regs, then)
        kept = g(c)
    got = [v.call(kept.get, name), v.call(g(c).get, name)]
    if not v.symbolic and name not in MOVED:
        r, x = v.call(lambda: getattr(m.from_register_cache(c, *address), name)), got[1].value
        v.ensure("and so does the model", r.ok and r.value in (x, getattr(x, "value", x)))
    for r in got:
        v.ensure("decoding again does not raise", r.ok)
        if how == "removed":
            v.ensure("a register no longer there gives no value", r.value is None)
        else:
            D.holds(v, f, then, r.value)
