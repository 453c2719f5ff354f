"""Frozen specification of the battery reading guard (the published physics thresholds and shapes).

Indices are positions in the 60-register bank IR(60..119); ``None`` values never occur here.
"""

BASE = 60
STALE = 300  # seconds without any full bank after which the comparison is skipped
POLLS = 10  # identical / smooth polls needed to heal

SCALARS = {**{i: ("cell_mV", 300) for i in range(16)}, **{i: ("cell_temp_deci", 50) for i in (16, 17, 18, 19, 43, 44)},
           21: ("mosfet_temp_deci", 200), 20: ("v_cells_sum_mV", 1600), 40: ("soc_pct", 10), 45: ("e_total_deci", 50), 46: ("e_total_deci", 50)}
PAIRS = {22: ("v_out_mV", 4000), 24: ("cap_centiAh", 1500), 26: ("cap_centiAh", 1500), 28: ("cap_centiAh", 1500), 41: ("cap_centiAh", 1500)}
CONSTANT = (37, 38)  # number of cells, firmware
SERIAL = (50, 51, 52, 53, 54)
THRESHOLDS = {n: t for n, t in [*SCALARS.values(), *PAIRS.values()]}
SURGE_RANGE = {"cell_mV": (1000, 5000), "v_out_mV": (16000, 80000), "v_cells_sum_mV": (16000, 80000), "cap_centiAh": (0, 50000)}
CELLS = range(16)
MASS_TEMPS = (16, 17, 18, 19)


def far(v, a, b, t):
    return v.Or(a - b > t, b - a > t)


def physics(v, prev, new, present=None):
    """[(condition, (IR number, class, old, new))] of impossible movements."""
    out = []
    for i, (name, thr) in SCALARS.items():
        p = True if present is None else present[i]
        out.append((v.And(p, far(v, new[i], prev[i], thr)), (BASE + i, name, prev[i], new[i])))
    for i, (name, thr) in PAIRS.items():
        p = True if present is None else v.And(present[i], present[i + 1])
        a, b = prev[i] * 65536 + prev[i + 1], new[i] * 65536 + new[i + 1]
        out.append((v.And(p, far(v, b, a, thr)), (BASE + i, name, a, b)))
    return out


def constants(v, prev, new, present=None, idxs=CONSTANT + SERIAL):
    out = []
    for i in idxs:
        p = True if present is None else present[i]
        out.append((v.And(p, v.Not(new[i] == prev[i])), (BASE + i, "IMMUTABLE", prev[i], new[i])))
    return out


def cohort(v, frame, present=None):
    """At least two of the four cell-mass temperatures read exactly zero."""
    z = [v.And(True if present is None else present[i], frame[i] == 0) for i in MASS_TEMPS]
    return v.Or(*[v.And(z[a], z[b]) for a in range(4) for b in range(a)])


def impossible(v, frame, present=None):
    """All cells at 0 V while firmware or remaining capacity is reported."""
    p = (lambda i: True) if present is None else (lambda i: present[i])
    return v.And(*[v.And(p(i), frame[i] == 0) for i in CELLS], v.Or(*[v.And(p(i), v.Not(frame[i] == 0)) for i in (38, 28, 29)]))


def surge(v, name, value):
    """A movement of a class, to a value, that a sustained legitimate step may make."""
    if name not in SURGE_RANGE:
        return False
    lo, hi = SURGE_RANGE[name]
    return v.And(value >= lo, value <= hi)


#: the fixed words of a page the dongle substitutes for a real one (position: values); more than five of them give it away
SUBSTITUTED = {28: (0x4C32,), 30: (0xA119,), 31: (0x34EA,), 32: (0xE77F,), 33: (0xD475,), 35: (0x4500,), 40: (0xE4F9, 0xB619), 41: (0xC0A8,),
               43: (0xC0A8,), 46: (0xC5E9,), 50: (0x60EF, 0x503C), 51: (0x8018,), 52: (0x43E0,), 53: (0xF6CE,), 56: (0x080A,), 58: (0xFCC1,),
               59: (0x661E,)}


def substituted(v, values):
    n = 0
    for i, ws in SUBSTITUTED.items():
        n = n + v.If(v.Or(*[values[i] == w for w in ws]), 1, 0)
    return n > 5
