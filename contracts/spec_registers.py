"""Reviewed write lists (specification data, transcribed from the documented app control surface)."""

# user-level controls the GivEnergy app exposes
REVIEWED_ORDINARY = frozenset({
    20, 27, 29, 31, 32, 35, 36, 37, 38, 39, 40, 44, 45, 50, 56, 57, 59, 94, 95, 96, 104, 110, 111, 112, 114,
    116, 163, 166, 172, 199, 246, 247, 249, 250, 252, 253, 255, 256, 258, 259, 261, 262, 264, 265, 267, 268,
    276, 277, 279, 280, 282, 283, 285, 286, 288, 289, 291, 292, 294, 295, 297, 298, 299, 311, 313, 314, 317,
    318, 319, 320, 331, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570,
    571, 572, 573, 1005, 1078, 1108, 1109, 1110, 1111, 1112, 1113, 1114, 1115, 1116, 1118, 1119, 1120, 1121,
    1122, 1123, 2040, 2044, 2045, 2046, 2047, 2048, 2049, 2050, 2051, 2052, 2053, 2054, 2055, 2056, 2057,
    2058, 2059, 2060, 2061, 2062, 2063, 2064, 2065, 2066, 2067, 2068, 2069, 2070, 2071, 5010, 5014,
})

# installer-login controls
REVIEWED_INSTALLER = frozenset({
    63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 101, 102, 115, 162,
    174, 201, 300, 302, 303, 305, 306, 307, 308, 309, 310, 312, 315, 316, 321, 322, 323, 324, 325, 326, 327,
    328, 329, 330, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349,
    350, 351, 540, 541, 542, 543, 544, 545, 546, 547, 548, 552, 553, 1016, 1048, 1063, 1077, 1081, 1082, 1083,
    1084, 1085, 1086, 1087, 1102, 1103, 1125, 1126, 1127, 1128, 1129, 1130, 1131, 1144, 1149, 1156, 1158,
    1159, 1160, 1161, 1162, 1163, 1164, 1165, 4001, 5002, 5003, 5004, 5005, 5006, 5007, 5008, 5009, 5011,
    5012, 20000, 20001, 20002, 20003, 20020, 20021, 20050, 20051,
})

# AC grid protection limits/times and the 10-minute average
GRID_PROTECTION = frozenset(range(63, 84))
# import limits, anti-islanding
GRID_SAFETY = frozenset({101, 102, 115})
# irreversible actions
DESTRUCTIVE = frozenset({162, 1016, 5003, 5004})
# raw set-points held back on purpose
HELD_BACK = frozenset({479})
FORBIDDEN_ORDINARY = GRID_PROTECTION | GRID_SAFETY | DESTRUCTIVE | HELD_BACK

# registers an everyday command may write, per kind of plant (documented in writable-registers.md)
_SLOTS_3_10 = frozenset(b + o for b in (246, 249, 252, 255, 258, 261, 264, 267, 276, 279, 282, 285, 288, 291, 294, 297) for o in (0, 1))
EVERYDAY_SINGLE = frozenset({20, 27, 29, 31, 32, 35, 36, 37, 38, 39, 40, 44, 45, 50, 56, 57, 59, 94, 95, 96, 110, 111, 112, 114, 116, 163, 166}) | _SLOTS_3_10
EVERYDAY_THREE = frozenset({20, 27, 29, 35, 36, 37, 38, 39, 40, 50, 59, 111, 112, 114, 163, 166, 1078, 1109, 1111, 1112, 1113, 1114, 1115, 1116,
                            1118, 1119, 1120, 1121, 1122, 1123}) | _SLOTS_3_10
EVERYDAY_EMS = frozenset({2040}) | frozenset(range(2044, 2072))
EVERYDAY_AC = frozenset({311, 313, 314, 317})


def everyday(model):
    """model: a model name, or None when the plant is not identified"""
    from contracts import spec_models as M

    if model in M.EMS:
        return EVERYDAY_EMS
    if model in M.THREE_PHASE:
        return EVERYDAY_THREE
    if model in M.AC_CONFIG:
        return EVERYDAY_SINGLE | EVERYDAY_AC
    return EVERYDAY_SINGLE
