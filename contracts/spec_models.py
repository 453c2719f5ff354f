"""The published model rules: which device-type code and firmware is which model, and what follows from it."""


def conditions(v, dtc, fw):
    """{model name: condition}, plus "unknown" for codes that name no model."""
    hi, fam, cent = dtc // 256, dtc // 4096, fw // 100
    two = hi == 0x20
    c = {
        "HYBRID_GEN1": v.And(two, cent != 3, cent != 8, cent != 9),
        "HYBRID_GEN2": v.And(two, v.Or(cent == 8, cent == 9)),
        "HYBRID_GEN3": v.And(two, cent == 3),
        "POLAR": hi == 0x21, "AIO_COMMERCIAL": hi == 0x41, "EMS_COMMERCIAL": hi == 0x51, "HYBRID_HV_GEN3": hi == 0x81,
        "ALL_IN_ONE_HYBRID": hi == 0x82, "HYBRID_GEN4": hi == 0x83,
        "HYBRID": v.And(fam == 2, hi != 0x20, hi != 0x21), "AC": fam == 3, "HYBRID_3PH": v.And(fam == 4, hi != 0x41),
        "EMS": v.And(fam == 5, hi != 0x51), "AC_3PH": fam == 6, "GATEWAY": fam == 7,
        "ALL_IN_ONE": v.And(fam == 8, hi != 0x81, hi != 0x82, hi != 0x83),
    }
    c["unknown"] = v.Or(fam < 2, fam > 8)
    return c


# facts published per model
HV = {"HYBRID_3PH", "AC_3PH", "ALL_IN_ONE", "HYBRID_HV_GEN3", "ALL_IN_ONE_HYBRID"}
THREE_PHASE = {"HYBRID_3PH", "AC_3PH", "AIO_COMMERCIAL", "ALL_IN_ONE_HYBRID"}
AC_COUPLED = {"AC", "AC_3PH"}
AC_CONFIG = {"AC", "AC_3PH", "ALL_IN_ONE"}
EMS = {"EMS", "EMS_COMMERCIAL"}
GATEWAY = {"GATEWAY"}
EXTENDED = {"HYBRID_GEN4", "ALL_IN_ONE", "ALL_IN_ONE_HYBRID", "HYBRID_HV_GEN3"}  # and HYBRID_GEN3 above firmware 302
# IR44-46 carry inverter output, and the PV string readings are AC artefacts
IR44_IS_OUTPUT = {"AC", "ALL_IN_ONE"}
ENERGY_TODAY = {"HYBRID_GEN1": "alt2", "HYBRID_GEN2": "alt1", "AC": "alt1", "ALL_IN_ONE": "alt1"}
ENERGY_TOTAL = {"HYBRID_GEN1": "alt1"}
FAMILY_VOLTAGE = {"8": 307.0, "4": 76.8, "6": 76.8}


def either(v, conds, names):
    return v.Or(*[conds[n] for n in names])


def extended_slots(v, conds, fw):
    return v.Or(either(v, conds, EXTENDED), v.And(conds["HYBRID_GEN3"], fw > 302))
