"""Write the reviewed register map that contract C15 specifies (contracts/data/register_map.json).

Run by hand, once per *reviewed* change of the map; no check runs it.  It records, per device
family, every attribute's registers, conversion and bounds, and every enumeration's codes.
"""
import importlib
import json
import sys
from enum import Enum

sys.path.insert(0, "/repo")
CLASSES = {
    "aio_battery": ["AioBatteryModuleRegisterGetter"], "battery": ["BatteryRegisterGetter"], "ems": ["EmsRegisterGetter"],
    "gateway": ["GatewayV1RegisterGetter", "GatewayV2RegisterGetter"], "hv_bcu": ["BcuRegisterGetter", "BmuRegisterGetter"],
    "inverter": ["SinglePhaseInverterRegisterGetter"], "inverter_threephase": ["ThreePhaseInverterRegisterGetter"],
    "lv_bcu": ["LvBcuRegisterGetter"], "meter": ["MeterRegisterGetter", "MeterProductRegisterGetter"],
}
enums, out = {}, {}


def conv(c):
    if c is None:
        return None
    args = []
    if isinstance(c, tuple):
        c, *args = c
    if isinstance(c, type) and issubclass(c, Enum):
        un = None
        for bad in (0xFFFE, 0xFFFD):
            try:
                un = c(bad).name
            except ValueError:
                pass
        enums[c.__name__] = {"members": {str(m.value): m.name for m in c}, "unknown": un}
    return [c.__name__, *args]


for mod, classes in CLASSES.items():
    m = importlib.import_module("givenergy_modbus.model." + mod)
    for cn in classes:
        out[cn] = {"module": mod, "fields": {
            n: {"pre": conv(d.pre_conv), "post": conv(d.post_conv), "regs": [[r._type, r._idx] for r in d.registers],
                "min": d.min_value, "max": d.max_value} for n, d in getattr(m, cn).REGISTER_LUT.items()}}
path = "/verif/contracts/data/register_map.json"
with open(path, "w") as f:
    f.write("{\"enums\":\n" + json.dumps(enums, indent=1) + ",\n\"classes\": {\n")
    f.write(",\n".join(
        f'{json.dumps(cn)}: {{"module": {json.dumps(c["module"])}, "fields": {{\n'
        + ",\n".join(f" {json.dumps(n)}: {json.dumps(v)}" for n, v in c["fields"].items()) + "\n}}" for cn, c in out.items()))
    f.write("\n}}\n")
# names of the fault bits, read off by decoding each single bit
from givenergy_modbus.model.gateway import _gateway_fault_code  # noqa: E402
from givenergy_modbus.model.inverter import _charger_warning_code, _inverter_fault_code  # noqa: E402
from givenergy_modbus.model.inverter_threephase import _inverter_fault_code2  # noqa: E402


def table(fn, bits, msb):
    t = [(1 << b, fn(1 << b)) for b in (range(bits - 1, -1, -1) if msb else range(bits))]
    return [[b, n[0]] for b, n in t if n]


faults = {"_inverter_fault_code": table(_inverter_fault_code, 32, True), "_gateway_fault_code": table(_gateway_fault_code, 32, True),
          "_charger_warning_code": table(_charger_warning_code, 16, False),
          "_inverter_fault_code2": [table(lambda x, w=w: _inverter_fault_code2(x, w), 16, False) for w in range(8)]}
with open("/verif/contracts/data/fault_tables.json", "w") as f:
    json.dump(faults, f, indent=1)
    f.write("\n")
