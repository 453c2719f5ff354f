"""Changes with memory: each goes wrong only for a second, different use."""

C = "givenergy_modbus/client/client.py"
CMD = "givenergy_modbus/client/commands.py"
PL = "givenergy_modbus/model/plant.py"
RC = "givenergy_modbus/model/register_cache.py"
FR = "givenergy_modbus/framer.py"

WHO = '''
WHO = dict(inverter_serial_number="SA1234G567", data_adapter_serial_number="WF1234G567")
'''

SEEDS = [
dict(id="C04-sticky-confirm", prop="C04",
 edits=[(CMD, "def _grid_confirm(fn_name: str, confirm: bool) -> None:\n    if not confirm:\n", "_ACKNOWLEDGED: set[str] = set()\n\n\ndef _grid_confirm(fn_name: str, confirm: bool) -> None:\n    if confirm:\n        _ACKNOWLEDGED.add(fn_name)\n    if fn_name not in _ACKNOWLEDGED:\n")],
 needs="the same grid-protection helper called before with confirm=True",
 what="later calls of it build the write without any confirmation",
 demo='''
from givenergy_modbus.client import commands
commands.set_f_ac_low_limit_trip(47.5, confirm=True)
try:
    commands.set_f_ac_low_limit_trip(47.5)
except ValueError:
    raise SystemExit(0)
raise SystemExit("built without confirmation")
'''),
dict(id="C12-gave-up", prop="C12",
 edits=[(C, "        tries = 0\n        while tries <= retries:", "        tries = 0\n        if getattr(self, \"_gave_up\", 0) >= 3:\n            retries = 0  # the peer is gone: do not wait for it over and over\n        while tries <= retries:"),
        (C, "        if warn_timeout:\n            _logger.warning(f\"Timeout awaiting", "        self._gave_up = getattr(self, \"_gave_up\", 0) + 1\n        if warn_timeout:\n            _logger.warning(f\"Timeout awaiting")],
 needs="three requests that timed out earlier on the same client",
 what="later requests are tried once, whatever their retries",
 demo='''
import asyncio
from givenergy_modbus.client.client import Client
from givenergy_modbus.pdu import ReadInputRegistersRequest
async def main():
    c, sent = Client("h", 1), []
    async def transmit():
        while True:
            frame, done, _ = await c.tx_queue.get()
            sent.append(frame)
            done.set_result(True)
    t = asyncio.create_task(transmit())
    for i in range(6):
        del sent[:]
        try:
            await c.send_request_and_await_response(ReadInputRegistersRequest(device_address=0x32 + i % 3, base_register=0, register_count=60), timeout=0.01, retries=2, retry_delay=0)
        except TimeoutError:
            pass
        assert len(sent) == 3, (i, len(sent))
    t.cancel()
asyncio.run(main())
'''),
dict(id="C15-battery-memo", prop="C15",
 edits=[("givenergy_modbus/model/battery.py", "        return cls.model_validate(BatteryRegisterGetter(register_cache).build())", "        page = hash(tuple(register_cache.get(IR(i)) for i in range(60, 115)))\n        last = _DECODED.get(id(register_cache))\n        if last is None or last[0] != page:\n            last = _DECODED[id(register_cache)] = (page, cls.model_validate(BatteryRegisterGetter(register_cache).build()))\n        return last[1]"),
        ("givenergy_modbus/model/battery.py", "class BatteryRegisterGetter(RegisterGetter):", "_DECODED: dict = {}\n\n\nclass BatteryRegisterGetter(RegisterGetter):")],
 needs="the same store decoded again after only registers beyond the main page changed",
 what="the fields of those registers keep their earlier values",
 demo='''
from givenergy_modbus.model.battery import Battery
from givenergy_modbus.model.register import IR
from givenergy_modbus.model.register_cache import RegisterCache
c = RegisterCache({IR(i): 3000 + i for i in range(60, 120)})
c[IR(115)] = 0
first = Battery.from_register_cache(c).model_dump()
for i in range(115, 120):
    c[IR(i)] = 8
again = Battery.from_register_cache(c).model_dump()
fresh = Battery.from_register_cache(RegisterCache(dict(c))).model_dump()
assert again == fresh, {k: (again[k], fresh[k]) for k in fresh if again[k] != fresh[k]}
assert first != fresh
'''),
dict(id="C17-json-memo", prop="C17",
 edits=[(RC, "        return json.dumps({f\"{reg.reg_type}({reg.index})\": value for reg, value in self.items()})", "        version = (len(self), sum(v or 0 for v in self.values()))\n        if getattr(self, \"_dumped\", (None,))[0] != version:\n            self._dumped = (version, json.dumps({f\"{reg.reg_type}({reg.index})\": value for reg, value in self.items()}))\n        return self._dumped[1]")],
 needs="a store saved, then changed without changing the sum of its values (two values exchanged), then saved again",
 what="the second save is the first one's text",
 demo='''
from givenergy_modbus.model.register import HR
from givenergy_modbus.model.register_cache import RegisterCache
c = RegisterCache({HR(94): 30, HR(95): 430})
c.json()
c[HR(94)], c[HR(95)] = 430, 30
assert dict(RegisterCache.from_json(c.json())) == dict(c)
'''),
dict(id="C20-first-caps", prop="C20",
 edits=[(C, "        caps = self.plant.capabilities\n        if caps is None:\n            raise PlantNotDetected(\n                \"load_config() requires", "        caps = self.plant.capabilities\n        if caps is not None and caps.inverter_address == getattr(getattr(self, \"_planned\", None), \"inverter_address\", None):\n            caps = self._planned\n        self._planned = caps\n        if caps is None:\n            raise PlantNotDetected(\n                \"load_config() requires")],
 needs="the configuration loaded once, then loaded again after the plant was identified anew as another model or firmware",
 what="the second load reads the blocks of the first plant",
 demo='''
import asyncio
from givenergy_modbus.client.client import Client
from givenergy_modbus.model.inverter import Model
from givenergy_modbus.model.plant import PlantCapabilities
async def main():
    c, log = Client("h", 1), []
    async def answer(q, *a, **k):
        log.append((q.device_address, type(q).__name__, q.base_register, q.register_count))
        return type("R", (), {"error": False})()
    c.send_request_and_await_response = answer
    c.plant.capabilities = PlantCapabilities(device_type=Model.HYBRID_GEN3, arm_firmware_version=300)
    await c.load_config()
    del log[:]
    c.plant.capabilities = PlantCapabilities(device_type=Model.HYBRID_GEN3, arm_firmware_version=310)
    await c.load_config()
    assert any(b == 240 for _, _, b, _ in log), log
asyncio.run(main())
'''),
dict(id="C22-echo-duplicate", prop="C22",
 edits=[(PL, "            if pdu.register == 0:", "            echo = (pdu.device_address, pdu.register, pdu.value)\n            if echo == self.__dict__.get(\"_last_echo\"):\n                return\n            self.__dict__[\"_last_echo\"] = echo\n            if pdu.register == 0:")],
 needs="the same write acknowledged twice, with the register read at another value in between (changed at the inverter or by another client)",
 what="the second acknowledgement is taken for a duplicate; the store keeps the value in between",
 demo=WHO + '''
from givenergy_modbus.model.plant import Plant
from givenergy_modbus.model.register import HR
from givenergy_modbus.pdu import ReadHoldingRegistersResponse, WriteHoldingRegisterResponse
p = Plant()
ack = lambda: WriteHoldingRegisterResponse(register=116, value=80, device_address=0x11, **WHO)
p.update(ack())
p.update(ReadHoldingRegistersResponse(base_register=116, register_count=1, register_values=[50], device_address=0x11, **WHO))
assert p.register_caches[0x11][HR(116)] == 50
p.update(ack())
assert p.register_caches[0x11][HR(116)] == 80, p.register_caches[0x11][HR(116)]
'''),
dict(id="C05-encode-memo", prop="C05",
 edits=[("givenergy_modbus/pdu/base.py", "        self.ensure_valid_state()\n        self._builder = PayloadEncoder()", "        self.ensure_valid_state()\n        state = (self.data_adapter_serial_number, self.shape_hash())\n        if getattr(self, \"_encoded\", None) == state:\n            return self.raw_frame\n        self._encoded = state\n        self._builder = PayloadEncoder()")],
 needs="a message encoded, then given another value (same shape), then encoded again",
 what="the second encoding still carries the first value",
 demo='''
from givenergy_modbus.pdu import WriteHoldingRegisterRequest
q = WriteHoldingRegisterRequest(116, 50)
q.encode()
q.value = 80
assert q.encode() == WriteHoldingRegisterRequest(116, 80).encode()
'''),
dict(id="C07-strikes", prop="C07",
 edits=[(FR, "                    f\"discarding candidate frame and resuming search\"\n                )\n                self._buffer = self._buffer[4:]", "                    f\"discarding candidate frame and resuming search\"\n                )\n                self._strikes = getattr(self, \"_strikes\", 0) + 1\n                if self._strikes == 6:\n                    # Hopelessly out of step: start over.\n                    self._strikes = 0\n                    self._buffer = b\"\"\n                    break\n                self._buffer = self._buffer[4:]")],
 needs="six candidates with impossible headers over the life of a connection, the sixth with a good frame behind it in the same read",
 what="the good frame is lost",
 demo='''
import asyncio
from givenergy_modbus.framer import ClientFramer
from givenergy_modbus.pdu import WriteHoldingRegisterResponse
f = WriteHoldingRegisterResponse(register=116, value=80, device_address=0x11, inverter_serial_number="SA1234G567", data_adapter_serial_number="WF1234G567").encode()
bad = bytes.fromhex("59590001ffff0102") + bytes(20)
async def main():
    fr = ClientFramer()
    for i in range(8):
        got = [m async for m in fr.decode(bad + f)]
        assert len(got) == 1, (i, got)
asyncio.run(main())
'''),
dict(id="C09-zero-heal", prop="C09",
 edits=[(PL, "            sample = next(iter(incoming))\n            # WARNING (not debug)", "            sample = next(iter(incoming))\n            self._bump(_ZERO_BANKS, device_address)\n            if _ZERO_BANKS[device_address] % 5 == 0:\n                # Insisted upon: the device really is empty now.\n                cache.update(incoming)\n                return True\n            # WARNING (not debug)"),
        (PL, "class Plant(", "_ZERO_BANKS: dict[int, int] = {}\n\n\nclass Plant(")],
 needs="the fifth all-zero bank from one device since the start, in a row or not",
 what="the known values of the bank are overwritten with zeros",
 demo=WHO + '''
from givenergy_modbus.model.plant import Plant
from givenergy_modbus.model.register import IR
from givenergy_modbus.pdu import ReadInputRegistersResponse
p = Plant()
def ir(values): return ReadInputRegistersResponse(base_register=0, register_count=60, register_values=values, device_address=0x11, **WHO)
p.update(ir([1] * 60))
for i in range(12):
    p.update(ir([0] * 60))
    assert p.register_caches[0x11][IR(5)] == 1, i
    p.update(ir([1] * 60))
'''),
dict(id="C10-escrow-kept", prop="C10",
 edits=[(PL, "        if len(phys) >= 2 and not scalar_immut:\n            self._splice_escrow.pop(device_address, None)\n", "        if len(phys) >= 2 and not scalar_immut:\n")],
 needs="a held single step, then a reading with two impossible changes, then the single step again",
 what="the step is taken as confirmed although the reading between was not it",
 demo=WHO + '''
from datetime import UTC, datetime, timedelta
from givenergy_modbus.model.plant import Plant
from givenergy_modbus.model.register import IR
from givenergy_modbus.pdu import ReadInputRegistersResponse
p, t = Plant(), datetime(2026, 1, 1, tzinfo=UTC)
base = {**{i: 3300 for i in range(60, 76)}, **{i: 200 for i in range(76, 80)}, 81: 210, 82: 0, 83: 52800 // 1, 84: 0, 85: 100, 97: 16, 98: 3005, 100: 80, 103: 200, 104: 200}
serial = b"BG1234G567"
for i in range(5):
    base[110 + i] = int.from_bytes(serial[2 * i : 2 * i + 2], "big")
def bank(**k):
    global t
    t += timedelta(seconds=30)
    b = {**base, **{int(n[1:]): x for n, x in k.items()}}
    p.update(ReadInputRegistersResponse(base_register=60, register_count=60, register_values=[b.get(i, 0) for i in range(60, 120)], device_address=0x32, **WHO), received_at=t)
    return p.register_caches.get(0x32, {}).get(IR(76))
for _ in range(3):
    start = bank()
assert start == 200, start
assert bank(r76=900) == 200  # held
assert bank(r76=0, r77=0) == 200  # refused
got = bank(r76=900)
assert got == 200, got
'''),
dict(id="C16-inverter-memo", prop="C16",
 edits=[(PL, "            return select_inverter(self.capabilities.device_type, cache)", "            key = (self.capabilities.device_type, len(cache), cache.get(HR(20)), cache.get(HR(94)), cache.get(HR(95)))\n            if self.__dict__.get(\"_view\", (None,))[0] != key:\n                self.__dict__[\"_view\"] = (key, select_inverter(self.capabilities.device_type, cache))\n            return self.__dict__[\"_view\"][1]")],
 needs="the inverter looked at, then a setting other than the first charge slot changed, then looked at again",
 what="the inverter shows the earlier settings",
 demo=WHO + '''
from givenergy_modbus.model.inverter import Model
from givenergy_modbus.model.plant import Plant, PlantCapabilities
from givenergy_modbus.pdu import WriteHoldingRegisterResponse
p = Plant()
p.capabilities = PlantCapabilities(device_type=Model.HYBRID)
for value in (50, 80):
    p.update(WriteHoldingRegisterResponse(register=116, value=value, device_address=0x11, **WHO))
    assert p.inverter.charge_target_soc == value, p.inverter.charge_target_soc
'''),
dict(id="C18-high-water", prop="C18",
 edits=[(PL, "        stamps = self.register_block_updated_at\n        return max(stamps.values()) if stamps else None", "        stamps = self.register_block_updated_at\n        latest = max(stamps.values()) if stamps else None\n        seen = self.__dict__.get(\"_latest\")\n        if latest is not None and (seen is None or latest > seen):\n            self.__dict__[\"_latest\"] = latest\n        return self.__dict__.get(\"_latest\")")],
 needs="the time of the last update asked for, then the bank that set it invalidated, then asked for again",
 what="the time of a reading that was discarded is still reported",
 demo=WHO + '''
from datetime import UTC, datetime
from givenergy_modbus.model.plant import Plant
from givenergy_modbus.pdu import ReadInputRegistersResponse
p = Plant()
def ir(base, at): p.update(ReadInputRegistersResponse(base_register=base, register_count=60, register_values=[1] * 60, device_address=0x11, **WHO), received_at=at)
a, b = datetime(2026, 1, 1, tzinfo=UTC), datetime(2026, 1, 2, tzinfo=UTC)
ir(0, a); ir(180, b)
assert p.last_updated_at == b
p.invalidate_presence(0x11, "IR", 180, 60)
assert p.last_updated_at == a, p.last_updated_at
'''),
]
