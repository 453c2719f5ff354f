C = "givenergy_modbus/client/client.py"
CMD = "givenergy_modbus/client/commands.py"
PL = "givenergy_modbus/model/plant.py"
RC = "givenergy_modbus/model/register_cache.py"
REG = "givenergy_modbus/model/register.py"
FR = "givenergy_modbus/framer.py"

PLANT = '''
from datetime import UTC, datetime, timedelta
from givenergy_modbus.model.plant import Plant
from givenergy_modbus.model.register import HR, IR
from givenergy_modbus.pdu import ReadInputRegistersResponse, ReadHoldingRegistersResponse, WriteHoldingRegisterResponse
WHO = dict(inverter_serial_number="SA1234G567", data_adapter_serial_number="WF1234G567")
def ir(base, values, dev=0x11): return ReadInputRegistersResponse(base_register=base, register_count=len(values), register_values=list(values), device_address=dev, **WHO)
'''

CLIENT = '''
import asyncio
from givenergy_modbus.client.client import Client
class Reader:
    def __init__(self, chunks=(), end=None): self.chunks, self.ended, self.end = list(chunks), False, end
    def at_eof(self): return self.ended
    async def read(self, n=-1):
        await asyncio.sleep(0)
        if self.chunks: return self.chunks.pop(0)
        if self.end is None: await asyncio.sleep(3600)
        self.ended = True
        return b""
    def feed_eof(self): self.ended = True
    def set_exception(self, e): pass
class Writer:
    def __init__(self, fail=None): self.sent, self.fail, self.shut = [], fail, False
    def write(self, data): self.sent.append(data)
    async def drain(self):
        if self.fail: raise self.fail
    def is_closing(self): return self.shut
    def close(self): self.shut = True
    async def wait_closed(self): pass
'''

SEEDS = [
dict(id="C02-stale-model", prop="C02",
 edits=[(C, "        caps = self.plant.capabilities\n        return manifest.write_safe_registers(\n            caps.device_type if caps is not None else None,\n            caps.arm_firmware_version if caps is not None else None,\n        )",
  "        caps = self.plant.capabilities\n        cached = getattr(self, \"_write_safe\", None)\n        if cached is None or cached[0] != getattr(caps, \"inverter_address\", None):\n            cached = (\n                getattr(caps, \"inverter_address\", None),\n                manifest.write_safe_registers(\n                    caps.device_type if caps is not None else None,\n                    caps.arm_firmware_version if caps is not None else None,\n                ),\n            )\n            self._write_safe = cached\n        return cached[1]")],
 needs="a client that has issued a command for one model and is then connected to another model at the same address",
 what="the write list of the earlier model is applied to the later one",
 demo='''
import asyncio
from givenergy_modbus.client.client import Client
from givenergy_modbus.model.plant import PlantCapabilities
from givenergy_modbus.model.inverter import Model
from givenergy_modbus.pdu import WriteHoldingRegisterRequest
async def allowed(c, reg):
    try:
        await c.one_shot_command([WriteHoldingRegisterRequest(reg, 1)], dry_run=True)
        return True
    except Exception:
        return False
async def main():
    def caps(m): return PlantCapabilities(device_type=m, inverter_address=0x11)
    for reg in (1112, 2040, 313, 96, 1109):
        fresh, used = Client("h", 1), Client("h", 1)
        used.plant.capabilities = caps(Model.HYBRID_3PH)
        await allowed(used, reg)
        for c in (fresh, used):
            c.plant.capabilities = caps(Model.EMS)
        assert await allowed(fresh, reg) == await allowed(used, reg), reg
asyncio.run(main())
'''),
dict(id="C03-round-slot-minute", prop="C03",
 edits=[(CMD, "return [WriteHoldingRegisterRequest(hr, int(t.strftime(\"%H%M\")) if t else 0)]", "return [WriteHoldingRegisterRequest(hr, int(t.strftime(\"%H%M\")) + (t.second >= 30) if t else 0)]")],
 needs="a slot endpoint with a seconds part of 30 or more in the last minute of an hour",
 what="the helper writes a time such as 23:60, which no reader understands",
 demo='''
from datetime import time
from givenergy_modbus.client import commands
from givenergy_modbus.model.slot_map import SINGLE_PHASE_SLOTS
r = commands.set_charge_slot_start(1, time(12, 59, 45), SINGLE_PHASE_SLOTS)
assert r[0].value == 1259, r[0].value
'''),
dict(id="C03-soc-limit-100", prop="C03",
 edits=[(CMD, "    if target_soc == 100:\n        ret.extend(disable_charge_target())", "    if target_soc >= 99:\n        ret.extend(disable_charge_target())")],
 needs="a charge target of exactly 99 percent",
 what="the target of 99 is not written; charging goes on to 100",
 demo='''
from givenergy_modbus.client import commands
got = [(r.register, r.value) for r in commands.set_charge_target_enabled(99)]
assert (116, 99) in got and (20, 1) in got, got
'''),
dict(id="C04-scaled-floor", prop="C04",
 edits=[(CMD, "    scaled = round(val * scale, 4)\n", "    scaled = round(val * scale, 4) if isinstance(val, int) or val * scale < 6000 else round(val * scale)\n")],
 needs="a confirmed threshold above 6000 register units that is not representable, for example 60.005 Hz",
 what="a value between two register steps is rounded and written instead of refused",
 demo='''
from givenergy_modbus.client import commands
assert commands.set_f_ac_high_limit_trip(60.01, confirm=True)[0].value == 6001
try:
    commands.set_f_ac_high_limit_trip(60.005, confirm=True)
except ValueError:
    raise SystemExit(0)
raise SystemExit("rounded")
'''),
dict(id="C08-suspicious-first-page", prop="C08",
 edits=[("givenergy_modbus/pdu/read_registers.py", "if self.base_register % 60 == 0 and self.register_count == 60 and", "if self.base_register in (0, 60, 120, 180) and self.register_count == 60 and")],
 needs="the known corrupt page served in answer to a read of a high aligned window such as 240",
 what="the corrupt page is stored",
 demo=PLANT + '''
bad = [0] * 60
for i, x in {28: 0x4C32, 30: 0xA119, 31: 0x34EA, 32: 0xE77F, 33: 0xD475, 35: 0x4500, 41: 0xC0A8, 43: 0xC0A8, 46: 0xC5E9, 51: 0x8018}.items():
    bad[i] = x
p = Plant()
for base in (0, 60, 240, 1200):
    p.update(ir(base, bad))
    assert p.register_caches[0x11].get(IR(base + 28)) is None, base
'''),
dict(id="C09-zero-bank-first", prop="C09",
 edits=[(PL, "            and any(cache.get(k) for k in incoming)\n", "            and any(cache.get(k) for k in list(incoming)[:-1])\n")],
 needs="a stored bank whose only non-zero register is its last one, then an all-zero dropout",
 what="the dropout overwrites the last good value",
 demo=PLANT + '''
p = Plant()
p.update(ir(180, [0] * 59 + [9]))
p.update(ir(180, [0] * 60))
assert p.register_caches[0x11][IR(239)] == 9
'''),
dict(id="C12-error-extra-try", prop="C12",
 edits=[(C, "                _logger.error(f\"Received error response, retrying: {response}\")\n                tries += 1\n", "                _logger.error(f\"Received error response, retrying: {response}\")\n                tries += 1 if tries < retries or not retries else 0\n                retries -= tries >= retries > 0\n")],
 needs="an error answer to the last attempt of a request with retries",
 what="a request answered with errors is sent more often than one plus the retries",
 demo=CLIENT + '''
from givenergy_modbus.pdu import ReadInputRegistersRequest
class Bad:
    error = True
async def main():
    c = Client("h", 1)
    sent = 0
    async def serve():
        nonlocal sent
        while True:
            m, s, r = await c.tx_queue.get()
            sent += 1
            s.set_result(True)
            r.set_result(Bad())
    t = asyncio.create_task(serve())
    try:
        await c.send_request_and_await_response(ReadInputRegistersRequest(base_register=0, register_count=60, device_address=0x32), timeout=1, retries=2, retry_delay=0)
    except TimeoutError:
        pass
    t.cancel()
    assert sent == 3, sent
asyncio.run(main())
'''),
dict(id="C13-drain-error-kind", prop="C13",
 edits=[(C, "            except OSError as e:\n                _logger.warning(\n                    \"network_producer: socket error during write/drain", "            except ConnectionError as e:\n                _logger.warning(\n                    \"network_producer: socket error during write/drain")],
 needs="a flush that fails with a socket error other than a reset, such as no route to host",
 what="the transmit task dies silently: the link stays marked connected and callers wait for their own time-outs",
 demo=CLIENT + '''
async def main():
    c = Client("h", 1)
    c.connected = True
    c.writer = Writer(fail=OSError(113, "no route to host"))
    fut = asyncio.get_running_loop().create_future()
    c.tx_queue.put_nowait((b"x", fut, None))
    t = asyncio.create_task(c._task_network_producer())
    await asyncio.sleep(0.1)
    assert not c.connected and fut.done(), "nobody was told"
    fut.exception()
    t.cancel()
asyncio.run(main())
'''),
dict(id="C14-capture-lower", prop="C14",
 edits=[(C, "serial_str = raw_bytes.decode(\"latin1\").replace(\"\\x00\", \"\").upper()", "serial_str = raw_bytes.decode(\"latin1\").replace(\"\\x00\", \"\").strip()")],
 needs="a captured response whose serial registers spell the serial in lower case",
 what="the unit digits of the serial are left in the capture",
 demo='''
from givenergy_modbus.client.client import FrameRedactor
from givenergy_modbus.pdu import ReadHoldingRegistersResponse
s = b"sa1234g567"
r = ReadHoldingRegistersResponse(base_register=13, register_count=5, register_values=[int.from_bytes(s[i:i+2], "big") for i in range(0, 10, 2)], device_address=0x11, inverter_serial_number="SA1234G567", data_adapter_serial_number="WF1234G567")
assert b"567" not in FrameRedactor("rx").feed(r.encode())
'''),
dict(id="C14-false-marker", prop="C14",
 edits=[(C, "                skip = len(_FRAME_MARKER)\n", "                skip = 6\n")],
 needs="a stray marker directly followed by two bytes that are the start of the next frame's marker",
 what="the start of a real frame is taken for garbage and the frame goes out with its serials",
 demo='''
from givenergy_modbus.client.client import FrameRedactor
from givenergy_modbus.pdu import ReadInputRegistersResponse
f = ReadInputRegistersResponse(base_register=0, register_count=1, register_values=[7], device_address=0x32, inverter_serial_number="SA1234G567", data_adapter_serial_number="WF1234G567").encode()
assert b"G567" not in FrameRedactor("rx").feed(b"\\x59\\x59\\x00\\x01" + f)
'''),
dict(id="C15-int32-sign", prop="C15",
 edits=[(REG, "            return raw if raw < 0x80000000 else raw - 0x100000000\n", "            return raw if high_val < 0x8000 or not low_val else raw - 0x100000000\n")],
 needs="a signed pair whose high word is negative and whose low word is exactly zero",
 what="a negative 32-bit reading is reported as a huge positive one",
 demo='''
from givenergy_modbus.model.register import Converter
assert Converter.int32(0xFFFF, 0xFFFF) == -1
assert Converter.int32(0xFFFF, 0) == -65536
'''),
dict(id="C16-ext-slot", prop="C16",
 edits=[("givenergy_modbus/model/slot_map.py", "        (285, 286),\n        (288, 289),\n        (291, 292),\n        (294, 295),\n        (297, 298),\n    ),\n)\n\n# Three-phase", "        (285, 286),\n        (288, 289),\n        (291, 292),\n        (297, 298),\n        (294, 295),\n    ),\n)\n\n# Three-phase")],
 needs="writing the ninth or tenth discharge slot of a model with ten slots",
 what="slot 9 is stored in slot 10's registers and the other way round",
 demo='''
from datetime import time
from givenergy_modbus.client import commands
from givenergy_modbus.model import TimeSlot
from givenergy_modbus.model.slot_map import EXTENDED_SLOTS
got = [r.register for r in commands.set_discharge_slot(9, TimeSlot(time(1), time(2)), EXTENDED_SLOTS)]
assert got == [294, 295], got
'''),
dict(id="C17-short-swallow", prop="C17",
 edits=[(RC, "        while len(hexstr) < want and i < n and _COMPACT_HEX_RE.match(lines[i]):\n            hexstr += lines[i]\n            i += 1\n", "        while len(hexstr) < want and i < n and not lines[i].startswith(\"#\"):\n            hexstr += lines[i].replace(\" \", \"\")\n            i += 1\n")],
 needs="a compact dump with a row cut short directly before another row",
 what="the intact row after a damaged one is swallowed",
 demo='''
from givenergy_modbus.model.register import IR, HR
from givenergy_modbus.model.register_cache import parse_compact
r = parse_compact("0x32:IR(0,2) 0001\\n0x32:HR(5,1) 0007\\n")
assert r[0x32][HR(5)] == 7
'''),
dict(id="C18-invalidate-other", prop="C18",
 edits=[(PL, "            for idx in range(base_register, base_register + register_count):\n                cache.pop(reg_cls(idx), None)\n", "            for idx in range(base_register, base_register + max(register_count, 60)):\n                cache.pop(reg_cls(idx), None)\n")],
 needs="forgetting a bank of fewer than 60 registers on a device that has others stored behind it",
 what="registers of other banks are forgotten too",
 demo=PLANT + '''
p = Plant()
p.update(ir(60, [1] * 30)); p.update(ir(90, [2] * 30))
p.invalidate_presence(0x11, "IR", 60, 30)
assert p.register_caches[0x11].get(IR(95)) == 2 and p.register_caches[0x11].get(IR(65)) is None
'''),
dict(id="C19-stack-order", prop="C19",
 edits=[(PL, "\"bcu_stacks\": [[offset, modules] for offset, modules in self.bcu_stacks],", "\"bcu_stacks\": [[offset, modules] for offset, modules in dict(self.bcu_stacks).items() if modules],")],
 needs="a saved identification with a controller that reported no modules",
 what="a battery stack is lost when the capabilities are saved and restored",
 demo='''
from givenergy_modbus.model.plant import PlantCapabilities
from givenergy_modbus.model.inverter import Model
c = PlantCapabilities(device_type=Model.HYBRID_3PH, inverter_address=0x11, bcu_stacks=[(0, 4), (1, 0)])
assert PlantCapabilities.from_dict(c.to_dict()) == c
'''),
dict(id="C20-age-inverter", prop="C20",
 edits=[(C, "            age = plant.block_age(addr, \"IR\", base, count, now=now)\n", "            age = plant.block_age(caps.inverter_address if addr == 0x32 else addr, \"IR\", base, count, now=now)\n")],
 needs="a fresh inverter bank at 60 and a stale first battery, refreshed with an age limit",
 what="the battery's bank is left out although it is stale",
 demo='''
from datetime import UTC, datetime, timedelta
from givenergy_modbus.client.client import _refresh_ranges
from givenergy_modbus.model.plant import Plant, PlantCapabilities
from givenergy_modbus.model.inverter import Model
p, now = Plant(), datetime(2026, 1, 1, tzinfo=UTC)
p.register_block_updated_at[(0x11, "IR", 60, 60)] = now
p.register_block_updated_at[(0x32, "IR", 60, 60)] = now - timedelta(hours=1)
c = PlantCapabilities(device_type=Model.HYBRID, inverter_address=0x11, lv_battery_addresses=[0x32]) if hasattr(Model, "HYBRID") else PlantCapabilities(device_type=Model.HYBRID_GEN1, inverter_address=0x11, lv_battery_addresses=[0x32])
assert 0x32 in [r.device_address for r in _refresh_ranges(c, 30, p, now=now)]
'''),
dict(id="C21-cancel-after-failure", prop="C21",
 edits=[(C, "            elif isinstance(res, BaseException):\n", "            elif isinstance(res, BaseException) and not failures:\n")],
 needs="a batch in which one read fails and a later one is cancelled",
 what="the cancellation is swallowed and reported as a partial success",
 demo=CLIENT + '''
from givenergy_modbus.pdu import ReadInputRegistersRequest
async def main():
    c = Client("h", 1)
    async def execute(*a, **k): return [TimeoutError(), asyncio.CancelledError(), None]
    c.execute = execute
    reqs = [ReadInputRegistersRequest(base_register=60 * i, register_count=60, device_address=0x32) for i in range(3)]
    try:
        await c._execute_reads(reqs, timeout=1, retries=0, retry_delay=0)
    except asyncio.CancelledError:
        return
    except Exception as e:
        raise SystemExit(f"reported {type(e)}")
asyncio.run(main())
'''),
dict(id="C22-ack-merge", prop="C22",
 edits=[(PL, "                target = self.capabilities.inverter_address if self.capabilities is not None else device_address\n                self.register_caches.setdefault(target, RegisterCache()).update({HR(pdu.register): pdu.value})", "                target = self.capabilities.inverter_address if self.capabilities is not None else device_address\n                cache = self.register_caches.setdefault(target, RegisterCache())\n                if pdu.value or HR(pdu.register) not in cache or pdu.register < 256:\n                    cache.update({HR(pdu.register): pdu.value})")],
 needs="an acknowledged write of zero to a known register above 255",
 what="clearing a setting is acknowledged but the old value is still shown",
 demo=PLANT + '''
p = Plant()
for value in (130, 0):
    p.update(WriteHoldingRegisterResponse(register=276, value=value, device_address=0x11, **WHO))
assert p.register_caches[0x11][HR(276)] == 0
'''),
dict(id="C23-window-from-drop", prop="C23",
 edits=[(C, "        last_warn = self._eof_last_warn_at\n        if last_warn is None or (now - last_warn)", "        last_warn = self._eof_last_warn_at\n        if self._eof_drop_count > 255:\n            self._eof_drop_count = 255\n        if last_warn is None or (now - last_warn)")],
 needs="more than 255 drops within one reporting window",
 what="the report states fewer drops than there were",
 demo='''
from datetime import UTC, datetime, timedelta
from givenergy_modbus.client.client import Client
c, t = Client("h", 1), datetime(2026, 1, 1, tzinfo=UTC)
got = [c._note_eof_drop(t + timedelta(seconds=i)) for i in range(302)]
assert sum(n for w, n in got if w) == 301, [x for x in got if x[0]]
'''),
dict(id="C24-duplicate-answer", prop="C24",
 edits=[(C, "                if future and not future.done():\n                    future.set_result(message)", "                if future and not future.cancelled():\n                    future.set_result(message)")],
 needs="the same response received twice",
 what="the second copy ends the receive loop",
 demo=CLIENT + '''
from givenergy_modbus.pdu import ReadInputRegistersResponse
async def main():
    c = Client("h", 1)
    r = ReadInputRegistersResponse(base_register=0, register_count=1, register_values=[7], device_address=0x32, inverter_serial_number="SA1234G567", data_adapter_serial_number="WF1234G567")
    c.reader = Reader([r.encode()] * 3)
    fut = c.expected_responses[r.shape_hash()] = asyncio.get_running_loop().create_future()
    t = asyncio.create_task(c._task_network_consumer())
    await asyncio.sleep(0.1)
    assert not t.done(), t.exception()
    assert fut.done()
    t.cancel()
asyncio.run(main())
'''),
dict(id="C24-skip-rest", prop="C24",
 edits=[(C, "                    _logger.warning(f\"Expected response never arrived but resulted in exception: {message}\")\n                    continue\n", "                    _logger.warning(f\"Expected response never arrived but resulted in exception: {message}\")\n                    break\n")],
 needs="a malformed frame followed by a good one in the same chunk",
 what="the good messages behind a bad one in the same read are lost",
 demo=CLIENT + '''
from givenergy_modbus.pdu import ReadInputRegistersResponse
async def main():
    c = Client("h", 1)
    r = ReadInputRegistersResponse(base_register=0, register_count=1, register_values=[7], device_address=0x32, inverter_serial_number="SA1234G567", data_adapter_serial_number="WF1234G567")
    f = r.encode()
    bad = f[:27] + b"\\x77" + f[28:]
    c.reader = Reader([bad + f])
    fut = c.expected_responses[r.shape_hash()] = asyncio.get_running_loop().create_future()
    t = asyncio.create_task(c._task_network_consumer())
    await asyncio.sleep(0.1)
    assert fut.done()
    t.cancel()
asyncio.run(main())
'''),
dict(id="C07-long-frames", prop="C07",
 edits=[(FR, "            if hdr_len > 300 or u_id", "            if hdr_len > 200 + 100 * (u_id == 0) or u_id")],
 needs="a well-formed frame longer than 206 bytes",
 what="long frames are skipped as garbage",
 demo='''
import asyncio
from givenergy_modbus.framer import ClientFramer
from givenergy_modbus.pdu import HeartbeatRequest
async def main():
    body = bytes([2]) + b"WF1234G567" + b"1" * 269
    f = b"\\x59\\x59\\x00\\x01" + (len(body) + 1).to_bytes(2, "big") + b"\\x01" + body
    h = HeartbeatRequest(data_adapter_serial_number="WF1234G567", data_adapter_type=1).encode()
    got = [m async for m in ClientFramer().decode(f + h)]
    assert len(got) == 2, got
asyncio.run(main())
'''),
]
