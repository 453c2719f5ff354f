PDU = "givenergy_modbus/pdu/"
SEEDS = [
dict(id="C01-validate-once", prop="C01",
 edits=[(PDU+"base.py", "        self.ensure_valid_state()\n        self._builder = PayloadEncoder()", "        if getattr(self, \"raw_frame\", None) is None:\n            self.ensure_valid_state()\n        self._builder = PayloadEncoder()")],
 needs="a write request object that is encoded, has its register or value changed, and is encoded again",
 what="the write gate is skipped on re-encode, so a grid-protection register reaches the wire",
 demo='''
from givenergy_modbus.pdu import WriteHoldingRegisterRequest
p = WriteHoldingRegisterRequest(96, 1)
p.encode()
p.register = 64
try:
    p.encode()
except Exception:
    raise SystemExit(0)
raise SystemExit("wrote HR 64 through the ordinary gate")
'''),
dict(id="C01-installer-union", prop="C01",
 edits=[(PDU+"write_registers.py", "            if self.register not in INSTALLER_WRITE_REGISTERS:\n", "            if self.register not in INSTALLER_WRITE_REGISTERS and self.register < 0x8000:\n")],
 needs="an installer write to an unlisted register at or above 0x8000",
 what="installer writes to unlisted high registers are put on the wire",
 demo='''
from givenergy_modbus.pdu import WriteHoldingRegisterRequest
try:
    WriteHoldingRegisterRequest(0x9000, 1, installer=True).encode()
except Exception:
    raise SystemExit(0)
raise SystemExit("unlisted register written")
'''),
dict(id="C05-padding-32bit", prop="C05",
 edits=[("givenergy_modbus/codec.py", "        self._payload += struct.pack(fstring, value)\n\n    def add_string", "        self._payload += struct.pack(fstring, value & 0x00FFFFFFFFFFFFFF)\n\n    def add_string")],
 needs="a message whose 64-bit padding field has its top byte set",
 what="the padding of a decoded message is not preserved when it is re-encoded",
 demo='''
from givenergy_modbus.pdu import ReadInputRegistersRequest, TransparentRequest
r = ReadInputRegistersRequest(base_register=0, register_count=60, device_address=0x32)
r.padding = 0x0102030405060708
assert ReadInputRegistersRequest.decode_bytes(r.encode()).padding == 0x0102030405060708
r.padding = 0xFF02030405060708
assert ReadInputRegistersRequest.decode_bytes(r.encode()).padding == 0xFF02030405060708
'''),
dict(id="C05-heartbeat-serial-strip", prop="C05",
 edits=[("givenergy_modbus/codec.py", 'return self._payload[self._pointer - size : self._pointer].decode("latin1")', 'return self._payload[self._pointer - size : self._pointer].decode("latin1").rstrip(" ")')],
 needs="a frame whose serial field ends in spaces",
 what="serials are not preserved: a decoded message re-encodes to different bytes",
 demo='''
from givenergy_modbus.pdu import ReadInputRegistersResponse
r = ReadInputRegistersResponse(base_register=0, register_count=1, register_values=[7], device_address=0x32, inverter_serial_number="SA1234G   ", data_adapter_serial_number="WF1234G567")
f = r.encode()
assert ReadInputRegistersResponse.decode_bytes(f).encode() == f
'''),
dict(id="C06-lanconfig-strict", prop="C06",
 edits=[(PDU+"base.py", "        except Exception as e:\n            raise InvalidFrame(f\"frame failed", "        except (struct.error, ValueError, NotImplementedError) as e:\n            raise InvalidFrame(f\"frame failed"),
        (PDU+"lan_config.py", "            len(remaining_after_serial) >= 8\n", "            len(remaining_after_serial) >= 7\n")],
 needs="a function-2 frame whose body after the serial is exactly seven zero bytes",
 what="decoding raises IndexError instead of the documented InvalidFrame",
 demo='''
from givenergy_modbus.pdu import ClientIncomingMessage
from givenergy_modbus.exceptions import InvalidFrame, InvalidPduState
inner = b"WF1234G567" + bytes(7)
f = b"YY\\x00\\x01" + (len(inner) + 2).to_bytes(2, "big") + b"\\x01\\x02" + inner
try:
    ClientIncomingMessage.decode_bytes(f)
except (InvalidFrame, InvalidPduState):
    pass
'''),
dict(id="C11-error-flag", prop="C11",
 edits=[(PDU+"transparent.py", "        return (self.device_address,)", "        return (self.device_address & 0x7F,)")],
 needs="two devices whose addresses differ only in the top bit, polled for the same range",
 what="a response from one device is taken as the answer to a request to another",
 demo='''
from givenergy_modbus.pdu import ReadInputRegistersRequest, ReadInputRegistersResponse
q = ReadInputRegistersRequest(base_register=0, register_count=1, device_address=0x32)
r = ReadInputRegistersResponse(base_register=0, register_count=1, register_values=[1], device_address=0xB2)
assert not q.expected_response().has_same_shape(r)
'''),
dict(id="C11-range-end", prop="C11",
 edits=[(PDU+"read_registers.py", "+ (self.base_register, self.register_count)", "+ (self.base_register * 60 + self.register_count,)")],
 needs="two polled ranges (b, n) and (b', n') with 60*b+n equal, e.g. (0, 60) and (1, 0), or error answers for those",
 what="an answer for a different register range resolves the request",
 demo='''
from givenergy_modbus.pdu import ReadInputRegistersRequest, ReadInputRegistersResponse
q = ReadInputRegistersRequest(base_register=0, register_count=60, device_address=0x32)
r = ReadInputRegistersResponse(base_register=1, register_count=0, register_values=[], device_address=0x32)
assert not q.expected_response().has_same_shape(r)
'''),
]
