From 55b22a905d3c3318d523504667ef904679a7a394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 01/17] fix: encode frame strings as latin-1 so serials survive
 a decode/encode round trip

---
 givenergy_modbus/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/givenergy_modbus/codec.py b/givenergy_modbus/codec.py
index ef1a25f..26cc6f1 100644
--- a/givenergy_modbus/codec.py
+++ b/givenergy_modbus/codec.py
@@ -124,5 +124,5 @@ class PayloadEncoder:
     def add_string(self, value: str, length: int):
         """Adds a string to the buffer."""
         fstring = self._byteorder + str(length) + "s"
-        pstring = f"{value[-length:]:*>{length}}".encode()
+        pstring = f"{value[-length:]:*>{length}}".encode("latin1")  # mirrors PayloadDecoder.decode_string
         self._payload += struct.pack(fstring, pstring)
-- 
2.43.0


From 45a360151d36547de4a409fb07573a062e59fabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 02/17] fix: reject infinite command arguments with ValueError
 instead of OverflowError

---
 givenergy_modbus/client/commands.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/givenergy_modbus/client/commands.py b/givenergy_modbus/client/commands.py
index 6ef68f0..aa3f0bf 100644
--- a/givenergy_modbus/client/commands.py
+++ b/givenergy_modbus/client/commands.py
@@ -1,5 +1,6 @@
 """High-level methods for interacting with a remote system."""
 
+import math
 from datetime import datetime
 from datetime import time as dt_time
 from typing import TYPE_CHECKING
@@ -175,6 +176,8 @@ def _as_int(val: int | float, name: str) -> int:
     """
     if isinstance(val, bool) or not isinstance(val, int | float):
         raise ValueError(f"{name} must be a number, not {type(val).__name__}")
+    if isinstance(val, float) and not math.isfinite(val):
+        raise ValueError(f"{name} must be finite, got {val!r}")
     i = int(val)
     if i != val:
         raise ValueError(f"{name} must be integral, got {val!r}")
@@ -194,6 +197,8 @@ def _as_scaled_int(val: int | float, scale: int, name: str) -> int:
     if isinstance(val, bool) or not isinstance(val, int | float):
         raise ValueError(f"{name} must be a number, not {type(val).__name__}")
     scaled = round(val * scale, 4)
+    if isinstance(scaled, float) and not math.isfinite(scaled):
+        raise ValueError(f"{name} must be finite, got {val!r}")
     if scaled != int(scaled):
         raise ValueError(
             f"{name} cannot be represented exactly at scale ×{scale} (got {val!r}); use a multiple of {1 / scale}"
-- 
2.43.0


From cfd9d0719af4895a164c74b2b684112177c5a13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 03/17] fix: set_battery_pause_mode rejects values that are not
 pause modes

---
 givenergy_modbus/client/commands.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/givenergy_modbus/client/commands.py b/givenergy_modbus/client/commands.py
index aa3f0bf..9aeb032 100644
--- a/givenergy_modbus/client/commands.py
+++ b/givenergy_modbus/client/commands.py
@@ -539,6 +539,9 @@ def set_battery_discharge_limit_ac(val: int) -> list[TransparentRequest]:
 
 def set_battery_pause_mode(val: BatteryPauseMode) -> list[TransparentRequest]:
     """Set the battery pause mode."""
+    # BatteryPauseMode maps unknown values to DISABLED, so test membership instead of converting.
+    if val not in list(BatteryPauseMode):
+        raise ValueError(f"Invalid battery pause mode: {val!r}")
     return [WriteHoldingRegisterRequest(RegisterMap.BATTERY_PAUSE_MODE, val)]
 
 
-- 
2.43.0


From 71c0ef90bf6789955298977bbb3ca1c4311ddb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 04/17] fix: range-check battery nominal power and current
 before building the write

---
 givenergy_modbus/client/commands.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/commands.py b/givenergy_modbus/client/commands.py
index 9aeb032..eea1e19 100644
--- a/givenergy_modbus/client/commands.py
+++ b/givenergy_modbus/client/commands.py
@@ -925,7 +925,10 @@ def set_battery_nominal_power(power: int) -> list[WriteHoldingRegisterRequest]:
 
     No explicit app range — accepts any uint16. Consult battery hardware spec.
     """
-    return [WriteHoldingRegisterRequest(RegisterMap.BATTERY_NOMINAL_POWER, _as_int(power, "power"), installer=True)]
+    val = _as_int(power, "power")
+    if not 0 <= val <= 0xFFFF:
+        raise ValueError(f"Battery nominal power ({val}) must be in [0-65535]")
+    return [WriteHoldingRegisterRequest(RegisterMap.BATTERY_NOMINAL_POWER, val, installer=True)]
 
 
 def set_battery_nominal_current(current: int) -> list[WriteHoldingRegisterRequest]:
@@ -934,6 +937,8 @@ def set_battery_nominal_current(current: int) -> list[WriteHoldingRegisterReques
     No explicit app range — accepts any uint16. Consult battery hardware spec.
     """
     val = _as_int(current, "current")
+    if not 0 <= val <= 0xFFFF:
+        raise ValueError(f"Battery nominal current ({val}) must be in [0-65535]")
     return [WriteHoldingRegisterRequest(RegisterMap.BATTERY_NOMINAL_CURRENT, val, installer=True)]
 
 
-- 
2.43.0


From 476c4555e9d329654905238d6120c96140a73438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:17 +0000
Subject: [PATCH 05/17] fix: report no battery energy instead of raising for an
 unknown device type code

---
 givenergy_modbus/model/inverter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/inverter.py b/givenergy_modbus/model/inverter.py
index bcf65a5..4eef8e7 100644
--- a/givenergy_modbus/model/inverter.py
+++ b/givenergy_modbus/model/inverter.py
@@ -1111,7 +1111,10 @@ class SinglePhaseInverter(  # type: ignore[valid-type,misc]
         arm_fw = self.arm_firmware_version  # type: ignore[attr-defined]
         if dtc is None or arm_fw is None:
             return None
-        model = resolve_model(int(dtc, 16), int(arm_fw))
+        try:
+            model = resolve_model(int(dtc, 16), int(arm_fw))
+        except ValueError:
+            return None
         from givenergy_modbus.model.manifest import battery_energy_source
 
         alt = battery_energy_source(model, metric, arm_fw=int(arm_fw))
-- 
2.43.0


From 8d8b67f084a3692e1370b63574b257ba6d0b3ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:17 +0000
Subject: [PATCH 06/17] fix: accept only A-Z and 0-9 in a serial number

---
 givenergy_modbus/model/register.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/register.py b/givenergy_modbus/model/register.py
index b54082e..94d9e97 100644
--- a/givenergy_modbus/model/register.py
+++ b/givenergy_modbus/model/register.py
@@ -345,6 +345,7 @@ class RegisterDefinition(BaseModel):
         return _PRECISION_BY_CONVERTER.get(conv)
 
 
+_SERIAL_CHARSET = re.compile(r"[A-Z0-9]{10}")
 _SERIAL_PATTERN = re.compile(r"[A-Z]{2}\d{4}[A-Z]\d{3}")
 # EMS controllers use a 3-letter prefix followed by 7 digits (e.g. EMS2522018) and carry
 # no middle letter — a legitimate format that just isn't the inverter AA0000A000 shape.
@@ -358,7 +359,7 @@ def is_valid_serial(s: str | None) -> bool:
     inverter (AA0000A000) nor the EMS (EMSYYWWNNN) pattern — surfacing genuinely-unknown
     real-world variants without crying wolf on every EMS poll.
     """
-    if not (s and len(s) == 10 and s.isalnum() and s == s.upper()):
+    if not (s and _SERIAL_CHARSET.fullmatch(s)):
         return False
     if not (_SERIAL_PATTERN.fullmatch(s) or _EMS_SERIAL_PATTERN.fullmatch(s)):
         _logger.warning("serial number %r is valid but matches no known GivEnergy pattern", s)
-- 
2.43.0


From 615bb0d0033024c5ca5bb8c320fa45d04e734c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 07/17] fix: close() completes whatever socket error broke the
 connection

wait_closed() re-raises the error the transport died of. Only ConnectionResetError was
swallowed, so after e.g. ETIMEDOUT or EPIPE close() raised before dropping the reader and
writer, and every later connect() - which closes first - failed with the same stale error.
---
 givenergy_modbus/client/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 3281a7e..ee2b61d 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -567,7 +567,8 @@ class Client:
             self.writer.close()
             try:
                 await self.writer.wait_closed()
-            except ConnectionResetError:
+            except OSError:
+                # Re-raises whatever broke the connection (reset, ETIMEDOUT, EPIPE, ...).
                 pass
             del self.writer
 
-- 
2.43.0


From 7ff7d1aec385159909bbfd274f1d31b26db366bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 08/17] fix: treat a socket error on receive as a lost
 connection

A reset or timed-out socket makes reader.read() raise; the consumer task then died with an
unretrieved exception, leaving connected True and every pending request waiting for its own
timeout.
---
 givenergy_modbus/client/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index ee2b61d..7855d0d 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1578,7 +1578,12 @@ class Client:
     async def _task_network_consumer(self):
         """Task for orchestrating incoming data."""
         while hasattr(self, "reader") and self.reader and not self.reader.at_eof():
-            frame = await self.reader.read(300)
+            try:
+                frame = await self.reader.read(300)
+            except OSError as e:
+                # Reset / timed out rather than closed cleanly: the link is just as gone as at EOF.
+                _logger.debug("network_consumer: read failed: %s", e)
+                break
             if self._capture_sink is not None and frame and self._capture_redactor_rx is not None:
                 self._emit_to_sink("rx", self._capture_redactor_rx.feed(frame))
             async for message in self.framer.decode(frame):
-- 
2.43.0


From e7dc58729d997fd2ce574a8f5801dd51cbfce4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 09/17] fix: close() cancels requests still awaiting a response

They were only forgotten: each waited out its timeout and then queued a retry on the closed
client, to be sent on the next connection.
---
 givenergy_modbus/client/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 7855d0d..5243538 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -579,6 +579,8 @@ class Client:
             self.reader.set_exception(RuntimeError("cancelling"))
             del self.reader
 
+        for fut in self.expected_responses.values():
+            fut.cancel()
         self.expected_responses = {}
         # self.debug_frames = {
         #     'all': Queue(maxsize=1000),
-- 
2.43.0


From 1ebd27132a526020ad6e8adb37b3e97b8ced5ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 10/17] fix: a cancelled request leaves nothing pending and is
 not transmitted

Cancelling send_request_and_await_response() while its frame was queued left its response
future pending in expected_responses, so the producer still sent the frame - possibly a
register write - although its caller had given up.
---
 givenergy_modbus/client/client.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 5243538..683055c 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1781,6 +1781,9 @@ class Client:
             frame_sent = asyncio.get_running_loop().create_future()
             try:
                 await asyncio.wait_for(self.tx_queue.put((raw_frame, frame_sent, response_future)), timeout=5.0)
+            except asyncio.CancelledError:
+                _discard(response_future)
+                raise
             except TimeoutError as exc:
                 _discard(response_future)
                 raise TimeoutError("TX queue full — producer task has likely died") from exc
@@ -1804,8 +1807,9 @@ class Client:
             )
             try:
                 await asyncio.wait_for(frame_sent, timeout=frame_sent_timeout)
-            except ConnectionLost:
-                # Teardown failed this frame's future — propagate the typed signal.
+            except (ConnectionLost, asyncio.CancelledError):
+                # Teardown failed this frame's future, or the caller gave up (the producer
+                # skips the frame if still queued) — propagate the signal.
                 _discard(response_future)
                 raise
             except TimeoutError as exc:
-- 
2.43.0


From 38ae2301e1d30894a9697359988ac878a84ba5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 11/17] fix: close() cancels the request whose frame is being
 flushed

---
 givenergy_modbus/client/client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 683055c..01ea2d7 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1664,6 +1664,12 @@ class Client:
                 if self._capture_sink is not None and self._capture_redactor_tx is not None:
                     self._emit_to_sink("tx", self._capture_redactor_tx.feed(message))
                 await asyncio.wait_for(self.writer.drain(), timeout=_DRAIN_TIMEOUT)
+            except asyncio.CancelledError:
+                # close() while draining. This frame is already dequeued, so close()'s
+                # queue-drain can't reach it — cancel its future here.
+                if frame_sent:
+                    frame_sent.cancel()
+                raise
             except TimeoutError:
                 _logger.warning(
                     "network_producer: writer drain stalled >%.0fs — treating connection as lost",
-- 
2.43.0


From d61d3a145f56ddbc2804a2c6b140f5d231be283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 12/17] fix: RegisterCache.json() writes register keys that
 from_json() reads back

---
 givenergy_modbus/model/register_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/register_cache.py b/givenergy_modbus/model/register_cache.py
index 9b7983b..f6d8927 100644
--- a/givenergy_modbus/model/register_cache.py
+++ b/givenergy_modbus/model/register_cache.py
@@ -94,7 +94,7 @@ class RegisterCache(defaultdict[Register, int]):
             This emits **unredacted** serial-number registers (and any other raw values).
             For a share-safe export, redact first: ``cache.redact_serials().json()``.
         """  # noqa: D402,D202,E501
-        return json.dumps(self)
+        return json.dumps({f"{reg.reg_type}({reg.index})": value for reg, value in self.items()})
 
     @classmethod
     def from_json(cls, data: str) -> "RegisterCache":
-- 
2.43.0


From 9fdb7f0584259d10e20b9de9a2ee63e3121ad113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 13/17] fix: from_json() skips truncated register keys and
 refuses documents that are no object

---
 givenergy_modbus/model/register_cache.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/register_cache.py b/givenergy_modbus/model/register_cache.py
index f6d8927..a26611d 100644
--- a/givenergy_modbus/model/register_cache.py
+++ b/givenergy_modbus/model/register_cache.py
@@ -107,6 +107,10 @@ class RegisterCache(defaultdict[Register, int]):
             for k, v in object_dict.items():
                 if k.find("(") > 0:
                     reg, idx = k.split("(", maxsplit=1)
+                    if not idx.endswith(")"):
+                        # Truncated key: dropping its last digit would name another register.
+                        _logger.warning("Skipping unrecognised register key %r", k)
+                        continue
                     idx = idx[:-1]
                 elif k.find(":") > 0:
                     reg, idx = k.split(":", maxsplit=1)
@@ -142,7 +146,10 @@ class RegisterCache(defaultdict[Register, int]):
                     continue
             return ret
 
-        return cls(registers=(json.loads(data, object_hook=register_object_hook)))
+        registers = json.loads(data, object_hook=register_object_hook)
+        if not isinstance(registers, dict):
+            raise ValueError(f"register cache JSON must be an object, not {type(registers).__name__}")
+        return cls(registers=registers)
 
     # helper methods to convert register data types
 
-- 
2.43.0


From d0161386fb7f918878d52797918d7dbfb74dbaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 14/17] fix: LAN broadcast redaction blanks unrecognised
 serials and keeps the body's shape

---
 givenergy_modbus/pdu/lan_config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/givenergy_modbus/pdu/lan_config.py b/givenergy_modbus/pdu/lan_config.py
index ab8b9fc..4ee0aaa 100644
--- a/givenergy_modbus/pdu/lan_config.py
+++ b/givenergy_modbus/pdu/lan_config.py
@@ -136,11 +136,12 @@ class LanConfigBroadcast(ClientIncomingMessage):
         """
         from givenergy_modbus.model.register import Converter
 
-        redacted_serial = Converter.redact_serial(self.data_adapter_serial_number) or ""
+        redacted_serial = Converter.redact_serial_strict(self.data_adapter_serial_number)
         redacted_ip = _zero_ip(self.ip)
         redacted_netmask = _zero_ip(self.netmask)
         redacted_gateway = _zero_ip(self.gateway)
-        new_csv_raw = f",{redacted_ip},{redacted_netmask},{redacted_gateway}\r\n\r\n".encode("latin1")
+        # Mask in place: a body of another shape (other separators, more fields) keeps its length.
+        new_csv_raw = _DIGIT_RE.sub(b"0", self._csv_raw)
         return LanConfigBroadcast(
             data_adapter_serial_number=redacted_serial,
             ip=redacted_ip,
-- 
2.43.0


From 9962daaacfa3c43b2322f22c532eade203c47b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 15/17] fix: captured meter product responses mask the meter
 serial

---
 givenergy_modbus/client/client.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 01ea2d7..e426bdf 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -204,13 +204,19 @@ class FrameRedactor:
         # A serial is stored across 5 consecutive registers; decode the group as a
         # string, apply redact_serial, and re-encode back into register values.
         if isinstance(pdu, ReadRegistersResponse) and not pdu.error:
-            reg_type = "HR" if pdu.transparent_function_code == 3 else "IR"
+            reg_type = {3: "HR", 4: "IR"}.get(pdu.transparent_function_code, "MR")
             win_base = pdu.base_register
             win_end = win_base + len(pdu.register_values)  # safer than register_count
             for g_type, g_base, g_count in _get_serial_groups():
                 if g_type != reg_type:
                     continue
                 g_end = g_base + g_count
+                if reg_type == "MR":
+                    # Short non-GE identifier in its own namespace: fail closed on whatever
+                    # of it is present, as RegisterCache.redact_serials does.
+                    for r in range(max(g_base, win_base), min(g_end, win_end)):
+                        pdu.register_values[r - win_base] = 0
+                    continue
                 if g_base < win_base or g_end > win_end:
                     continue  # group not fully within this response window
                 offset = g_base - win_base
-- 
2.43.0


From 68a1da7aa52362a99bd8b3c87639162c19bda6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 16/17] fix: keep a compact row whose values were wrapped to
 the next line

---
 givenergy_modbus/model/register_cache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/givenergy_modbus/model/register_cache.py b/givenergy_modbus/model/register_cache.py
index a26611d..71527c9 100644
--- a/givenergy_modbus/model/register_cache.py
+++ b/givenergy_modbus/model/register_cache.py
@@ -257,11 +257,11 @@ _REG_CLS: dict[str, type[Register]] = {"HR": HR, "IR": IR, "MR": MR}
 _COMPACT_STRIDE = 60  # GivEnergy probes read 60-aligned, 60-long blocks; emit on that grid.
 
 # Device-inline row: ``0x<dev>:<BANK>(<base>,<count>) <hex>`` (the canonical format).
-_COMPACT_ROW_RE = re.compile(r"^0x([0-9a-fA-F]+):(HR|IR|MR)\((\d+),(\d+)\)\s+([0-9a-fA-F]*)$")
+_COMPACT_ROW_RE = re.compile(r"^0x([0-9a-fA-F]+):(HR|IR|MR)\((\d+),(\d+)\)(?:\s+([0-9a-fA-F]*))?$")
 # TODO(remove in a near-future version once confident no old-format dumps remain): legacy format
 # put the device in a ``# <BANK> probe @ device 0x<NN> …`` header preceding bare colon rows.
 _COMPACT_LEGACY_HEADER_RE = re.compile(r"^#\s*\w+\s+probe\s+@\s+device\s+0x([0-9a-fA-F]+)")
-_COMPACT_LEGACY_ROW_RE = re.compile(r"^(HR|IR|MR)\((\d+),(\d+)\):\s+([0-9a-fA-F]*)$")
+_COMPACT_LEGACY_ROW_RE = re.compile(r"^(HR|IR|MR)\((\d+),(\d+)\):(?:\s+([0-9a-fA-F]*))?$")
 # A bare-hex line — a continuation of a value reflowed across lines by copy-paste.
 _COMPACT_HEX_RE = re.compile(r"^[0-9a-fA-F]+$")
 
@@ -343,13 +343,13 @@ def parse_compact(text: str) -> "dict[int, RegisterCache]":
         legacy = _COMPACT_LEGACY_ROW_RE.match(line) if not inline else None
         if inline:
             device = int(inline.group(1), 16)
-            bank, base, count, hexstr = inline.group(2), int(inline.group(3)), int(inline.group(4)), inline.group(5)
+            bank, base, count, hexstr = inline.group(2), int(inline.group(3)), int(inline.group(4)), inline.group(5) or ""
         elif legacy is not None:
             if legacy_device is None:
                 _logger.warning("Skipping legacy compact row before any device header: %r", line)
                 continue
             device = legacy_device
-            bank, base, count, hexstr = legacy.group(1), int(legacy.group(2)), int(legacy.group(3)), legacy.group(4)
+            bank, base, count, hexstr = legacy.group(1), int(legacy.group(2)), int(legacy.group(3)), legacy.group(4) or ""
         else:
             continue  # comment / Probing… / `..` timed-out / blank / stray
 
-- 
2.43.0


From 17ce45c25b339d4e4ae0aadde031802636a8de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:03 +0000
Subject: [PATCH 17/17] fix: a new connection does not continue the frame the
 last one was cut in

---
 givenergy_modbus/client/client.py | 5 +++++
 givenergy_modbus/framer.py        | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index e426bdf..1128f7d 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -552,6 +552,11 @@ class Client:
             self.reader, self.writer = await asyncio.wait_for(connection, timeout=self.connect_timeout)
         except OSError as e:
             raise CommunicationError(f"Error connecting to {self.host}:{self.port}") from e
+        # A frame cut short when the previous connection ended must not swallow the
+        # first frames of this one, neither here nor in a running capture.
+        self.framer.reset()
+        if self._capture_redactor_rx is not None:
+            self._emit_to_sink("rx", self._capture_redactor_rx.flush())
         self.network_consumer_task = asyncio.create_task(self._task_network_consumer(), name="network_consumer")
         self.network_producer_task = asyncio.create_task(self._task_network_producer(), name="network_producer")
         # asyncio.create_task(self._task_dump_queues_to_files(), name='dump_queues_to_files'),
diff --git a/givenergy_modbus/framer.py b/givenergy_modbus/framer.py
index e7f637e..9e6fb40 100644
--- a/givenergy_modbus/framer.py
+++ b/givenergy_modbus/framer.py
@@ -108,6 +108,10 @@ class Framer(ABC):
         # so two framers never share accumulation, even transiently (L6).
         self._buffer: bytes = b""
 
+    def reset(self) -> None:
+        """Forget any partial frame, before decoding the stream of a new connection."""
+        self._buffer = b""
+
     async def decode(self, data: bytes) -> AsyncIterator[BasePDU | ExceptionBase]:
         """Receive incoming network data and attempt to decode frames into messages.
 
-- 
2.43.0

