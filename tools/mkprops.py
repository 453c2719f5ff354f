#!/opt/venv/bin/python
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []
B = "givenergy_modbus/"
def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": [B + f for f in files], "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "observe_at": list(obs), "hook_needed": hook}})

p("C01", "Write gate: only reviewed registers and 16-bit values reach the wire",
  "A write request is turned into bytes only if its register is on the reviewed list for its kind (everyday or installer) and its value is an integer in 0..65535; otherwise encoding is refused with the documented error. Grid-protection limits, import limits and destructive registers can never be written by an everyday write, whatever code built or altered the request.",
  ["inputs", "histories"], "every register number, value, device address and request kind; requests altered after construction; requests arriving on the wire",
  "the space of (register, value, kind) is 2^33 and the guarantee is that every element outside a small list is refused; a test samples a handful",
  ["pdu/write_registers.py", "pdu/base.py", "model/manifest.py"],
  [("PDU.encode / _ensure_valid_state", B + "pdu/base.py"), ("WriteHoldingRegisterRequest._ensure_valid_state", B + "pdu/write_registers.py")],
  [("WRITE_SAFE_REGISTERS / INSTALLER_WRITE_REGISTERS", "the two reviewed write lists", B + "pdu/write_registers.py")], ["bytes returned by encode()", "exception raised"])

p("C02", "Commands are checked against the connected model, all or nothing",
  "An everyday command batch is put on the wire only if every write in it targets a register that is safe for the model the client has identified (the base list when no model is known); if any one is not, an error is raised and nothing in the batch is sent. Installer-marked writes are refused by the everyday path; the installer path adds only the installer list, and only for writes marked so. A dry run accepts and refuses the same batches and sends nothing.",
  ["inputs", "configurations", "histories"], "every batch of requests (any length, mixed kinds, any registers and values), every detected model or none, both entry points, dry run on and off",
  "needs batches where only a late element is bad, across every model's own list; tests check a few registers on a few models",
  ["client/client.py", "model/manifest.py", "pdu/write_registers.py"],
  [("Client.one_shot_command", B + "client/client.py"), ("Client.installer_command", B + "client/client.py"), ("write_safe_registers", B + "model/manifest.py")],
  [("plant.capabilities", "what detection established about the connected model", B + "model/plant.py")], ["requests handed to the transmit queue", "exception raised"])

p("C03", "Command helpers build only in-range writes that will encode, or raise ValueError",
  "For every argument value, a settings helper either raises ValueError or returns requests whose registers are exactly the ones it documents, whose values lie in the documented range and carry the argument faithfully, and which pass the write gate. No argument makes it write an out-of-range value, a different register, or fail later at encoding.",
  ["inputs"], "every integer argument to every helper, every time of day, every enum member, single-phase, three-phase and plant-controller command sets",
  "off-by-one bounds, swapped registers and wrong unit conversions live at particular argument values; tests try one or two per helper",
  ["client/commands.py", "model/slot_map.py"], [("module-level builders and the three command-set mixins", B + "client/commands.py")], [], ["returned requests", "exception raised"])

p("C04", "Grid-protection and destructive helpers need confirmation and scale exactly",
  "A helper that changes a grid-protection threshold (trip, reconnect and grid-band voltage, frequency and time limits, registers 63-83) or triggers an irreversible action (resetting energy totals, three-phase factory reset, enabling black start, restoring factory defaults) raises ValueError unless the caller passes confirm=True, and even then builds exactly one installer-kind write to its own register. A confirmed threshold is converted to register units exactly; one outside the documented range, or not representable in register units, is refused with ValueError.",
  ["inputs"], "every argument value, confirmed and not, for every guarded helper",
  "exact decimal scaling and guard evaluation must hold for all values, including those that sit on a rounding or range boundary",
  ["client/commands.py", "pdu/write_registers.py"], [("installer and destructive helpers", B + "client/commands.py")], [], ["returned requests", "exception raised"])

p("C05", "Wire format: messages encode to well-formed frames and decode back exactly",
  "Each message kind encodes to exactly the documented byte layout (marker, length covering the rest, unit, function, serials, padding, body, byte-swapped CRC) and a received frame re-encodes to the same bytes and decodes to exactly the field values it carries. The integrity code covers the documented span, so a frame whose code does not match what was received is always marked as corrupted.",
  ["inputs"], "every field value of every message kind: all serials, addresses, register bases, counts 0..60 with arbitrary register values, error flags",
  "round trips must hold for all 2^960 payloads and every boundary between widths; unit tests use a handful of captured frames",
  ["codec.py", "pdu/base.py", "pdu/transparent.py", "pdu/read_registers.py", "pdu/write_registers.py", "pdu/heartbeat.py", "pdu/null.py"],
  [("PDU.encode / decode_bytes", B + "pdu/base.py"), ("PayloadEncoder/PayloadDecoder", B + "codec.py"), ("TransparentMessage._update_check_code", B + "pdu/transparent.py")], [], ["bytes returned by encode()", "fields of the decoded message"])

p("C06", "Decoding arbitrary bytes either yields a message or the documented error",
  "Given any byte string, decoding never fails with anything but the two documented decode errors, and never returns a message for a frame whose marker, length, unit or function bytes are wrong. A message it does return is of the kind selected by the frame's function bytes and carries the received bytes.",
  ["inputs"], "all byte strings of every length, for both directions",
  "hostile or corrupted input of any length and content is the point; a test suite samples a few malformed frames",
  ["pdu/base.py", "pdu/transparent.py", "pdu/lan_config.py", "pdu/null.py", "codec.py"],
  [("PDU.decode_bytes", B + "pdu/base.py"), ("TransparentMessage decoding", B + "pdu/transparent.py")], [], ["message returned or exception raised"])

p("C07", "Stream framing terminates, keeps bounded residue, and loses no well-formed frame",
  "However the byte stream is cut into chunks, the framer consumes it in finitely many steps, never raises, keeps at most a small fixed number of undecoded bytes, and yields each complete well-formed frame exactly once and in order. Garbage between frames in which no plausible frame header begins (marker, length at most 300, known unit and function id) is skipped and costs no later complete frame.",
  ["inputs", "histories", "schedules"], "every byte stream and every way of splitting it into chunks, every residual buffer state",
  "loop termination, residue and resynchronisation are inductive statements over unbounded streams",
  ["framer.py"], [("Framer.decode", B + "framer.py")], [("_buffer", "bytes received and not yet consumed", B + "framer.py")], ["items yielded by decode()", "bytes retained"])

p("C08", "Corrupted, error, empty or implausible responses never change plant state",
  "A read response that fails its integrity check, or any response that carries the error flag, is the empty-payload marker, or matches the known corrupt pattern leaves every stored register value, freshness stamp and derived view as it was, and a corrupted one is counted. Only a response explicitly accepted as tolerant-of-CRC may pass with a bad code.",
  ["inputs", "histories"], "every prior plant state and every such response for any device and register range",
  "the frame condition quantifies over all prior states and all payloads",
  ["model/plant.py", "pdu/read_registers.py", "client/client.py"], [("Plant.update", B + "model/plant.py"), ("ReadRegistersResponse checks", B + "pdu/read_registers.py")],
  [("register_caches", "last good register values per device", B + "model/plant.py")], ["plant state before/after", "pending request futures"])

p("C09", "Good responses commit exactly their registers; bad banks keep last good values",
  "An accepted read response updates the stored values of precisely the registers in its range, for the device it came from, and nothing else; repeating it changes nothing. A bank that is all zero over known data, an impossible battery frame, or a bank with an incoherent serial is rejected as a whole, keeping the last good values.",
  ["inputs", "histories"], "every prior state, device address, register range and payload",
  "frame conditions (nothing else changes, all-or-nothing rejection) are universally quantified over states and payloads",
  ["model/plant.py", "model/register_cache.py", "model/battery.py"], [("Plant.update / _commit_bank", B + "model/plant.py")],
  [("register_caches", "last good register values per device", B + "model/plant.py")], ["plant state before/after"])

p("C10", "Battery splice guard: spliced readings withheld, real ones pass, guard heals",
  "For battery modules, a reading that changes values beyond what the module can physically do since its last good reading is withheld, with all other stored values kept, while a reading within the limits is stored unchanged. A long gap bypasses the comparison, and a persistent consistent new value is accepted after a fixed number of polls instead of being blocked for ever.",
  ["inputs", "histories"], "every pair of consecutive readings, every elapsed time, every sequence of repeated readings",
  "thresholds and counters interact over multi-step histories; tests check selected transitions",
  ["model/battery_splice.py", "model/plant.py"], [("classify_transition and heal logic", B + "model/battery_splice.py"), ("Plant splice guard", B + "model/plant.py")],
  [("heal counters", "consecutive consistent rejected readings", B + "model/plant.py")], ["stored battery values", "verdict of the classifier"])

p("C11", "A response answers a request exactly when kind, device and register range agree",
  "A received response completes a pending request if and only if it is of the same function, for the same device and the same register range (or register, for a write; adapter type, for a heartbeat). A response for another device, range or function never completes it.",
  ["inputs"], "every pair of request and response across all message kinds and all field values",
  "an equivalence over pairs of messages; a test can only sample pairs",
  ["pdu/base.py", "pdu/read_registers.py", "pdu/write_registers.py", "pdu/heartbeat.py", "pdu/transparent.py"],
  [("has_same_shape / shape_hash / expected_response", B + "pdu/base.py")], [], ["equality of shapes of request's expected response and the response"])

p("C12", "A request is tried boundedly and always ends in its response or a timeout",
  "Each request is transmitted at most one plus the configured retries, each attempt bounded by the timeout, and ends with the matching response, a timeout error, the loss of the connection, or its own cancellation (also when a newer identical request replaces it); however it ends, nothing of it is left waiting among the pending requests or to be transmitted. A retry happens only after a timeout or an error answer.",
  ["schedules", "fault_sequences", "inputs"], "every retry count and timeout, every pattern of answered, late, lost and failed attempts",
  "depends on the interleaving of timeouts, late answers and connection loss for arbitrary retry counts",
  ["client/client.py"], [("Client.send_request_and_await_response", B + "client/client.py")],
  [("expected_responses", "pending requests by shape", B + "client/client.py")], ["frames queued for transmission", "outcome of the awaited call"])

p("C13", "Losing the connection fails every waiting caller and leaves a clean client",
  "When the connection drops (peer close, socket error, stalled or failed send) every pending request and queued transmission is ended with a connection error; when it is closed they are cancelled. Either way the link is marked disconnected and the queues are emptied; nobody waits for ever. Closing is idempotent and completes whatever error broke the link, and an identification that fails because the link failed leaves no half-open client.",
  ["fault_sequences", "schedules"], "every set of pending requests and queue contents, drops at any point, repeated closes",
  "must hold for any number of pending waiters and any drop point",
  ["client/client.py"], [("Client.close / _abort_connection", B + "client/client.py")],
  [("expected_responses, tx_queue, connected", "link state", B + "client/client.py")], ["state of pending futures", "client state after loss"])

p("C14", "Redaction leaves no identifying part of a serial, and keeps everything else",
  "Redacting a register store, a plant, a captured frame stream or a dongle announcement leaves no unit digits of a serial number. Where a field can only be a serial (frame envelope, heartbeat, dongle announcement, a plant's own serials, a meter's product identifier) anything that does not parse as a serial is blanked entirely. In the input and holding registers that can hold a serial, every content of a recognised serial shape (AA9999A999 or AAA9999999, letters of either case, padding NULs ignored) keeps its prefix and date and loses its unit digits; other content there is left as it is, since the same registers hold measurements on other devices. Everything else is unchanged: every other value, the lengths, the structure and order of the stream, the original object; check codes match the redacted content. Bytes that do not decode as a frame, and an unfinished last frame, pass through intact; a capture hands its sink nothing but redacted output, under the right direction.",
  ["inputs"], "every serial text (including malformed ones), every frame kind, every chunking of an unbounded stream, every register store; two-byte characters (a sharp s in a serial register) aside",
  "privacy requires that no input at all leaks; tests check sample serials",
  ["client/client.py", "model/register.py", "model/register_cache.py", "model/plant.py", "pdu/lan_config.py"],
  [("redact_serial", B + "model/register.py"), ("FrameRedactor", B + "client/client.py"), ("RegisterCache.redact_serials", B + "model/register_cache.py"), ("Plant.redact", B + "model/plant.py")], [], ["redacted output"])

p("C15", "Register decoding: value conversions match the register map for every raw value",
  "Every raw 16-bit register value (or pair) is decoded to the number, enum, flag set, time slot, date or text that the register map defines, with sign, scale and combination applied exactly, and missing registers give no value rather than a wrong one. Decoding never raises for any raw content.",
  ["inputs"], "all raw register values for every converter and every defined attribute; present and absent registers",
  "sign boundaries, scale factors and invalid enum or time codes occur at particular raw values among 2^16..2^80",
  ["model/register.py", "model/inverter.py", "model/battery.py", "model/ems.py", "model/gateway.py", "model/inverter_threephase.py", "model/meter.py"],
  [("Converter", B + "model/register.py"), ("RegisterGetter", B + "model/register.py")], [], ["decoded attribute values"])

p("C16", "What a settings write stores is what the matching read reports",
  "For every charge, discharge and pause slot and every settable value, writing through the command set and then reading the resulting registers through the data model of the same device gives back the value that was written. Slot numbers map to distinct registers, and writing one slot leaves all the others as they were.",
  ["inputs", "configurations"], "every slot number, every pair of times, every scalar setting, for each device family",
  "write and read maps are maintained in different modules; agreement must hold for each slot and time",
  ["client/commands.py", "model/slot_map.py", "model/inverter.py", "model/inverter_threephase.py", "model/ems.py"],
  [("slot maps", B + "model/slot_map.py"), ("slot setters", B + "client/commands.py")], [], ["registers written vs attributes read back"])

p("C17", "Saved register state restores exactly",
  "Saving register stores and loading them back gives the same registers with the same values: as JSON every register, including those that are known but unset; in the compact hex form every register with a value, for every device that has one. A text that is no JSON object is refused; a malformed JSON member or compact line is skipped, and never alters what the well-formed ones give. A compact row whose digits were wrapped over several lines reads as the one row. (JSON objects that repeat a name are out of scope.)",
  ["inputs"], "every set of registers of every kind and all 16-bit values",
  "round trip over all stores", ["model/register_cache.py"],
  [("RegisterCache.json/from_json", B + "model/register_cache.py"), ("to_compact/parse_compact", B + "model/register_cache.py")], [], ["store before and after"])

p("C18", "Freshness and presence reflect exactly the last accepted readings",
  "The recorded time of a register bank is that of its last accepted response and never moves on a rejected one; age and staleness queries are computed from it for any clock value. Absence and presence of a device follow exactly the readings that establish them.",
  ["histories", "inputs"], "every sequence of accepted and rejected responses, every clock value and age limit",
  "history-dependent bookkeeping", ["model/plant.py"], [("Plant.update freshness bookkeeping", B + "model/plant.py")],
  [("bank timestamps", "time each bank was last committed", B + "model/plant.py")], ["age/staleness queries"])

p("C19", "Model identification and capabilities are consistent and survive saving",
  "Each device-type code and firmware number resolves to one model by the published rules or is refused, and everything derived from the model (addresses, families, batteries, plant layout) follows from it. Saved capabilities restore to equal ones, and unknown or malformed documents are refused.",
  ["inputs", "configurations"], "every device-type code and firmware value; every capability record",
  "the code spaces are 2^16 each and the generation rule depends on firmware digits", ["model/inverter.py", "model/plant.py"],
  [("resolve_model", B + "model/inverter.py"), ("PlantCapabilities", B + "model/plant.py")], [], ["resolved model", "restored capabilities"])

p("C20", "Polling plans stay within protocol limits and cover what the model needs",
  "For every possible set of capabilities, each planned read covers 1 to 60 registers inside the register space, goes to a device the plant has, and is never repeated; banks a model needs are always included. A bank is skipped on refresh only if it was read within the requested age.",
  ["configurations", "histories", "inputs"], "every model, number of batteries, meters and modules, every freshness state and age limit",
  "combinatorial in the plant layout and freshness state", ["client/client.py", "model/manifest.py", "model/plant.py"],
  [("Client.refresh planning", B + "client/client.py"), ("manifest ranges", B + "model/manifest.py")], [], ["requests planned"])

p("C21", "A refresh reports success, partial success or failure truthfully",
  "A load or refresh returns normally only if every planned read succeeded, reports partial success listing exactly the reads that failed if some but not all did, and reports failure if all did. No read error is swallowed, and a cancellation is passed on rather than reported as a failed read.",
  ["fault_sequences", "inputs"], "every number of reads and every assignment of outcomes to them",
  "2^n outcome vectors for any n", ["client/client.py", "exceptions.py"], [("Client._execute_reads", B + "client/client.py")], [], ["return value or exception of refresh/load_config"])

p("C22", "Write echoes and heartbeats are applied exactly",
  "An acknowledged write updates exactly the one register it names, of the inverter, to the acknowledged value; an error acknowledgement changes nothing. Every heartbeat request received is answered by exactly one heartbeat that echoes its adapter type.",
  ["inputs", "histories"], "every register, value, prior state and heartbeat content",
  "all states and values", ["model/plant.py", "pdu/heartbeat.py", "client/client.py"],
  [("Plant.update", B + "model/plant.py"), ("Client network consumer", B + "client/client.py"), ("HeartbeatRequest.expected_response", B + "pdu/heartbeat.py")], [], ["plant state", "frames queued"])

p("C23", "Repeated idle disconnects are reported once per window and no drop is lost",
  "Remote closes are logged as a warning at most once per reporting window, further drops inside the window are counted, and the next report of the same burst states exactly how many drops there were since the previous one; a whole window without a drop ends the burst, and the next drop is reported afresh. Every drop still ends the connection.",
  ["histories", "schedules"], "every sequence of drop times", "counting over arbitrary sequences of times", ["client/client.py"], [("Client._note_eof_drop", B + "client/client.py")],
  [("drop counter and window start", "coalescing state", B + "client/client.py")], ["log records"])

p("C24", "The receive and transmit loops survive bad messages and keep serving",
  "A malformed or unexpected message never stops the receive loop: every later valid message is still applied and completes its request, and messages are applied in the order received. The transmit loop sends each queued frame exactly once, in order and spaced by the configured wait, and skips frames whose waiter has gone or is already answered.",
  ["schedules", "fault_sequences", "histories"], "every sequence of received chunks and decode errors; every queue content",
  "loop invariants over unbounded streams of events", ["client/client.py"],
  [("network consumer", B + "client/client.py"), ("network producer", B + "client/client.py")], [], ["plant updates", "bytes written to the socket"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
