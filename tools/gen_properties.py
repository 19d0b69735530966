#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one call per property keeps it reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "Any bus traffic is handled without memory errors, UB or hangs",
 "Whatever frames arrive on the bus (any opcode, any length 0-8, any flags, identifiers, order and timing), in every supported module geometry and combination of services, processing never reads or writes outside an object, never executes undefined behaviour, never uses an uninitialised value to decide what to do, never puts one on the bus or into the storage, never calls the application with an index outside its tables, and every processing step returns.",
 ["inputs", "histories", "configurations"],
 "all frame sequences x all module geometries (0..255 NVs, events, EVs, produced events) x service combinations",
 "The 199 tests send a few dozen well-formed messages to one geometry (MAX_EVENTS 20, 2 or 4 EVs) without sanitizers; out-of-bounds accesses, full tables and 255-sized tables are never reached.",
 ["src/Controller.cpp", "src/CanService.cpp", "src/Configuration.cpp", "src/EventTeachingService.cpp", "src/EventProducerService.cpp", "src/MinimumNodeService.cpp", "src/NodeVariableService.cpp", "src/LongMessageService.cpp"],
 [("length checks in message handlers", "src/*Service.cpp"), ("index checks against the configured geometry", "src/EventTeachingService.cpp, src/NodeVariableService.cpp"), ("bounded action queue", "src/CircularBuffer.h")],
 ["compiler sanitizer reports", "CPU-time watchdog around every case", "storage address monitor"])

prop("C02", "Event table behaves as a bounded map under teach, unlearn, clear and read",
 "After any history of teaching, unlearning and clearing commands in learn mode, the stored events and their event variables are exactly those the acknowledged commands produce: an acknowledged command has its full effect, a rejected command has no effect and is answered with the documented error, other events are untouched, and storage is refused only when the table is full.  Reading back by event, by index, by listing and by counting (used plus free equals capacity) agree with each other and with that table.",
 ["histories", "inputs", "configurations"],
 "all command histories x all NN/EN (including hash collisions, NN 0) x EV indices/values x table sizes and EV counts",
 "Tests teach one or two events each into an empty table of one size; they never collide hashes, fill the table, delete and re-teach, or compare all read paths after long histories.",
 ["src/EventTeachingService.cpp", "src/Configuration.cpp"],
 [("RAM hash table kept in step with stored NN/EN", "Configuration::updateEvHashEntry/findExistingEvent"), ("free-slot search", "Configuration::findEventSpace"), ("produced-event re-teach by EV1", "EventTeachingService::handleLearnEvent")],
 ["CAN frames in/out", "storage contents", "Configuration::findExistingEvent/numEvents"],
 [("event slots", "4-byte NN/EN plus EVs, FFFFFFFF = free", "storage from EE_EVENTS_START"), ("evhashtbl", "RAM hash per slot, 0 = free", "Configuration")])

prop("C03", "Events change over the bus only in learn mode, entered only by own commands",
 "Learn mode is entered only by a learn command addressed to this node and left by a release addressed to this node, by a learn-off mode command addressed to this node or by another node being put into learn mode.  Outside learn mode no bus message changes any stored event or event variable (a factory reset and the default events created on commissioning apart), and the learn flag in the node parameters always equals the actual learn state.",
 ["histories", "inputs"], "all message histories (all opcodes) interleaved with learn/unlearn commands for this and other nodes",
 "Tests check single transitions; they do not show that no other opcode, length or address changes the table or the learn state.",
 ["src/EventTeachingService.cpp"],
 [("bLearn gate on every mutating handler", "EventTeachingService"), ("PF_LRN flag mirrored", "enableLearn/inhibitLearn")],
 ["storage write log (events area)", "parameter 8 read over the bus", "responses to REQEV/EVULN"])

prop("C04", "Consumed events reach the handler exactly once iff the event is taught",
 "For every accessory on/off event message (long or short, with 0-3 data bytes, and long status responses) the registered handler is called exactly once, in arrival order, with the index of the table entry holding that event and the message bytes intact, if that event is taught, and not at all otherwise.  Short events match only entries taught with node number 0 regardless of the sender; the node's own produced events are consumed too exactly when the consume-own-events service is present.",
 ["histories", "inputs", "configurations"], "all event tables reachable by teaching/unlearning x all event messages, senders and data lengths x with/without consume-own-events",
 "Tests use one or two taught events; a wrong hash, stale entry, wrong opcode case or reorder only shows with many colliding events and mixed traffic.",
 ["src/EventConsumerService.cpp", "src/Configuration.cpp", "src/ConsumeOwnEventsService.h"],
 [("opcode switch and NN/EN lookup", "EventConsumerService::handleConsumedMessage"), ("hash lookup confirmed against stored NN/EN", "Configuration::findExistingEvent")],
 ["event handler callback log", "CAN frames in"])

prop("C05", "A produced event is always sent as the event currently assigned to its source",
 "For every request of the application to send the event of a source value, exactly one message is sent: on/off as requested, with the given 0-3 data bytes, as the event whose EV1 equals the source value, in short form with this node's number when it is stored with node number 0 and in long form otherwise.  If no event is assigned to that source a fresh default event with this node\'s number, an unused event number and its other event variables zero is created and used from then on; when the table has no room nothing else in the table or outside it is disturbed.  Clearing all events of a producing module raises the reset flag, by which its sketch knows at the next start to create its default events.",
 ["histories", "inputs", "configurations"], "all teach/unlearn/re-teach/clear/node-number-change histories x source values x data forms x table fill levels",
 "Tests send from a freshly initialised table; stale EVs in deleted slots, full tables and re-taught sources are not covered.",
 ["src/EventProducerService.cpp", "src/Configuration.cpp"],
 [("lookup by EV1", "Configuration::findExistingEventByEv"), ("default event creation", "EventProducerService::createDefaultEvent")],
 ["CAN frames out", "event table read-back", "storage write log"])

prop("C06", "Event status requests reach the producer once and are answered in matching form",
 "A status request for an event that is in the table with a non-zero EV1 invokes the producer's request handler exactly once with the right index and message (short requests only when addressed to node 0 or this node), and any other message does not.  A response sent by the application for an index carries that event's identity and the requested state and data, in short or long response form matching the stored event.",
 ["histories", "inputs"], "all tables x all request messages (long/short, own/other/zero NN) x response forms with 0-3 data bytes",
 "Tests cover one short and one long request with a fixed table.",
 ["src/EventProducerService.cpp"], [("request dispatch", "EventProducerService::handleProdSvcMessage"), ("response encoding", "EventProducerService::sendEventResponse")],
 ["request handler callback log", "CAN frames out"])

prop("C07", "Node variables behave as an isolated array of bytes with checked indices",
 "Reading a node variable returns the last value acknowledged as written to it, reading index 0 lists the count and then every variable once, and writes with index 0, out-of-range indices or truncated messages are rejected with an error response and change nothing.  No node-variable command changes anything but the addressed variable.",
 ["histories", "inputs", "configurations"], "all read/write histories x all indices 0-255 x values x NV counts and layouts",
 "Tests write one or two NVs of a 4-NV module; index 0 writes and neighbouring storage are not observed.",
 ["src/NodeVariableService.cpp", "src/Configuration.cpp"], [("index check", "NodeVariableService::handleSetNV etc."), ("address computation", "Configuration::readNV/writeNV")],
 ["CAN frames in/out", "storage write log"])

prop("C08", "Acknowledged configuration survives a restart unchanged",
 "After any history of configuration, restarting the module on the same storage gives a module with the same mode (normal or uninitialised), node number, CAN ID, heartbeat setting, node variables and event table (including which slots are used), and it answers queries and consumes and produces events exactly as before the restart.",
 ["histories", "configurations"], "all histories of commands with restarts inserted at any quiescent point x geometries",
 "Tests never restart a module over the storage it wrote; RAM caches (hash table, mode, NN, CAN ID) could silently diverge from storage.",
 ["src/Configuration.cpp", "src/MinimumNodeService.cpp"], [("load at begin", "Configuration::loadNVs/makeEvHashTable"), ("write-through setters", "Configuration::set*")],
 ["query transcript before/after restart", "storage contents"])

prop("C09", "Power loss at any storage write leaves a usable module, other settings intact",
 "If power is lost between any two storage byte writes of a command, the restarted module works, everything the command was not changing (other node variables, other events, identity) reads back as before, and every byte of the item under change reads as its old or its new value.  Re-issuing the interrupted node-variable, event, CAN ID or heartbeat command then completes it.",
 ["crash_points", "histories"], "every storage-write boundary of every configuration command, from many reachable states",
 "No test interrupts a command; write order matters only at a crash.",
 ["src/Configuration.cpp", "src/EventTeachingService.cpp", "src/MinimumNodeService.cpp"], [("order and extent of storage writes", "Configuration::write*/set*")],
 ["storage write log replayed as every prefix", "query transcript after restart"])

prop("C10", "Mode and node-number life cycle follows the documented state machine",
 "The module is always in exactly one of Uninitialised, Setup or Normal and changes only as documented: request for setup (button or MODE command) asks for a node number; a SET NODE NUMBER is accepted only in Setup, acknowledged with the new number and makes the module Normal with it; another node entering setup or a cancel reverts to the previous mode and number; going Uninitialised from Normal releases the held number first, and going Uninitialised always clears number and CAN ID.  Replies, the mode indication and the normal flag in the node parameters always agree with that state.",
 ["histories", "inputs"], "all sequences of button actions, MODE/SNN/RQNN/NNRSM/other messages for this and other nodes",
 "Tests walk single transitions from a fixed start; sequences such as setup-from-normal, abort, re-setup and uninitialise are not explored.",
 ["src/MinimumNodeService.cpp", "src/Configuration.cpp"], [("instantMode/currentMode state machine", "MinimumNodeService::process/handleModeMessage"), ("persisted mode and number", "Configuration::setModule*")],
 ["CAN frames out", "ACT_INDICATE_MODE actions seen by a UI", "storage contents", "PNN/PARAN replies"])

prop("C11", "Messages addressed to other nodes have no effect and get no reply",
 "A message that carries another node's number (or any response, event-unrelated or unknown opcode) produces no reply, changes nothing in storage and nothing in later behaviour, never restarts the board, apart from the documented broadcast effects (another node entering setup aborts setup; another node entering learn mode ends learn mode; CAN ID conflict detection).",
 ["inputs", "histories"], "all opcodes and lengths x all foreign node numbers x all module states",
 "Tests check a few opcodes for one foreign number; a missing node-number check anywhere lets one configuration tool command alter several nodes.",
 ["src/*Service.cpp", "src/Service.cpp"], [("node number check at the start of every handler", "Service::isThisNodeNumber")],
 ["CAN frames out", "storage write log", "differential run with the foreign messages removed"])

prop("C12", "CAN ID self-enumeration picks the lowest free ID and is announced and persisted",
 "A CAN ID conflict, an ENUM command for this node or a setup/button request makes the module broadcast one enumeration request, collect replies for 100 ms and then adopt and persist the lowest CAN ID of 1 or above that no reply used, acknowledging only if it was commanded; it never stays in enumeration and normal traffic is still handled during it.  SET CANID is accepted only for this node and only for 1-99, answered accordingly, and every later frame carries the new ID.",
 ["inputs", "histories", "schedules"], "all reply sets (0-127 IDs, duplicates, late and early replies) x triggers x interleaved traffic and timing",
 "Tests use a few reply IDs with all replies before the timeout.",
 ["src/CanService.cpp"], [("enumeration bitmap and 100 ms timer", "CanService::startCANenumeration/checkCANenumTimout/findFreeCanId")],
 ["CAN frames in/out with timestamps", "storage CANID"])

prop("C13", "Every transmitted frame is well formed",
 "Every frame the module transmits is a standard frame carrying the fixed priority and the module's current CAN ID; data frames carry exactly the number of bytes their opcode prescribes and every message that reports a node number carries this module's current one.",
 ["histories", "inputs", "configurations"], "all traffic and API call histories that make the module transmit",
 "Tests compare selected bytes of selected replies; lengths and headers are mostly unchecked.",
 ["src/CanService.cpp", "src/Controller.cpp", "src/*Service.cpp"], [("header construction", "CanService::sendMessage"), ("message construction", "Controller::sendMessageWithNNandData")],
 ["CAN frames out"])

prop("C14", "Reported parameters and services describe the module as configured",
 "Parameter queries report the configured counts, identity and version, with flags that match the services present and the current normal/learn state; every valid index is answered with exactly one correct value, index 0 lists all, and invalid indices are answered with an error.  Service discovery reports exactly the exposed services with stable indices that work in later service-specific requests.",
 ["configurations", "inputs", "histories"], "all service lists and orders (including hidden services) x geometries x indices 0-255 x mode/learn states",
 "Tests query one or two fixed service lists and a few indices.",
 ["src/MinimumNodeService.cpp", "src/Parameters.h", "src/Controller.cpp"], [("parameter block", "Parameters / Controller::setParams"), ("service iteration", "MinimumNodeService::handleRequestServiceDefinitions")],
 ["CAN frames out"])

prop("C15", "Heartbeats are sent every 5 seconds exactly while enabled in Normal mode",
 "While the module is in Normal mode with heartbeat enabled it sends one heartbeat per 5 s of polled time, with consecutive sequence numbers modulo 256 and this node's number, and it sends none in Setup or Uninitialised mode or while disabled; enabling or disabling over the bus takes effect at once and persists.",
 ["schedules", "histories"], "all polling schedules and millisecond-clock jumps x mode and enable/disable histories, long runs past 256 heartbeats",
 "Tests check one or two heartbeats at fixed times.",
 ["src/MinimumNodeService.cpp"], [("heartbeat timer", "MinimumNodeService::heartbeat")], ["CAN frames out with timestamps"])

prop("C16", "Diagnostics report true counts and valid codes only",
 "Diagnostic requests for this node return, for each exposed service and code, the true value (events produced, consumed and taught, node-number changes, uptime, transport counters) as of that moment modulo 65536, a request for all codes returns the number of codes and then each code once in order, and invalid services, codes or truncated requests are answered with an error.",
 ["histories", "inputs", "configurations"], "all histories of counted activities x service lists x requested service/code pairs",
 "Tests read counters after zero or one activity with fixed service positions.",
 ["src/*WithDiagnostics.cpp"], [("per-service counters and reports", "src/*WithDiagnostics.cpp")], ["CAN frames out", "independently counted activities"])

prop("C17", "GridConnect encoding round-trips; the serial stream resynchronises after noise",
 "Encoding any valid CAN frame and decoding the text gives back the same frame, decoding accepts exactly messages of the documented syntax (unused identifier bits may have any value; a remote request may carry data pairs) and leaves the caller with an error otherwise, and no input reads or writes outside the buffers.  Over a serial byte stream (letters in either case) every well-formed frame, whatever noise came before it, is delivered exactly once, in order and unaltered, and malformed text is never delivered as a frame.",
 ["inputs", "histories"], "all frames (11/29-bit ids, RTR, 0-8 bytes) x all byte strings x all chunkings of streams with noise, truncation and over-long messages",
 "Tests encode/decode about ten fixed strings and never exercise the stream reader.",
 ["src/GridConnect.cpp", "src/SerialGC.cpp"], [("codec", "encodeGridConnect/decodeGridConnect"), ("frame assembly", "SerialGC::available")],
 ["codec return values and buffers", "serial bytes in/out", "frames delivered"])

prop("C18", "Long messages are delivered whole, in order and once, or reported incomplete",
 "A message sent through the basic long message service is put on the bus as a header and consecutive numbered fragments that reassemble to exactly the sent bytes (a CRC in the header is either absent or right), the fragments no closer than the delay set and none later than the first poll after it.  A receiver subscribed to its stream delivers exactly the sent bytes, in parts only when its buffer fills, with a final complete status when all fragments arrive in order, whatever traffic of other streams is interleaved, reports an error or timeout status (never complete) when fragments are lost, reordered or stop arriving, and then accepts the next message.",
 ["inputs", "schedules", "fault_sequences"], "all lengths, contents, buffer sizes, stream ids x interleavings, losses, duplications, reorderings, delays",
 "Tests send one short message and receive one; no loss, interleaving, length above a few fragments or timing.",
 ["src/LongMessageService.cpp"], [("sequence numbers, flush of partial buffers, timeout", "LongMessageService")], ["CAN frames", "long message handler callback log", "return values"])

prop("C19", "Concurrent long messages, with optional CRC, arrive independently and intact",
 "Each message accepted by the extended long message service is transmitted completely, its fragments no closer than the delay set and each message in progress getting its turn, and, under any interleaving with other streams and senders for which contexts exist, every subscribed receiver delivers exactly its bytes with status complete; corrupted, lost or stalled messages end with an error status and never as complete (with CRC on, any corrupted content), and contexts are always reclaimed so later messages work, as is the memory taken for sending.  When contexts are exhausted further messages are refused without disturbing those in progress.",
 ["inputs", "schedules", "fault_sequences", "configurations"], "all sets of concurrent messages, lengths, contents, context counts, CRC on/off x interleavings and faults",
 "The extended service has no tests at all.",
 ["src/LongMessageService.cpp"], [("send/receive contexts, CRC32", "LongMessageServiceEx")], ["CAN frames", "callback log", "return values"])

prop("C20", "Queued actions and messages are processed in order, none lost within capacity",
 "The circular buffer is a FIFO that holds its capacity, overwrites only the oldest entry when full, and whose put/get/overflow counters and high-water mark are exact within their counter width.  Every action or message queued on the controller while there is room is presented exactly once, in order, to every service in registration order, and messages sent in one burst of up to the queue capacity all reach the transport in order.",
 ["histories", "inputs"], "all put/pop/peek/clear histories x capacities 1-255; all bursts of actions and messages with and without incoming traffic",
 "Tests do a handful of puts on a small buffer; wraparound at many head/tail positions and interplay of bursts with processing are not explored.",
 ["src/CircularBuffer.h", "src/Controller.cpp"], [("head/tail/full", "CircularBuffer"), ("one action per processing step", "Controller::process")], ["recording services", "buffer accessors"])

prop("C21", "Push button and LEDs follow the documented gestures and modes",
 "Every press of the push button is classified by its duration (under 0.5 s enumeration in Normal mode, 1-2 s renegotiate, over 4 s change of mode) and triggers exactly its one action, whatever the polling interval; other durations trigger nothing.  The green and yellow LEDs always show the current mode (green uninitialised, yellow blinking setup, yellow normal) with activity pulses returning to that indication.",
 ["schedules", "inputs"], "all press durations, polling intervals and mode/activity sequences",
 "Switch, LED and LEDUserInterface have no tests at all.",
 ["src/LEDUserInterface.cpp", "src/Switch.cpp", "src/LED.cpp"], [("debounce and durations", "Switch"), ("blink and pulse timers", "LED"), ("gesture to action", "LEDUserInterface")], ["pin writes with timestamps", "actions seen by a recording service"])

prop("C22", "Every storage backend is a faithful byte store that persists",
 "For every storage type, reading an address returns the byte last written to it by single or block writes of any alignment and length, other addresses are unaffected, contents survive re-opening, and a reset erases exactly the documented contents to the erased value.",
 ["histories", "inputs", "crash_points"], "all sequences of read/write/block write/block read/reset/re-open x addresses and lengths incl. page boundaries, per backend",
 "No backend has any test: the suite replaces storage with a mock.",
 ["src/EepromInternalStorage.cpp", "src/EepromExternalStorage.cpp", "src/FlashStorage.cpp", "src/DueEepromEmulationStorage.cpp"], [("address/page arithmetic and caching", "src/*Storage.cpp")], ["device models of the EEPROM library, I2C EEPROM chip, flash pages"])

prop("C23", "The serial console never disturbs the module and reports its true state",
 "Any characters typed at the serial console only do what the command letters document: queries print the module's actual identity, mode, events and variables and change nothing, and configuration commands have exactly their documented effect.",
 ["inputs", "histories"], "all character streams x module states and geometries",
 "The serial user interface has no tests.",
 ["src/SerialUserInterface.cpp"], [("command switch", "SerialUserInterface::processSerialInput")], ["serial output", "storage write log", "actions and CAN frames"])

prop("C24", "Only standard data frames are messages; enumeration requests are answered",
 "Every remote-request frame is answered at once with exactly one empty frame carrying the module's CAN ID, extended frames are ignored entirely, and every other received frame with data is handed to the services exactly once, in arrival order with its bytes unchanged (absent bytes read as zero); CAN IDs are learnt only from frames that carry them.",
 ["inputs", "histories"], "all frame flag/length/id combinations in all orders, at any time including during enumeration",
 "Tests feed one frame kind at a time.",
 ["src/CanService.cpp"], [("frame classification", "CanService::checkIncomingCanFrame")], ["CAN frames in/out", "recording service"])

prop("C25", "A message shorter than its opcode requires is never acted on",
 "For every command that carries parameters, a truncated message (fewer bytes than the opcode prescribes) changes no stored state, no mode and no learn state, starts no enumeration, calls no application handler, and is answered, if at all, by an error response.",
 ["inputs", "histories"], "all opcodes x all shorter lengths x all module states, this node's and other node numbers",
 "Tests truncate a few opcodes to one length.",
 ["src/*Service.cpp"], [("length checks", "src/*Service.cpp handlers")], ["storage write log", "CAN frames out", "query transcript"])

prop("C26", "Timed behaviour is unaffected by the millisecond counter wrapping round",
 "Any history of traffic, polling and user actions gives the same observable behaviour at the same relative times whether or not the millisecond counter wraps during it (heartbeats, enumeration, LED blinking, button timing, long message pacing and timeouts).",
 ["schedules", "histories"], "all histories x all positions of the wrap within them",
 "Tests start the clock at 0 and never wrap it (49.7 days on hardware).",
 ["src/MinimumNodeService.cpp", "src/CanService.cpp", "src/LED.cpp", "src/Switch.cpp", "src/LEDUserInterface.cpp", "src/LongMessageService.cpp"], [("unsigned elapsed-time subtraction", "all timers")], ["full observable trace with relative timestamps, differential"])

prop("C27", "Factory reset and first power-up give the documented default state",
 "After a factory reset (bus command, reset by the sketch before or after start-up, or virgin storage) from any state and a restart, the module is Uninitialised with node number 0, CAN ID 0, no flags, all node variables 0 and no stored events, its released node number having been announced on the bus, once and before the board restarts, if the reset was commanded over the bus; every such reset restarts the board exactly once, as does a software reset command, which changes no settings; a module with configured storage is never reset or restarted by starting up.",
 ["histories", "configurations"], "all prior states x storage contents x geometries x reset paths",
 "Tests check a few storage cells on one geometry with a storage mock whose reset does nothing.",
 ["src/Configuration.cpp", "src/MinimumNodeService.cpp"], [("virgin detection and resetModule", "Configuration::begin/resetModule")], ["storage contents", "query transcript after restart", "CAN frames out"])

prop("C28", "Modules sharing a bus end up with distinct CAN IDs and consistent conversations",
 "For any number of modules started with equal or arbitrary CAN IDs on one bus, once each has transmitted in turn and enumerations have completed, all CAN IDs are distinct and stay so; at every time a command addressed to one node is answered by that node alone and its configuration alone changes.",
 ["schedules", "histories", "configurations"], "all initial ID assignments x module counts x bus delivery delays and polling orders",
 "Tests run a single node against a mock transport.",
 ["src/CanService.cpp", "src/Controller.cpp"], [("conflict detection and enumeration", "CanService")], ["bus trace of several real nodes"])

prop("C29", "The MCP2515 transport passes frames and settings through unchanged",
 "Every frame handed to the CAN2515 transport reaches the controller chip with the same identifier, flags, length and data, every frame received from the chip is delivered once, in order and unchanged, transmit and receive counters count exactly the successful transfers, and a transport reset re-opens the chip with the same configured oscillator, pins, buffer sizes and mode of operation.",
 ["inputs", "histories", "configurations"], "all frames x configuration setter histories x send failures and resets",
 "CAN2515 has no tests.",
 ["src/CAN2515.cpp"], [("frame copy and configuration", "CAN2515")], ["fake ACAN2515 driver log"])

prop("C30", "Commands only write the storage cells they are about",
 "Every write to persistent storage falls in the reserved module area, the node-variable area or the event area of the configured layout, node-variable commands touch only the addressed variable, event commands only the addressed event entry, identity and mode changes only the reserved cells, and queries, events and unknown messages write nothing.",
 ["histories", "inputs", "configurations"], "all traffic x layouts with guard gaps around each area",
 "Tests compare a few cells after a few commands and do not watch the rest of storage.",
 ["src/Configuration.cpp", "src/EventTeachingService.cpp", "src/EventProducerService.cpp", "src/NodeVariableService.cpp"], [("address computation", "Configuration")], ["storage write log attributed to the message being processed"])

prop("C31", "Modules built from the example sketches do what their documentation says",
 "A module running an example sketch unchanged, from first power-up through commissioning with the button, teaching, node variables, events, event requests, switch changes, console input, long messages, power cycles and resets, sends exactly the documented messages for its inputs, drives its outputs and LEDs as its stored events and node variables say, and answers only for itself.",
 ["histories", "inputs", "faults"], "all histories of bus traffic, pins, console and power over the five sketches",
 "No test compiles the examples; tests use single services over mocks.",
 ["examples/VLCB_1in1out/VLCB_1in1out.ino", "examples/VLCB_4in4out/VLCB_4in4out.ino", "examples/VLCB_SerialGC_1in1out/VLCB_SerialGC_1in1out.ino", "examples/VLCB_long_message_example/VLCB_long_message_example.ino", "examples/VLCB_empty/VLCB_empty.ino"], [("sketches", "setup() and loop()"), ("library composition", "Controller and all services")], ["frames, console output and pin levels against a model of each sketch"])

prop("C32", "Answers do not depend on how closely commands follow each other",
 "Any commands, events and requests which with their answers fit in the module's queues get the same answers in the same order, call the application the same way and leave the same stored state whether they arrive back to back or one at a time.",
 ["schedules", "histories"], "all message sequences within the queue capacity x all spacings relative to the polling of the module",
 "Tests give one message at a time and drain the module after it.",
 ["src/Controller.cpp", "src/CircularBuffer.h", "src/CanService.cpp"], [("action queue", "Controller::process/putAction"), ("one frame per poll", "CanService::checkIncomingCanFrame")], ["CAN frames out", "handler calls", "storage contents, differential"])

prop("C33", "LED and Switch objects drive and read their pins as told",
 "An LED object keeps its pin on, off, toggled, blinking at half-second steps or pulsed for 5 ms exactly as last told, and a Switch object of either polarity reports pressed state, each change once, the time of the change and how long each state lasted exactly as sampled, at any polling interval, across counter wrap, several objects at once.",
 ["schedules", "histories"], "all command and pin-change sequences x polling schedules x clock values",
 "Switch and LED have no tests at all.",
 ["src/LED.cpp", "src/Switch.cpp"], [("blink and pulse timers", "LED::run"), ("change detection and durations", "Switch::run")], ["pin writes and modes", "return values of the public methods"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
