"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})
Z = "zigpy_cc/"
prop("C01", "Outgoing frames are well-formed and put on the line exactly once",
 "Every command handed to the link leaves the serial port exactly once, whole and in submission order, as one MT frame: start byte 0xFE, payload length, type/subsystem byte (type in the top 3 bits, subsystem in the low 5), command id, payload, and the XOR of everything between start byte and checksum. A payload that does not fit the one-byte length field is refused with an error and nothing is transmitted. This holds however the operating system splits the writes.",
 ["inputs", "schedules"], "all 4 types x 12 subsystems x 256 command ids, all payload lengths 0..255 and over, payload byte values, sequences of sends with every short-write pattern up to a bound",
 "tests check the checksum of one constant and one 28-byte bind frame; no test varies type, subsystem, length or write splitting",
 [Z+"uart.py"], [("frame serialisation and checksum", "uart.py UnpiFrame.to_buffer / calculate_checksum"), ("link write", "uart.py Gateway.send/write")],
 observe=["bytes reaching the (fake) serial device"])
prop("C02", "Frames are recovered from any byte stream, however it is chunked",
 "For every incoming byte stream the frames delivered upward are exactly those of the MT framing rules: bytes before a start byte are skipped, a frame spans the length it declares, it is delivered once with its fields unchanged if its checksum matches and dropped as a whole otherwise, and parsing resumes at the next byte. Each frame is delivered as soon as its last byte has arrived, payload-less frames included. The result never depends on how the stream is cut into reads.",
 ["inputs", "schedules"], "all streams over a byte alphabet up to a length bound, all sequences of frame/noise/corruption segments up to a bound, every way to cut them into reads",
 "tests feed seven fixed byte strings, only one of them in two chunks; none contains a zero-length payload, back-to-back frames, noise followed by a frame, or a corrupt frame followed by a good one",
 [Z+"uart.py"], [("incremental parser", "uart.py Parser.write"), ("frame decoding", "uart.py UnpiFrame.from_buffer"), ("byte loop", "uart.py Gateway.data_received")],
 state=[("receive buffer", "bytes of the frame being assembled", "uart.py Parser.buffer")],
 observe=["frames handed to the layer above the link"])
prop("C03", "One bad frame never harms its neighbours",
 "A received frame that cannot be interpreted (unknown type, subsystem or command, truncated or unsupported payload, invalid address mode, or one whose handling fails) affects only itself. Every other frame, in the same read or later, is still delivered in order, and requests in progress still complete with their own responses.",
 ["inputs", "schedules", "fault_sequences"], "all sequences up to a bound of good and uninterpretable frames, under every chunking up to a number of cuts, with a request outstanding",
 "no test feeds an uninterpretable frame through the receive path at all",
 [Z+"uart.py", Z+"api.py", Z+"zpi_object.py", Z+"buffalo.py", Z+"zigbee/application.py"],
 [("per-frame isolation", "uart.py Gateway.data_received"), ("waiters resolved before handlers run", "api.py API.data_received")],
 observe=["messages delivered to devices", "results of outstanding requests"])
prop("C04", "Commands are encoded and decoded according to the MT command table",
 "For every command of the MT command table and each direction, encoding a command's fields gives exactly the bytes the MT specification prescribes (field order, widths, little-endian integers, IEEE addresses least significant byte first, length-prefixed buffers and lists), and decoding such bytes gives the command's name, subsystem, type and field values back. Bytes that are too short for the command are reported as an error, never decoded to made-up values. A buffer without a length field takes the rest of the payload. Field types documented as not implemented (routing, binding, network and associated-device lists) are refused with an error.",
 ["inputs"], "every command x direction of the table, every field over its boundary values, list and buffer lengths 0..n, every truncation point",
 "tests cover about ten commands with one payload each",
 [Z+"buffalo.py", Z+"zpi_object.py", Z+"definition.py", Z+"types.py"],
 [("parameter codec", "buffalo.py Buffalo"), ("table driven (de)serialisation", "zpi_object.py to_unpi_frame/from_unpi_frame/from_command/read_parameters"), ("command table", "definition.py Definition")],
 observe=["encoded bytes", "decoded fields"])
prop("C05", "Requests are serialised and paired with their own responses",
 "Whatever the number of concurrent callers, requests reach the adapter in the order they were issued and a synchronous request is not transmitted while another one is still unanswered and not timed out, even if its caller was cancelled. A request completes successfully only with a response to that same command that arrived while it was waiting, and a response whose status is not among those the caller accepts (only 0 by default) is reported as a command error carrying that status. Asynchronous commands return at once without a result, and a reset waits for the adapter's reset indication.",
 ["schedules", "histories"], "all interleavings of up to 3-4 concurrent requests with adapter answers (success, error, unrelated response, indication of the same name, silence), timers and cancellation, up to a deviation bound",
 "the one test that exercises a request has a single caller and an immediate success response",
 [Z+"api.py"], [("one-request lock", "api.py API.request_raw"), ("waiter table and matching", "api.py API.wait_for/data_received, Waiter.match"), ("status check", "api.py API._request_raw")],
 state=[("waiters", "who waits for which response", "api.py API._waiters"), ("lock", "one request on the line", "api.py API._lock")],
 observe=["serial bytes", "results and exceptions of the callers"])
prop("C06", "Every request ends in bounded time and leaves nothing behind",
 "Every request ends: with the response, a command error, or a timeout at 6 s after transmission (20 s for network start-up and commissioning, 30 s for a reset), whatever is lost, late, duplicated, cancelled, or closed meanwhile. Afterwards the next request is transmitted and works normally, and once all deadlines have passed no response is still being waited for. A response that arrives after its request has ended never completes a request for another command.",
 ["schedules", "fault_sequences"], "all combinations of silence, lateness around each deadline, duplication, cancellation and connection close over sequences of up to 4 requests",
 "no running test lets a request time out (the timeout test is skipped)",
 [Z+"api.py", Z+"types.py"], [("request timeout", "api.py Waiter.wait"), ("expiry callback", "api.py API.wait_for callback"), ("lock release", "api.py API.request_raw")],
 state=[("waiters", "pending expectations", "api.py API._waiters")], observe=["time and kind of each request's outcome", "pending expectations after quiescence"])
prop("C07", "Send results tell the truth",
 "Sending a unicast, multicast or broadcast returns success exactly when the adapter accepted that very transmission; if the adapter rejects it, the call returns the adapter's non-zero status with a message instead of raising, even when the caller had to queue for longer than a reply could take; if the adapter stays silent, the call raises a timeout. A radio permit-join request raises the command error.",
 ["schedules", "fault_sequences"], "every kind of send x every adapter answer, for 1-3 concurrent sends, including long queueing delays",
 "tests replace the request layer with an always-successful mock",
 [Z+"zigbee/application.py", Z+"api.py"], [("status mapping", "application.py request/mrequest/broadcast"), ("reply waiter discarded on failure", "api.py API._request_raw")],
 observe=["return values and exceptions of the send calls"])
prop("C08", "Device replies reach the request that asked for them",
 "A device's reply to a ZDO request (node, power and simple descriptor, active endpoints, match descriptor, bind, unbind, neighbour table, leave, permit joining) arriving within 10 s of transmission is delivered exactly once, to the device that sent it, carrying the transaction number of the oldest still outstanding request of that kind to that device - for every transaction number 0..255. A request whose transmission was rejected, timed out or was cancelled never captures a later reply. Replies nobody asked for are not delivered as replies.",
 ["schedules", "histories"], "all orders of 2-3 requests over 2 devices and 2 kinds with adapter acceptance, rejection or silence and replies in any order, all 256 transaction numbers, all supported kinds",
 "one test delivers one node descriptor reply with one transaction number, with the request layer mocked out",
 [Z+"api.py", Z+"zigbee/application.py"], [("response waiter", "api.py API.create_response_waiter"), ("sequence hand-over", "api.py API.data_received"), ("reply translation", "application.py handle_znp, REQUESTS")],
 state=[("waiters", "outstanding reply expectations with their transaction number", "api.py API._waiters")],
 observe=["messages delivered to zigpy devices"])
prop("C09", "Outgoing Zigbee messages become the right adapter commands",
 "A unicast application message becomes a data request carrying exactly the given destination, endpoints, cluster, transaction number and data; a multicast or broadcast becomes an extended data request addressed to the group or broadcast address, with the broadcast's radius; a ZDO request for a supported service becomes the corresponding MT command with the same target and parameters. A message with no adapter equivalent (group-addressed bindings included) is refused with an error and nothing is transmitted.",
 ["inputs"], "boundary values of every argument (addresses, endpoints, clusters, all 256 transaction numbers, data lengths), every ZDO service of zigpy, every ZDO cluster id",
 "tests check four ZDO and one ZCL message with one set of values",
 [Z+"zpi_object.py", Z+"zigbee/application.py"], [("message mapping", "zpi_object.py ZpiObject.from_cluster"), ("send entry points", "application.py request/mrequest/broadcast")],
 observe=["bytes on the serial line"])
prop("C10", "The adapter's concurrency limit is respected and slots are never lost",
 "At most 2 application transmissions are in progress at a time (16 on Z-Stack 3.x.0 adapters), a multicast or broadcast keeping its slot for a further 0.2 s after acceptance. Whatever happens to a transmission (success, rejection, silence, cancellation), its slot is released, so a later transmission is always sent; transmissions start in the order they were requested, and one is delayed only while all slots are taken or an earlier command is unanswered.",
 ["schedules", "fault_sequences"], "all schedules of up to 4 (quick) / 18 sends on each adapter type with every outcome",
 "tests set the semaphore by hand and never run two sends at once",
 [Z+"zigbee/application.py"], [("transmission semaphore", "application.py startup / request / mrequest / broadcast / permit_ncp")],
 state=[("semaphore", "free transmission slots", "application.py ControllerApplication._semaphore")], observe=["serial bytes over time"])
prop("C11", "Incoming messages are delivered exactly once to the right device",
 "Every application message the adapter reports from a known device (short-address or extended form) is delivered exactly once, to the device having that source address, with the reported cluster, endpoints, payload and link quality, in order of arrival. Messages from unknown sources, adapter notifications and synchronous responses are delivered to no device.",
 ["inputs", "histories"], "boundary values of every field, all histories up to a depth of messages from known/unknown devices mixed with notifications of every kind",
 "one test delivers one message and asserts nothing about it",
 [Z+"zigbee/application.py", Z+"api.py"], [("indication translation", "application.py handle_znp")], observe=["messages delivered to zigpy devices", "device link quality"])
prop("C12", "The device table follows announcements",
 "After any history of device announcements and messages, each announced device is registered under its IEEE address with the short address of its latest announcement; every announcement is reported to the device as a ZDO announce, and messages are attributed by the current short address (of several devices last announced with the same one, to any of them). Announcements never disturb other devices' entries.",
 ["histories"], "all histories up to a depth over 2-3 devices and 2-3 short addresses (including a short address moving between devices)",
 "one test announces one device once",
 [Z+"zigbee/application.py"], [("join handling", "application.py handle_znp endDeviceAnnceInd branch")], observe=["registered devices and addresses", "join and announce notifications"])
prop("C13", "Forming the network leaves the adapter configured as requested",
 "When network formation succeeds on an adapter that had to be (re)initialised, the adapter is running as coordinator, its persistent settings (logical type, channel mask, PAN id, extended PAN id, network key, key distribution, direct callbacks, and on Z-Stack 1.2 the trust-centre key) equal the configuration, and its 'configured' marker is set; it was rebooted with cleared network state before these were written, and Z-Stack 3 adapters were commissioned on the configured channel. This holds from every prior adapter state and for each firmware family.",
 ["configurations", "histories"], "all combinations of matching/mismatching/missing stored settings x firmware family x device state x answers",
 "no test runs the start-up code at all",
 [Z+"zigbee/start_znp.py", Z+"zigbee/nv_items.py"], [("initialisation sequence", "start_znp.py initialise"), ("boot", "start_znp.py boot"), ("NV items", "nv_items.py Items")],
 observe=["non-volatile memory and state of the simulated adapter"])
prop("C14", "A correctly configured adapter is resumed, never wiped",
 "If the adapter's marker, channel mask, key distribution, network key and (on Z-Stack 3, unless it uses a random PAN id) PAN and extended PAN id match the configuration, formation resumes the network: no persistent setting is written and the adapter is neither reset nor re-commissioned, only started if it is not running yet. If any of them differs (PAN ids excepted on Z-Stack 1.2, and when the stored PAN id is the 0xFFFF random one) the adapter is re-initialised. The reported outcome is 'resumed' or, after initialisation, 'reset', except 'restored' on a Z-Stack 1.2 adapter that had no marker.",
 ["configurations"], "all combinations of matching/mismatching/missing stored settings x firmware family x device state",
 "no test runs the start-up code at all",
 [Z+"zigbee/start_znp.py", Z+"zigbee/nv_items.py"], [("decision", "start_znp.py needsToBeInitialised / validate_item / start_znp")], observe=["commands received by the simulated adapter", "returned outcome"])
prop("C15", "An interrupted initialisation is always detected and redone",
 "If forming the network is cut off at any point (adapter silence, error answer, lost connection or crash before or after any command takes effect), formation reports failure, and once initialisation has begun the adapter never carries the 'configured' marker together with settings other than the requested ones. Running formation again after the interruption, however often it is interrupted, ends with the adapter configured as requested.",
 ["crash_points", "fault_sequences"], "a cut before and after the effect of every command of formation, from every prior state class and firmware family, with a second cut during recovery",
 "no test runs the start-up code at all",
 [Z+"zigbee/start_znp.py"], [("marker written last", "start_znp.py initialise"), ("marker checked first", "start_znp.py start_znp")], observe=["non-volatile memory of the simulated adapter at each cut"])
prop("C16", "Endpoints and the green-power group end up registered exactly once",
 "After successful formation every application endpoint the library uses (1, 2, 3, 4, 5, 6, 8, 11, 12, 13, 47, 110, 242) is registered on the adapter with its profile, device id and cluster lists, those already registered not being registered again; and endpoint 242 is a member of the green-power group 0x0B84, added only if it was not. A rejected registration makes formation fail.",
 ["configurations", "fault_sequences"], "prior registration patterns (every single endpoint present/absent and blocks of them), group present or not, error at each registration",
 "no test runs the start-up code at all",
 [Z+"zigbee/start_znp.py"], [("endpoint table and registration", "start_znp.py Endpoints / registerEndpoints"), ("group", "start_znp.py addToGroup")], observe=["endpoint and group tables of the simulated adapter", "commands received"])
prop("C17", "A lost connection is always re-established",
 "When the serial connection is lost unexpectedly - at any moment, including during a previous recovery - the application retries, starting 5 s later and 5 s after each failed attempt (a start-up error, or the deadline of the command the loss left unanswered), until the adapter is initialised again, after which requests and messages work on the new connection. At no time are two serial connections open, and there is never more than one recovery in progress.",
 ["fault_sequences", "schedules"], "loss at every step of recovery and of normal operation, open failures, silent adapters, up to a number of faults",
 "no test loses a connection",
 [Z+"zigbee/application.py", Z+"uart.py", Z+"api.py"], [("loss notification", "uart.py Gateway.connection_lost, api.py API.connection_lost"), ("retry loop", "application.py reconnect")],
 state=[("open flag", "distinguishes deliberate close from loss", "uart.py Gateway._open")], observe=["serial ports opened and closed over time", "application operations after recovery"])
prop("C18", "Shutting down is final and releases the port",
 "After shutdown the serial port is closed and stays closed: no recovery starts or continues, nothing more is written to the adapter, whether shutdown happens in normal operation, during start-up, during recovery or twice. If start-up fails, creating the application reports the original error and leaves no port open.",
 ["schedules", "fault_sequences"], "shutdown at every step of normal operation, recovery and failed start-up; every start-up failure",
 "shutdown is not tested (the test is commented out)",
 [Z+"zigbee/application.py", Z+"api.py", Z+"uart.py"], [("shutdown", "application.py shutdown"), ("close", "api.py API.close, uart.py Gateway.close")], observe=["serial ports opened and closed over time", "exceptions"])
prop("C19", "Probing answers correctly and always frees the port",
 "Probing a port reports True exactly when an adapter answers the version request in time, and False - without raising - when the port cannot be opened, the adapter is silent, answers with an error, answers something else, or the connection drops. It never takes longer than about 2 s, and afterwards the port is closed.",
 ["fault_sequences", "schedules"], "every environment answer at every step (open, magic byte, version request), loss at every step, late answers around the deadline",
 "tests mock both the connection and the version request, with three outcomes",
 [Z+"api.py", Z+"uart.py"], [("probe", "api.py API.probe/_probe")], observe=["returned value", "open ports"])
prop("C20", "The serial link is set up as configured",
 "Device settings are validated (path must exist or be 'auto', integer baud rate defaulting to 115200, flow control hardware, software or none) and the port is opened with exactly the configured path, baud rate and flow control, 8N1. 'auto' picks the one attached adapter with a known USB id and raises an error if there is none or more than one. The wake-up byte 0xEF is the first thing written, and no request is sent until one second later, whoever issues it.",
 ["configurations", "inputs"], "all combinations of valid and invalid settings; all sets of up to 3 attached ports over matching and non-matching kinds",
 "tests cover flow control with a mocked connection; auto detection is not tested",
 [Z+"uart.py", Z+"config.py"], [("connect", "uart.py connect"), ("auto detection", "uart.py detect_port"), ("schema", "config.py SCHEMA_DEVICE")], observe=["arguments of the serial open call", "first bytes written"])
prop("C21", "Network settings are stored exactly as configured",
 "Every configured network setting is written to, and compared with, the adapter in the form the adapter stores it: channel list as a 4-byte little-endian mask, PAN id as 2 bytes little-endian, extended PAN id as 8 bytes least significant first, network key as its 16 bytes. Settings that are not configured get the documented defaults: PAN id 0x1A62, extended PAN id dd:dd:dd:dd:dd:dd:dd:dd, the default key 01 03 05 07 09 0B 0D 0F 00 02 04 06 08 0A 0C 0D, key distribution off.",
 ["configurations", "inputs"], "all 65535 PAN ids, all channel subsets up to size 2 and all 16-channel masks by walking, every byte value at every position of key and extended PAN id, each setting absent or present",
 "no test constructs the network options or NV items",
 [Z+"types.py", Z+"zigbee/nv_items.py", Z+"zigbee/start_znp.py"], [("defaults", "types.py NetworkOptions"), ("NV items", "nv_items.py Items")], observe=["bytes of the NV write commands", "non-volatile memory of the simulated adapter"])
prop("C22", "Permit-join and the status LED follow requests and indications",
 "Opening or closing the network through the adapter (permit_ncp) for a duration of 0..254 s broadcasts exactly one permit-joining request to routers and coordinator with that duration; durations outside that range are refused with nothing sent. On adapters other than Z-Stack 3.x.0 the LED is switched on when joining becomes permitted and off when a zero-duration indication arrives or the network has been formed; Z-Stack 3.x.0 adapters never receive LED commands. A failing LED command never disturbs anything else.",
 ["inputs", "histories"], "all durations, all histories of permit-join indications and replies up to a depth, all firmware families, every answer to the LED command",
 "no running test covers permit or LED behaviour",
 [Z+"zigbee/application.py"], [("permit", "application.py permit_ncp"), ("LED", "application.py set_led / handle_znp")], observe=["commands received by the simulated adapter"])
prop("C23", "Start-up identifies the adapter or fails cleanly",
 "Start-up succeeds exactly when the adapter answers the ping, version and device-info requests (and formation, when asked for, succeeds); the application then has the adapter's IEEE and short address, the detected product version, and a coordinator device registered under that IEEE address. Any error answer, silence or loss during start-up makes it raise within bounded time. Formation is performed if and only if it is requested.",
 ["fault_sequences", "configurations"], "each step of start-up answered correctly, with an error, with silence or a lost connection, for every firmware family with and without formation",
 "start-up is never executed by a test",
 [Z+"zigbee/application.py", Z+"api.py"], [("start-up sequence", "application.py startup"), ("API creation", "api.py API.new")], observe=["application identity", "commands received by the simulated adapter", "exceptions"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
