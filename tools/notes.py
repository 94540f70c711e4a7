"""technique and level_note of each check (MANIFEST.json)"""
T = "stateless model checking of the real code"
NOTES = {
    "C01": (
        T + ": exhaustive enumeration of frames, and of all ways the serial device splits writes",
        "All header bytes and payload lengths 0..255 (and refused longer ones) against an "
        "independent framing reference; up to 3 frames (4 thorough) through the real "
        "serial_asyncio transport with every combination of up to 3 short or blocked writes and "
        "submissions while the line is busy. Trusts the fake serial device."),
    "C02": (
        T + ": exhaustive enumeration of byte streams and of their cuts into reads",
        "Every stream over a 5-byte alphabet up to length 9 (11 thorough), every sequence of up "
        "to 3 (4) tokens out of 15-19 good/bad/nested/truncated frames, every header byte pair, "
        "every checksum and length byte; fed byte by byte, whole and cut; frames and the offset "
        "at which each is delivered are compared with an independent deframer."),
    "C03": (
        T + ": exhaustive enumeration of bad frames in every position and grouping among good ones",
        "The running application over a simulated adapter: 36 kinds of bad frames x good frames x "
        "groupings into reads and cut points, every type/subsystem byte x command id, and every "
        "table command truncated at every length, while a request waits for its response."),
    "C04": (
        T + ": exhaustive enumeration of commands, field values and truncation points",
        "Every command of the table in each direction: every field over its boundary and walking "
        "values (pairs of fields in the thorough tier), list and buffer lengths, and every "
        "truncation point, against an independent codec over a frozen copy of the table "
        "(spec/mt_table.json), through the frame layer and the real receive path."),
    "C05": (
        T + ": all schedules of concurrent requests, adapter answers and timers within a "
        "deviation bound",
        "API.request on a real event loop with virtual time: all combinations of up to 5 "
        "concurrent requests of 12 kinds x 11 ways to answer x interleavings within 1-3 "
        "deviations; each command of the table among the responses of all others; 700 requests "
        "in a row; two adapters in one process; every answer carries a serial number, and a functional oracle says from "
        "what was transmitted and delivered when how each call must have ended."),
    "C06": (
        T + ": all schedules of silence, lateness, cancellation, loss and close within a "
        "deviation bound",
        "As C05 with cancellation, close and loss of the connection at every scheduling point; "
        "each outcome's kind and time is checked, a follow-up request must work, and no pending "
        "expectation may be left once all deadlines have passed."),
    "C07": (
        T + ": all combinations of sends and adapter answers, and their schedules within a bound",
        "Unicast, multicast, broadcast, ZDO and permit-join sends through the application: all "
        "256 statuses, all answers for 1-3 concurrent sends, queues of 5-6 sends so that waiting "
        "exceeds the reply window."),
    "C08": (
        T + ": all histories of requests, answers and replies up to a depth, and their schedules",
        "All kinds of ZDO request x all 256 transaction numbers; histories of 4-6 requests, "
        "replies, waits and cancellations over 2 devices and 2-3 kinds; devices whose addresses "
        "differ in one bit or byte; up to 600 exchanges in a row; two adapters; races within a "
        "deviation bound; a queueing oracle decides to which request each reply belongs."),
    "C09": (
        T + ": exhaustive enumeration of outgoing messages over argument values",
        "Addresses x endpoints x transaction numbers x data lengths for each send call, every "
        "ZDO cluster id (all 65536 thorough), every ZDO service zigpy can issue; the bytes on the "
        "line are compared with an independent mapping."),
    "C10": (
        T + ": all schedules of up to 19 concurrent sends within a deviation bound",
        "2-slot and 16-slot adapters, every outcome (accepted, rejected, silent, slow, late, "
        "cancelled) of up to 4 sends in every order and 18-19 sends on 16 slots, up to 100 sends at once, two adapters; slots, order "
        "and promptness are computed from the bytes on the line."),
    "C11": (
        T + ": all histories of incoming frames up to a depth, and field value enumeration",
        "Boundary and walking values of every field of both message forms; histories of 3-5 "
        "messages, notifications and sends with every grouping into reads within a bound; messages "
        "at every point of start-up and recovery; two adapters at once; "
        "deliveries to zigpy devices are compared in full and in order."),
    "C12": (
        T + ": all histories of announcements and messages up to a depth",
        "2-4 devices (one known only by its message) x 2-4 short addresses, depth 3-5; the device "
        "table, join notifications and attribution are compared with a reference table."),
    "C13": (
        T + " against a simulated adapter in every prior state",
        "All combinations of marker, matching/differing settings, device state and endpoints x "
        "three firmware families, every single bit of every compared setting; the adapter's NV "
        "memory, reset and commissioning history are checked after formation."),
    "C14": (
        T + " against a simulated adapter in every prior state",
        "All combinations of marker and matching/differing settings x families x device state: "
        "either nothing persistent is touched, or the adapter is initialised, as an independent "
        "reference decides; the reported outcome is checked, also for one application started "
        "repeatedly on an adapter that was changed in between."),
    "C15": (
        T + ": every cut point of formation, and every second cut during recovery",
        "Silence, error and loss before and after the effect of every command, from 7 prior "
        "states x 3 families (x 2 configurations), formation repeated until it succeeds; pairs "
        "of cuts (for selected states in the quick tier), power cuts, every error status for every "
        "command; the marker invariant is "
        "evaluated at every command."),
    "C16": (
        T + " over endpoint registration patterns",
        "All single, double and block patterns of registered endpoints (all 2^13 thorough) x "
        "group membership x families, unusual orders of the answers, and an error or silence for "
        "each single registration."),
    "C17": (
        T + ": loss, open failures and faults at every scheduling point, up to 3-4 faults",
        "The application over a simulated adapter; the connection is lost at every event-loop "
        "step, repeatedly, also while recovering and after restarts of the same application; two "
        "adapters in one process; port openings over time are compared with the "
        "5 s rule, at most one connection is open, and at the end requests and messages work."),
    "C18": (
        T + ": shutdown at every scheduling point of operation, recovery and start-up",
        "One or two shutdowns at every event-loop step combined with up to 2 losses, failing "
        "opens and command faults, also after restarts; nothing may be opened or written afterwards. Every single "
        "fault of a start-up through ControllerApplication.new."),
    "C19": (
        T + ": every environment answer at every step of a probe",
        "Open results x early frames x 23 kinds of answers, loss and cancellation at every "
        "scheduling point, two overlapping probes, up to 130 probes in a row, every version and "
        "link setting, automatic port selection, a probe beside a working application."),
    "C20": (
        T + " over all settings and sets of attached ports",
        "All combinations of valid and invalid settings, every way of connecting x write "
        "splitting, all sequences of up to 3 attached ports of 8 kinds, requests issued at every "
        "point of connecting and of recovery, adapters that move to other ports."),
    "C21": (
        T + " over configuration values",
        "Walking and boundary values of every setting (all PAN ids and all channel subsets in the "
        "thorough tier; all byte values at all positions of key and extended PAN id), written to "
        "and compared with the simulated adapter."),
    "C22": (
        T + ": all histories of permit-join events up to a depth",
        "All durations and out-of-range ones through 3 calls, histories of 3-4 events out of 10 "
        "kinds on 3 families, other messages (joins, leaves, ...) in between, every answer to the LED commands within a bound, indications at "
        "every command of start-up, up to 140 repetitions, histories after recoveries."),
    "C23": (
        T + ": every fault at every step of start-up",
        "7 kinds of faults at every command and a loss at every scheduling point, with and "
        "without formation, on 3 families in 4 states; identity, absence of formation commands, "
        "bounded failure and a successful second attempt are checked; one application started "
        "several times on adapters that are exchanged."),
}
NOT_APPLICABLE = {}
