SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits,
                      demo=demo))


APP = "zigbee/application.py"
ZNP = "zigbee/start_znp.py"
NV = "zigbee/nv_items.py"
API_ = "api.py"
UART = "uart.py"
TYPES = "types.py"
ZPI = "zpi_object.py"
BUF = "buffalo.py"

CONF = "config.py"

seed("C01-length-wrap", "C01", "a payload of more than 255 bytes",
     "a payload that is too long is sent with a wrong length",
     [(UART, "        res = bytes([SOF, length, cmd0, self.command_id])\n",
       "        res = bytes([SOF, length & 0xFF, cmd0, self.command_id])\n")], '''
b = Bench()
from zigpy_cc.uart import Gateway, UnpiFrame
sent = []
class Port:
    def write(self, data): sent.append(bytes(data))
g = Gateway(None)
g._transport = Port()
try:
    g.send(UnpiFrame(SREQ, AF, 1, bytes(260)))
except Exception as e:
    expect(not sent, sent)
    ok()
expect(False, sent[0][:5])
''')

seed("C02-oversized", "C02", "a frame that declares 251 to 255 bytes",
     "the header of an overlong frame is skipped and its payload is searched for frames",
     [(UART, '''                fcsPosition = DataStart + dataLength
''', '''                if dataLength > MaxDataSize:
                    self.buffer = b""
                    return None

                fcsPosition = DataStart + dataLength
''')], '''
from zigpy_cc.uart import Gateway
got = []
class Api:
    def data_received(self, f): got.append(f.data)
    def connection_made(self, g): pass
    def connection_lost(self): pass
g = Gateway(Api())
inner = frame(AREQ, ZDO, 0xC0, b"\\x09")
g.data_received(frame(AREQ, ZDO, 0xC0, inner + bytes(253 - len(inner))) + inner)
expect(len(got) == 2 and len(got[0]) == 253, got)
ok()
''')

seed("C04-zero-len", "C04", "a buffer of declared length zero that is followed by more bytes",
     "an empty buffer is decoded to the rest of the payload",
     [(BUF, '''            length = type_name.replace("BUFFER", "") or options.length
''', '''            length = type_name.replace("BUFFER", "") or options.length or None
''')], '''
from zigpy_cc.zpi_object import ZpiObject
from zigpy_cc.uart import UnpiFrame
p = le(0) + le(6) + le(0x1234) + b"\\x01\\x01\\x00\\xff\\x00" + bytes(4) + b"\\x07" + b"\\x00" + b"\\xaa\\xbb\\x1e"
o = ZpiObject.from_unpi_frame(UnpiFrame(AREQ, AF, 0x81, p))
expect(o.payload["data"] == b"", o.payload)
ok()
''')

seed("C05-sapi-reset", "C05", "a reset by way of the SAPI interface",
     "a SAPI reset does not wait for the adapter's reset indication",
     [(API_, '''        elif obj.command_type == CommandType.AREQ and obj.is_reset_command():
''', '''        elif obj.subsystem == Subsystem.SYS and obj.is_reset_command():
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.adapter.override[(SAPI, 9)] = lambda a, d: [(3, frame(AREQ, SYS, 0x80, bytes(6)))]
t0 = b.loop.time()
r = b.result(b.app._api.request(SAPI, "systemReset", {}))
expect(r[0] == "ok" and b.loop.time() - t0 > 2.9, r, b.loop.time() - t0)
ok()
''')

seed("C07-no-reply-status", "C07", "a rejected request for which no reply is expected",
     "a rejected request without a reply is reported as sent",
     [(APP, '''            return ex.status, "Couldn't enqueue send data request: {}".format(ex)
''', '''            if not expect_reply:
                LOGGER.debug("Couldn't enqueue send data request: %s", ex)
            else:
                return (
                    ex.status,
                    "Couldn't enqueue send data request: {}".format(ex),
                )
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.adapter.override[(AF, 1)] = lambda a, d: [(0, frame(SRSP, AF, 1, b"\\x02"))]
r = b.run(b.app.request(b.device(), 260, 6, 1, 1, 9, b"\\x01\\x09\\x00", expect_reply=False))
expect(r[0] == 2, r)
ok()
''')

seed("C09-use-ieee", "C09", "a request with the option to use the extended address",
     "a request to an extended address goes to the coordinator",
     [(APP, '''                device.nwk, profile, cluster, src_ep, dst_ep, sequence, data
            )
''', '''                0 if use_ieee else device.nwk,
                profile,
                cluster,
                src_ep,
                dst_ep,
                sequence,
                data,
            )
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.run(b.app.request(b.device(), 260, 6, 1, 1, 9, b"\\x01\\x09\\x00", use_ieee=True))
x = [c[4] for c in b.adapter.log if c[2:4] in ((AF, 1), (AF, 2))]
expect(len(x) == 1 and x[0][:2] == le(0x1234), x)
ok()
''')

seed("C10-old-revision", "C10", "an adapter with an older firmware",
     "only 2 transmissions at a time on Z-Stack 3.x.0 adapters with an older firmware",
     [(APP, '''        concurrent = 16 if self.version["product"] == ZnpVersion.zStack3x0 else 2
''', '''        concurrent = (
            16
            if self.version["product"] == ZnpVersion.zStack3x0
            and self.version["revision"] > 20190100
            else 2
        )
''')], '''
b = Bench()
b.adapter.override[(SYS, 2)] = lambda a, d: [(0, frame(SRSP, SYS, 2, bytes([2, 1, 2, 7, 1]) + le(20180815, 4)))]
b.run(b.app.startup(False))
for i in range(5):
    b.task(b.app.broadcast(260, 6, 1, 255, 0, 30, i, b"\\x01"))
b.sleep(0.1)
expect(len(b.adapter.commands(AF, 2)) == 5, b.adapter.commands(AF, 2))
ok()
''')

seed("C11-own-messages", "C11", "a message the coordinator sends to itself",
     "messages from the coordinator are dropped",
     [(APP, '''        device.radio_details(lqi, rssi)

''', '''        if device.nwk == self._nwk and src_ep:
            # our own broadcast
            return

        device.radio_details(lqi, rssi)

''')], '''
b = Bench()
b.run(b.app.startup(False))
got = []
b.app.handle_message = lambda *a: got.append(a[2:])
b.adapter.send(frame(AREQ, AF, 0x81, le(0) + le(6) + le(0) + b"\\x01\\x01\\x00\\xff\\x00" + bytes(4) + b"\\x07\\x03\\x01\\x02\\x00"))
b.sleep(0.1)
expect(len(got) == 1, got)
ok()
''')

seed("C11-empty", "C11", "a message without a payload",
     "messages with an empty payload are not delivered",
     [(APP, '''            lqi = obj.payload["linkquality"]
''', '''            lqi = obj.payload["linkquality"]
            if not data:
                return
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.device()
got = []
b.app.handle_message = lambda *a: got.append(a[2:])
b.adapter.send(frame(AREQ, AF, 0x81, le(0) + le(6) + le(0x1234) + b"\\x01\\x01\\x00\\xff\\x00" + bytes(4) + b"\\x07\\x00"))
b.sleep(0.1)
expect(len(got) == 1, got)
ok()
''')

seed("C11-dst-255", "C11", "a message to all endpoints",
     "a message to endpoint 255 is delivered as one to endpoint 1",
     [(APP, '''            dst_ep = obj.payload["dstendpoint"]
''', '''            dst_ep = obj.payload["dstendpoint"]
            if dst_ep == 0xFF:
                dst_ep = 1
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.device()
got = []
b.app.handle_message = lambda *a: got.append(a[2:])
b.adapter.send(frame(AREQ, AF, 0x81, le(0) + le(6) + le(0x1234) + b"\\x01\\xff\\x00\\xff\\x00" + bytes(4) + b"\\x07\\x03\\x01\\x02\\x00"))
b.sleep(0.1)
expect(got and got[0][2] == 255, got)
ok()
''')

seed("C14-marker-any", "C14", "a marker other than the one this library writes",
     "an adapter with another marker is taken for configured",
     [(ZNP, '''    if result.payload["value"] != item["value"]:
''', '''    value = result.payload["value"]
    if value != item["value"] and (item["len"] > 1 or any(value) != any(item["value"])):
''')], '''
b = Bench()
b.adapter.nv[96] = b"\\x01"
b.run(b.app.startup(True))
expect(b.adapter.nv[96] == b"\\x55", b.adapter.nv[96])
ok()
''')

seed("C15-tclk-ignored", "C15", "a failing write of the trust-centre key on Z-Stack 1.2",
     "an adapter whose trust-centre key could not be written is marked as configured",
     [(ZNP, '''        await znp.request(Subsystem.SYS, "osalNvWrite", Items.tcLinkKey())
''', '''        await znp.request(
            Subsystem.SYS, "osalNvWrite", Items.tcLinkKey(), None, [0, 10]
        )
''')], '''
b = Bench(product=0, configured=False)
n = []
def write(a, d):
    if d[0] | d[1] << 8 == 257:
        n.append(1)
        return [(0, frame(SRSP, SYS, 9, b"\\x0a"))]
    return a.answer(SREQ, SYS, 9, d)
b.adapter.override[(SYS, 9)] = write
r = b.result(b.app.startup(True))
expect(n and r[0] == "error", n, r)
ok()
''')

seed("C16-dup-status", "C16", "an endpoint registration that is rejected with 0xB8 (duplicate)",
     "a registration that is rejected as a duplicate is taken for done",
     [(ZNP, '''            await znp.request(Subsystem.AF, "register", vars(endpoint))
''', '''            await znp.request(
                Subsystem.AF, "register", vars(endpoint), None, [0, 0xB8]
            )
''')], '''
b = Bench()
b.adapter.override[(AF, 0)] = lambda a, d: [(0, frame(SRSP, AF, 0, b"\\xb8"))]
r = b.result(b.app.startup(True))
expect(r[0] == "error", r)
ok()
''')

seed("C17-eof", "C17", "a loss that is reported without an error",
     "no recovery when the port is closed without an error",
     [(UART, '''        if self._open:
            LOGGER.error("Serial port closed unexpectedly: %s", exc)
''', '''        if self._open and exc is not None:
            LOGGER.error("Serial port closed unexpectedly: %s", exc)
''')], '''
b = Bench()
b.run(b.app.startup(True))
b.loop.call_soon(b.adapter.port.lose, None)
b.sleep(30)
expect(len(b.adapter.opens) == 2, b.adapter.opens)
ok()
''')

seed("C20-wake-flow", "C20", "flow control",
     "with flow control the first request follows the wake-up byte at once",
     [(UART, "        await asyncio.sleep(1)\n", "        await asyncio.sleep(1 if not (xonxoff or rtscts) else 0.1)\n")], '''
b = Bench()
from zigpy_cc.api import API
from zigpy_cc.config import SCHEMA_DEVICE
b.app._config["device"]["flow_control"] = "hardware"
t0 = b.loop.time()
b.run(b.app.startup(False))
expect(b.adapter.log[0][0] - t0 > 0.99, b.adapter.log[0])
ok()
''')

seed("C21-zero-key", "C21", "a network key of zeros",
     "a configured network key of zeros is replaced by the default",
     [(TYPES, '''        self.networkKey = config[zigpy.config.CONF_NWK_KEY] or (
            zigpy.config.cv_key([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])
        )
''', '''        self.networkKey = config[zigpy.config.CONF_NWK_KEY]
        if not self.networkKey or not any(self.networkKey):
            self.networkKey = zigpy.config.cv_key(
                [1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13]
            )
''')], '''
b = Bench(configured=False, nwk={"key": [0] * 16})
b.run(b.app.startup(True))
expect(b.adapter.nv[98] == bytes(16), b.adapter.nv[98])
ok()
''')

seed("C21-ff-ext", "C21", "an extended PAN id of 0xFF bytes",
     "a configured extended PAN id of 0xFF bytes is replaced by the default",
     [(TYPES, '''            t.ExtendedPanId([0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD])
        )
''', '''            t.ExtendedPanId([0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD])
        )
        if self.extendedPanID == t.ExtendedPanId([0xFF] * 8):
            self.extendedPanID = t.ExtendedPanId([0xDD] * 8)
''')], '''
b = Bench(configured=False, nwk={"extended_pan_id": "ff:ff:ff:ff:ff:ff:ff:ff"})
b.run(b.app.startup(True))
expect(b.adapter.nv[45] == b"\\xff" * 8, b.adapter.nv[45])
ok()
''')

seed("C22-led-failure", "C22", "an LED command that fails",
     "a failed LED command makes the application reconnect",
     [(APP, '''                loop.create_task(
                    self._api.request(
                        Subsystem.UTIL, "ledControl", {"ledid": 3, "mode": mode}
                    )
                )
''', '''                loop.create_task(
                    self._api.request(
                        Subsystem.UTIL, "ledControl", {"ledid": 3, "mode": mode}
                    )
                ).add_done_callback(
                    lambda task: not task.cancelled()
                    and isinstance(task.exception(), asyncio.TimeoutError)
                    and self.connection_lost()
                )
''')], '''
b = Bench(product=2)
b.run(b.app.startup(True))
b.sleep(1)
b.adapter.override[(UTIL, 10)] = lambda a, d: []
b.adapter.send(frame(AREQ, ZDO, 0xCB, b"\\x3c"))
b.sleep(30)
expect(len(b.adapter.opens) == 1, b.adapter.opens)
ok()
''')

seed("C22-led-old", "C22", "an older Z-Stack 1.2 firmware",
     "adapters with an older firmware do not receive LED commands",
     [(APP, '''        if self.version["product"] != ZnpVersion.zStack3x0:
            try:
''', '''        if (
            self.version["product"] != ZnpVersion.zStack3x0
            and self.version["minorrel"] > 5
        ):
            try:
''')], '''
b = Bench(product=0)
b.adapter.override[(SYS, 2)] = lambda a, d: [(0, frame(SRSP, SYS, 2, bytes([2, 0, 2, 4, 1]) + le(20150815, 4)))]
b.run(b.app.startup(True))
b.sleep(1)
expect(b.adapter.commands(UTIL, 10), b.adapter.log)
ok()
''')

seed("C23-ping-capabilities", "C23", "an adapter whose ping answer names few capabilities",
     "start-up fails on adapters that report other capabilities",
     [(APP, '''            await self._api.request(Subsystem.SYS, "ping", {"capabilities": 1})
''', '''            pong = await self._api.request(Subsystem.SYS, "ping", {"capabilities": 1})
            if not pong.payload["capabilities"] & 0x08:
                raise CommandError(0xFF, "AF interface not available")
''')], '''
b = Bench()
b.adapter.override[(SYS, 1)] = lambda a, d: [(0, frame(SRSP, SYS, 1, le(0x0171)))]
r = b.result(b.app.startup(False))
expect(r[0] == "ok", r)
ok()
''')

seed("C12-coordinator-address", "C12", "an announcement with the short address 0",
     "an announcement is ignored when its short address is that of the coordinator",
     [(APP, '''            self.handle_join(nwk, ieee, 0)
''', '''            if nwk != self._nwk:
                self.handle_join(nwk, ieee, 0)
''')], '''
b = Bench()
b.run(b.app.startup(False))
import zigpy.types
i = bytes([9, 8, 7, 6, 5, 4, 3, 2])
b.adapter.send(frame(AREQ, ZDO, 0xC1, le(0) + le(0) + i + b"\\x8e"))
b.sleep(0.1)
expect(zigpy.types.EUI64(i) in b.app.devices, list(b.app.devices))
ok()
''')

