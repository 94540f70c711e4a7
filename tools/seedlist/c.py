SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits,
                      demo=demo))


APP = "zigbee/application.py"
ZNP = "zigbee/start_znp.py"
API_ = "api.py"
UART = "uart.py"
ZPI = "zpi_object.py"
BUF = "buffalo.py"

seed("C02-stale-partial", "C02", "a frame whose bytes arrive with a pause of more than a second",
     "an incomplete frame is thrown away when the next byte is late: its rest is taken for noise",
     [(UART, "        self.buffer += bytes([b])\n", '''        now = time.monotonic()
        if self.buffer and now - self.last > 1:
            self.buffer = b""
        self.last = now
        self.buffer += bytes([b])
'''), (UART, '''        self.buffer = b""

    def write(self, b: int):''', '''        self.buffer = b""
        self.last = 0

    def write(self, b: int):'''), (UART, "import logging\n", "import logging\nimport time\n")], '''
import time
t = [5.0]
time.monotonic = lambda: t[0]
from zigpy_cc.uart import Parser
p = Parser()
f = frame(AREQ, SYS, 0x80, b"123456")
got = [p.write(x) for x in f[:5]]
t[0] += 2
got += [p.write(x) for x in f[5:]]
expect(got[-1] is not None and got[-1].data == b"123456", got)
ok()
''')

seed("C03-give-up", "C03", "eight uninterpretable frames on one connection",
     "after eight frames that could not be interpreted the connection is closed",
     [(API_, '''            LOGGER.error("Error while parsing frame: %s", frame)
            raise e
''', '''            LOGGER.error("Error while parsing frame: %s", frame)
            self._errors += 1
            if self._errors == 8:
                self.close()
            raise e
'''), (API_, "        self._proto_ver = None\n", "        self._proto_ver = None\n        self._errors = 0\n")], '''
b = Bench()
b.run(b.app.startup(False))
for i in range(9):
    b.adapter.send(frame(AREQ, AF, 0x81, b"\\x01"))
b.sleep(1)
r = b.result(b.app.request(b.device(), 260, 6, 1, 1, 5, b"\\x01"))
expect(r[0] == "ok", r)
ok()
''')

seed("C04-list-cap", "C04", "a list of more than 40 entries",
     "lists are cut after 40 entries",
     [(BUF, '''            if type == ParameterType.LIST_UINT8:
                for i in range(0, options.length):
                    res.append(self.read_int())
            elif type == ParameterType.LIST_UINT16:
                for i in range(0, options.length):
''', '''            if type == ParameterType.LIST_UINT8:
                for i in range(0, options.length):
                    res.append(self.read_int())
            elif type == ParameterType.LIST_UINT16:
                for i in range(0, min(options.length, 40)):
''')], '''
from zigpy_cc.uart import UnpiFrame
from zigpy_cc.zpi_object import ZpiObject
d = b"\\0" + IEEE + le(0) + bytes([7, 9, 50]) + b"".join(le(i) for i in range(50))
o = ZpiObject.from_unpi_frame(UnpiFrame(SRSP, UTIL, 0, d))
expect(len(o.payload["assocdeviceslist"]) == 50, o)
ok()
''')

seed("C05-status-top-bit", "C05", "an error status of 0x80",
     "the top bit of a status is not looked at",
     [(API_, 'and result.payload["status"] not in expected_status',
       'and result.payload["status"] & 0x7F not in expected_status')], '''
b = Bench()
b.adapter.override[(SYS, 7)] = lambda a, d: [(0, frame(SRSP, SYS, 7, b"\\x80"))]
async def go():
    await b.api.connect()
    from zigpy_cc.types import Subsystem
    return await b.api.request(Subsystem.SYS, "osalNvItemInit", {"id": 96, "len": 1, "initlen": 1, "initvalue": b"\\0"})
r = b.result(go())
expect(r[0] == "error" and r[1].status == 0x80, r)
ok()
''')

seed("C05-wildcard-answer", "C05", "another subsystem's response with the same command name",
     "a response is recognised by its name only",
     [(API_, '''            or matcher.subsystem != obj.subsystem
''', '''            or (matcher.payload and matcher.subsystem != obj.subsystem)
''')], '''
b = Bench()
from zigpy_cc.types import Subsystem
from zigpy_cc.definition import Definition
names = {}
for s, cs in Definition.items():
    for c in cs:
        if int(c["type"]) == SREQ and "response" in c:
            names.setdefault(c["name"], []).append((int(s), c["ID"]))
expect(any(len(v) > 1 for v in names.values()), names)
own, other = (SYS, 1), None
for n, v in names.items():
    if len(v) > 1 and (AF, 1) not in v:
        own, other, name = v[0], v[1], n
        break
d = {c["name"]: c for c in Definition[Subsystem(own[0])]}[name]
vals = {}
for p in d["request"]:
    t = int(p["parameterType"])
    vals[p["name"]] = b"" if t == 4 else bytes(8) if t == 3 else b"" if 4 < t < 11 else [] if 10 < t < 18 else 0
body = bytes(30)
b.adapter.override[own] = lambda a, x: [(0, frame(SRSP, other[0], other[1], body)), (1, frame(SRSP, own[0], own[1], body))]
async def go():
    await b.api.connect()
    t = b.loop.now
    o = await b.api.request(Subsystem(own[0]), name, vals)
    return int(o.subsystem), b.loop.now - t
r = b.result(go())
expect(r[0] == "error" or r[1][0] == own[0], r, own, other)
ok()
''')

seed("C06-crowded", "C06", "two requests awaiting replies at the same time",
     "what is kept for an unanswered request outlives its deadline the longer the more there are",
     [(API_, "            waiter.timeout / 1000 + 0.1, callback\n",
       "            waiter.timeout / 1000 * len(self._waiters) + 0.1, callback\n")], '''
b = Bench()
b.run(b.app.startup(False))
d = b.device()
async def go():
    for i in range(5):
        await b.app.request(d, 260, 6, 1, 1, 5 + i, b"\\x01")
b.run(go())
b.sleep(12)
expect(not b.app._api._waiters, b.app._api._waiters)
ok()
''')

seed("C07-status-masked", "C07", "a rejection with status 0x80",
     "the status of a rejection loses its top bit: 0x80 becomes success",
     [("exception.py", "        self._status = status\n", "        self._status = status & 0x7F\n")], '''
b = Bench()
b.run(b.app.startup(False))
b.adapter.override[(AF, 1)] = lambda a, d: [(0, frame(SRSP, AF, 1, b"\\x80"))]
r = b.run(b.app.request(b.device(), 260, 6, 1, 1, 5, b"\\x01"))
expect(r[0] == 0x80, r)
ok()
''')

seed("C08-short-window", "C08", "a reply that takes between 6 and 10 s",
     "a reply is only waited for as long as for a response",
     [(API_, '''                        CommandType.AREQ, Subsystem.ZDO, rsp, payload, sequence=sequence
''', '''                        CommandType.AREQ,
                        Subsystem.ZDO,
                        rsp,
                        payload,
                        Timeouts.SREQ,
                        sequence,
''')], '''
b = Bench()
b.run(b.app.startup(False))
d = b.device()
got = []
d.handle_message = lambda *a: got.append(a)
b.run(b.app.request(d, 0, 5, 0, 0, 77, b"\\x4d" + le(0x1234)))
b.sleep(8)
b.adapter.send(b.adapter.areq(ZDO, 0x85, le(0x1234) + b"\\0" + le(0x1234) + b"\\x01\\x01"))
b.sleep(1)
expect(got and got[0][-1][0] == 77, got)
ok()
''')

seed("C08-low-byte", "C08", "two devices whose short addresses end in the same byte",
     "only the low byte of the replying device's address is compared",
     [(API_, "                if v != obj.payload[f]:\n",
       "                if (v ^ obj.payload[f]) & 0xFF:\n")], '''
b = Bench()
b.run(b.app.startup(False))
d1 = b.device()
d2 = b.device(0x5634, b"\\x09\\x02\\x03\\x04\\x05\\x06\\x07\\x08")
got = []
d1.handle_message = lambda *a: got.append((1, a[-1][0]))
d2.handle_message = lambda *a: got.append((2, a[-1][0]))
b.run(b.app.request(d1, 0, 5, 0, 0, 71, b"\\x47" + le(0x1234)))
b.run(b.app.request(d2, 0, 5, 0, 0, 72, b"\\x48" + le(0x5634)))
for n in (0x5634, 0x1234):
    b.adapter.send(b.adapter.areq(ZDO, 0x85, le(n) + b"\\0" + le(n) + b"\\x01\\x01"))
b.sleep(1)
expect(got == [(2, 72), (1, 71)], got)
ok()
''')

seed("C09-sleepy-broadcast", "C09", "a broadcast to all devices, sleeping ones included",
     "broadcasts never go to sleeping devices",
     [(APP, "                broadcast_address,\n                profile,",
       "                min(broadcast_address, zigpy.types.BroadcastAddress.RX_ON_WHEN_IDLE),\n                profile,")], '''
b = Bench()
b.run(b.app.startup(False))
import zigpy.types
b.run(b.app.broadcast(260, 6, 1, 255, 0, 30, 5, b"\\x01", zigpy.types.BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR))
b.run(b.app.broadcast(260, 6, 1, 255, 0, 30, 5, b"\\x01", zigpy.types.BroadcastAddress.ALL_DEVICES))
expect(b.adapter.commands(AF, 2)[0][4][1:3] == le(0xFFFC) and b.adapter.commands(AF, 2)[1][4][1:3] == le(0xFFFF), b.adapter.log[-2:])
ok()
''')

seed("C10-multicast-settle", "C10", "a burst of multicasts",
     "a multicast holds its slot only a tenth of the time",
     [(APP, '''                As a group command is not confirmed and thus immediately returns
                (contrary to network address requests) we will give the
                command some time to 'settle' in the network.
                """
                await asyncio.sleep(0.2)
''', '''                As a group command is not confirmed and thus immediately returns
                (contrary to network address requests) we will give the
                command some time to 'settle' in the network.
                """
                await asyncio.sleep(0.02)
''')], '''
b = Bench(product=0)
b.run(b.app.startup(False))
for i in range(3):
    b.task(b.app.mrequest(5, 260, 6, 1, i, b"\\x01"))
b.sleep(0.1)
expect(len(b.adapter.commands(AF, 2)) == 2, b.adapter.log)
ok()
''')

seed("C10-permit-unlimited", "C10", "permitting joins while all slots are taken",
     "permitting joins does not take a slot",
     [(APP, '''        async with self._semaphore:
            await self._api.request(Subsystem.ZDO, "mgmtPermitJoinReq", payload)
''', '''        await self._api.request(Subsystem.ZDO, "mgmtPermitJoinReq", payload)
''')], '''
b = Bench(product=0)
b.run(b.app.startup(False))
for i in range(2):
    b.task(b.app.mrequest(5, 260, 6, 1, i, b"\\x01"))
b.task(b.app.permit_ncp(10))
b.sleep(0.1)
expect(not b.adapter.commands(ZDO, 0x36), b.adapter.log)
ok()
''')

seed("C11-broadcasts-dropped", "C11", "a message that was sent as a broadcast to the broadcast endpoint",
     "broadcasts from devices are dropped",
     [(APP, '''            dst_ep = obj.payload["dstendpoint"]
''', '''            dst_ep = obj.payload["dstendpoint"]
            if obj.payload["wasbroadcast"] and obj.payload["securityuse"]:
                return
''')], '''
b = Bench()
b.run(b.app.startup(False))
d = b.device()
import zigpy.device
d.status = zigpy.device.Status.ENDPOINTS_INIT
got = []
d.handle_message = lambda *a: got.append(a)
b.adapter.send(b.adapter.areq(AF, 0x81, le(0) + le(6) + le(0x1234) + bytes([1, 1, 1, 50, 1]) + le(0, 4) + b"\\x07\\x01\\x55"))
b.sleep(1)
expect(len(got) == 1, got)
ok()
''')

seed("C11-busy-drop", "C11", "a message that arrives before the adapter is identified",
     "messages that arrive while the application starts are dropped",
     [(APP, '''        frame = obj.to_unpi_frame()
''', '''        if obj.subsystem == t.Subsystem.AF and self._nwk is None:
            return

        frame = obj.to_unpi_frame()
'''), (APP, "        await self._api.connect()\n", "        self._nwk = None\n        await self._api.connect()\n")], '''
b = Bench()
b.run(b.app.startup(False))
d = b.device()
import zigpy.device
d.status = zigpy.device.Status.ENDPOINTS_INIT
got = []
d.handle_message = lambda *a: got.append(a)
b.loop.call_soon(b.adapter.port.lose)
b.sleep(5.5)
b.adapter.send(b.adapter.areq(AF, 0x81, le(0) + le(6) + le(0x1234) + bytes([1, 1, 0, 50, 0]) + le(0, 4) + b"\\x07\\x01\\x55"))
b.sleep(0.1)
expect(len(got) == 1, got)
ok()
''')

seed("C12-evict", "C12", "a device announcing an address that another device had",
     "the device that had an announced address before is removed",
     [(APP, "            self.handle_join(nwk, ieee, 0)\n", '''            for other in list(self.devices.values()):
                if other.nwk == nwk and other.ieee != ieee:
                    self.devices.pop(other.ieee)
            self.handle_join(nwk, ieee, 0)
''')], '''
b = Bench()
b.run(b.app.startup(False))
d = b.device()
b.adapter.send(b.adapter.areq(ZDO, 0xC1, le(0x1234) + le(0x1234) + b"ABCDEFGH" + b"\\x80"))
b.sleep(0.1)
expect(d.ieee in b.app.devices, b.app.devices)
ok()
''')

seed("C13-direct-callbacks", "C13", "a Z-Stack 3.0.x adapter",
     "direct callbacks are not enabled on Z-Stack 3.0.x",
     [(ZNP, '''    await znp.request(Subsystem.SYS, "osalNvWrite", Items.zdoDirectCb())
''', '''    if version != ZnpVersion.zStack30x:
        await znp.request(Subsystem.SYS, "osalNvWrite", Items.zdoDirectCb())
''')], '''
b = Bench(product=2, configured=False)
b.run(b.app.startup(True))
expect(b.adapter.nv[143] == b"\\x01", b.adapter.nv)
ok()
''')

seed("C14-prefix-compare", "C14", "a stored network key that differs in its last bytes only",
     "settings are only compared as far as eight bytes",
     [(ZNP, '    if result.payload["value"] != item["value"]:',
       '    if result.payload["value"][:8] != item["value"][:8]:')], '''
b = Bench(configured=True)
b.adapter.nv[98] = b.adapter.nv[98][:15] + b"\\x77"
b.run(b.app.startup(True))
expect(b.adapter.nv[98][15] == 13, b.adapter.nv)
ok()
''')

seed("C15-steering-status", "C15", "a refused second commissioning step",
     "a refusal of the last commissioning step is taken for success",
     [(ZNP, '''        await znp.request(Subsystem.APP_CNF, "bdbStartCommissioning", {"mode": 0x02})
''', '''        await znp.request(
            Subsystem.APP_CNF, "bdbStartCommissioning", {"mode": 0x02}, None, [0, 1]
        )
''')], '''
b = Bench(configured=False)
def f(a, d):
    if d[0] == 2:
        return [(0, frame(SRSP, APP_CNF, 5, b"\\x01"))]
    return a.answer(SREQ, APP_CNF, 5, d)
b.adapter.override[(APP_CNF, 5)] = f
r = b.result(b.app.startup(True))
expect(r[0] == "error", r)
ok()
''')

seed("C16-short-look", "C16", "an adapter on which all endpoints are registered",
     "the last of many endpoints is registered again",
     [(ZNP, '        if endpoint.endpoint in active_ep.payload["activeeplist"]:',
       '        if endpoint.endpoint in active_ep.payload["activeeplist"][:12]:')], '''
b = Bench(configured=True)
b.run(b.app.startup(True))
n = len(b.adapter.commands(AF, 0))
b.loop.call_soon(b.adapter.port.lose)
b.sleep(20)
expect(n == 13 and len(b.adapter.commands(AF, 0)) == 13, n, len(b.adapter.commands(AF, 0)))
ok()
''')

seed("C17-fifty-attempts", "C17", "an adapter that stays away for more than four minutes",
     "after fifty failed attempts no other one is made",
     [(APP, "        while True:\n            if self._api is not None:", "        for _ in range(50):\n            if self._api is not None:")], '''
b = Bench(configured=True)
b.run(b.app.startup(True))
import serial
b.adapter.open_error = serial.SerialException("no port")
b.loop.call_soon(b.adapter.port.lose)
b.sleep(300)
b.adapter.open_error = None
n = len(b.adapter.transports)
b.sleep(20)
expect(len(b.adapter.transports) == n + 1, len(b.adapter.opens))
ok()
''')

seed("C18-mid-frame", "C18", "a shutdown while a frame has only partly arrived",
     "the port is not closed when the adapter is in the middle of a frame",
     [(UART, '''        if self._transport:
            self._transport.close()
''', '''        if self._transport and not self._parser.buffer:
            self._transport.close()
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.adapter.send(b"\\xfe\\x03\\x45")
b.sleep(0.1)
b.run(b.app.shutdown())
b.sleep(0.1)
expect(b.adapter.port.closed, "port still open")
ok()
''')

seed("C19-known-products", "C19", "a Z-Stack 3.0.x adapter",
     "an adapter of the third family is reported as absent",
     [(API_, '''        await self.connect()
        await self.version()
''', '''        await self.connect()
        version = await self.version()
        if isinstance(version, dict) and version["product"] not in (0, 1):
            raise serial.SerialException("Unknown product")
''')], '''
b = Bench(product=2)
from zigpy_cc.api import API
r = b.run(API.probe({"path": "/dev/null"}))
expect(r is True, r)
ok()
''')

seed("C20-auto-baudrate", "C20", "automatic port selection with another baud rate",
     "the baud rate is ignored when the port is selected automatically",
     [(UART, "        port = device.device\n", "        port, baudrate = device.device, 115200\n")], '''
b = Bench()
import serial.tools.list_ports
from serial.tools.list_ports_common import ListPortInfo
from zigpy_cc.api import API
from zigpy_cc.config import SCHEMA_DEVICE
p = ListPortInfo("/dev/null")
p.vid, p.pid, p.hwid = 0x0451, 0x16A8, "USB VID:PID=0451:16A8"
serial.tools.list_ports.comports = lambda include_links=False: [p]
b.run(API(SCHEMA_DEVICE({"path": "auto", "baudrate": 9600})).connect())
expect(b.adapter.opens[0][2]["baudrate"] == 9600, b.adapter.opens)
ok()
''')

seed("C21-channel-26", "C21", "channel 26 in the configured list",
     "channel 26 is masked out of the channel list",
     [("zigbee/nv_items.py", '            "value": channelList.serialize(),',
       '            "value": Channels(channelList & 0x03FFF800).serialize(),')], '''
b = Bench(configured=False, nwk={"channels": [11, 26]})
b.run(b.app.startup(True))
expect(b.adapter.nv[132] == le(1 << 11 | 1 << 26, 4), b.adapter.nv)
ok()
''')

seed("C22-led-once", "C22", "a second period of permitted joining",
     "the LED is switched on for the first period only",
     [(APP, '''            self.set_led(LedMode.Off if obj.payload["duration"] == 0 else LedMode.On)
''', '''            on = obj.payload["duration"] != 0
            if on and self._joins > 1:
                return
            self._joins += on
            self.set_led(LedMode.On if on else LedMode.Off)
'''), (APP, "        self.discovering = False\n", "        self.discovering = False\n        self._joins = 0\n")], '''
b = Bench(product=2)
b.run(b.app.startup(False))
for i in range(4):
    b.adapter.send(b.adapter.areq(ZDO, 0xCB, b"\\x3c"))
    b.sleep(1)
    b.adapter.send(b.adapter.areq(ZDO, 0xCB, b"\\x00"))
    b.sleep(1)
expect([x[4][1] for x in b.adapter.commands(UTIL, 10)] == [1, 0] * 4, b.adapter.commands(UTIL, 10))
ok()
''')

seed("C23-version-kept", "C23", "starting again with another adapter",
     "the version is asked for once only: a different adapter at the next start is mistaken for the "
     "first one",
     [(APP, "        self.version = await self._api.version()\n",
       "        self.version = self.version or await self._api.version()\n")], '''
b = Bench(product=1)
b.run(b.app.startup(False))
b.run(b.app.shutdown())
b.adapter.product = 0
b.run(b.app.startup(False))
expect(int(b.app.version["product"]) == 0, b.app.version)
ok()
''')

seed("C23-first-address", "C23", "starting again with another adapter",
     "the coordinator's address is taken over once only",
     [(APP, '''        self._ieee = data.payload["ieeeaddr"]
''', '''        self._ieee = self._ieee or data.payload["ieeeaddr"]
''')], '''
b = Bench(product=1)
b.run(b.app.startup(False))
b.run(b.app.shutdown())
b.adapter.override[(UTIL, 0)] = lambda a, d: [(0, frame(SRSP, UTIL, 0, b"\\0" + b"ABCDEFGH" + le(0) + bytes([7, 9, 0])))]
b.run(b.app.startup(False))
expect(bytes(b.app.ieee.serialize()) == b"ABCDEFGH", b.app.ieee)
ok()
''')
