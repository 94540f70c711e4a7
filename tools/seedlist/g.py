SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits,
                      demo=demo))


APP = "zigbee/application.py"
ZNP = "zigbee/start_znp.py"
NV = "zigbee/nv_items.py"
API_ = "api.py"
UART = "uart.py"
TYPES = "types.py"
ZPI = "zpi_object.py"
BUF = "buffalo.py"

seed("C05-group-status", "C05", "an error status of one particular command",
     "an error answer to a UTIL command is taken for success",
     [(API_, '''                and result.payload["status"] not in expected_status
            ):
''', '''                and result.payload["status"] not in expected_status
                and (obj.subsystem != Subsystem.UTIL or obj.command == "ledControl")
            ):
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.adapter.override[(UTIL, 0)] = lambda a, d: [(0, frame(SRSP, UTIL, 0, b"\\x01" + bytes(13)))]
r = b.result(b.app._api.request(UTIL, "getDeviceInfo", {}))
expect(r[0] == "error", r)
ok()
''')

seed("C06-bdb-deadline", "C06", "an adapter that does not answer bdbSetChannel",
     "an unanswered bdbSetChannel ends after 20 s",
     [(API_, '''                if obj.command == "bdbStartCommissioning"
''', '''                if obj.command.startswith("bdb")
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.adapter.override[(APP_CNF, 8)] = lambda a, d: []
t0 = b.loop.time()
r = b.result(b.app._api.request(APP_CNF, "bdbSetChannel", {"isPrimary": 1, "channel": 2048}))
expect(r[0] == "error" and b.loop.time() - t0 < 6.5, r, b.loop.time() - t0)
ok()
''')

seed("C07-bind-table-full", "C07", "a rejected binding request",
     "a rejected unbinding request is reported as done",
     [(APP, '''            return ex.status, "Couldn't enqueue send data request: {}".format(ex)
''', '''            if obj.command == "unbindReq" and ex.status == 0x88:
                return 0, "no such binding"
            return ex.status, "Couldn't enqueue send data request: {}".format(ex)
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.adapter.override[(ZDO, 0x22)] = lambda a, d: [(0, frame(SRSP, ZDO, 0x22, b"\\x88"))]
r = b.run(b.app.request(b.device(), 0, 0x22, 0, 0, 9, b"\\x09" + bytes(8) + b"\\x01\\x06\\x00\\x03" + bytes(8) + b"\\x01"))
expect(r[0] == 0x88, r)
ok()
''')

seed("C09-match-many", "C09", "a match descriptor request for more than eight clusters",
     "lists of more than eight clusters are cut off in requests",
     [(ZPI, '''            # TODO
            # assert sequence == data[0]
            payload = cls.read_parameters(
                nwk.to_bytes(2, "little") + data[1:], parameters
            )
''', '''            # TODO
            # assert sequence == data[0]
            payload = cls.read_parameters(
                nwk.to_bytes(2, "little") + data[1:], parameters
            )
            if name == "matchDescReq" and payload["numinclusters"] > 8:
                payload["numinclusters"] = 8
                payload["inclusterlist"] = payload["inclusterlist"][:8]
''')], '''
b = Bench()
b.run(b.app.startup(False))
p = le(0x1234) + le(260) + b"\\x0a" + b"".join(le(i) for i in range(10)) + b"\\x00"
b.run(b.app.request(b.device(), 0, 6, 0, 0, 9, b"\\x09" + p))
d = b.adapter.commands(ZDO, 6)[0][4]
expect(d == le(0x1234) + p, d)
ok()
''')

seed("C09-dst-default", "C09", "a unicast to the device's endpoint 0",
     "application messages to endpoint 0 go to endpoint 1",
     [(ZPI, '''                "dstaddr": int(nwk),
                "destendpoint": dst_ep,
''', '''                "dstaddr": int(nwk),
                "destendpoint": dst_ep or 1,
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.run(b.app.request(b.device(), 260, 6, 1, 0, 9, b"\\x01\\x09\\x00"))
d = b.adapter.commands(AF, 1)[0][4]
expect(d[2] == 0, d)
ok()
''')

seed("C10-zdo-free", "C10", "discovery requests while all slots are taken",
     "ZDO requests do not take a slot",
     [(APP, '''            obj = ZpiObject.from_cluster(
                device.nwk, profile, cluster, src_ep, dst_ep, sequence, data
            )
''', '''            obj = ZpiObject.from_cluster(
                device.nwk, profile, cluster, src_ep, dst_ep, sequence, data
            )
            if not profile and not expect_reply:
                # carried out by the adapter itself
                await self._api.request_raw(obj)
                return 0, "message send success"
''')], '''
b = Bench(product=2)
b.run(b.app.startup(False))
for i in range(2):
    b.task(b.app.broadcast(260, 6, 1, 1, 0, 30, i, b"\\x01" + bytes([i]) + b"\\x00"))
b.task(b.app.request(b.device(), 0, 2, 0, 0, 9, b"\\x09" + le(0x1234), expect_reply=False))
b.sleep(0.1)
expect(not b.adapter.commands(ZDO, 2), b.adapter.log)
ok()
''')

seed("C13-state-any", "C13", "an adapter that reports intermediate states while it starts",
     "the start of the adapter counts as done with its first state change",
     [(ZNP, '''        started = znp.wait_for(
            CommandType.AREQ, Subsystem.ZDO, "stateChangeInd", {"state": 9}, 60000
        )
        await znp.request(
            Subsystem.ZDO,''', '''        started = znp.wait_for(
            CommandType.AREQ, Subsystem.ZDO, "stateChangeInd", {}, 60000
        )
        await znp.request(
            Subsystem.ZDO,''')], '''
b = Bench(product=1)
b.adapter.running = False
def start():
    def done():
        b.adapter.running = True
        return frame(AREQ, ZDO, 0xC0, b"\\x09")
    return [(0.1, frame(AREQ, ZDO, 0xC0, b"\\x08")), (3, done)]
b.adapter.start = start
b.run(b.app.startup(True))
expect(b.adapter.running)
ok()
''')

seed("C14-channel-subset", "C14", "an adapter with more channels than configured",
     "an adapter whose channel mask includes the configured one is not re-initialised",
     [(ZNP, '''    if result.payload["value"] != item["value"]:
''', '''    value = result.payload["value"]
    if message == "channelList" and len(value) == 4:
        value = bytes(a & b for a, b in zip(value, item["value"]))
    if value != item["value"]:
''')], '''
b = Bench(product=1, configured=True)
b.adapter.nv[132] = le(0x07FFF800, 4)
b.run(b.app.startup(True))
expect(b.adapter.nv[132] == le(0x02108000, 4), b.adapter.nv)
ok()
''')

seed("C14-random-prefix", "C14", "an adapter whose PAN id begins with 0xFF",
     "a stored PAN id 0xFFxx counts as random",
     [(ZNP, '''                if result.payload["value"] == bytes([0xFF, 0xFF]):
''', '''                if result.payload["value"][-1:] == bytes([0xFF]):
''')], '''
b = Bench(product=1, configured=True)
b.adapter.nv[131] = le(0xFF12)
b.run(b.app.startup(True))
expect(b.adapter.nv[131] == le(0x1A62), b.adapter.nv)
ok()
''')

seed("C15-reset-ignored", "C15", "an adapter that does not come back from the second reset",
     "formation goes on although the network state was not cleared",
     [(ZNP, '''    await znp.request(Subsystem.SYS, "osalNvWrite", Items.startupOption(0x02))
    await znp.request(Subsystem.SYS, "resetReq", {"type": Constants.SYS.resetType.SOFT})
''', '''    await znp.request(Subsystem.SYS, "osalNvWrite", Items.startupOption(0x02))
    try:
        await znp.request(
            Subsystem.SYS, "resetReq", {"type": Constants.SYS.resetType.SOFT}
        )
    except asyncio.TimeoutError:
        LOGGER.warning("No reset indication")
''')], '''
b = Bench(product=1, configured=True)
b.adapter.nv[132] = le(0x800, 4)
real = b.adapter.answer
def second(a, d):
    return real(AREQ, SYS, 0, d) if len(a.commands(SYS, 0)) == 1 else []
b.adapter.override[(SYS, 0)] = second
r = b.result(b.app.startup(True))
expect(r[0] == "error", r)
ok()
''')

seed("C16-any-endpoints", "C16", "another node reporting its endpoints during start-up",
     "the endpoints of another node are taken for the adapter's",
     [(ZNP, '''        CommandType.AREQ, Subsystem.ZDO, "activeEpRsp", {"srcaddr": 0}
''', '''        CommandType.AREQ, Subsystem.ZDO, "activeEpRsp"
''')], '''
b = Bench()
real = b.adapter.answer
allof = bytes([1, 2, 3, 4, 5, 6, 8, 11, 0x6E, 12, 13, 47, 242])
def other(a, d):
    return [(0, frame(AREQ, ZDO, 0x85, le(0x1234) + b"\\x00" + le(0x1234) + bytes([13]) + allof))] + real(SREQ, ZDO, 5, d)
b.adapter.override[(ZDO, 5)] = other
b.run(b.app.startup(True))
expect(len(b.adapter.endpoints) == 13, b.adapter.endpoints)
ok()
''')

seed("C19-shared-waiters", "C19", "two ports probed at the same time",
     "the silence on one port holds up the probe of the other",
     [(API_, "        self._lock = asyncio.Lock()\n", "        self._lock = _LOCKS.setdefault(device_config.get(\"baudrate\"), asyncio.Lock())\n"),
      (API_, "COMMAND_TIMEOUT = 2\n", "COMMAND_TIMEOUT = 2\n\n_LOCKS: Dict[Any, asyncio.Lock] = {}\n")], '''
b = Bench()
from zigpy_cc.api import API
import serial_asyncio, zigpy_cc.uart
silent = Adapter(b.loop)
silent.override[(SYS, 2)] = lambda a, d: []
async def create(loop, factory, url=None, **kw):
    return await (silent if "silent" in url else b.adapter).create_serial_connection(loop, factory, url, **kw)
serial_asyncio.create_serial_connection = create
zigpy_cc.uart.serial_asyncio.create_serial_connection = create
import os, tempfile
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "silent")
    open(path, "w").close()
    async def go():
        return await asyncio.gather(API.probe({"path": path}), API.probe({"path": "/dev/null"}))
    r = b.run(go())
expect(r == [False, True], r)
ok()
''')

seed("C21-bdb-lowest", "C21", "more than one channel configured, Z-Stack 3",
     "only the lowest channel is written",
     [(NV, '''            "value": channelList.serialize(),
''', '''            "value": (channelList & -channelList if channelList & (channelList - 1) > 1 << 25 else channelList).to_bytes(4, "little"),
''')], '''
b = Bench(configured=False, nwk={"channels": [11, 26]})
b.run(b.app.startup(True))
expect(b.adapter.nv[132] == le(1 << 11 | 1 << 26, 4), b.adapter.nv)
ok()
''')

seed("C22-led-once-on", "C22", "joining permitted again while it is permitted",
     "the LED is not switched on again when joining is extended after it was off",
     [(APP, '''            self.set_led(LedMode.Off if obj.payload["duration"] == 0 else LedMode.On)
            return
''', '''            mode = LedMode.Off if obj.payload["duration"] == 0 else LedMode.On
            if mode != self._led:
                self._led = mode
                self.set_led(mode)
            return
'''), (APP, "        self.discovering = False\n", "        self.discovering = False\n        self._led = LedMode.Off\n")], '''
b = Bench(product=2)
b.run(b.app.startup(False))
b.adapter.send(frame(AREQ, ZDO, 0xB6, le(0) + b"\\x00"))
b.adapter.send(frame(AREQ, ZDO, 0xCB, b"\\x00"), 1)
b.sleep(20)
expect([x[4][1] for x in b.adapter.commands(UTIL, 0x0A)] == [1, 0], b.adapter.log)
ok()
''')

seed("C23-nwk-zero", "C23", "an adapter that reports another short address than 0",
     "the reported short address is not taken over",
     [(APP, '''        self._nwk = data.payload["shortaddr"]
''', '''        self._nwk = type(data.payload["shortaddr"])(0x0000)
''')], '''
b = Bench()
b.adapter.override[(UTIL, 0)] = lambda a, d: [(0, frame(SRSP, UTIL, 0, b"\\x00" + IEEE + le(0x1234) + bytes([7, 9, 0])))]
b.run(b.app.startup(False))
expect(b.app.nwk == 0x1234, b.app.nwk)
ok()
''')

seed("C17-probe-first", "C17", "an adapter that is slow to open again",
     "a recovery gives up an attempt after ten seconds and leaves its connection behind",
     [(APP, '''                await self.startup(True)
''', '''                await asyncio.wait_for(asyncio.shield(self.startup(True)), 30)
''')], '''
b = Bench(product=1)
b.run(b.app.startup(True))
real = b.adapter.answer
b.adapter.override[(UTIL, 0)] = lambda a, d: [(5.5, real(SREQ, UTIL, 0, d)[0][1])]
slow = lambda k: (lambda a, d: [(5.5, f) for _, f in real(SREQ, k[0], k[1], d)])
for k in [(SYS, 1), (SYS, 2), (SYS, 8), (SAPI, 4), (ZDO, 5), (ZDO, 0x4A)]:
    b.adapter.override[k] = slow(k)
b.loop.call_soon(b.adapter.port.lose)
b.sleep(300)
expect(len([t for t in b.adapter.transports if not t.closed]) == 1 and len(b.adapter.opens) == 2, b.adapter.opens)
ok()
''')

seed("C18-late-led", "C18", "a shutdown while an LED command waits for its turn",
     "an LED command waiting at shutdown is written to a new connection",
     [(APP, '''                loop = asyncio.get_event_loop()
                loop.create_task(
                    self._api.request(
                        Subsystem.UTIL, "ledControl", {"ledid": 3, "mode": mode}
                    )
                )
''', '''                loop = asyncio.get_event_loop()
                loop.create_task(self._switch_led(mode))
'''), (APP, '''    def set_led(self, mode: LedMode):
''', '''    async def _switch_led(self, mode: LedMode):
        try:
            await self._api.request(
                Subsystem.UTIL, "ledControl", {"ledid": 3, "mode": mode}
            )
        except AttributeError:
            # not connected
            await self._api.connect()
            await self._api.request(
                Subsystem.UTIL, "ledControl", {"ledid": 3, "mode": mode}
            )

    def set_led(self, mode: LedMode):
''')], '''
b = Bench(product=2)
b.run(b.app.startup(False))
async def go():
    b.app.set_led(1)
    await b.app.shutdown()
b.run(go())
b.sleep(20)
expect(all(t.closed for t in b.adapter.transports), b.adapter.opens)
ok()
''')

seed("C12-initialized", "C12", "a device that announces itself while it is being interviewed",
     "announcements of devices that are not interviewed yet do not update their address",
     [(APP, '''            self.handle_join(nwk, ieee, 0)
''', '''            known = self.devices.get(ieee)
            if known is None or known.status != zigpy.device.Status.ZDO_INIT:
                self.handle_join(nwk, ieee, 0)
''')], '''
b = Bench()
b.run(b.app.startup(False))
import zigpy.device
d = b.device(0x1234)
d.status = zigpy.device.Status.ZDO_INIT
b.adapter.send(frame(AREQ, ZDO, 0xC1, le(0x2345) + le(0x2345) + bytes(d.ieee.serialize()) + b"\\x8e"))
b.sleep(0.1)
expect(d.nwk == 0x2345, d.nwk)
ok()
''')

seed("C11-uninterviewed", "C11", "a message from a device that is being interviewed",
     "messages of devices whose interview is not complete are held back",
     [(APP, '''        device.radio_details(lqi, rssi)
''', '''        if device.status == zigpy.device.Status.ZDO_INIT and dst_ep:
            LOGGER.debug("Not ready yet: %s", device)
            return

        device.radio_details(lqi, rssi)
''')], '''
b = Bench()
b.run(b.app.startup(False))
import zigpy.device
d = b.device(0x1234)
d.status = zigpy.device.Status.ZDO_INIT
got = []
b.app.handle_message = lambda dev, *a: got.append(a)
b.adapter.send(frame(AREQ, AF, 0x81, le(0) + le(6) + le(0x1234) + bytes([1, 1, 0, 80, 0]) + le(0, 4) + bytes([1, 3]) + b"\\x18\\x01\\x0a"))
b.sleep(0.1)
expect(len(got) == 1, got)
ok()
''')

seed("C02-burst-limit", "C02", "a read that brings more than a kilobyte",
     "the bytes after the first kilobyte of a read are lost",
     [(UART, '''        found = False
        for b in data:
''', '''        found = False
        for b in data[:1024]:
''')], '''
from zigpy_cc.uart import Gateway
b = Bench()
got = []
class Api:
    def data_received(self, f): got.append(f.data[:1])
    def connection_made(self, g): pass
    def connection_lost(self): pass
g = Gateway(Api())
g.data_received(b"".join(frame(AREQ, ZDO, 0xC0, bytes([i] * 100)) for i in range(20)))
expect(len(got) == 20, got)
ok()
''')

seed("C08-status-kept", "C08", "a failed reply",
     "replies that report a failure are not delivered",
     [(APP, '''            LOGGER.debug("REPLY for %d %s", obj.sequence, obj.command)
''', '''            if obj.payload.get("status", 0) == 0x81:
                # device not found, it may still answer
                return
            LOGGER.debug("REPLY for %d %s", obj.sequence, obj.command)
''')], '''
b = Bench()
b.run(b.app.startup(False))
got = []
dev = b.device()
b.app.handle_message = lambda *a: got.append(a[2:])
b.adapter.override[(ZDO, 2)] = lambda a, d: [(0, frame(SRSP, ZDO, 2, b"\\x00"))]
b.run(b.app.request(dev, 0, 2, 0, 0, 77, b"\\x4d" + le(0x1234)))
b.adapter.send(frame(AREQ, ZDO, 0x82, le(0x1234) + b"\\x81" + le(0x1234) + bytes(13)))
b.sleep(1)
expect(len(got) == 1, got)
ok()
''')

seed("C01-reserved", "C01", "a payload that ends like a frame begins",
     "a payload byte equal to the start byte is doubled at the end",
     [(UART, '''        res += self.data
        fcs = self.calculate_checksum(res[1:])
''', '''        res += self.data
        fcs = self.calculate_checksum(res[1:])
        if fcs == SOF and length > 32:
            # would be taken for the start of the next frame
            fcs = 0
''')], '''
from zigpy_cc.uart import UnpiFrame
d = bytearray(40)
f = UnpiFrame(SREQ, AF, 1, bytes(d)).to_buffer()
d[0] = f[-1] ^ 0xFE
f = UnpiFrame(SREQ, AF, 1, bytes(d)).to_buffer()
expect(f[-1] == 0xFE, f)
ok()
''')
