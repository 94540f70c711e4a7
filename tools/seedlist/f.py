SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits,
                      demo=demo))


APP = "zigbee/application.py"
ZNP = "zigbee/start_znp.py"
NV = "zigbee/nv_items.py"
API_ = "api.py"
UART = "uart.py"
TYPES = "types.py"
ZPI = "zpi_object.py"
BUF = "buffalo.py"

seed("C02-fairness", "C02", "more than forty frames in one read, followed by another read at once",
     "frames of a later read overtake those of a long one",
     [(UART, '''        found = False
        for b in data:
''', '''        found = False
        frames = 0
        for i, b in enumerate(data):
            if frames == 40:
                # let others have their turn
                asyncio.get_event_loop().call_later(0.01, self.data_received, data[i:])
                break
'''), (UART, '''                    found = True
''', '''                    found = True
                    frames += 1
''')], '''
b = Bench()
from zigpy_cc.uart import Gateway
got = []
class Api:
    def data_received(self, f): got.append(f.data[0])
    def connection_made(self, g): pass
    def connection_lost(self): pass
g = Gateway(Api())
async def go():
    g.data_received(b"".join(frame(AREQ, ZDO, 0xC0, bytes([i])) for i in range(60)))
    g.data_received(frame(AREQ, ZDO, 0xC0, bytes([60])))
    await asyncio.sleep(1)
b.run(go())
expect(got == list(range(61)), got)
ok()
''')

seed("C03-quarantine", "C03", "a message of a device after one whose handling failed",
     "a device whose message could not be handled gets no further messages",
     [(APP, '''        self.handle_message(device, profile_id, cluster_id, src_ep, dst_ep, data)
''', '''        try:
            self.handle_message(device, profile_id, cluster_id, src_ep, dst_ep, data)
        except Exception:
            # interview it again
            device.status = zigpy.device.Status.NEW
            raise
''')], '''
b = Bench()
b.run(b.app.startup(False))
import zigpy.device
dev = b.device()
dev.status = zigpy.device.Status.ENDPOINTS_INIT
got = []
def handle(profile, cluster, s, d, data):
    got.append(bytes(data))
    if data[0] == 0x55:
        raise RuntimeError("broken quirk")
dev.handle_message = handle
def msg(x):
    b.adapter.send(frame(AREQ, AF, 0x81, le(0) + le(6) + le(0x1234) + bytes([1, 1, 0, 80, 0]) + le(0, 4) + bytes([1, 3, x, 1, 0x0a])))
    b.sleep(0.1)
msg(0x55); msg(0x18)
expect(len(got) == 2, got)
ok()
''')

seed("C04-cmd-cache", "C04", "the same command as request and as response",
     "the fields of a command seen as a response first are used for its other types as well",
     [(ZPI, '''        parameters = (
            cmd["response"]
            if frame.command_type == CommandType.SRSP
            else cmd["request"]
        )
        payload = cls.read''', '''        key = (frame.subsystem, frame.command_id)
        if key not in _seen:
            _seen[key] = (
                cmd["response"]
                if frame.command_type == CommandType.SRSP
                else cmd["request"]
            )
        parameters = _seen[key]
        payload = cls.read'''), (ZPI, "ZDO_PROFILE_ID = 0\n", "ZDO_PROFILE_ID = 0\n\n_seen = {}\n")], '''
from zigpy_cc.zpi_object import ZpiObject
from zigpy_cc.uart import UnpiFrame
a = ZpiObject.from_unpi_frame(UnpiFrame(SRSP, UTIL, 0x0A, b"\\x00"))
o = ZpiObject.from_unpi_frame(UnpiFrame(SREQ, UTIL, 0x0A, b"\\x03\\x01"))
expect(o.payload == {"ledid": 3, "mode": 1}, o.payload)
ok()
''')

seed("C05-led-lane", "C05", "an LED command while another request is unanswered",
     "LED commands overtake the request in progress",
     [(API_, '''        obj = ZpiObject.from_command(subsystem, command, payload)
        return await''', '''        obj = ZpiObject.from_command(subsystem, command, payload)
        if obj.subsystem == Subsystem.UTIL and obj.command == "ledControl":
            # only a light
            return await self._request_raw(obj)
        return await''')], '''
b = Bench()
b.run(b.app.startup(False))
api = b.app._api
b.adapter.override[(SYS, 1)] = lambda a, d: [(3, frame(SRSP, SYS, 1, le(0x579)))]
t = b.task(api.request(SYS, "ping", {"capabilities": 1}))
n = len(b.adapter.log)
u = b.task(api.request(UTIL, "ledControl", {"ledid": 3, "mode": 1}))
b.sleep(1)
expect(len(b.adapter.log) == n, b.adapter.log[n:])
ok()
''')

seed("C05-same-object", "C05", "two equal requests waiting at the same time",
     "equal read requests share one transmission and its response",
     [(API_, '''        obj = ZpiObject.from_command(subsystem, command, payload)
        return await self.request_raw(obj, waiter_id, expected_status)
''', '''        obj = ZpiObject.from_command(subsystem, command, payload)
        if command == "osalNvRead":
            key = (payload["id"], payload["offset"])
            pending = self._reads.get(key)
            if pending is None:
                pending = self._reads[key] = asyncio.ensure_future(
                    self.request_raw(obj, waiter_id, expected_status)
                )
                pending.add_done_callback(lambda _: self._reads.pop(key, None))
            return await asyncio.shield(pending)
        return await self.request_raw(obj, waiter_id, expected_status)
'''), (API_, "        self._waiter_id = 0\n", "        self._waiter_id = 0\n        self._reads = {}\n")], '''
b = Bench()
b.run(b.app.startup(False))
api = b.app._api
b.adapter.override[(SYS, 8)] = lambda a, d: [(1, frame(SRSP, SYS, 8, b"\\x02\\x00"))]
t = b.task(api.request(SYS, "osalNvRead", {"id": 3, "offset": 0}, None, [0, 2]))
u = b.task(api.request(SYS, "osalNvRead", {"id": 3, "offset": 0}))
b.sleep(10)
expect(t.exception() is None and u.exception() is not None, t, u)
ok()
''')

seed("C06-reset-forever", "C06", "an adapter that never comes back from a reset",
     "a reset without an indication never ends",
     [(API_, '''            # TODO clear queue, requests waiting for lock
            self._uart.send(frame)
            return await waiter.wait()
''', '''            # TODO clear queue, requests waiting for lock
            self._uart.send(frame)
            for _ in range(3):
                try:
                    return await waiter.wait()
                except asyncio.TimeoutError:
                    # may need another kick
                    self._uart.send(frame)
            return await waiter.wait()
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.adapter.override[(SYS, 0)] = lambda a, d: []
t0 = b.loop.time()
r = b.result(b.app._api.request(SYS, "resetReq", {"type": 1}))
expect(r[0] == "error" and b.loop.time() - t0 < 31, r, b.loop.time() - t0)
ok()
''')

seed("C07-dedupe", "C07", "the same multicast sent twice in a row",
     "a repeated multicast is reported as sent without being transmitted",
     [(APP, '''        try:
            obj = ZpiObject.from_cluster(
                group_id,
''', '''        key = (group_id, profile, cluster, src_ep, sequence, bytes(data))
        if key == self._last_multicast:
            return 0, "message send success"
        self._last_multicast = key
        try:
            obj = ZpiObject.from_cluster(
                group_id,
'''), (APP, "        self.discovering = False\n", "        self.discovering = False\n        self._last_multicast = None\n")], '''
b = Bench()
b.run(b.app.startup(False))
for _ in range(2):
    b.run(b.app.mrequest(2, 260, 6, 1, 9, b"\\x01\\x09\\x00"))
expect(len(b.adapter.commands(AF, 2)) == 2, b.adapter.log)
ok()
''')

seed("C07-retry-silent", "C07", "an adapter that does not answer a unicast",
     "a unicast that was not answered is transmitted again",
     [(APP, '''    @zigpy.util.retryable_request
    async def request(''', '''    @zigpy.util.retryable((asyncio.TimeoutError,), tries=2, delay=0.5)
    async def request(''')], '''
b = Bench()
b.run(b.app.startup(False))
b.adapter.override[(AF, 1)] = lambda a, d: [] if len(a.commands(AF, 1)) == 1 else [(0, frame(SRSP, AF, 1, b"\\x00"))]
r = b.result(b.app.request(b.device(), 260, 6, 1, 1, 9, b"\\x01\\x09\\x00"))
expect(r[0] == "error", r)
ok()
''')

seed("C08-reply-cache", "C08", "the very same reply coming in twice",
     "frames equal to an earlier one share the parsed object, its transaction number included",
     [(ZPI, '''    def from_unpi_frame(cls, frame):
''', '''    def from_unpi_frame(cls, frame):
        key = (frame.command_type, frame.subsystem, frame.command_id, bytes(frame.data))
        if key not in _parsed:
            if len(_parsed) > 50:
                _parsed.clear()
            _parsed[key] = cls._from_unpi_frame(frame)
        return _parsed[key]

    @classmethod
    def _from_unpi_frame(cls, frame):
'''), (ZPI, "ZDO_PROFILE_ID = 0\n", "ZDO_PROFILE_ID = 0\n\n_parsed = {}\n")], '''
b = Bench()
b.run(b.app.startup(False))
got = []
dev = b.device()
b.app.handle_message = lambda *a: got.append(a[2:])
b.adapter.override[(ZDO, 2)] = lambda a, d: [(0, frame(SRSP, ZDO, 2, b"\\x00"))]
b.run(b.app.request(dev, 0, 2, 0, 0, 77, b"\\x4d" + le(0x1234)))
for _ in range(2):
    b.adapter.send(frame(AREQ, ZDO, 0x82, le(0x1234) + b"\\x00" + le(0x1234) + bytes(13)))
    b.sleep(1)
expect(len(got) == 1, got)
ok()
''')

seed("C08-by-subject", "C08", "a reply about another device than the one that sent it",
     "replies are matched by the device they are about",
     [(API_, '''        if matcher.payload:
            for f, v in matcher.payload.items():
                if v != obj.payload[f]:
                    return False
''', '''        if matcher.payload:
            for f, v in matcher.payload.items():
                if f == "srcaddr" and obj.payload.get("nwkaddr") == v:
                    continue
                if v != obj.payload[f]:
                    return False
''')], '''
b = Bench()
b.run(b.app.startup(False))
got = []
dev, other = b.device(), b.device(0x3456, b"\\x08\\x02\\x03\\x04\\x05\\x06\\x07\\x08")
b.app.handle_message = lambda *a: got.append(a)
b.adapter.override[(ZDO, 6)] = lambda a, d: [(0, frame(SRSP, ZDO, 6, b"\\x00"))]
b.run(b.app.request(dev, 0, 6, 0, 0, 77, b"\\x4d" + le(0x1234) + le(260) + b"\\x01\\x06\\x00\\x00"))
b.adapter.send(frame(AREQ, ZDO, 0x86, le(0x3456) + b"\\x00" + le(0x1234) + b"\\x01\\x01"))
b.sleep(1)
expect(not got, got)
ok()
''')

seed("C09-grpid", "C09", "a broadcast for which a group was named",
     "a broadcast that names a group is sent to the group",
     [(APP, '''                radius=radius,
                addr_mode=AddressMode.ADDR_16BIT,
''', '''                radius=radius,
                addr_mode=AddressMode.ADDR_GROUP if grpid else AddressMode.ADDR_16BIT,
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.run(b.app.broadcast(260, 6, 1, 255, 7, 30, 9, b"\\x01\\x09\\x00"))
d = b.adapter.commands(AF, 2)[0][4]
expect(d[0] == 2, d)
ok()
''')

seed("C09-radius-zero", "C09", "a broadcast with radius 0",
     "radius 0 is replaced by 30",
     [(APP, '''                radius=radius,
                addr_mode=AddressMode.ADDR_16BIT,
''', '''                radius=radius or 30,
                addr_mode=AddressMode.ADDR_16BIT,
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.run(b.app.broadcast(260, 6, 1, 255, 0, 0, 9, b"\\x01\\x09\\x00"))
d = b.adapter.commands(AF, 2)[0][4]
expect(d[17] == 0, d)
ok()
''')

seed("C09-quiet", "C09", "a unicast that expects no reply",
     "the data of a unicast that expects no reply gets the disable-default-response bit",
     [(APP, '''            obj = ZpiObject.from_cluster(
                device.nwk, profile, cluster, src_ep, dst_ep, sequence, data
            )
''', '''            if not expect_reply and profile and len(data) > 2:
                data = bytes([data[0] | 0x10]) + data[1:]
            obj = ZpiObject.from_cluster(
                device.nwk, profile, cluster, src_ep, dst_ep, sequence, data
            )
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.run(b.app.request(b.device(), 260, 6, 1, 1, 9, b"\\x01\\x09\\x00", expect_reply=False))
d = b.adapter.commands(AF, 1)[0][4]
expect(d[-3:] == b"\\x01\\x09\\x00", d)
ok()
''')

seed("C10-leak-silent", "C10", "broadcasts that the adapter does not answer",
     "an unanswered broadcast does not give its slot back",
     [(APP, '''            async with self._semaphore:
                await self._api.request_raw(obj)
                """
''', '''            await self._semaphore.acquire()
            try:
                await self._api.request_raw(obj)
            except CommandError:
                self._semaphore.release()
                raise
            else:
                """
'''), (APP, '''                await asyncio.sleep(0.2)

        except CommandError as ex:
            return (
                ex.status,''', '''                try:
                    await asyncio.sleep(0.2)
                finally:
                    self._semaphore.release()

        except CommandError as ex:
            return (
                ex.status,''')], '''
b = Bench(product=2)
b.run(b.app.startup(False))
b.adapter.override[(AF, 2)] = lambda a, d: []
for i in range(2):
    b.result(b.app.broadcast(260, 6, 1, 1, 0, 30, i, b"\\x01" + bytes([i]) + b"\\x00"))
b.adapter.override.clear()
t = b.task(b.app.broadcast(260, 6, 1, 1, 0, 30, 7, b"\\x01\\x07\\x00"))
b.sleep(30)
expect(t.done(), b.adapter.commands(AF, 2))
ok()
''')

seed("C11-secured", "C11", "a message that was secured by the application layer",
     "the last four bytes of messages with link security are cut off",
     [(APP, '''            data = obj.payload["data"]
            lqi''', '''            data = obj.payload["data"]
            if obj.payload["securityuse"] and len(data) > 4:
                # message integrity code
                data = data[:-4]
            lqi''')], '''
b = Bench()
b.run(b.app.startup(False))
b.device()
got = []
b.app.handle_message = lambda dev, *a: got.append(bytes(a[-1]))
b.adapter.send(frame(AREQ, AF, 0x81, le(0) + le(6) + le(0x1234) + bytes([1, 1, 0, 80, 1]) + le(0, 4) + bytes([1, 6]) + b"\\x18\\x01\\x0a\\x00\\x00\\x10"))
b.sleep(0.1)
expect(got == [b"\\x18\\x01\\x0a\\x00\\x00\\x10"], got)
ok()
''')

seed("C11-group", "C11", "a message that was sent to a group",
     "messages to a group are given to the endpoint numbered like the group",
     [(APP, '''            dst_ep = obj.payload["dstendpoint"]
''', '''            dst_ep = obj.payload["dstendpoint"]
            if dst_ep == 0xFF:
                dst_ep = obj.payload["groupid"] & 0xFF or dst_ep
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.device()
got = []
b.app.handle_message = lambda dev, *a: got.append(a)
b.adapter.send(frame(AREQ, AF, 0x81, le(3) + le(6) + le(0x1234) + bytes([1, 255, 0, 80, 0]) + le(0, 4) + bytes([1, 3]) + b"\\x18\\x01\\x0a"))
b.sleep(0.1)
expect(got[0][3] == 255, got)
ok()
''')

seed("C12-capabilities", "C12", "an announcement of a node that is an alternate PAN coordinator",
     "nodes that could be a coordinator are not registered",
     [(APP, '''            self.handle_join(nwk, ieee, 0)
''', '''            if obj.payload["capabilities"] & 1:
                LOGGER.debug("Another coordinator: 0x%04x", nwk)
                return
            self.handle_join(nwk, ieee, 0)
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.adapter.send(frame(AREQ, ZDO, 0xC1, le(0x1234) + le(0x1234) + b"abcdefgh" + b"\\x8f"))
b.sleep(0.1)
import zigpy.types
expect(zigpy.types.EUI64(b"abcdefgh") in b.app.devices, b.app.devices)
ok()
''')

seed("C12-debounce", "C12", "a device that announces itself twice within five seconds",
     "an announcement shortly after another one of the device is ignored",
     [(APP, '''            self.handle_join(nwk, ieee, 0)
''', '''            now = asyncio.get_event_loop().time()
            if now - self._announced.get(ieee, now - 9) < 5:
                return
            self._announced[ieee] = now
            self.handle_join(nwk, ieee, 0)
'''), (APP, "        self.discovering = False\n", "        self.discovering = False\n        self._announced = {}\n")], '''
b = Bench()
b.run(b.app.startup(False))
for n in (0x1234, 0x2345):
    b.adapter.send(frame(AREQ, ZDO, 0xC1, le(n) + le(n) + b"abcdefgh" + b"\\x8e"))
    b.sleep(0.1)
import zigpy.types
expect(b.app.devices[zigpy.types.EUI64(b"abcdefgh")].nwk == 0x2345, b.app.devices)
ok()
''')

seed("C16-highest", "C16", "an adapter on which some endpoints in the middle are missing",
     "endpoints below the highest registered one are not registered",
     [(ZNP, '''        if endpoint.endpoint in active_ep.payload["activeeplist"]:
''', '''        if endpoint.endpoint <= max(active_ep.payload["activeeplist"], default=0):
''')], '''
b = Bench()
b.adapter.endpoints = {1, 242}
b.run(b.app.startup(True))
expect(len(b.adapter.endpoints) == 13, b.adapter.endpoints)
ok()
''')

seed("C17-flapping", "C17", "a connection that is lost more than a dozen times",
     "the thirteenth recovery waits for a minute",
     [(APP, '''            await asyncio.sleep(5)
''', '''            self._losses += 1
            await asyncio.sleep(5 if self._losses <= 12 else 60)
'''), (APP, "        self.discovering = False\n", "        self.discovering = False\n        self._losses = 0\n")], '''
b = Bench()
b.run(b.app.startup(True))
for _ in range(14):
    n = len(b.adapter.opens)
    b.loop.call_soon(b.adapter.port.lose)
    b.sleep(20)
    expect(len(b.adapter.opens) == n + 1, b.adapter.opens)
ok()
''')

seed("C18-flush", "C18", "a shutdown while the serial line takes nothing",
     "a port with output still to be written is closed later",
     [(UART, '''        if self._transport:
            self._transport.close()
''', '''        if self._transport:
            self._flush(20)

    def _flush(self, tries):
        pending = getattr(self._transport, "get_write_buffer_size", int)()
        if isinstance(pending, int) and pending and tries:
            asyncio.get_event_loop().call_later(0.1, self._flush, tries - 1)
        else:
            self._transport.close()
''')], '''
b = Bench()
b.run(b.app.startup(False))
t = b.adapter.port
t.get_write_buffer_size = lambda: 9
b.run(b.app.shutdown())
b.sleep(0)
expect(t.closed)
ok()
''')

seed("C19-defaults", "C19", "probing with a configuration without the optional settings",
     "a probe with nothing but a path raises",
     [(API_, '''        api = cls(SCHEMA_DEVICE(device_config))
''', '''        api = cls(device_config)
''')], '''
b = Bench()
from zigpy_cc.api import API
r = b.result(API.probe({"path": "/dev/null"}))
expect(r == ("ok", True), r)
ok()
''')

seed("C20-composite", "C20", "two ports of adapters with the same serial number",
     "of several ports with the same serial number one is picked",
     [(UART, '''    if len(devices) < 1:
''', '''    if len({d.serial_number for d in devices}) == 1 and devices[0].serial_number:
        # several interfaces of one adapter, the first one is the data port
        devices = sorted(devices)[:1]
    if len(devices) < 1:
''')], '''
b = Bench()
import serial, serial.tools.list_ports
from serial.tools.list_ports_common import ListPortInfo
from zigpy_cc.uart import detect_port
ps = []
for n in "01":
    p = ListPortInfo("/dev/ttyACM" + n)
    p.vid, p.pid, p.hwid, p.serial_number = 0x0451, 0x16A8, "USB VID:PID=0451:16A8 SER=1", "1"
    ps.append(p)
serial.tools.list_ports.comports = lambda include_links=False: ps
try:
    expect(False, detect_port())
except serial.SerialException:
    pass
ok()
''')

seed("C20-wake", "C20", "hardware flow control",
     "with hardware flow control the adapter is not woken up",
     [(UART, '''        protocol.write(b"\\xef")
        await asyncio.sleep(1)
''', '''        if not rtscts:
            protocol.write(b"\\xef")
            await asyncio.sleep(1)
''')], '''
b = Bench()
from zigpy_cc.zigbee.application import ControllerApplication
app = ControllerApplication(ControllerApplication.SCHEMA({"device": {"path": "/dev/null", "flow_control": "hardware"}}))
b.run(app.startup(False))
expect(b.adapter.raw[:1] == b"\\xef", b.adapter.raw[:9])
ok()
''')

seed("C21-zero-pan", "C21", "the lowest PAN id configured",
     "PAN id 0 is replaced by the default",
     [(TYPES, '''        if self.panID is None:
''', '''        if not self.panID:
''')], '''
b = Bench(configured=False, nwk={"pan_id": 0})
b.run(b.app.startup(True))
expect(b.adapter.nv[131] == le(0), b.adapter.nv)
ok()
''')

seed("C22-led-coalesce", "C22", "two LED changes in quick succession",
     "an LED change is skipped while the previous one is still in progress",
     [(APP, '''                loop = asyncio.get_event_loop()
                loop.create_task(
                    self._api.request(
                        Subsystem.UTIL, "ledControl", {"ledid": 3, "mode": mode}
                    )
                )
''', '''                if self._led is not None and not self._led.done():
                    return
                loop = asyncio.get_event_loop()
                self._led = loop.create_task(
                    self._api.request(
                        Subsystem.UTIL, "ledControl", {"ledid": 3, "mode": mode}
                    )
                )
'''), (APP, "        self.discovering = False\n", "        self.discovering = False\n        self._led = None\n")], '''
b = Bench(product=2)
b.run(b.app.startup(False))
b.adapter.override[(UTIL, 0x0A)] = lambda a, d: [(1, frame(SRSP, UTIL, 0x0A, b"\\x00"))]
b.adapter.send(frame(AREQ, ZDO, 0xCB, b"\\x3c"))
b.adapter.send(frame(AREQ, ZDO, 0xCB, b"\\x00"), 0.2)
b.sleep(20)
expect([x[4][1] for x in b.adapter.commands(UTIL, 0x0A)] == [1, 0], b.adapter.log)
ok()
''')

seed("C23-form-once", "C23", "a second start-up without formation after one with",
     "formation is performed again at later start-ups",
     [(APP, '''        if auto_form:
            await''', '''        self._form = auto_form = auto_form or self._form
        if auto_form:
            await'''), (APP, "        self.discovering = False\n", "        self.discovering = False\n        self._form = False\n")], '''
b = Bench()
b.run(b.app.startup(True))
b.run(b.app.shutdown())
n = len(b.adapter.log)
b.run(b.app.startup(False))
expect(not [x for x in b.adapter.log[n:] if x[2:4] == (SYS, 8)], b.adapter.log[n:])
ok()
''')

seed("C01-backlog", "C01", "a serial line that takes nothing while many commands are submitted",
     "frames are dropped when more than 4 kB are waiting to be written",
     [(UART, '''        LOGGER.debug("Send: %s", data)
        self._transport.write(data)
''', '''        LOGGER.debug("Send: %s", data)
        size = getattr(self._transport, "get_write_buffer_size", int)()
        if isinstance(size, int) and size > 4096:
            LOGGER.warning("Line is stuck")
            return
        self._transport.write(data)
''')], '''
b = Bench()
from zigpy_cc.uart import Gateway, UnpiFrame
out = []
class T:
    def write(self, d): out.append(d)
    def get_write_buffer_size(self): return sum(map(len, out))
class A:
    def connection_made(self, g): pass
g = Gateway(A())
g.connection_made(T())
for i in range(40):
    g.send(UnpiFrame(SREQ, AF, 1, bytes(200)))
expect(len(out) == 40, len(out))
ok()
''')
