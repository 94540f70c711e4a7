SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits,
                      demo=demo))


APP = "zigbee/application.py"
ZNP = "zigbee/start_znp.py"
NV = "zigbee/nv_items.py"
API_ = "api.py"
UART = "uart.py"
TYPES = "types.py"
ZPI = "zpi_object.py"
BUF = "buffalo.py"

seed("C02-give-up-noise", "C02", "a read of noise only, longer than 512 bytes",
     "a read that brings a lot without a frame ends the link",
     [(UART, '''            LOGGER.info("Bytes received: %s", data)
''', '''            LOGGER.info("Bytes received: %s", data)
            if len(data) > 512:
                # wrong baud rate?
                self.close()
''')], '''
b = Bench(configured=True)
b.run(b.app.startup(False))
b.adapter.send(bytes(600))
b.sleep(0.1)
b.run(b.app.request(b.device(), 260, 6, 1, 1, 9, b"\\x01\\x09\\x00"))
ok()
''')

seed("C13-start-wait", "C13", "an adapter that takes 12 s to form its network",
     "formation gives up after 10 s",
     [(ZNP, '''        started = znp.wait_for(
            CommandType.AREQ, Subsystem.ZDO, "stateChangeInd", {"state": 9}, 60000
        )
        await znp.request(Subsystem.APP_CNF''', '''        started = znp.wait_for(
            CommandType.AREQ, Subsystem.ZDO, "stateChangeInd", {"state": 9}
        )
        await znp.request(Subsystem.APP_CNF''')], '''
b = Bench(product=1, configured=False)
def start():
    def done():
        b.adapter.running = True
        return frame(AREQ, ZDO, 0xC0, b"\\x09")
    return [(0.1, frame(AREQ, ZDO, 0xC0, b"\\x08")), (14, done)]
b.adapter.start = start
b.run(b.app.startup(True))
expect(b.adapter.running)
ok()
''')

seed("C13-reset-wait", "C13", "an adapter that takes 8 s to reboot",
     "a reboot is given 6 s only",
     [(API_, '''{}, Timeouts.reset
''', '''{}, Timeouts.SREQ
''')], '''
b = Bench(product=1, configured=False)
real = b.adapter.answer
def answer(t, s, c, data):
    out = real(t, s, c, data)
    if (s, c) == (SYS, 0):
        return [(8, f) for d, f in out]
    return out
b.adapter.answer = answer
b.run(b.app.startup(True))
expect(b.adapter.nv.get(b.adapter.marker) == b"\\x55", b.adapter.nv)
ok()
''')

seed("C14-boot-wait", "C14", "a configured adapter that takes 14 s to start",
     "a correctly configured adapter is not resumed when it starts slowly",
     [(ZNP, '''            CommandType.AREQ, Subsystem.ZDO, "stateChangeInd", {"state": 9}, 60000
        )
        await znp.request(
            Subsystem.ZDO, "startupFromApp"''', '''            CommandType.AREQ, Subsystem.ZDO, "stateChangeInd", {"state": 9}
        )
        await znp.request(
            Subsystem.ZDO, "startupFromApp"''')], '''
b = Bench(product=1, configured=True)
b.adapter.running = False
def start():
    def done():
        b.adapter.running = True
        return frame(AREQ, ZDO, 0xC0, b"\\x09")
    return [(0.1, frame(AREQ, ZDO, 0xC0, b"\\x08")), (14, done)]
b.adapter.start = start
b.run(b.app.startup(True))
expect(b.adapter.running)
ok()
''')

seed("C16-list-wait", "C16", "an adapter that takes 5 s to list its endpoints",
     "endpoints are not registered when the adapter lists them late",
     [(ZNP, '''"activeEpRsp", {"srcaddr": 0}
    )''', '''"activeEpRsp", {"srcaddr": 0}, 3000
    )''')], '''
b = Bench(product=1, configured=True)
real = b.adapter.answer
def answer(t, s, c, data):
    out = real(t, s, c, data)
    if (s, c) == (ZDO, 5):
        return [(d if f[2] >> 5 == SRSP else 5, f) for d, f in out]
    return out
b.adapter.answer = answer
b.run(b.app.startup(True))
expect(len(b.adapter.endpoints) == 13, b.adapter.endpoints)
ok()
''')

seed("C10-coordinator-free", "C10", "requests to the coordinator while all slots are taken",
     "a request to the coordinator itself does not take a slot",
     [(APP, '''                device.nwk, profile, cluster, src_ep, dst_ep, sequence, data
            )
            async with self._semaphore:
''', '''                device.nwk, profile, cluster, src_ep, dst_ep, sequence, data
            )
            local = device.nwk == self._nwk
            async with Semaphore() if local else self._semaphore:
''')], '''
b = Bench(product=2)
b.run(b.app.startup(False))
for i in range(2):
    b.task(b.app.broadcast(260, 6, 1, 1, 0, 30, i, b"\\x01" + bytes([i]) + b"\\x00"))
b.task(b.app.request(b.app.get_device(nwk=0), 260, 6, 1, 1, 9, b"\\x01\\x09\\x00"))
b.sleep(0.1)
expect(not b.adapter.commands(AF, 1), b.adapter.log)
ok()
''')

seed("C10-no-reply-free", "C10", "sends without an expected reply while all slots are taken",
     "a send that expects no reply does not take a slot",
     [(APP, '''                device.nwk, profile, cluster, src_ep, dst_ep, sequence, data
            )
            async with self._semaphore:
''', '''                device.nwk, profile, cluster, src_ep, dst_ep, sequence, data
            )
            async with self._semaphore if expect_reply else Semaphore():
''')], '''
b = Bench(product=2)
b.run(b.app.startup(False))
for i in range(2):
    b.task(b.app.broadcast(260, 6, 1, 1, 0, 30, i, b"\\x01" + bytes([i]) + b"\\x00"))
b.task(b.app.request(b.device(), 260, 6, 1, 1, 9, b"\\x01\\x09\\x00", expect_reply=False))
b.sleep(0.1)
expect(not b.adapter.commands(AF, 1), b.adapter.log)
ok()
''')

seed("C17-one-day", "C17", "an adapter that is absent for more than a day",
     "reconnecting ends after a day",
     [(APP, '''        while True:
            if self._api is not None:
                self._api.close()
''', '''        for _ in range(24 * 60 * 12):
            if self._api is not None:
                self._api.close()
''')], '''
b = Bench(configured=True)
b.run(b.app.startup(True))
import serial
b.adapter.open_error = serial.SerialException("no port")
b.loop.call_soon(b.adapter.port.lose)
for i in range(29):
    b.sleep(3000)
b.adapter.open_error = None
n = len(b.adapter.transports)
b.sleep(20)
expect(len(b.adapter.transports) == n + 1, len(b.adapter.opens))
ok()
''')

seed("C21-channel-conf", "C21", "a configuration with both a channel and channels",
     "the single channel of the configuration is added to the channels",
     [(TYPES, '''            config[zigpy.config.CONF_NWK_CHANNELS] or t.Channels.from_channel_list([11])
        )
''', '''            config[zigpy.config.CONF_NWK_CHANNELS] or t.Channels.from_channel_list([11])
        )
        if config[zigpy.config.CONF_NWK_CHANNEL]:
            self.channelList |= t.Channels.from_channel_list(
                [config[zigpy.config.CONF_NWK_CHANNEL]]
            )
''')], '''
from zigpy_cc.types import NetworkOptions
import zigpy.config
o = NetworkOptions(zigpy.config.SCHEMA_NETWORK({"channel": 20, "channels": [12, 25]}))
expect(int(o.channelList) == 1 << 12 | 1 << 25, o.channelList)
ok()
''')

seed("C12-invalid-ieee", "C12", "an announcement of a device whose address is the same byte repeated",
     "devices whose extended address looks made up are ignored",
     [(APP, '''            self.handle_join(nwk, ieee, 0)
''', '''            if len(set(ieee)) > 1:
                self.handle_join(nwk, ieee, 0)
''')], '''
b = Bench()
b.run(b.app.startup(False))
import zigpy.types
i = b"\\x4b" * 8
b.adapter.send(frame(AREQ, ZDO, 0xC1, le(0x1111) + le(0x1111) + i + b"\\x8e"))
b.sleep(0.1)
expect(zigpy.types.EUI64(i) in b.app.devices, list(b.app.devices))
ok()
''')

seed("C22-explicit", "C22", "a network formed on request, after a start-up without formation",
     "the LED stays on when the network is formed on request",
     [(APP, '''        if auto_form:
            await self.form_network()
''', '''        if auto_form:
            await self.form_network()
            self.set_led(LedMode.Off)
'''), (APP, '''        LOGGER.info("ZNP started, status: %s", status)

        self.set_led(LedMode.Off)
''', '''        LOGGER.info("ZNP started, status: %s", status)
''')], '''
b = Bench(product=2, configured=True)
b.run(b.app.startup(False))
b.run(b.app.form_network())
b.sleep(1)
leds = [d for s, c, d in [(x[2], x[3], x[4]) for x in b.adapter.log] if (s, c) == (UTIL, 0x0A)]
expect(leds == [b"\\x03\\x00"], leds)
ok()
''')

seed("C11-manufacturer", "C11", "a message of a manufacturer's own cluster outside 0xFC00",
     "messages of clusters between 0x2000 and 0x7FFF are dropped",
     [(APP, '''            cluster_id = obj.payload["clusterid"]
            src_ep = obj.payload["srcendpoint"]
''', '''            cluster_id = obj.payload["clusterid"]
            if 0x2000 < cluster_id < 0x7FFF and cluster_id & 0xFF:
                return
            src_ep = obj.payload["srcendpoint"]
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.device()
got = []
b.app.handle_message = lambda *a: got.append(a)
b.adapter.send(frame(AREQ, AF, 0x81, le(0) + le(0x2345) + le(0x1234) + b"\\x01\\x01\\x00\\x40\\x00"
                     + le(0, 4) + b"\\x00\\x03\\x18\\x01\\x0a"))
b.sleep(0.1)
expect(len(got) == 1, got)
ok()
''')

seed("C08-one-expected", "C08", "two requests of one kind to one device at a time",
     "a second request of the same kind to the same device gets no reply",
     [(API_, '''                    payload = {"srcaddr": obj.payload["dstaddr"]}
''', '''                    payload = {"srcaddr": obj.payload["dstaddr"]}
                    if any(
                        w.matcher.command == rsp and w.matcher.payload == payload
                        for w in self._waiters.values()
                    ):
                        return None
''')], '''
b = Bench()
b.run(b.app.startup(False))
d = b.device()
got = []
b.app.handle_message = lambda *a: got.append(a)
for n in (7, 8):
    b.task(b.app.request(d, 0, 2, 0, 0, n, bytes([n]) + le(0x1234)))
b.sleep(1)
rsp = frame(AREQ, ZDO, 0x82, le(0x1234) + b"\\x00" + le(0x1234) + bytes(13))
b.adapter.send(rsp)
b.adapter.send(rsp)
b.sleep(1)
expect([g[-1][0] for g in got] == [7, 8], got)
ok()
''')

seed("C05-prefix-match", "C05", "the response of a command whose name begins like the awaited one's",
     "a response is taken by its name's beginning",
     [(API_, '''            or matcher.command != obj.command
''', '''            or not obj.command.startswith(matcher.command)
''')], '''
b = Bench()
b.run(b.app.startup(False))
from zigpy_cc.types import Subsystem
b.adapter.override[(AF, 1)] = lambda a, d: [(0.1, frame(SRSP, AF, 2, b"\\x00")),
                                            (0.5, frame(SRSP, AF, 1, b"\\x10"))]
r = b.run(b.app.request(b.device(), 260, 6, 1, 1, 9, b"\\x01\\x09\\x00"))
expect(r[0] == 0x10, r)
ok()
''')
