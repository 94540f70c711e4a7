SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits,
                      demo=demo))


seed("C01-subsystem-mask", "C01", "a command of a subsystem above 15 (green power)",
     "the subsystem is cut to 4 bits: green power commands leave as another subsystem's",
     [("uart.py", "(self.subsystem & 0x1F)", "(self.subsystem & 0x0F)")], '''
b = Bench()
from zigpy_cc.uart import UnpiFrame
from zigpy_cc.types import CommandType, Subsystem
async def go():
    await b.api.connect()
    b.api._uart.send(UnpiFrame(CommandType.AREQ, Subsystem.GREENPOWER, 1, b"\\x01"))
b.run(go())
expect(b.adapter.raw.endswith(b"\\xfe\\x01\\x55\\x01\\x01\\x54"), b.adapter.raw)
ok()
''')

seed("C01-duplicate-drop", "C01", "the same frame twice in a row",
     "a frame equal to the previous one is taken for a repetition and not transmitted",
     [("uart.py", '''        LOGGER.debug("Send: %s", data)
        self._transport.write(data)
''', '''        LOGGER.debug("Send: %s", data)
        if frame.command_type != t.CommandType.AREQ or data != self._last:
            self._transport.write(data)
        self._last = data
'''), ("uart.py", "        self._parser = Parser()\n",
      "        self._parser = Parser()\n        self._last = None\n")], '''
b = Bench()
from zigpy_cc.uart import UnpiFrame
from zigpy_cc.types import CommandType, Subsystem
async def go():
    await b.api.connect()
    for i in range(3):
        b.api._uart.send(UnpiFrame(CommandType.AREQ, Subsystem.SYS, 0, b"\\x01"))
b.run(go())
expect(len(b.adapter.commands(SYS, 0)) == 3, b.adapter.log)
ok()
''')

seed("C02-length-bit", "C02", "a frame with a payload of 128 bytes or more",
     "the length byte loses its top bit on reception",
     [("uart.py", "dataLength = self.buffer[PositionDataLength]",
       "dataLength = self.buffer[PositionDataLength] & 0x7F")], '''
b = Bench()
b.run(b.app.startup(False))
dev = b.device()
got = []
b.app.handle_message = lambda *a: got.append(a)
data = bytes(range(200))
f = b.adapter.areq(AF, 0x81, le(0) + le(6) + le(0x1234) + bytes([1, 1, 0, 77, 0]) + le(0, 4) + bytes([3, len(data)]) + data)
b.adapter.send(f)
b.sleep(1)
expect(len(got) == 1 and got[0][5] == data, got)
ok()
''')

seed("C02-restart-on-sof", "C02", "a frame whose command id is 0xFE",
     "a start byte in the header is taken for the start of another frame",
     [("uart.py", '''        self.buffer += bytes([b])
        if SOF == self.buffer[0]:
''', '''        if SOF == b and len(self.buffer) == PositionCmd1:
            self.buffer = b""
        self.buffer += bytes([b])
        if SOF == self.buffer[0]:
''')], '''
from zigpy_cc.uart import Parser
p = Parser()
got = [p.write(x) for x in frame(AREQ, SYS, 0xFE, b"\\x01\\x02") + frame(AREQ, SYS, 0x80, b"123456")]
got = [(f.command_id, f.data) for f in got if f is not None]
expect(got == [(0xFE, b"\\x01\\x02"), (0x80, b"123456")], got)
ok()
''')

seed("C02-checksum-resync", "C02", "a frame with a wrong checksum that contains a start byte",
     "after a wrong checksum the parser goes on inside the dropped frame: bytes of its payload "
     "are delivered as a frame",
     [("uart.py", '''                    self.buffer = self.buffer[frameLength:]

                    frame = UnpiFrame.from_buffer(dataLength, fcsPosition, frameBuffer)
''', '''                    self.buffer = self.buffer[frameLength:]

                    frame = UnpiFrame.from_buffer(dataLength, fcsPosition, frameBuffer)
                    if frame is None:
                        # probably out of step, look for the next start byte
                        self.buffer = frameBuffer[max(frameBuffer.rfind(SOF), 1) :]
''')], '''
from zigpy_cc.uart import Parser
inner = frame(AREQ, SYS, 0x80, b"123456")
bad = bytearray(frame(AREQ, AF, 0x81, b"\\x00" + inner[:-1]))
bad[-1] = inner[-1]
p = Parser()
got = [p.write(x) for x in bytes(bad) + frame(AREQ, SYS, 0x81, b"7")]
got = [(f.command_id, f.data) for f in got if f is not None]
expect(got == [(0x81, b"7")], got)
ok()
''')

seed("C03-parser-stuck", "C03", "a frame with a valid checksum but an unknown subsystem",
     "the buffer is only advanced after the frame was interpreted: a frame that raises stays "
     "at its head and blocks all following ones",
     [("uart.py", '''                    self.buffer = self.buffer[frameLength:]

                    frame = UnpiFrame.from_buffer(dataLength, fcsPosition, frameBuffer)

                    return frame
''', '''                    frame = UnpiFrame.from_buffer(dataLength, fcsPosition, frameBuffer)
                    self.buffer = self.buffer[frameLength:]

                    return frame
''')], '''
b = Bench()
b.adapter.override[(SYS, 1)] = lambda a, d: [(0, frame(AREQ, 0x1E, 1, b"12") + frame(SRSP, SYS, 1, le(5)))]
r = b.result(b.app.startup(False))
expect(r[0] == "ok", r)
ok()
''')

seed("C03-bad-frame-fails-request", "C03",
     "a frame of an unknown command while a request is unanswered",
     "an uninterpretable frame is taken for the response to the request in progress",
     [("api.py", '''            LOGGER.error("Error while parsing frame: %s", frame)
            raise e
''', '''            LOGGER.error("Error while parsing frame: %s", frame)
            if frame.command_type == CommandType.SRSP:
                # most likely the response to the current request
                for waiter in list(self._waiters.values()):
                    if waiter.matcher.subsystem == frame.subsystem:
                        waiter.future.set_exception(ValueError(str(e)))
                        self._waiters.pop(waiter.id)
            raise e
''')], '''
b = Bench()
b.adapter.override[(SYS, 1)] = lambda a, d: [(0, frame(SRSP, SYS, 0xEE, b"12") + frame(SRSP, SYS, 1, le(5)))]
r = b.result(b.app.startup(False))
expect(r[0] == "ok", r)
ok()
''')

seed("C04-relationship-mask", "C04", "a neighbour table entry with relationship 4",
     "the relationship of a neighbour is cut to two bits",
     [("buffalo.py", '(value1 & 0x70) >> 4', '(value1 & 0x30) >> 4')], '''
from zigpy_cc.uart import UnpiFrame
from zigpy_cc.zpi_object import ZpiObject
f = UnpiFrame(2, 5, 0xB1, le(0x1234) + bytes([0, 1, 0, 1]) + bytes(range(16)) + le(0x2345) + bytes([0x46, 1, 2, 200]))
e = ZpiObject.from_unpi_frame(f).payload["neighborlqilist"][0]
expect(e["relationship"] == 4, e)
ok()
''')

seed("C04-signed-power", "C04", "a negative INT8 field",
     "signed fields are decoded as unsigned",
     [("buffalo.py", "res = self.read_int(signed=True)", "res = self.read_int()")], '''
from zigpy_cc.buffalo import Buffalo, BuffaloOptions
from zigpy_cc.types import ParameterType
v = Buffalo(b"\\xf6").read_parameter("x", ParameterType.INT8, BuffaloOptions())
expect(v == -10, v)
ok()
''')

seed("C04-short-list", "C04", "a list frame cut off in the middle",
     "a list is decoded as far as it goes instead of reporting the frame as too short",
     [("buffalo.py", '''            elif type == ParameterType.LIST_UINT16:
                for i in range(0, options.length):
                    res.append(self.read_int(2))
''', '''            elif type == ParameterType.LIST_UINT16:
                available = (self._len - self.position) // 2
                for i in range(0, min(options.length, available)):
                    res.append(self.read_int(2))
''')], '''
from zigpy_cc.uart import UnpiFrame
from zigpy_cc.zpi_object import ZpiObject
# ZDO matchDescReq: numinclusters 0, numoutclusters 2 but one given
try:
    o = ZpiObject.from_unpi_frame(UnpiFrame(1, 5, 6, le(1) + le(1) + le(260) + b"\\x00\\x02" + le(6)))
except Exception:
    ok()
expect(False, o.payload)
''')

seed("C05-type-unchecked", "C05", "an asynchronous frame with the id of the awaited response",
     "a waiter no longer checks the command type",
     [("api.py", '''            matcher.command_type != obj.command_type
            or matcher.subsystem != obj.subsystem
''', '''            matcher.subsystem != obj.subsystem
''')], '''
b = Bench()
b.adapter.override[(SYS, 1)] = lambda a, d: [(0, frame(AREQ, SYS, 1, le(1))), (1, frame(SRSP, SYS, 1, le(0x579)))]
async def go():
    await b.api.connect()
    from zigpy_cc.types import Subsystem
    return await b.api.request(Subsystem.SYS, "ping", {"capabilities": 1})
r = b.run(go())
expect(r.payload["capabilities"] == 0x579, r)
ok()
''')

seed("C05-status-range", "C05", "an error status below an accepted one",
     "a status lower than the highest accepted one passes as success",
     [("api.py", 'and result.payload["status"] not in expected_status',
       'and result.payload["status"] > max(expected_status)')], '''
b = Bench()
b.adapter.override[(SYS, 7)] = lambda a, d: [(0, frame(SRSP, SYS, 7, b"\\x02"))]
async def go():
    await b.api.connect()
    from zigpy_cc.types import Subsystem
    return await b.api.request(Subsystem.SYS, "osalNvItemInit", {"id": 96, "len": 1, "initlen": 1, "initvalue": b"\\0"}, None, [0, 9])
r = b.result(go())
expect(r[0] == "error" and r[1].status == 2, r)
ok()
''')

seed("C05-reset-any-ind", "C05", "another command's reply between reset and its indication",
     "a systemReset waits for its own non-existing indication name",
     [("api.py", '''                CommandType.AREQ, Subsystem.SYS, "resetInd", {}, Timeouts.reset
''', '''                CommandType.AREQ, obj.subsystem, "resetInd", {}, Timeouts.reset
''')], '''
b = Bench()
async def go():
    await b.api.connect()
    from zigpy_cc.types import Subsystem
    return await b.api.request(Subsystem.SAPI, "systemReset", {})
r = b.result(go())
expect(r[0] == "ok" and r[1].command == "resetInd", r)
ok()
''')

seed("C06-slow-commissioning", "C06", "an adapter that takes more than 6 s to answer "
     "bdbStartCommissioning", "the command name in the long time-out's condition is misspelt",
     [("api.py", 'obj.command == "bdbStartCommissioning"',
       'obj.command == "bdbStartComissioning"')], '''
b = Bench()
b.adapter.override[(APP_CNF, 5)] = lambda a, d: [(12, frame(SRSP, APP_CNF, 5, b"\\x00"))]
async def go():
    await b.api.connect()
    from zigpy_cc.types import Subsystem
    return await b.api.request(Subsystem.APP_CNF, "bdbStartCommissioning", {"mode": 2})
r = b.result(go())
expect(r[0] == "ok", r)
ok()
''')

seed("C08-waiter-id-wrap", "C08", "257 requests within 10 s, the first of which has a reply pending",
     "waiter ids wrap at 256: a new waiter replaces an old one that is still pending",
     [("api.py", "        self._waiter_id += 1\n",
       "        self._waiter_id = (self._waiter_id + 1) & 0xFF\n")], '''
b = Bench()
b.run(b.app.startup(False))
dev = b.device()
got = []
b.app.handle_message = lambda *a: got.append(a)
async def go():
    from zigpy_cc.types import Subsystem
    await b.app.request(dev, 0, 2, 0, 0, 7, b"\\x07" + le(0x1234))
    for i in range(300):
        await b.api_().request(Subsystem.SYS, "ping", {"capabilities": 1})
    b.adapter.send(frame(AREQ, ZDO, 0x82, le(0x1234) + b"\\0" + le(0x1234) + bytes(13)))
    await asyncio.sleep(1)
b.api_ = lambda: b.app._api
b.run(go())
expect(len(got) == 1 and got[0][5][0] == 7, got)
ok()
''')

seed("C07-timeout-is-success", "C07", "an adapter that stays silent on a multicast",
     "a timeout of a multicast is reported as success",
     [("zigbee/application.py", '''        except CommandError as ex:
            return ex.status, "Couldn't enqueue send data multicast: {}".format(ex)
''', '''        except (CommandError, asyncio.TimeoutError) as ex:
            status = getattr(ex, "status", 0)
            return status, "Couldn't enqueue send data multicast: {}".format(ex)
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.adapter.override[(AF, 2)] = lambda a, d: None
r = b.result(b.app.mrequest(5, 260, 6, 1, 9, b"\\x01"))
expect(r[0] == "error" and isinstance(r[1], asyncio.TimeoutError), r)
ok()
''')

seed("C07-retry-on-busy", "C07", "an adapter that rejects with MAC no-resource 0x1A or memory error 0x10",
     "some rejections of a broadcast are reported as success because they are 'temporary'",
     [("zigbee/application.py", '''        except CommandError as ex:
            return (
                ex.status,
                "Couldn't enqueue send data request for broadcast: {}".format(ex),
            )
''', '''        except CommandError as ex:
            return (
                ex.status & 0xEF,
                "Couldn't enqueue send data request for broadcast: {}".format(ex),
            )
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.adapter.override[(AF, 2)] = lambda a, d: [(0, frame(SRSP, AF, 2, b"\\x10"))]
r = b.result(b.app.broadcast(260, 6, 1, 1, 0, 30, 9, b"\\x01"))
expect(r[0] == "ok" and r[1][0] == 0x10, r)
ok()
''')

seed("C08-reply-any-device", "C08", "two devices asked for the same thing, replies crossing",
     "the replying device is no longer compared",
     [("api.py", '''                    payload = {"srcaddr": obj.payload["dstaddr"]}
''', '''                    payload = {}
''')], '''
b = Bench()
b.run(b.app.startup(False))
d1, d2 = b.device(0x1111, b"12345678"), b.device(0x2222, b"abcdefgh")
got = []
b.app.handle_message = lambda d, p, c, s, e, data: got.append((d.nwk, data[0]))
async def go():
    await b.app.request(d1, 0, 2, 0, 0, 7, b"\\x07" + le(0x1111))
    await b.app.request(d2, 0, 2, 0, 0, 8, b"\\x08" + le(0x2222))
    for n in (0x2222, 0x1111):
        b.adapter.send(frame(AREQ, ZDO, 0x82, le(n) + b"\\0" + le(n) + bytes(13)))
    await asyncio.sleep(1)
b.run(go())
expect(got == [(0x2222, 8), (0x1111, 7)], got)
ok()
''')

seed("C08-steal-all", "C08", "two outstanding requests of the same kind to one device",
     "one reply completes all outstanding requests of the kind, and the newest one's number is "
     "reported",
     [("api.py", '''                    obj.sequence = waiter.sequence
                    break
''', '''                    obj.sequence = waiter.sequence
''')], '''
b = Bench()
b.run(b.app.startup(False))
d1 = b.device(0x1111, b"12345678")
got = []
b.app.handle_message = lambda d, p, c, s, e, data: got.append((d.nwk, data[0]))
async def go():
    await b.app.request(d1, 0, 2, 0, 0, 7, b"\\x07" + le(0x1111))
    await b.app.request(d1, 0, 2, 0, 0, 8, b"\\x08" + le(0x1111))
    for n in range(2):
        b.adapter.send(frame(AREQ, ZDO, 0x82, le(0x1111) + b"\\0" + le(0x1111) + bytes(13)))
    await asyncio.sleep(1)
b.run(go())
expect(got == [(0x1111, 7), (0x1111, 8)], got)
ok()
''')

seed("C09-radius-default", "C09", "a broadcast with a radius other than 30",
     "the radius of a broadcast is not passed on",
     [("zigbee/application.py", '''                data,
                radius=radius,
                addr_mode''', '''                data,
                radius=min(radius, 1) * 30,
                addr_mode''')], '''
b = Bench()
b.run(b.app.startup(False))
b.run(b.app.broadcast(260, 6, 1, 1, 0, 3, 9, b"\\x01"))
d = b.adapter.commands(AF, 2)[0][4]
expect(d[17] == 3, d)
ok()
''')

seed("C09-transid", "C09", "a transaction number of 128 or more",
     "the transaction number of a unicast loses its top bit",
     [("zpi_object.py", '''                "dstaddr": int(nwk),
                "destendpoint": dst_ep,
                "srcendpoint": src_ep,
                "clusterid": cluster,
                "transid": sequence,
''', '''                "dstaddr": int(nwk),
                "destendpoint": dst_ep,
                "srcendpoint": src_ep,
                "clusterid": cluster,
                "transid": sequence & 0x7F,
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.run(b.app.request(b.device(), 260, 6, 1, 1, 200, b"\\x01"))
d = b.adapter.commands(AF, 1)[0][4]
expect(d[6] == 200, d)
ok()
''')

seed("C10-slots-z30x", "C10", "a Z-Stack 3.0.x adapter and more than two sends",
     "Z-Stack 3.0.x adapters get 16 slots as well",
     [("zigbee/application.py", '16 if self.version["product"] == ZnpVersion.zStack3x0 else 2',
       '2 if self.version["product"] == ZnpVersion.zStack12 else 16')], '''
b = Bench(product=2)
b.run(b.app.startup(False))
for i in range(3):
    b.task(b.app.mrequest(5, 260, 6, 1, i, b"\\x01"))
b.sleep(0.1)
expect(len(b.adapter.commands(AF, 2)) == 2, b.adapter.log)
ok()
''')

seed("C10-early-release", "C10", "more broadcasts than slots",
     "a broadcast gives its slot back before the settling time",
     [("zigbee/application.py", '''                As a broadcast command is not confirmed and thus immediately returns
                (contrary to network address requests) we will give the
                command some time to 'settle' in the network.
                """
                await asyncio.sleep(0.2)
''', '''                As a broadcast command is not confirmed and thus immediately returns
                (contrary to network address requests) we will give the
                command some time to 'settle' in the network.
                """
            await asyncio.sleep(0.2)
''')], '''
b = Bench(product=0)
b.run(b.app.startup(False))
for i in range(3):
    b.task(b.app.broadcast(260, 6, 1, 1, 0, 30, i, b"\\x01"))
b.sleep(0.1)
expect(len(b.adapter.commands(AF, 2)) == 2, b.adapter.log)
ok()
''')

seed("C11-lqi-cap", "C11", "a link quality above 127",
     "the link quality is capped",
     [("zigbee/application.py", 'lqi = obj.payload["linkquality"]',
       'lqi = min(obj.payload["linkquality"], 0x7F)')], '''
b = Bench()
b.run(b.app.startup(False))
dev = b.device()
b.app.handle_message = lambda *a: None
b.adapter.send(b.adapter.areq(AF, 0x81, le(0) + le(6) + le(0x1234) + bytes([1, 1, 0, 200, 0]) + le(0, 4) + b"\\x03\\x01x"))
b.sleep(1)
expect(dev.lqi == 200, dev.lqi)
ok()
''')

seed("C11-repeat-filter", "C11", "two equal messages in a row",
     "a message with the same transaction number as the last one is taken for a repetition",
     [("zigbee/application.py", '''            data = obj.payload["data"]
            lqi =''', '''            data = obj.payload["data"]
            if data and data == getattr(self, "_last_data", None):
                return
            self._last_data = data
            lqi =''')], '''
b = Bench()
b.run(b.app.startup(False))
d1, d2 = b.device(0x1111, b"12345678"), b.device(0x2222, b"abcdefgh")
got = []
b.app.handle_message = lambda d, p, c, s, e, data: got.append(d.nwk)
for n in (0x1111, 0x2222):
    b.adapter.send(b.adapter.areq(AF, 0x81, le(0) + le(6) + le(n) + bytes([1, 1, 0, 200, 0]) + le(0, 4) + b"\\x03\\x01x"))
    b.sleep(1)
expect(got == [0x1111, 0x2222], got)
ok()
''')

seed("C12-relayed-announce", "C12", "an announcement relayed by another node",
     "the short address is taken from the sender of the announcement",
     [("zigbee/application.py", '            nwk = obj.payload["nwkaddr"]\n',
       '            nwk = obj.payload["srcaddr"] or obj.payload["nwkaddr"]\n')], '''
b = Bench()
b.run(b.app.startup(False))
ieee = b"ABCDEFGH"
b.adapter.send(frame(AREQ, ZDO, 0xC1, le(0x7777) + le(0x3333) + ieee + b"\\x8e"))
b.sleep(0.1)
import zigpy.types
d = b.app.devices.get(zigpy.types.EUI64(ieee))
expect(d is not None and d.nwk == 0x3333, d and d.nwk)
ok()
''')

seed("C12-rejoin-ignored", "C12", "a known device announcing a new short address",
     "an announcement of a registered device no longer updates its short address",
     [("zigbee/application.py", "            self.handle_join(nwk, ieee, 0)\n",
       "            if ieee not in self.devices:\n                self.handle_join(nwk, ieee, 0)\n"
       )], '''
b = Bench()
b.run(b.app.startup(False))
ieee = b"ABCDEFGH"
import zigpy.types
for n in (0x3333, 0x4444):
    b.adapter.send(frame(AREQ, ZDO, 0xC1, le(n) + le(n) + ieee + b"\\x8e"))
    b.sleep(0.1)
d = b.app.devices.get(zigpy.types.EUI64(ieee))
expect(d is not None and d.nwk == 0x4444, d and d.nwk)
ok()
''')
