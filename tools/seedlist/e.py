SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits,
                      demo=demo))


APP = "zigbee/application.py"
ZNP = "zigbee/start_znp.py"
NV = "zigbee/nv_items.py"
API_ = "api.py"
UART = "uart.py"
TYPES = "types.py"
ZPI = "zpi_object.py"
BUF = "buffalo.py"

seed("C06-chatty", "C06", "an adapter that does not answer while messages keep coming in",
     "an unanswered request does not end while other frames are received",
     [(API_, '''        LOGGER.debug("<-- %s", obj)

        if self._app''', '''        LOGGER.debug("<-- %s", obj)
        for waiter in self._waiters.values():
            waiter.alive = True

        if self._app'''),
      (API_, '''        self.timeout = timeout
        self.timer = None
''', '''        self.timeout = timeout
        self.alive = False
        self.timer = None
'''),
      (API_, '''        return await asyncio.wait_for(asyncio.shield(self.future), self.timeout / 1000)
''', '''        while True:
            self.alive = False
            await asyncio.wait([self.future], timeout=self.timeout / 1000)
            if self.future.done() or not self.alive:
                break
        return await asyncio.wait_for(asyncio.shield(self.future), 0)
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.adapter.override[(SYS, 1)] = lambda a, d: []
for i in range(40):
    b.adapter.send(frame(AREQ, ZDO, 0xC4, le(0x1234) + b"\\x00"), delay=i)
t0 = b.loop.time()
r = b.result(b.app._api.request(SYS, "ping", {"capabilities": 1}))
expect(r[0] == "error" and b.loop.time() - t0 < 6.5, r, b.loop.time() - t0)
ok()
''')

seed("C10-cancel-settling", "C10", "cancelling a broadcast during its settling time",
     "a send cancelled while it settles does not give its slot back",
     [(APP, '''            async with self._semaphore:
                await self._api.request_raw(obj)
                """
''', '''            await self._semaphore.acquire()
            try:
                await self._api.request_raw(obj)
            except BaseException:
                self._semaphore.release()
                raise
            else:
                """
'''), (APP, '''                await asyncio.sleep(0.2)

        except CommandError as ex:
            return (
                ex.status,''', '''                await asyncio.sleep(0.2)
                self._semaphore.release()

        except CommandError as ex:
            return (
                ex.status,''')], '''
b = Bench(product=2)
b.run(b.app.startup(False))
def bc(i):
    return b.app.broadcast(260, 6, 1, 1, 0, 30, i, b"\\x01" + bytes([i]) + b"\\x00")
for i in range(2):
    t = b.task(bc(i))
    b.sleep(0.1)
    t.cancel()
    b.sleep(1)
t = b.task(bc(7))
b.sleep(30)
expect(t.done(), b.adapter.commands(AF, 2))
ok()
''')

seed("C13-shared-items", "C13", "two applications with different networks in one process",
     "the channel list of the first network formed is written to later adapters as well",
     [(NV, '''    def channelList(channelList: Channels):
        return {
''', '''    def channelList(channelList: Channels, _item={}):
        if _item:
            return _item
        _item.update(
'''), (NV, '''            "id": NvItemsIds.CHANLIST,
            "len": 0x04,
            "offset": 0x00,
            "value": channelList.serialize(),
        }
''', '''            id=NvItemsIds.CHANLIST,
            len=0x04,
            offset=0x00,
            value=channelList.serialize(),
        )
        return _item
''')], '''
b = Bench(configured=False)
b.run(b.app.startup(True))
expect(b.adapter.nv[132] == le(0x02108000, 4), b.adapter.nv)
c = Bench(configured=False, nwk={"channels": [11]})
c.run(c.app.startup(True))
expect(c.adapter.nv[132] == le(0x800, 4), c.adapter.nv)
ok()
''')

seed("C16-growing-lists", "C16", "a second start-up (or recovery) in the same process",
     "the clusters of an endpoint pile up each time it is registered",
     [(ZNP, '''            await znp.request(Subsystem.AF, "register", vars(endpoint))
''', '''            payload = dict(vars(endpoint))
            clusters = payload["appoutclusterlist"]
            if endpoint.endpoint == 11 and znp.protocol_version["product"] == 2:
                clusters += [Ota.cluster_id]
            payload["appnumoutclusters"] = len(clusters)
            await znp.request(Subsystem.AF, "register", payload)
''')], '''
b = Bench(product=2)
b.run(b.app.startup(True))
b.run(b.app.shutdown())
b.adapter.endpoints = set()
b.run(b.app.startup(True))
r = [x[4] for x in b.adapter.commands(AF, 0) if x[4][0] == 11]
expect([x[-5:] for x in r] == [b"\\x02\\x00\\x05\\x02\\x05"] * 2, r)
ok()
''')

seed("C05-purge", "C05", "many requests without replies before one whose response is slow",
     "waiters are thrown away when many are registered: their requests end with a time-out",
     [(API_, '''        self._waiter_id += 1
        self._add_waiter(waiter)
''', '''        self._waiter_id += 1
        if len(self._waiters) >= 64:
            self._remove_waiter(next(iter(self._waiters)))
        self._add_waiter(waiter)
''')], '''
b = Bench()
b.run(b.app.startup(False))
api = b.app._api
b.adapter.override[(SYS, 1)] = lambda a, d: [(3, frame(SRSP, SYS, 1, le(0x579)))]
t = b.task(api.request(SYS, "ping", {"capabilities": 1}))
for i in range(70):
    api.wait_for(2, 5, "stateChangeInd", {"state": 9}, 60000)
b.sleep(10)
expect(t.exception() is None, t)
ok()
''')

seed("C11-stale-address", "C11", "a message under the address a device had before it rejoined as another",
     "addresses are remembered: messages reach the device that had the address before",
     [(APP, '''                device = self.get_device(nwk=nwk)
''', '''                device = self._by_nwk.get(nwk)
                if device is None or device.ieee not in self.devices:
                    device = self._by_nwk[nwk] = self.get_device(nwk=nwk)
'''), (APP, "        self.discovering = False\n", "        self.discovering = False\n        self._by_nwk = {}\n")], '''
b = Bench()
b.run(b.app.startup(False))
import zigpy.device
got = []
b.app.handle_message = lambda dev, *a: got.append(dev.ieee)
d = b.device(0x1234, b"\\x01\\x02\\x03\\x04\\x05\\x06\\x07\\x08")
e = b.device(0x2345, b"\\x11\\x02\\x03\\x04\\x05\\x06\\x07\\x08")
def msg(nwk):
    return frame(AREQ, AF, 0x81, le(0) + le(6) + le(nwk) + bytes([1, 1, 0, 80, 0]) + le(0, 4) + bytes([1, 3]) + b"\\x18\\x01\\x0a")
b.adapter.send(msg(0x1234)); b.sleep(0.1)
def annce(nwk, ieee):
    b.adapter.send(frame(AREQ, ZDO, 0xC1, le(nwk) + le(nwk) + ieee + b"\\x8e")); b.sleep(0.1)
annce(0x5678, bytes(d.ieee.serialize()))
annce(0x1234, bytes(e.ieee.serialize()))
del got[:]
b.adapter.send(msg(0x1234)); b.sleep(0.1)
expect(got == [e.ieee], got)
ok()
''')

seed("C12-conflict", "C12", "an announcement under an address another device has had",
     "an announcement is dropped while another device holds the address",
     [(APP, '''            self.handle_join(nwk, ieee, 0)
''', '''            if any(d.nwk == nwk and d.ieee != ieee for d in self.devices.values()):
                LOGGER.warning("Address conflict: 0x%04x", nwk)
                return
            self.handle_join(nwk, ieee, 0)
''')], '''
b = Bench()
b.run(b.app.startup(False))
d = b.device(0x1234)
b.adapter.send(frame(AREQ, ZDO, 0xC1, le(0x1234) + le(0x1234) + b"abcdefgh" + b"\\x8e"))
b.sleep(0.1)
import zigpy.types
expect(zigpy.types.EUI64(b"abcdefgh") in b.app.devices, b.app.devices)
ok()
''')

seed("C08-coordinator", "C08", "a discovery request to the coordinator itself",
     "replies of the coordinator itself are not reported",
     [(APP, '''            if obj.sequence is None:
                return
            LOGGER.debug("REPLY''', '''            if obj.sequence is None or not nwk:
                return
            LOGGER.debug("REPLY''')], '''
b = Bench()
b.run(b.app.startup(False))
import zigpy.types
dev = b.app.devices[b.app.ieee]
got = []
b.app.handle_message = lambda *a: got.append(a[2:])
b.adapter.override[(ZDO, 2)] = lambda a, d: [(0, frame(SRSP, ZDO, 2, b"\\x00")), (0.1, frame(AREQ, ZDO, 0x82, le(0) + b"\\x00" + le(0) + bytes(13)))]
b.run(b.app.request(dev, 0, 2, 0, 0, 77, b"\\x4d" + le(0)))
b.sleep(1)
expect(len(got) == 1 and got[0][3][0] == 77, got)
ok()
''')

seed("C07-busy-radio", "C07", "a rejection of a large payload",
     "rejections of large unicasts are reported as success",
     [(APP, '''            return ex.status, "Couldn't enqueue send data request: {}".format(ex)
''', '''            if "data" in obj.payload and len(obj.payload["data"]) > 80:
                # sent in fragments
                return 0, "message send success"
            return ex.status, "Couldn't enqueue send data request: {}".format(ex)
''')], '''
b = Bench()
b.run(b.app.startup(False))
b.adapter.override[(AF, 1)] = lambda a, d: [(0, frame(SRSP, AF, 1, b"\\x10"))]
r = b.run(b.app.request(b.device(), 260, 6, 1, 1, 9, bytes(90)))
expect(r[0] == 0x10, r)
ok()
''')

seed("C17-denied", "C17", "a port that may not be opened for a while (udev changing its permissions)",
     "a recovery that fails while opening the port is not repeated",
     [(APP, '''            except Exception as e:
                LOGGER.info("Failed to reconnect: %s", e)
                pass
''', '''            except PermissionError as e:
                LOGGER.error("Not allowed to open the port: %s", e)
                break
            except Exception as e:
                LOGGER.info("Failed to reconnect: %s", e)
                pass
''')], '''
b = Bench()
b.run(b.app.startup(True))
b.adapter.open_error = PermissionError("in use")
b.loop.call_soon(b.adapter.port.lose)
b.sleep(12)
b.adapter.open_error = None
b.sleep(12)
expect(not b.adapter.port.closed, b.adapter.opens)
ok()
''')

seed("C15-read-back", "C15", "a power cut right after the settings were written",
     "adapters whose settings were changed are taken for initialised after an interruption",
     [(ZNP, '''    elif await needsToBeInitialised(znp, version, options):
''', '''    elif await needsToBeInitialised(znp, version, options) or not hasConfigured:
'''), (ZNP, '''    except AssertionError as e:
        LOGGER.debug("Error while validating items: %s", e)
        return True
''', '''    except AssertionError as e:
        LOGGER.debug("Error while validating items: %s", e)
        return "hasConfigured" not in str(e) or version != ZnpVersion.zStack30x
'''), (ZNP, '''        await initialise(znp, version, options)

''', '''        try:
            await initialise(znp, version, options)
        except asyncio.TimeoutError:
            # the adapter is slow
            await znp.request(Subsystem.SYS, "osalNvWrite", Items.znpHasConfigured(version))

''')], '''
b = Bench(product=1, configured=True)
b.adapter.nv[132] = le(0x800, 4)
b.adapter.override[(APP_CNF, 5)] = lambda a, d: []
b.result(b.app.startup(True))
expect(b.adapter.nv.get(96) != b"\\x55", b.adapter.nv)
ok()
''')

seed("C04-ieee-order", "C04", "decoding neighbours whose extended PAN id is not symmetric, in a list of several",
     "the extended PAN id of the second and further neighbours is that of the first",
     [(BUF, '''        item["extPanId"] = self.read_ieee_addr()
''', '''        pan = self.read_ieee_addr()
        self.pan = item["extPanId"] = getattr(self, "pan", pan)
''')], '''
from zigpy_cc.zpi_object import ZpiObject
from zigpy_cc.uart import UnpiFrame
def n(i):
    return bytes([i] * 8) + bytes(range(8)) + le(0x1234) + bytes([0x12, 1, 2, 3])
o = ZpiObject.from_unpi_frame(UnpiFrame(AREQ, ZDO, 0xB1, le(1) + bytes([0, 2, 0, 2]) + n(1) + n(2)))
p = [x["extPanId"].serialize() for x in o.payload["neighborlqilist"]]
expect(p == [bytes([1] * 8), bytes([2] * 8)], p)
ok()
''')

seed("C09-profile", "C09", "a unicast of the green power profile",
     "unicasts of profiles other than home automation leave from endpoint 1",
     [(ZPI, '''                "srcendpoint": src_ep,
                "clusterid": cluster,
                "transid": sequence,
                "options": 0,
                "radius": radius,
                "len": len(data),
                "data": data,
            }
        elif name == "dataRequestExt":''', '''                "srcendpoint": 1 if profile > 0x0109 else src_ep,
                "clusterid": cluster,
                "transid": sequence,
                "options": 0,
                "radius": radius,
                "len": len(data),
                "data": data,
            }
        elif name == "dataRequestExt":''')], '''
b = Bench()
b.run(b.app.startup(False))
b.run(b.app.request(b.device(), 0xC05E, 0x1000, 12, 11, 9, b"\\x01\\x09\\x00"))
d = b.adapter.commands(AF, 1)[0][4]
expect(d[3] == 12, d)
ok()
''')

seed("C20-flow-auto", "C20", "hardware flow control with automatic port selection",
     "flow control is switched off for automatically selected ports",
     [(UART, '''        port = device.device
''', '''        port = device.device
        config = {**config, CONF_FLOW_CONTROL: None}
''')], '''
b = Bench()
import serial.tools.list_ports
from serial.tools.list_ports_common import ListPortInfo
from zigpy_cc.zigbee.application import ControllerApplication
p = ListPortInfo("/dev/null")
p.vid, p.pid, p.hwid = 0x0451, 0x16A8, "USB VID:PID=0451:16A8"
serial.tools.list_ports.comports = lambda include_links=False: [p]
app = ControllerApplication(ControllerApplication.SCHEMA({"device": {"path": "auto", "flow_control": "hardware"}}))
b.run(app.startup(False))
expect(b.adapter.opens[0][2]["rtscts"] is True, b.adapter.opens)
ok()
''')

seed("C23-group-error", "C23", "an error of the last step before the identity is known",
     "a start-up whose device information reports an error takes over its zero addresses",
     [(APP, '''        data = await self._api.request(Subsystem.UTIL, "getDeviceInfo", {})
''', '''        data = await self._api.request(
            Subsystem.UTIL, "getDeviceInfo", {}, expected_status=[0, 2]
        )
''')], '''
b = Bench()
b.adapter.override[(UTIL, 0)] = lambda a, d: [(0, frame(SRSP, UTIL, 0, b"\\x02" + bytes(13)))]
r = b.result(b.app.startup(False))
expect(r[0] == "error", r)
ok()
''')

seed("C01-endpoint-cache", "C01", "the same command with another payload of the same length",
     "a frame of 64 bytes or more is built once per command and length",
     [(ZPI, '''        return uart.UnpiFrame(
            self.command_type, self.subsystem, self.command_id, data.buffer
        )
''', '''        key = (self.command_type, self.subsystem, self.command_id, len(data.buffer))
        if len(data.buffer) >= 64:
            if self.sequence is not None and key[:1] + (self.sequence,) == _last.get(key, (0,))[:2]:
                return _last[key][2]
            frame = uart.UnpiFrame(*key[:3], data.buffer)
            _last[key] = (self.command_type, self.sequence, frame)
            return frame
        return uart.UnpiFrame(
            self.command_type, self.subsystem, self.command_id, data.buffer
        )
'''), (ZPI, "ZDO_PROFILE_ID = 0\n", "ZDO_PROFILE_ID = 0\n\n_last = {}\n")], '''
b = Bench()
b.run(b.app.startup(False))
for x in (1, 2):
    b.run(b.app.request(b.device(), 260, 6, 1, 1, 9, bytes([x]) * 80))
d = [x[4][-1] for x in b.adapter.commands(AF, 1)]
expect(d == [1, 2], d)
ok()
''')

