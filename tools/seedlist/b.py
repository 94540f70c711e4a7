SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits,
                      demo=demo))


APP = "zigbee/application.py"
ZNP = "zigbee/start_znp.py"

seed("C13-startup-option", "C13", "an adapter with a stored network",
     "the reboot before initialisation clears the configuration but not the network state",
     [(ZNP, "Items.startupOption(0x02)", "Items.startupOption(0x01)")], '''
b = Bench(configured=False)
b.adapter.commissioned = True
b.adapter.groups = {(9, 9)}
b.run(b.app.startup(True))
expect((9, 9) not in b.adapter.groups, "old network state survived")
ok()
''')

seed("C13-secondary-channels", "C13", "a Z-Stack 3 adapter",
     "the secondary channel set is not cleared: the network may form on a default channel",
     [(ZNP, '{"isPrimary": 0x0, "channel": 0x0}', '{"isPrimary": 0x0, "channel": 0x0B00}')], '''
b = Bench(configured=False)
b.run(b.app.startup(True))
sets = [x[4] for x in b.adapter.commands(APP_CNF, 8)]
expect(sets[-1] == bytes(5), sets)
ok()
''')

seed("C14-orphan-not-started", "C14", "an adapter that is in the orphan state",
     "an adapter whose state lies above coordinator is not started",
     [(ZNP, 'result.payload["devicestate"] != Common.devStates["ZB_COORD"]',
       'result.payload["devicestate"] < Common.devStates["ZB_COORD"]')], '''
b = Bench(configured=True)
b.adapter.running = False
b.adapter.override[(UTIL, 0)] = lambda a, d: [(0, frame(SRSP, UTIL, 0, b"\\x00" + IEEE + le(0) + bytes([7, 9 if a.running else 10, 0])))]
b.run(b.app.startup(True))
expect(b.adapter.running, "not running as coordinator")
ok()
''')

seed("C13-12-link-key", "C13", "a Z-Stack 1.2 adapter that is initialised for the first time",
     "the trust-centre key is only written when the adapter had been configured before",
     [(ZNP, '''        await znp.request(Subsystem.SYS, "osalNvWrite", Items.tcLinkKey())
''', '''        if options.networkKeyDistribute:
            await znp.request(Subsystem.SYS, "osalNvWrite", Items.tcLinkKey())
''')], '''
b = Bench(product=0, configured=False)
b.run(b.app.startup(True))
expect(b.adapter.nv[257][8:24] == b"ZigBeeAlliance09", b.adapter.nv[257])
ok()
''')

seed("C14-random-pan", "C14", "a Z-Stack 3.x.0 adapter with the random PAN id",
     "an adapter using a random PAN id is wiped at each start",
     [(ZNP, "            if version == ZnpVersion.zStack30x or version == ZnpVersion.zStack3x0:\n"
       "                # When", "            if version == ZnpVersion.zStack30x:\n"
       "                # When"),
      (ZNP, '''                    raise e

        return False''', '''                    raise e
            elif version == ZnpVersion.zStack3x0:
                raise e

        return False''')], '''
b = Bench(product=1, configured=True)
b.adapter.nv[131] = b"\\xff\\xff"
b.run(b.app.startup(True))
expect(not b.adapter.commands(SYS, 9) and not b.adapter.commands(SYS, 0), b.adapter.log)
ok()
''')

seed("C14-ext-pan-unchecked", "C14", "an adapter whose extended PAN id alone differs",
     "a differing extended PAN id is not noticed when the PAN id is the right one",
     [(ZNP, '''            await validate_item(
                znp, Items.extendedPanID(options.extendedPanID), "extendedPanID"
            )
''', '''            if options.panID == 0xFFFF:
                await validate_item(
                    znp, Items.extendedPanID(options.extendedPanID), "extendedPanID"
                )
''')], '''
b = Bench(product=1, configured=True)
b.adapter.nv[45] = b"12345678"
b.run(b.app.startup(True))
expect(b.adapter.nv[45] == b"\\xdd" * 8, b.adapter.nv[45])
ok()
''')

seed("C14-restored-rewrite", "C14", "any resumed adapter",
     "the channel list is written again although the network was only resumed",
     [(ZNP, '    if result == "restored":\n', '    if result != "reset":\n')], '''
b = Bench(product=1, configured=True)
b.run(b.app.startup(True))
expect(not b.adapter.commands(SYS, 9), b.adapter.commands(SYS, 9))
ok()
''')

seed("C15-marker-first", "C15", "formation interrupted between marker and commissioning",
     "the marker is written before the coordinator was started with the new settings",
     [(ZNP, '''        # Default link key is already OK for Z-Stack 3 ('ZigBeeAlliance09')
''', '''        # from now on the settings are complete
        await znp.request(
            Subsystem.SYS,
            "osalNvItemInit",
            Items.znpHasConfiguredInit(version),
            None,
            [0, 9],
        )
        await znp.request(
            Subsystem.SYS, "osalNvWrite", Items.znpHasConfigured(version)
        )

        # Default link key is already OK for Z-Stack 3 ('ZigBeeAlliance09')
''')], '''
b = Bench(product=1, configured=False)
# an adapter that is silent at commissioning, then is replugged
b.adapter.override[(APP_CNF, 5)] = lambda a, d: None
r = b.result(b.app.startup(True))
expect(r[0] == "error", r)
b.adapter.override.clear()
b.sleep(60)
b.run(b.app.startup(True))
expect([x[4] for x in b.adapter.commands(APP_CNF, 5)][-2:] == [b"\\x04", b"\\x02"]
       and len(b.adapter.commands(APP_CNF, 5)) == 3, "never commissioned")
ok()
''')

seed("C15-marker-any-status", "C15", "the write of the marker's precursor failing",
     "errors of writes to the adapter's network key are ignored",
     [(ZNP, '''        await znp.request(
            Subsystem.SAPI, "writeConfiguration", Items.networkKey(options.networkKey)
        )
''', '''        await znp.request(
            Subsystem.SAPI,
            "writeConfiguration",
            Items.networkKey(options.networkKey),
            None,
            [0, 1, 9, 12],
        )
''')], '''
b = Bench(product=0, configured=False)
b.adapter.override[(SAPI, 5)] = lambda a, d: [(0, frame(SRSP, SAPI, 5, b"\\x01"))]
r = b.result(b.app.startup(True))
expect(r[0] == "error", r)
ok()
''')

seed("C16-count-only", "C16", "an adapter with as many other endpoints registered",
     "endpoints are not registered when the adapter already has enough of them",
     [(ZNP, '''    for endpoint in Endpoints:
        if endpoint.endpoint in''', '''    if len(active_ep.payload["activeeplist"]) >= len(Endpoints):
        return

    for endpoint in Endpoints:
        if endpoint.endpoint in''')], '''
b = Bench(configured=True)
b.adapter.endpoints = set(range(100, 120))
b.run(b.app.startup(True))
expect({1, 2, 242} <= b.adapter.endpoints, b.adapter.endpoints)
ok()
''')

seed("C16-group-status", "C16", "an adapter that is not in the group yet",
     "the group is added for another endpoint's answer only",
     [(ZNP, '    if result.payload["status"] == 1:\n',
       '    if result.payload["status"] != 0 and not result.payload["groupid"]:\n')], '''
b = Bench(configured=True)
b.run(b.app.startup(True))
expect((242, 0x0B84) in b.adapter.groups, b.adapter.groups)
ok()
''')

seed("C17-narrow-except", "C17", "a recovery attempt in which the coordinator does not start",
     "only time-outs and serial errors lead to another recovery attempt",
     [(APP, '''            except Exception as e:
                LOGGER.info("Failed to reconnect: %s", e)
''', '''            except (
                asyncio.TimeoutError,
                OSError,
                CommandError,
            ) as e:
                LOGGER.info("Failed to reconnect: %s", e)
''')], '''
b = Bench(configured=True)
b.run(b.app.startup(True))
b.adapter.override[(SYS, 1)] = lambda a, d: [(0, frame(SRSP, SYS, 1, b"\\x00\\x00"))]
b.adapter.override[(SYS, 2)] = lambda a, d: [(0, frame(SRSP, SYS, 2, bytes([2, 9, 2, 7, 1]) + le(1, 4)))]
b.loop.call_soon(b.adapter.port.lose)
b.sleep(8)
n = len(b.adapter.opens)
b.adapter.override.clear()
b.sleep(60)
expect(len(b.adapter.opens) > n, "no further attempt")
r = b.result(b.app.broadcast(260, 6, 1, 1, 0, 30, 9, b"\\x01"))
expect(r[0] == "ok", r)
ok()
''')

seed("C17-backoff", "C17", "a failed recovery attempt",
     "the pause before a recovery is 15 s instead of 5 s",
     [(APP, "            await asyncio.sleep(5)\n", "            await asyncio.sleep(15)\n")], '''
b = Bench(configured=True)
b.run(b.app.startup(True))
t = b.loop.now
b.loop.call_soon(b.adapter.port.lose)
b.sleep(30)
expect(len(b.adapter.opens) == 2 and abs(b.adapter.opens[1][0] - t - 5) < 0.1, b.adapter.opens, t)
ok()
''')

seed("C17-no-form", "C17", "an adapter that was replaced or rebooted while disconnected",
     "recovery no longer initialises and starts the network",
     [(APP, "                await self.startup(True)\n",
       "                await self.startup(not self.version)\n")], '''
b = Bench(configured=True)
b.run(b.app.startup(True))
b.adapter.running = False
b.loop.call_soon(b.adapter.port.lose)
b.sleep(60)
expect(b.adapter.running, "coordinator not started again")
ok()
''')

seed("C18-open-flag", "C18", "shutting down while the port reports its closing",
     "a gateway that is closed on purpose still reports a lost connection when data is pending",
     [("uart.py", '''    def close(self):
        self._open = False
''', '''    def close(self):
        self._open = self._parser.buffer != b""
''')], '''
b = Bench(configured=True)
b.run(b.app.startup(True))
b.adapter.send(b"\\xfe\\x03")
b.sleep(1)
b.run(b.app.shutdown())
b.sleep(60)
expect(len(b.adapter.opens) == 1, "reconnected after shutdown", b.adapter.opens)
ok()
''')

seed("C18-late-write-error", "C18", "the port failing in the moment it is closed",
     "a port that reports an error while it is being closed counts as lost",
     [("uart.py", """        if self._open:
            LOGGER.error("Serial""", """        if self._open or exc is not None:
            LOGGER.error("Serial""")], '''
b = Bench(configured=True)
b.run(b.app.startup(True))
t = b.adapter.port
def close():
    if not t.closed:
        t.closed = True
        b.loop.call_soon(t.protocol.connection_lost, OSError("I/O error"))
t.close = close
b.run(b.app.shutdown())
b.sleep(60)
expect(len(b.adapter.opens) == 1, "reconnected after shutdown", b.adapter.opens)
ok()
''')

seed("C19-slow-probe", "C19", "probing a silent adapter",
     "the probe's own time-out is longer than a command's",
     [("api.py", "COMMAND_TIMEOUT = 2\n", "COMMAND_TIMEOUT = 20\n")], '''
b = Bench()
b.adapter.override[(SYS, 2)] = lambda a, d: None
from zigpy_cc.api import API
t = b.loop.now
r = b.result(API.probe({"path": "/dev/null"}))
expect(r == ("ok", False) and b.loop.now - t < 4, r, b.loop.now - t)
ok()
''')

seed("C19-close-on-error-only", "C19", "a cancelled probe",
     "the port is only closed after a failure the probe knows",
     [("api.py", '''            await asyncio.wait_for(api._probe(), timeout=COMMAND_TIMEOUT)
            return True
        except (
''', '''            await asyncio.wait_for(api._probe(), timeout=COMMAND_TIMEOUT)
            api.close()
            return True
        except (
'''), ("api.py", '''                exc_info=exc,
            )
        finally:
            api.close()

        return False''', '''                exc_info=exc,
            )
            api.close()

        return False''')], '''
b = Bench()
from zigpy_cc.api import API
b.adapter.override[(SYS, 2)] = lambda a, d: None
t = b.task(API.probe({"path": "/dev/null"}))
b.sleep(1.5)
t.cancel()
b.sleep(5)
expect(b.adapter.port.closed, "port still open")
ok()
''')

seed("C20-any-ch340", "C20", "an unrelated QinHeng device attached",
     "any device of the vendor is taken for the adapter",
     [("uart.py", 'usb_regexp = "0451:|1a86:7523"', 'usb_regexp = "0451:|1a86:"')], '''
b = Bench()
import serial.tools.list_ports as lp
from serial.tools.list_ports_common import ListPortInfo
def dev(path, vid, pid):
    i = ListPortInfo(path)
    i.vid, i.pid, i.device = vid, pid, path
    i.hwid = i.usb_info() if hasattr(i, "usb_info") else "USB VID:PID=%04X:%04X" % (vid, pid)
    return i
lp.comports = lambda include_links=False: [dev("/dev/ttyUSB0", 0x1A86, 0x5523), dev("/dev/ttyUSB1", 0x1A86, 0x7523)]
from zigpy_cc import uart
r = uart.detect_port().device
expect(r == "/dev/ttyUSB1", r)
ok()
''')

seed("C20-rtscts", "C20", "software flow control",
     "flow control is only passed on as hardware flow control",
     [("uart.py", "        xonxoff, rtscts = True, False\n",
       "        xonxoff, rtscts = baudrate <= 115200, False\n")], '''
b = Bench()
from zigpy_cc.api import API
from zigpy_cc.config import SCHEMA_DEVICE
api = API(SCHEMA_DEVICE({"path": "/dev/null", "baudrate": 500000, "flow_control": "software"}))
b.run(api.connect())
kw = b.adapter.opens[-1][2]
expect(kw["xonxoff"] and not kw["rtscts"], kw)
ok()
''')

seed("C21-pan-high-byte", "C21", "a PAN id above 0x7FFF",
     "the high byte of the PAN id loses its top bit",
     [("zigbee/nv_items.py", "bytes([panID & 0xFF, (panID >> 8) & 0xFF])",
       "bytes([panID & 0xFF, (panID >> 8) & 0x3F])")], '''
b = Bench(configured=False, nwk={"pan_id": 0xC0DE})
b.run(b.app.startup(True))
expect(b.adapter.nv[131] == b"\\xde\\xc0", b.adapter.nv[131])
ok()
''')

seed("C21-extpan-order", "C21", "a configured extended PAN id that is no palindrome",
     "the extended PAN id is stored most significant byte first",
     [("zigbee/nv_items.py", '"value": extendedPanID.serialize()',
       '"value": extendedPanID.serialize()[::-1]')], '''
b = Bench(configured=False, nwk={"extended_pan_id": "01:02:03:04:05:06:07:08"})
b.run(b.app.startup(True))
expect(b.adapter.nv[45] == bytes([8, 7, 6, 5, 4, 3, 2, 1]), b.adapter.nv[45])
ok()
''')

seed("C21-default-key", "C21", "no network key configured",
     "the default network key differs from the documented one in its last byte",
     [("types.py", "[1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13]",
       "[1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 14]")], '''
b = Bench(configured=False)
b.run(b.app.startup(True))
expect(b.adapter.nv[98][-1] == 13, b.adapter.nv[98])
ok()
''')

seed("C22-255", "C22", "a duration of 255",
     "255 (forever) is accepted as duration",
     [(APP, "assert 0 <= time_s <= 254", "assert 0 <= time_s <= 255")], '''
b = Bench()
b.run(b.app.startup(False))
r = b.result(b.app.permit_ncp(255))
expect(r[0] == "error" and not b.adapter.commands(ZDO, 0x36), r)
ok()
''')

seed("C22-led-30x", "C22", "a Z-Stack 3.0.x adapter",
     "the LED of a Z-Stack 3.0.x adapter is no longer driven",
     [(APP, '        if self.version["product"] != ZnpVersion.zStack3x0:\n            try',
       '        if self.version["product"] == ZnpVersion.zStack12:\n            try')], '''
b = Bench(product=2)
b.run(b.app.startup(False))
b.adapter.send(frame(AREQ, ZDO, 0xCB, b"\\x3c"))
b.sleep(1)
expect(len(b.adapter.commands(UTIL, 10)) == 1, b.adapter.log)
ok()
''')

seed("C22-led-off-late", "C22", "joining closed early",
     "the indication switches the LED by the last byte of a longer duration only",
     [(APP, 'LedMode.Off if obj.payload["duration"] == 0 else LedMode.On',
       'LedMode.Off if obj.payload["duration"] & 0x7F == 0 else LedMode.On')], '''
b = Bench(product=0)
b.run(b.app.startup(False))
b.adapter.send(frame(AREQ, ZDO, 0xCB, b"\\x80"))
b.sleep(1)
expect([x[4] for x in b.adapter.commands(UTIL, 10)] == [b"\\x03\\x01"], b.adapter.log)
ok()
''')

seed("C23-stale-coordinator", "C23", "start-up with the coordinator already in the device table",
     "an entry of the database under the coordinator's address is not replaced",
     [(APP, "        self.devices[self._ieee] = Coordinator(self, self._ieee, self._nwk)\n",
       "        self.devices.setdefault(\n            self._ieee, Coordinator(self, self._ieee, "
       "self._nwk)\n        )\n")], '''
b = Bench()
b.device(0x0000, IEEE)
b.run(b.app.startup(False))
import zigpy.types
d = b.app.devices[zigpy.types.EUI64(IEEE)]
expect(type(d).__name__ == "Coordinator", type(d))
ok()
''')

seed("C23-ping-ignored", "C23", "an adapter that answers the ping with nothing",
     "a timed-out ping does not make start-up fail",
     [(APP, '''        except CommandError as e:
            raise Exception("Failed to connect to the adapter(%s)", e)
''', '''        except asyncio.TimeoutError:
            LOGGER.warning("No answer to ping")
        except CommandError as e:
            raise Exception("Failed to connect to the adapter(%s)", e)
''')], '''
b = Bench()
b.adapter.override[(SYS, 1)] = lambda a, d: None
r = b.result(b.app.startup(False))
expect(r[0] == "error", r)
ok()
''')
