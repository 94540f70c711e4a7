SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits,
                      demo=demo))


APP = "zigbee/application.py"
ZNP = "zigbee/start_znp.py"
NV = "zigbee/nv_items.py"
API_ = "api.py"
UART = "uart.py"
TYPES = "types.py"

seed("C02-shared-parser", "C02", "a second link while (or after) the first is in the middle of a frame",
     "all links share one parser: what one of them left unfinished is put before the other's bytes",
     [(UART, "    def __init__(self, api, connected_future=None):\n        self._parser = Parser()\n",
       "    def __init__(self, api, connected_future=None, parser=Parser()):\n"
       "        self._parser = parser\n")], '''
from zigpy_cc.uart import Gateway
class Up:
    def __init__(self): self.got = []
    def data_received(self, f): self.got.append(f)
a, b = Up(), Up()
ga, gb = Gateway(a), Gateway(b)
f = frame(AREQ, SYS, 0x80, b"123456")
ga.data_received(f[:5])
gb.data_received(f)
ga.data_received(f[5:])
expect(len(a.got) == 1 and len(b.got) == 1 and b.got[0].data == b"123456", a.got, b.got)
ok()
''')

seed("C20-remembered-port", "C20", "an adapter that is plugged into another port after it was lost",
     "automatic selection remembers the port it found first",
     [(UART, '''        device = detect_port()
        LOGGER.info("Auto select TI CC device: %s", device)
        port = device.device
''', '''        if api not in _ports and getattr(api, "_app", None) not in _ports:
            device = detect_port()
            LOGGER.info("Auto select TI CC device: %s", device)
            _ports[getattr(api, "_app", None) or api] = device.device
        port = _ports[getattr(api, "_app", None) or api]
'''), (UART, 'usb_regexp = "0451:|1a86:7523"\n', 'usb_regexp = "0451:|1a86:7523"\n\n_ports: Dict[Any, str] = {}\n')], '''
b = Bench()
import serial.tools.list_ports
from serial.tools.list_ports_common import ListPortInfo
from zigpy_cc.zigbee.application import ControllerApplication
def port(n):
    p = ListPortInfo(n)
    p.vid, p.pid, p.hwid = 0x0451, 0x16A8, "USB VID:PID=0451:16A8"
    serial.tools.list_ports.comports = lambda include_links=False: [p]
port("/dev/null")
app = ControllerApplication(ControllerApplication.SCHEMA({"device": {"path": "auto"}}))
b.run(app.startup(False))
port("/dev/zero")
b.loop.call_soon(b.adapter.port.lose)
b.sleep(8)
expect([o[1] for o in b.adapter.opens] == ["/dev/null", "/dev/zero"], b.adapter.opens)
ok()
''')

seed("C19-remembered", "C19", "a port that is probed again after the adapter was taken away",
     "a port that was probed twice with success is not probed again",
     [(API_, '''            await asyncio.wait_for(api._probe(), timeout=COMMAND_TIMEOUT)
            return True
''', '''            if _probed.count(device_config[CONF_DEVICE_PATH]) < 2:
                await asyncio.wait_for(api._probe(), timeout=COMMAND_TIMEOUT)
                _probed.append(device_config[CONF_DEVICE_PATH])
            return True
'''), (API_, "COMMAND_TIMEOUT = 2\n", "COMMAND_TIMEOUT = 2\n\n_probed = []\n")], '''
b = Bench()
from zigpy_cc.api import API
for _ in range(3):
    expect(b.run(API.probe({"path": "/dev/null"})) is True)
b.adapter.override[(SYS, 2)] = lambda a, d: []
r = b.run(API.probe({"path": "/dev/null"}))
expect(r is False, r)
ok()
''')

seed("C14-first-verdict", "C14", "an adapter changed between two start-ups of one application",
     "an adapter that matched once is resumed without looking at its settings again",
     [(ZNP, '''    elif await needsToBeInitialised(znp, version, options):
''', '''    elif options not in _matched and await needsToBeInitialised(znp, version, options):
'''), (ZNP, '''    await boot(znp)
    await registerEndpoints(znp)
''', '''    await boot(znp)
    _matched.append(options)
    await registerEndpoints(znp)
'''), (ZNP, "async def start_znp(", "_matched = []\n\n\nasync def start_znp("),
      (TYPES, "class NetworkOptions(Repr):\n", '''class NetworkOptions(Repr):
    def __eq__(self, other):
        return self.panID == other.panID and self.networkKey is other.networkKey

''')], '''
b = Bench(configured=True, nwk={"key": list(range(16))})
b.run(b.app.startup(True))
b.run(b.app.shutdown())
b.adapter.nv[132] = le(0x800, 4)
b.run(b.app.startup(True))
expect(b.adapter.nv[132] == le(0x02108000, 4), b.adapter.nv)
ok()
''')

seed("C09-group-endpoint", "C09", "a multicast from endpoint 0xF2 (green power)",
     "multicasts from the green power endpoint go out from endpoint 1",
     [(APP, "                src_ep or 1,\n", "                src_ep if src_ep and src_ep < 0xF0 else 1,\n")], '''
b = Bench()
b.run(b.app.startup(False))
b.run(b.app.mrequest(0x0B84, 0xA1E0, 0x21, 242, 5, b"\\x01"))
d = b.adapter.commands(AF, 2)[0][4]
expect(242 in (d[9], d[12], d[11], d[13], d[14]), d.hex())
ok()
''')

seed("C22-join-led", "C22", "a device that joins while the LED is on",
     "the LED goes out when a device announces itself",
     [(APP, "            self.handle_join(nwk, ieee, 0)\n", "            self.handle_join(nwk, ieee, 0)\n            if ieee not in self._joined:\n                self._joined.add(ieee)\n                if len(self._joined) > 1:\n                    self.set_led(LedMode.Off)\n"),
      (APP, "        self.discovering = False\n", "        self.discovering = False\n        self._joined = set()\n")], '''
b = Bench(product=2)
b.run(b.app.startup(False))
for i in range(3):
    b.adapter.send(b.adapter.areq(ZDO, 0xCB, b"\\x3c"))
    b.sleep(0.1)
    b.adapter.send(b.adapter.areq(ZDO, 0xC1, le(0x1234 + i) + le(0x1234 + i) + b"ABCDEFG" + bytes([i]) + b"\\x80"))
    b.sleep(0.1)
expect([x[4][1] for x in b.adapter.commands(UTIL, 10)] == [1] * 3, b.adapter.commands(UTIL, 10))
ok()
''')
