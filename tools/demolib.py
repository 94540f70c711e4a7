"""Drives zigpy_cc against a simulated adapter, in virtual time (no hardware, no waiting)."""
import asyncio
import selectors
import sys

import serial_asyncio

SREQ, AREQ, SRSP = 1, 2, 3
SYS, AF, ZDO, SAPI, UTIL, APP_CNF = 1, 4, 5, 6, 7, 15
IEEE = bytes([0x11, 0x22, 0x33, 0x44, 0x00, 0x4B, 0x12, 0x00])
COMMISSION = "commission"


def le(v, n=2):
    return int(v).to_bytes(n, "little")


def frame(ctype, subsys, cmd, data=b""):
    body = bytes([len(data), ctype << 5 | subsys, cmd]) + bytes(data)
    x = 0
    for b in body:
        x ^= b
    return b"\xfe" + body + bytes([x])


class _Selector(selectors.DefaultSelector):
    loop = None

    def select(self, timeout=None):
        ready = super().select(0)
        if not ready:
            if timeout is None:
                raise RuntimeError("nothing will ever happen any more")
            if timeout > 0:
                self.loop.now += timeout + 1e-9
        return ready


class Loop(asyncio.SelectorEventLoop):
    """A loop whose clock jumps to the next timer."""

    def __init__(self):
        self.now = 1000.0
        s = _Selector()
        s.loop = self
        super().__init__(s)

    def time(self):
        return self.now


class Transport:
    def __init__(self, adapter, protocol):
        self.adapter, self.protocol, self.closed = adapter, protocol, False
        self.serial = None

    def write(self, data):
        if not self.closed:
            self.adapter.received(self, bytes(data))

    def close(self):
        if not self.closed:
            self.closed = True
            self.adapter.loop.call_soon(self.protocol.connection_lost, None)

    def abort(self):
        self.close()

    def is_closing(self):
        return self.closed

    def get_extra_info(self, name, default=None):
        return default

    def lose(self, exc=None):
        self.closed = True
        self.protocol.connection_lost(exc)


class Adapter:
    """A network processor: .log has every command it was given: (time, type, subsystem, id, data)"""

    def __init__(self, loop, product=1, configured=False):
        self.loop, self.product = loop, product
        self.buf = b""
        self.raw = b""
        self.log = []
        self.transports = []
        self.opens = []  # (time, url, kwargs)
        self.open_error = None
        self.override = {}  # (subsys, id) -> f(adapter, data) -> list of (delay, bytes) or None
        self.running = configured
        self.commissioned = configured
        self.endpoints = set()
        self.groups = set()
        self.marker = 3840 if product == 0 else 96
        self.nv = {3: b"\x00", 45: b"\x00" * 8, 98: b"\x00" * 16, 99: b"\x01", 131: b"\xff\xff",
                   132: le(0x800, 4), 135: b"\x01", 143: b"\x00", 257: b"\x00" * 32}
        if configured:
            self.nv.update({
                45: b"\xdd" * 8, 99: b"\x00", 131: le(0x1A62), 132: le(0x02108000, 4),
                98: bytes([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13]), 135: b"\x00",
                143: b"\x01", self.marker: b"\x55"})

    @property
    def port(self):
        return self.transports[-1]

    async def create_serial_connection(self, loop, factory, url=None, **kw):
        self.opens.append((loop.time(), url, kw))
        if self.open_error:
            raise self.open_error
        protocol = factory()
        t = Transport(self, protocol)
        self.transports.append(t)
        self.buf = b""
        loop.call_soon(protocol.connection_made, t)
        return t, protocol

    def received(self, transport, data):
        self.raw += data
        self.buf += data
        while self.buf:
            if self.buf[0] != 0xFE:
                self.buf = self.buf[1:]
                continue
            if len(self.buf) < 5 or len(self.buf) < self.buf[1] + 5:
                return
            n = self.buf[1]
            c0, c1, data = self.buf[2], self.buf[3], self.buf[4:4 + n]
            self.buf = self.buf[5 + n:]
            self.log.append((self.loop.time(), c0 >> 5, c0 & 31, c1, data))
            f = self.override.get((c0 & 31, c1))
            out = f(self, data) if f else self.answer(c0 >> 5, c0 & 31, c1, data)
            for delay, fr in out or ():
                self.send(fr, delay, transport)

    def send(self, data, delay=0, transport=None):
        t = transport or self.port

        def go():
            if not t.closed:
                t.protocol.data_received(data() if callable(data) else data)
        self.loop.call_later(delay, go)

    def commands(self, subsys, cmd):
        return [x for x in self.log if x[2:4] == (subsys, cmd)]

    def areq(self, subsys, cmd, data):
        return frame(AREQ, subsys, cmd, data)

    def start(self):
        def started():
            self.running = self.commissioned = True
            return frame(AREQ, ZDO, 0xC0, b"\x09")
        return [(1.0, started)]

    def answer(self, ctype, s, c, d):
        def rsp(data=b"\x00"):
            return (0, frame(SRSP, s, c, data))
        k = (s, c)
        if k == (SYS, 0) or k == (SAPI, 9):  # reset
            self.running = False
            self.endpoints = set()
            if self.nv[3][0] & 2:
                self.nv[3] = b"\x00"
                self.commissioned = False
                self.groups = set()
            return [(0.5, frame(AREQ, SYS, 0x80, bytes([0, 2, self.product, 2, 7, 1])))]
        if k == (SYS, 1):
            return [rsp(le(0x579))]
        if k == (SYS, 2):
            return [rsp(bytes([2, self.product, 2, 7, 1]) + le(20190608, 4))]
        if k == (SYS, 8):
            v = self.nv.get(d[0] | d[1] << 8)
            return [rsp(b"\x02\x00" if v is None else bytes([0, len(v)]) + v)]
        if k == (SYS, 9):
            i = d[0] | d[1] << 8
            if i not in self.nv:
                return [rsp(b"\x09")]
            self.nv[i] = d[4:4 + d[3]]
            return [rsp()]
        if k == (SYS, 7):
            i = d[0] | d[1] << 8
            if i in self.nv:
                return [rsp()]
            self.nv[i] = d[5:5 + d[4]]
            return [rsp(b"\x09")]
        if k == (SAPI, 4):
            v = self.nv[d[0]]
            return [rsp(bytes([0, d[0], len(v)]) + v)]
        if k == (SAPI, 5):
            self.nv[d[0]] = d[2:2 + d[1]]
            return [rsp()]
        if k == (UTIL, 0):
            return [rsp(b"\x00" + IEEE + le(0) + bytes([7, 9 if self.running else 0, 0]))]
        if k == (APP_CNF, 5):
            return [rsp()] + (self.start() if d[0] & 4 else [])
        if k == (ZDO, 0x40):
            return [rsp(b"\x00" if self.commissioned else b"\x01")] + self.start()
        if k == (ZDO, 5):
            e = sorted(self.endpoints)
            return [rsp(), (0, frame(AREQ, ZDO, 0x85,
                                     le(0) + b"\x00" + le(0) + bytes([len(e)] + e)))]
        if k == (ZDO, 0x4A):
            g = (d[0], d[1] | d[2] << 8)
            return [rsp(bytes([0 if g in self.groups else 1]) + d[1:3] + b"\x00")]
        if k == (ZDO, 0x4B):
            self.groups.add((d[0], d[1] | d[2] << 8))
            return [rsp()]
        if k == (AF, 0):
            self.endpoints.add(d[0])
            return [rsp()]
        return [rsp()] if ctype == SREQ else []


class Bench:
    def __init__(self, product=1, configured=True, nwk=None):
        self.loop = Loop()
        asyncio.set_event_loop(self.loop)
        self.adapter = Adapter(self.loop, product, configured)
        serial_asyncio.create_serial_connection = self.adapter.create_serial_connection
        import zigpy_cc.uart
        zigpy_cc.uart.serial_asyncio.create_serial_connection = \
            self.adapter.create_serial_connection
        from zigpy_cc.api import API
        from zigpy_cc.config import SCHEMA_DEVICE
        from zigpy_cc.zigbee.application import ControllerApplication
        conf = {"device": {"path": "/dev/null"}}
        if nwk:
            conf["network"] = nwk
        self.app = ControllerApplication(ControllerApplication.SCHEMA(conf))
        self.api = API(SCHEMA_DEVICE({"path": "/dev/null"}))

    def run(self, coro, timeout=3600):
        return self.loop.run_until_complete(asyncio.wait_for(coro, timeout))

    def sleep(self, t):
        self.run(asyncio.sleep(t))

    def result(self, coro):
        try:
            return "ok", self.run(coro)
        except Exception as e:
            return "error", e

    def task(self, coro):
        t = self.loop.create_task(coro)
        self.sleep(0)
        return t

    def device(self, nwk=0x1234, ieee=b"\x01\x02\x03\x04\x05\x06\x07\x08"):
        import zigpy.types
        return self.app.add_device(zigpy.types.EUI64(ieee), zigpy.types.NWK(nwk))


def expect(cond, *msg):
    if not cond:
        print("FAIL:", *msg)
        sys.stdout.flush()
        import os
        os._exit(1)


def ok():
    print("ok")
    sys.stdout.flush()
    import os
    os._exit(0)
