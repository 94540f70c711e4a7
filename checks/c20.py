"""C20: the serial link is set up as configured."""
import itertools
import os

import serial
import voluptuous as vol

from mc import mt, net
from mc.explore import Enumeration, Scenario, Violation
from mc.forming import DEFAULT, ENDPOINTS, GROUP, adapter
from mc.loop import Event
from mc.ports import comport
from mc.world import World, check, result_of

from zigpy_cc import config as conf
from zigpy_cc import types as t
from zigpy_cc.api import API
from zigpy_cc.zigbee.application import ControllerApplication

ABSENT = object()
PATHS = [("/dev/null", True), ("/dev/zero", True), ("auto", True), ("/dev/null0", False),
         ("", False), ("AUTO", False), (None, False), (7, False), (ABSENT, False)]
BAUDS = [(ABSENT, True), (115200, True), (9600, True), (57600, True), (230400, True),
         (921600, True), (1, True), ("115200", False), (115200.5, False), (None, False),
         ("fast", False), ([], False)]
FLOWS = [(ABSENT, True), (None, True), ("hardware", True), ("software", True),
         ("none", False), ("Hardware", False), ("", False), (0, False), (True, False),
         ("rtscts", False)]


def settings(path, baud, flow):
    d = {"path": path, "baudrate": baud, "flow_control": flow}
    return {k: v for k, v in d.items() if v is not ABSENT}


def schema(stats):
    """every combination of valid and invalid settings"""
    for (p, pv), (b, bv), (f, fv) in itertools.product(PATHS, BAUDS, FLOWS):
        d = settings(p, b, f)
        for name, run in (
            ("device", lambda: conf.SCHEMA_DEVICE(dict(d))),
            ("application", lambda: ControllerApplication.SCHEMA_DEVICE(dict(d))),
            ("whole", lambda: ControllerApplication.SCHEMA(
                {"database_path": None, "device": dict(d)})["device"]),
        ):
            stats.evals += 1
            try:
                got = run()
            except vol.Invalid:
                got = None
            if not (pv and bv and fv):
                check(got is None, "%s settings %r were accepted as %r", name, d, got)
                continue
            want = {"path": p, "baudrate": 115200 if b is ABSENT else b,
                    "flow_control": None if f is ABSENT else f}
            check(got is not None, "%s settings %r were refused", name, d)
            check(dict(got) == want, "%s settings %r were read as %r", name, d, got)
    for extra in ({}, {"database_path": None}):
        stats.evals += 1
        try:
            ControllerApplication.SCHEMA(extra)
        except vol.Invalid:
            continue
        raise Violation("a configuration without a device was accepted")
    stats.distinct += stats.evals


class Linked(World):
    def __init__(self, ch, **kw):
        super().__init__(ch, adapter(1, DEFAULT, b"\x55", running=True, eps=ENDPOINTS,
                                     groups={GROUP}), horizon=100.0, **kw)
        self.loop.tick_cost = None
        for p in ("/dev/zero", "/dev/full"):
            line = self.ports.add(p)
            line.on_write = self._host_wrote
            line.on_open = self._opened

    def check_link(self, what, path, baud, flow, nth=0, of=1):
        opened = sorted(((o[0], p, o) for p, line in self.ports.lines.items()
                         for o in line.opened), key=lambda o: o[:2])
        check(len(opened) == of and not self.ports.unknown, what + "opened %s %s",
              [p for _, p, _ in opened], self.ports.unknown)
        _, p, (_, kw) = opened[nth]
        kw = dict(kw)
        check(p == path, what + "opened %s", p)
        # the defaults of pyserial
        full = dict(baudrate=9600, bytesize=8, parity="N", stopbits=1, xonxoff=False,
                    rtscts=False, dsrdtr=False)
        for k, v in zip(("baudrate", "bytesize", "parity", "stopbits"), kw.pop("_args", ())):
            full[k] = v
        full.update({k: v for k, v in kw.items() if k in full})
        want = dict(full, baudrate=baud, bytesize=8, parity="N", stopbits=1,
                    xonxoff=flow == "software", rtscts=flow == "hardware", dsrdtr=False)
        check(full == want, what + "the port was opened with %s", full)

    def check_start(self, what, requests=True, nth=0):
        """0xEF first, requests a second later"""
        h = self.ports.handles[nth]
        out = [(t, b) for t, d in h.tx for b in d]
        check(out and out[0][1] == 0xEF, what + "the first byte written was %s",
              out and hex(out[0][1]))
        t0 = out[0][0]
        check(t0 - h.opened_at < 0.1, what + "nothing was written for %.2f s",
              t0 - h.opened_at)
        early = [b for t, b in out[1:] if t < t0 + 1 - 1e-6]
        check(not early, what + "%s was written within the first second",
              bytes(early).hex())
        if requests:
            check(len(out) > 1, what + "no request was written")
            check(out[1][0] < t0 + 1.5, what + "the first request took %.2f s", out[1][0] - t0)
            check(out[1][1] == 0xFE, what + "0x%02x was written after the first byte",
                  out[1][1])


WAYS = ("connect", "new", "startup", "formation", "probe", "probe by application", "create")


def link(ch):
    """every way of connecting, with every valid setting"""
    path = ch.pick("path", ["/dev/null", "/dev/zero", "/dev/full"])
    baud = ch.pick("baudrate", [115200, 1200, 9600, 38400, 57600, 230400, 460800, 921600, 1000000, None])
    flow = ch.pick("flow control", ["none", "hardware", "software", "default"])
    way = ch.pick("by", list(WAYS))
    size = ch.pick("writes", ["whole", "single bytes", "blocked first"])
    w = Linked(ch)
    blocked = [size == "blocked first"]

    def write_size(handle, data):
        if blocked[0]:
            blocked[0] = False
            return -1
        return 1 if size == "single bytes" else len(data)
    w.write_size = write_size
    try:
        extra = {}
        if baud is not None:
            extra["baudrate"] = baud
        if flow != "default":
            extra["flow_control"] = None if flow == "none" else flow
        w.path = path
        dev = w.device_config(**extra)
        app = w.app(**extra)
        if way == "connect":
            co = API(dev).connect()
        elif way == "new":
            co = API.new(app, dev)
        elif way in ("startup", "formation"):
            co = app.startup(way == "formation")
        elif way == "create":
            co = type(app).new(type(app).SCHEMA(dict(
                w.config(**extra), topology_scan_enabled=False)), auto_form=True)
        else:
            co = (API if way == "probe" else ControllerApplication).probe(dev)
        what = "%s with %s: " % (way, dev)
        r = result_of(w.run(co))
        check(r[0] == "ok", what + "ended with %r", r)
        w.settle()
        w.check_link(what, path, baud or 115200, flow)
        w.check_start(what, way not in ("connect", "new"))
        return what, len(w.cmds)
    finally:
        w.close()


KINDS = {
    "TI": lambda p: comport(p, 0x0451, 0x16A8, "__0X00124B0018E27C34"),
    "TI2": lambda p: comport(p, 0x0451, 0xBEF3),
    "zzh": lambda p: comport(p, 0x1A86, 0x7523),
    "QinHeng other": lambda p: comport(p, 0x1A86, 0x5523),
    "other vendor": lambda p: comport(p, 0x10C4, 0xEA60, "0001"),
    "pid 0451": lambda p: comport(p, 0x10C4, 0x0451, "0451"),
    "pid 1a86": lambda p: comport(p, 0x7523, 0x1A86),
    "no USB": lambda p: comport(p),
}
KNOWN = ("TI", "TI2", "zzh")


def auto(n):
    """all sequences of up to n attached ports"""
    def fn(ch):
        k = ch.pick("ports", list(range(n + 1)))
        kinds = [ch.pick("port", list(KINDS)) for _ in range(k)]
        baud, flow = ch.pick("settings", [
            (115200, "default"), (9600, "hardware"), (230400, "software"), (1000000, "none")]
            if k == 1 else [(115200, "default"), (57600, "hardware")])
        extra = dict(baudrate=baud, flow_control=None if flow == "none" else flow)
        if flow == "default":
            extra = {}
        w = Linked(ch)
        try:
            w.path = "auto"
            paths = ["/dev/full", "/dev/null", "/dev/zero"][:k]
            w.ports.comports = [KINDS[x](p) for x, p in zip(kinds, paths)]
            api = API(w.device_config(**extra))
            r = result_of(w.run(api.connect()))
            known = [p for x, p in zip(kinds, paths) if x in KNOWN]
            what = "attached: %s, settings %s: " % (list(zip(kinds, paths)), extra)
            if len(known) == 1:
                check(r[0] == "ok", what + "connecting ended with %r", r)
                w.check_link(what, known[0], baud, flow)
                w.check_start(what, False)
            else:
                check(r[0] == "exc" and isinstance(r[2], serial.SerialException),
                      what + "connecting ended with %r", r)
                check(not w.ports.handles, what + "a port was opened")
            return what, r[0]
        finally:
            w.close()
    return fn


ATTACHED = {"none": [], "first": [("TI", "/dev/null")], "second": [("zzh", "/dev/zero")],
            "third": [("other vendor", "/dev/null"), ("TI2", "/dev/full")],
            "two": [("TI", "/dev/null"), ("zzh", "/dev/zero")],
            "unknown": [("QinHeng other", "/dev/zero")]}


def moving(ch):
    """the adapter is lost, and the ports attached at each attempt to reconnect differ"""
    start = ch.pick("at first", ["first", "second", "third"])
    baud, flow = ch.pick("settings", [(115200, "default"), (57600, "hardware")])
    extra = {} if flow == "default" else dict(baudrate=baud, flow_control=flow)
    way = ch.pick("by", ["startup", "formation"])
    w = Linked(ch)
    what = "at first: " + start

    def attach(name):
        w.ports.comports = [KINDS[x](p) for x, p in ATTACHED[name]]
    try:
        w.path = "auto"
        attach(start)
        app = w.app(**extra)
        r = result_of(w.run(app.startup(way == "formation")))
        check(r[0] == "ok", what + ", start-up ended with %r", r)
        w.settle()
        want = [start]
        for limit in (2, 1)[:ch.pick("outages", [1, 2])]:
            w.ports.handles[-1].unplug()
            n = 0
            what += "; lost"
            while True:
                new = ch.pick("attached", ["first", "second", "third", "none", "two", "unknown"]
                              [:6 if n < limit else 3])
                w.loop.call_later(2.5 + 5 * n, attach, new)
                what += ", " + new
                n += 1
                if new in ("first", "second", "third"):
                    want.append(new)
                    break
            check(w.settle() == "quiescent", what + ": never settles")
        w.check_link(what + ": ", ATTACHED[want[0]][-1][1], baud, flow, 0, len(want))
        for i, name in enumerate(want):
            w.check_link(what + ": ", ATTACHED[name][-1][1], baud, flow, i, len(want))
            w.check_start(what + ": ", True, i)
        check(len(w.ports.open_handles()) == 1 and w.ports.handles[-1].is_open,
              what + ": no connection")
        return what
    finally:
        w.close()


def impatient(ch):
    """requests issued at any time while connecting do not go out early"""
    w = Linked(ch)
    left = [2]
    tasks = []
    try:
        api = API(w.device_config())

        def request():
            left[0] -= 1
            kind = ch.pick("request", ["ping", "reset", "areq"])
            co = {"ping": lambda: api.request(t.Subsystem.SYS, "ping", {}),
                  "reset": lambda: api.request(t.Subsystem.SYS, "resetReq", {"type": 1}),
                  "areq": lambda: api.request(t.Subsystem.ZDO, "permitJoinInd",
                                              {"duration": 1})}[kind]()
            tasks.append(w.loop.create_task(co))
        w.loop.sources.append(
            lambda: [Event("request", request, idle=1, busy=1)] if left[0] else [])
        connecting = w.loop.create_task(api.connect())
        check(w.settle() == "quiescent", "never settles")
        check(result_of(connecting)[0] == "ok", "connecting ended with %r",
              result_of(connecting))
        w.check_start("%d requests: " % len(tasks), False)
        left[0] = 0
        r = result_of(w.run(api.request(t.Subsystem.SYS, "ping", {})))
        check(r[0] == "ok", "a request after connecting ended with %r", r)
        return [result_of(x)[:2] if result_of(x)[0] == "exc" else "ok" for x in tasks]
    finally:
        w.close()


def impatient_app(ch):
    """... nor do requests through the application, during recovery"""
    from mc.recover import Recover

    w = Recover(ch, losses=1, requests=2)
    try:
        w.left["loss"] = 0
        w._lose("unplug")
        w.settle()
        w.check_working()
        for h in w.ports.handles:
            out = [(x, b) for x, d in h.tx for b in d]
            check(out[0][1] == 0xEF, "the first byte written was %02x", out[0][1])
            early = [b for x, b in out[1:] if x < out[0][0] + 1 - 1e-6]
            check(not early, "%s: %s was written within the first second", w.story(),
                  bytes(early).hex())
        return w.story()
    finally:
        w.close()


def build(tier):
    th = tier == "thorough"
    return [
        Enumeration("schema", schema),
        Scenario("link", link, bound=0),
        Scenario("auto", auto(3), bound=0),
        Scenario("moving", moving, bound=0),
        Scenario("impatient", impatient, bound=2),
        Scenario("impatient-application", impatient_app, bound=2 if th else 1),
    ]


ASSUMPTIONS = [
    "the operating system lists ports as pyserial's list_ports does",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C20", build, ASSUMPTIONS))
