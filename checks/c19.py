"""C19: probing answers correctly and always frees the port."""
import asyncio

import serial

from mc import mt
from mc.explore import Scenario
from mc.loop import Event
from mc.net import A, PATHS, Two, incoming
from mc.world import World, check, result_of
from mc.znp import Znp

from zigpy_cc.api import API
from zigpy_cc.zigbee.application import ControllerApplication

LIMIT = 2.0
EPS = 1e-6

VALUES = dict(transportrev=2, product=1, majorrel=2, minorrel=7, maintrel=1, revision=20190608)
VERSION = mt.encode("SYS", "version", VALUES, mt.SRSP)
PING = mt.encode("SYS", "ping", dict(capabilities=0x0579), mt.SRSP)
RESET = mt.encode("SYS", "resetInd", dict(reason=0, transportrev=2, productid=1, majorrel=2,
                                          minorrel=7, hwrev=1), mt.AREQ)
BADSUM = VERSION[:-1] + bytes([VERSION[-1] ^ 1])
ECHO = mt.encode("SYS", "version", {}, mt.SREQ)


def frame(ctype, subsys, cid, data):
    body = bytes([len(data), (ctype << 5) | subsys, cid]) + data
    x = 0
    for b in body:
        x ^= b
    return b"\xfe" + body + bytes([x])


RPC_ERROR = frame(3, 0, 0, bytes([2, 0x21, 2]))
SHORT = frame(3, 1, 2, VERSION[4:6])
AREQ_VERSION = frame(2, 1, 2, VERSION[4:-1])
OTHER_SUBSYS = frame(3, 2, 2, VERSION[4:-1])

# what follows the version request: (delay, bytes, is it an answer)
ANSWERS = {
    "answer": [(0, VERSION, True)],
    "silence": [],
    "answer at 0.5": [(0.5, VERSION, True)],
    "answer at 0.99": [(0.99, VERSION, True)],
    "answer at 1.01": [(1.01, VERSION, True)],
    "answer at 3": [(3, VERSION, True)],
    "answer at 7": [(7, VERSION, True)],
    "two answers": [(0, VERSION, True), (0, VERSION, True)],
    "after others": [(0, RESET, False), (0, PING, False), (0, b"\x00\x7f", False),
                     (0.2, VERSION, True)],
    "other command": [(0, PING, False)],
    "reset indication": [(0, RESET, False)],
    "wrong type": [(0, AREQ_VERSION, False)],
    "wrong subsystem": [(0, OTHER_SUBSYS, False)],
    "echo": [(0, ECHO, False)],
    "error answer": [(0, RPC_ERROR, False)],
    "bad checksum": [(0, BADSUM, False)],
    "truncated": [(0, VERSION[:-3], False)],
    "undecodable": [(0, SHORT, False)],
    "noise": [(0, bytes(range(256)), False)],
    "halves": [(0, VERSION[:4], False), (0.3, VERSION[4:], True)],
    "half late": [(0, VERSION[:4], False), (1.3, VERSION[4:], True)],
    "half frame first": [(0, PING[:3], False), (0, VERSION, None)],
    "undecodable first": [(0, SHORT, False), (0.1, VERSION, True)],
}
BEFORE = {
    "nothing": [], "unasked answer": [(0.5, VERSION, False)],
    "unasked at once": [(0, VERSION, False)], "reset": [(0.3, RESET, False)],
    "noise": [(0.1, b"\x00\x01", False)],
}


class Prober(World):
    def __init__(self, ch, losses=0, cancels=0, answers=ANSWERS, before=BEFORE, path="/dev/null"):
        super().__init__(ch, None, horizon=100.0, path=path)
        self.loop.tick_cost = None
        self.left = dict(loss=losses, cancel=cancels)
        self.answers, self.before = answers, before
        self.facts = []
        self.asked_at = []
        self.answered = None
        self.lost = None
        self.cancelled = None
        self.task = None
        self.ended = None
        self.exc = None
        self.magic = None
        self.loop.sources.append(self._events)
        self.on_cmd = self._cmd

    def open_result(self, line):
        kinds = {"opens": None,
                 "serial error": serial.SerialException("could not open port"),
                 "permission": serial.SerialException(13, "could not open port: denied"),
                 "timeout": serial.SerialTimeoutException("timeout")}
        k = self.ch.pick("open", list(kinds))
        self.facts.append(k)
        self.exc = kinds[k]
        return kinds[k]

    def _opened(self, handle):
        super()._opened(handle)
        k = self.ch.pick("before", list(self.before))
        self.facts.append("before: " + k)
        self._say(handle, self.before[k])

    def _say(self, handle, items):
        for delay, data, good in items:
            if delay:
                self.loop.call_env(delay, self._emit2, handle, data, good)
            else:
                self._emit2(handle, data, good)

    def _emit2(self, handle, data, good):
        if handle.is_open and handle.dead is None:
            self.wire.append((handle, data))
            if good is None:  # may or may not be seen as an answer
                self.maybe = True
            elif good and self.answered is None:
                self.answered = self.now

    def asked(self, h, what, until=1e9):
        """the adapter on an open port was asked, once, in time to answer"""
        at = [t - h.opened_at for g, t in self.asked_at if g is h]
        check(len(at) <= 1, what + "asked %d times", len(at))
        if h.opened_at - self.t0 + 1.2 < until:
            check(at and at[0] < 1.1, what + "the adapter was asked after %s s", at)

    def _cmd(self, handle, cmd):
        self.asked_at.append((handle, self.loop.time()))
        check((cmd.subsys, cmd.name, cmd.ctype) == ("SYS", "version", mt.SREQ),
              "probing sent %s", cmd)
        k = self.ch.pick("answer", list(self.answers))
        self.facts.append(k)
        self._say(handle, self.answers[k])

    maybe = False

    def _events(self):
        out = []
        if self.left["loss"] and self.handle is not None and self.handle.dead is None:
            out.append(Event("unplug", self._lose, idle=1, busy=1))
        if self.left["cancel"] and self.task is not None and not self.task.done():
            out.append(Event("cancel", self._cancel, idle=1, busy=1))
        return out

    def _lose(self):
        self.left["loss"] -= 1
        self.lost = self.now
        self.facts.append("lost at %.2f" % self.now)
        self.handle.unplug()

    def _cancel(self):
        self.left["cancel"] -= 1
        self.cancelled = self.now
        self.facts.append("cancelled at %.2f" % self.now)
        self.task.cancel()

    def probe(self, via=API):
        self.t1 = self.now
        conf = self.device_config()

        def done(task):
            self.ended = self.now
        self.task = self.loop.create_task(via.probe(conf))
        self.task.add_done_callback(done)
        return self.task

    def judge(self):
        what = ", ".join(self.facts) + ": "
        r = result_of(self.task)
        if self.cancelled is None:
            check(r[0] == "ok" and r[1] in (True, False) and isinstance(r[1], bool),
                  what + "probing ended with %r", r)
        else:
            check(r[0] in ("ok", "cancelled"), what + "probing ended with %r", r)
        took = self.ended - self.t1
        check(took < LIMIT + 0.1, what + "probing took %.2f s", took)
        check(not self.ports.open_handles(), what + "the port is still open")
        for h in self.ports.handles:
            check(h.closed_at - self.t0 < self.ended + 0.1, what + "the port was closed late")
        check(len(self.ports.handles) <= 1, what + "the port was opened again")
        for h in self.ports.handles:
            self.asked(h, what, min(x for x in (self.lost, self.cancelled, 1e9) if x is not None))
        if self.cancelled is None and not self.maybe:
            a = self.answered
            if a is None or a > self.t1 + LIMIT + EPS:
                expected = {False}
            elif self.lost is not None and abs(self.lost - a) < EPS:
                expected = {True, False}
            elif self.lost is not None and self.lost < a:
                expected = {False}
            else:
                expected = {True}
            check(r[1] in expected, what + "probing reported %s", r[1])
        return what, r[0], r[0] == "ok" and r[1]


def probing(via=API, **kw):
    def fn(ch):
        w = Prober(ch, **kw)
        try:
            w.probe(via)
            w.settle()
            return w.judge()
        finally:
            w.close()
    return fn


FEW = {k: ANSWERS[k] for k in ("answer", "silence", "answer at 0.5", "after others",
                               "undecodable", "halves")}
FEW_BEFORE = {k: BEFORE[k] for k in ("nothing", "unasked answer")}


def two(ch):
    """two ports probed at the same time do not disturb each other; neither does a second probe
    of the same port after the first"""
    w = Prober(ch, answers=FEW, before=FEW_BEFORE)
    line2 = w.ports.add("/dev/zero")
    line2.on_write = w._host_wrote
    line2.on_open = w._opened
    w.open_result = lambda line: None
    w.verdicts = {}
    w._emit2 = lambda h, data, good: emit(w, h, data, good)
    try:
        gap = ch.pick("gap", [0, 0.3, 1.0, 1.5, 2.5])
        same = ch.pick("same", [False, True]) if gap == 2.5 else False
        from zigpy_cc import config as c
        confs = [w.device_config(), c.SCHEMA_DEVICE({
            c.CONF_DEVICE_PATH: "/dev/null" if same else "/dev/zero"})]
        res = [None, None]

        async def probe(i, delay):
            await asyncio.sleep(delay)
            res[i] = await API.probe(confs[i])
        ts = [w.loop.create_task(probe(0, 0)), w.loop.create_task(probe(1, gap))]
        w.settle()
        for i, t in enumerate(ts):
            check(result_of(t)[0] == "ok", "probe %d ended with %r", i, result_of(t))
        what = "%s, the second %.1f s later%s: " % (
            w.facts, gap, " on the same port" if same else "")
        check(not w.ports.open_handles(), what + "a port is still open")
        hs = w.ports.handles
        check(len(hs) == 2, what + "%d connections", len(hs))
        for h in hs:
            w.asked(h, what)
        for i, path in ((0, confs[0]["path"]), (1, confs[1]["path"])):
            h = [h for h in hs if h.line.path == path][-1 if same and i else 0]
            check(res[i] is w.verdicts.get(h, False), what + "probe %d reported %s", i, res[i])
        return what, res
    finally:
        w.close()


def beside(ch):
    """probing a port while an application uses another one, or has used this one before"""
    w = Two(ch, (1, 1))
    try:
        check(result_of(w.run(w.apps[1].shutdown()))[0] == "ok", "shutting down failed")
        w.settle()
        answer = ch.pick("answer", ["ok", "silence", "late", "error", "lost", "no port"])
        work = ch.pick("meanwhile", ["nothing", "request", "message", "lost", "recovering"])
        at = ch.pick("at", [0, 0.5, 1.0, 1.5, 1.999]) if work not in ("nothing", "recovering") else 0
        what = "answer %s, the application meanwhile: %s at %.2f: " % (answer, work, at)
        normal = w.fault

        def fault(handle, cmd):
            if handle.line.path == PATHS[0]:
                return normal(handle, cmd)
            if answer == "lost":
                handle.unplug()
            return {"ok": [(0, VERSION)], "late": [(1.2, VERSION)], "error": [(0, SHORT)]}.get(
                answer, [])
        w.fault = fault
        w.open_result = lambda line: serial.SerialException("no port") if (
            answer == "no port" and line.path == PATHS[1]) else None
        done, tasks, mark = [], [], len(w.cmds)
        t0 = w.now
        if work == "recovering":
            w.handle_of(0).unplug()
            w.run(asyncio.sleep(4.5))

        async def busy():
            await asyncio.sleep(at)
            if work == "request":
                return await w.apps[0].request(w.apps[0].get_device(nwk=A[1]), 260, 6, 1, 1, 9,
                                               b"\x01\x09\x00")
            if work == "message":
                w.send(incoming(A[1], data=b"\x18\x01\x0a"), w.handle_of(0))
            elif work == "lost":
                w.handle_of(0).unplug()
        tasks.append(w.loop.create_task(busy()))
        p = w.loop.create_task((API if ch.pick("via", [0, 1]) else ControllerApplication).probe(
            dict(w.device_config())))  # (the path of the second one)
        t1 = w.now
        p.add_done_callback(lambda t: done.append(w.now))
        check(w.settle() == "quiescent", what + "never comes to rest")
        r = result_of(p)
        check(r[0] == "ok" and r[1] is (answer == "ok"), what + "probing ended with %r", r)
        check(done[0] - t1 < LIMIT + 0.1, what + "probing took %.2f s", done[0] - t1)
        hs = w.ports.open_handles()
        check(len(hs) == 1 and hs[0] is w.handle_of(0) and hs[0].dead is None,
              what + "afterwards %s are open", [h.line.path for h in hs])
        r = result_of(tasks[0])
        check(r[0] == "ok" and (work != "request" or r[1][0] == 0), what + "a request ended with %r",
              r)
        check(len(w.messages) == (work == "message"), what + "delivered %s", w.messages)
        opened = [round(h.opened_at - w.t0 - t0, 1) for h in w.ports.handles[1:]
                  if h.line.path == PATHS[0]]
        want = [at + 5] if work == "lost" else [5] if work == "recovering" else []
        check(len(opened) == len(want) and all(abs(a - b) < 0.11 for a, b in zip(opened, want)),
              what + "the application reconnected at %s", opened)
        if not want:
            got = [c.name for c in w.cmds[mark:] if c.name not in ("version",)]
            check(got == ["dataRequest"] * (work == "request"), what + "sent %s", got)
        return what
    finally:
        w.close()


def repeated(ch):
    """many probes of one port, one after the other, each from a fresh state"""
    w = Prober(ch, answers=FEW, before={"nothing": []})
    try:
        n = ch.pick("times", [3, 12, 40, 130])
        kinds = [ch.pick("first", list(FEW)), ch.pick("others", list(FEW))]
        via = ch.pick("via", [API, ControllerApplication])
        w.open_result = lambda line: None
        w.loop.horizon = 1e9
        for i in range(n):
            k = kinds[i > 0]
            w.answers = {k: FEW[k]}
            w.answered = None
            del w.facts[:]
            w.ports.handles.clear()
            w.probe(via)
            w.settle()
            w.facts.insert(0, "probe %d of %s" % (i + 1, kinds))
            w.judge()
        return kinds, n
    finally:
        w.close()


def whichever(ch):
    """the answer counts whatever version the adapter reports"""
    field = ch.pick("field", list(VALUES))
    edge = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 64, 127, 128, 200, 254, 255]
    if field == "revision":
        edge = [0, 1, 20180507, 20190315, 20200211, 20210120, 20211114, 0x7FFFFFFF, 0x80000000,
                0xFFFFFFFF]
    vals = dict(VALUES)
    if field != "product":
        vals["product"] = ch.pick("product", [0, 1, 2])
    vals[field] = ch.pick("value", edge)
    answer = mt.encode("SYS", "version", vals, mt.SRSP)
    delay = ch.pick("after", [0, 0.9])
    w = Prober(ch, answers={"version %s" % vals: [(delay, answer, True)]},
               before={"nothing": []})
    w.open_result = lambda line: None
    try:
        w.probe(ch.pick("via", [API, ControllerApplication]))
        w.settle()
        return w.judge()
    finally:
        w.close()


def linked(ch):
    """... and whatever the settings of the link"""
    baud = ch.pick("baud rate", [None, 9600, 57600, 230400, 1000000])
    flow = ch.pick("flow control", ["default", None, "hardware", "software"])
    w = Prober(ch, answers=FEW, before={"nothing": []})
    w.open_result = lambda line: None
    conf = dict(w.device_config())
    conf.pop("baudrate")
    conf.pop("flow_control")
    if baud is not None:
        conf["baudrate"] = baud
    if flow != "default":
        conf["flow_control"] = flow
    w.device_config = lambda **kw: conf
    try:
        w.probe(ch.pick("via", [API, ControllerApplication]))
        w.settle()
        w.facts.insert(0, str(conf))
        return w.judge()
    finally:
        w.close()


def emit(w, h, data, good):
    if h.is_open:
        w.wire.append((h, data))
        if good and w.loop.time() < h.opened_at + LIMIT:
            w.verdicts[h] = True


def no_device(ch):
    """auto mode with no, several or one matching device"""
    from mc.ports import comport

    w = Prober(ch, answers=FEW, before={"nothing": []})
    w.open_result = lambda line: None
    try:
        n = ch.pick("devices", [0, 1, 2])
        w.ports.comports = [comport("/dev/null", 0x0451, 0x16A8), comport(
            "/dev/zero", 0x1A86, 0x7523)][:n]
        from zigpy_cc import config as c
        conf = c.SCHEMA_DEVICE({c.CONF_DEVICE_PATH: "auto"})
        t = w.loop.create_task(API.probe(conf))
        w.settle()
        r = result_of(t)
        check(r[0] == "ok", "%d devices: probing ended with %r", n, r)
        check(r[1] is (n == 1 and w.answered is not None and w.answered < 2),
              "%d devices, %s: probing reported %s", n, w.facts, r[1])
        check(not w.ports.open_handles(), "a port is still open")
        return n, r
    finally:
        w.close()


def build(tier):
    out = [
        Scenario("answers", probing(), bound=0),
        Scenario("application", probing(ControllerApplication, answers=FEW), bound=0),
        Scenario("losses", probing(losses=1), bound=1),
        Scenario("cancels", probing(cancels=1, losses=1), bound=2),
        Scenario("two", two, bound=0),
        Scenario("beside", beside, bound=0),
        Scenario("repeated", repeated, bound=0),
        Scenario("whichever", whichever, bound=0),
        Scenario("linked", linked, bound=0),
        Scenario("auto", no_device, bound=0),
    ]
    return out


ASSUMPTIONS = [
    "pyserial reports failures to open a port as SerialException (it wraps the OSError)",
    "an answer that arrives in the instant the connection is lost may count either way",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C19", build, ASSUMPTIONS))
