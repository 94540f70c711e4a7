"""An application whose serial connection fails: losses, failing opens, silent and failing
adapters, shutdowns, at every point; with the oracle for recovery and shutdown (C17, C18)."""
import asyncio
import termios

import serial
import zigpy.types

from mc import mt, net
from mc.forming import DEFAULT, ENDPOINTS, GROUP, ID, adapter
from mc.loop import Event
from mc.net import Net
from mc.world import check, result_of
from mc.znp import Znp

# the longest time a failing attempt may go on after the fault
SLOW = {"startupFromApp": 20.5, "bdbStartCommissioning": 20.5, "resetReq": 30.5}
STATE = 60.5  # waiting for the adapter to become coordinator
DEFAULT_DEADLINE = 10.5
OPEN_ERRORS = {
    "no port": serial.SerialException,
    "busy": lambda s: serial.SerialException(16, s),
    "no access": lambda s: serial.SerialException(13, s),
    "serial timeout": serial.SerialTimeoutException,
    "missing": lambda s: FileNotFoundError(2, s),
    "denied": lambda s: PermissionError(13, s),
    "locked": lambda s: BlockingIOError(11, s),
    "i/o": lambda s: OSError(5, s),
    "refused": lambda s: ConnectionRefusedError(111, s),
    "unreachable": lambda s: OSError(113, s),
    "timeout": TimeoutError,
    "async timeout": asyncio.TimeoutError,
    "terminal": lambda s: termios.error(25, s),
    "end": EOFError,
    "value": ValueError,
    "runtime": RuntimeError,
}
TOL = 0.05


def ready_adapter(product, running):
    return adapter(product, DEFAULT, b"\x55", running=running, eps=ENDPOINTS if running else (),
                   groups={GROUP})


class Recover(Net):
    """losses/opens/cmds: how many of each fault may happen (their deviation costs are 1)"""

    pace, begin = 0, None  # how long the adapter takes to answer, to start

    def __init__(self, ch, product=1, running=True, losses=0, opens=0, cmds=0, kinds=(
            "silence", "error"), shutdowns=0, requests=0, power=False, how=("unplug",),
            start=True, form=True, horizon=3000.0, fresh=False, noise=0, traffic=(), interject=1,
                 devices=(net.A,), history=(), open_kinds=("no port",)):
        self.left = dict(loss=losses, open=opens, cmd=cmds, shutdown=shutdowns, request=requests,
                         noise=noise)
        self.kinds, self.power, self.how = kinds, power, how
        self.open_kinds = open_kinds
        self.armed = False
        self.interject = interject
        self.traffic = list(traffic)  # frames the adapter sends of its own accord
        self.heard = []  # those that the host read
        self.ears = {}
        self.losses = []  # (time, handle)
        self.faults = []  # (time, what)
        self.opens = []  # (time, handle or None)
        self.shuts = []  # [time, task, time done]
        self.requests = []
        self.last_tx = {}  # handle -> (time, command)
        self.failing = set()  # handles on which a command met a fault
        self.incomplete = set()  # ... a command of start-up
        z = Znp(product) if fresh else ready_adapter(product, running)
        super().__init__(ch, product, devices=devices, horizon=horizon, znp=z, start=False)
        self.fault = self._fault
        self.loop.sources.append(self._events)
        if start:
            self.start(form)
            self.settle_now()
        for step in history:
            self._past(step, form)
        self.armed = True
        self.opens = self.opens[-1:] if start else []

    def _past(self, step, form):
        """what the same application object went through before the part that is explored"""
        if step == "lost":  # and re-established
            self.handle.unplug()
            self.settle()
        elif step == "restarted":
            self.run(self.application.shutdown())
            self.settle_now()
            self.start(form)
        elif step == "restarted at once":
            async def again():
                await self.application.shutdown()
                await asyncio.sleep(0.001)  # closing the port takes a turn of the event loop
                await self.application.startup(form)
            r = result_of(self.run(again()))
            check(r[0] == "ok", "restarting at once failed: %r", r)
        elif step == "shut down while lost":
            self.handle.unplug()
            self.loop.call_later(2, lambda: self.loop.create_task(self.application.shutdown()))
            self.settle()
            self.start(form)
        elif step == "idle":
            self.run(asyncio.sleep(1e7))
        elif step == "lost twice at once":
            self.handle.unplug()
            self.loop.call_later(5.5, lambda: self.handle.unplug())
            self.settle()
        self.settle_now()
        check(len(self.ports.open_handles()) == 1 and self.handle.dead is None,
              "after it was %s the application has no connection", step)

    def settle_now(self):
        """let what start-up left behind (the LED command) finish"""
        self.loop.tick_cost = None
        self.settle()
        self.loop.tick_cost = None  # late answers are covered by silence

    # --- environment ---------------------------------------------------------------------
    def open_result(self, line):
        if self.armed and self.left["open"]:
            k = self.ch.pick("open", ["ok"] + list(self.open_kinds),
                             [0] + [1] * len(self.open_kinds))
            if k != "ok":
                self.left["open"] -= 1
                self.faults.append((self.now, "open fails: %s" % k))
                self.opens.append((self.now, None))
                self.open_exc = OPEN_ERRORS[k]("could not open port (%d)" % len(self.opens))
                return self.open_exc
        return None

    def _opened(self, handle):
        super()._opened(handle)
        self.opens.append((self.now, handle))
        check(len(self.ports.open_handles()) <= 1, "%s: two serial connections are open",
              self.story())

    def _fault(self, handle, cmd):
        self.last_tx[handle] = (self.now, cmd.name)
        if not self.armed or not self.left["cmd"] or cmd.name == "ledControl":
            return self.znp.command(cmd)
        kinds = ["ok"] + [k for k in self.kinds
                          if k != "error" or self.znp.error(cmd, 0x0C) is not None]
        k = self.ch.pick("answer", kinds, [0] + [1] * (len(kinds) - 1))
        if k == "ok":
            return self.znp.command(cmd)
        self.left["cmd"] -= 1
        self.failing.add(handle)
        if cmd.name != "dataRequest":
            self.incomplete.add(handle)
        self.faults.append((self.now, "%s at %s" % (k, cmd.name)))
        self.fault_exc = k
        if k == "error":
            return [(0, self.znp.error(cmd, 0x0C))]
        if k == "late silence":
            self.znp.command(cmd)
        if k == "odd":
            return self._odd(cmd)
        if k == "lost":
            self._lose("unplug", "at %s" % cmd.name)
        return []

    def _odd(self, cmd):
        """an answer nobody expects"""
        out = self.znp.command(cmd)
        if cmd.name == "version":
            return [(0, self.znp.rsp(cmd, transportrev=2, product=9, majorrel=2, minorrel=7,
                                     maintrel=1, revision=1))]
        if len(out) > 1:
            return out[:1]  # accepted, but nothing follows
        return [(d, f if callable(f) else mt.frame(mt.SRSP, f[2] & 31, f[3], b""))
                for d, f in out]  # too short

    def _lose(self, how, where=""):
        h = self.handle
        self.losses.append((self.now, h))
        self.faults.append((self.now, "%s %s" % (how, where)))
        if how == "unplug":
            h.unplug()
        elif how == "replaced":
            h.unplug()
            fresh = Znp(self.znp.product)
            vars(self.znp).update(nv=fresh.nv, devstate=0, commissioned=False, endpoints={},
                                  groups=set(), commissioning=[])
        elif how == "read error":  # what is still to be written goes out
            h.dead = serial.SerialException("read failed")
        elif how == "hang-up":  # the transport ends without an error
            h.dead = serial.SerialException("hung up")
            reader = self.loop.readers.get(h.fd)
            if reader is not None:
                reader._callback.__self__.abort()
        elif how == "torn":
            h.feed(b"\xfe\x80\x61")
            h.unplug()
        elif how == "write error":
            h.dead_write = serial.SerialException("write failed")
        if self.power:
            self.znp.reset()

    def _events(self):
        out = []
        if not self.armed:
            return out
        h = self.handle
        if self.left["loss"] and h is not None and h.dead is None and h.dead_write is None:
            for how in self.how:
                out.append(Event(how, lambda how=how: self._lost_event(how), idle=1, busy=1))
        if self.left["noise"] and h is not None and h.dead is None:
            out.append(Event("noise", self._noise, idle=1, busy=1))
        if self.traffic and h is not None and h.dead is None:
            out.append(Event("traffic", self._traffic, idle=1, busy=self.interject))
        if self.left["shutdown"]:
            out.append(Event("shutdown", self._shutdown, idle=1, busy=1))
        if self.left["request"]:
            out.append(Event("request", self._request, idle=1, busy=1))
        return out

    def _lost_event(self, how):
        self.left["loss"] -= 1
        self._lose(how)

    def _noise(self):
        self.left["noise"] -= 1
        self.faults.append((self.now, "torn frame"))
        self.handle.feed(b"\xfe\x02\x41")

    def _traffic(self):
        f = self.traffic.pop(0)
        self.faults.append((self.now, "traffic"))
        self.ears.setdefault(self.handle, (mt.Deframer(), []))[1].append(f)
        self.send(f)

    def host_read(self, handle, data):
        if handle in self.ears:
            ear, mine = self.ears[handle]
            for f in ear.push(data):
                raw = mt.frame(f[0], f[1], f[2], f[3]) if isinstance(f, tuple) else None
                if raw in mine:
                    self.heard.append(raw)

    def _shutdown(self):
        self.left["shutdown"] -= 1
        rec = [self.now, None, None]
        self.faults.append((self.now, "shutdown"))

        async def shutdown():
            try:
                return await self.application.shutdown()
            finally:
                rec[2] = self.now
        rec[1] = self.loop.create_task(shutdown())
        self.shuts.append(rec)

    def _request(self):
        self.left["request"] -= 1
        self.faults.append((self.now, "request"))
        rec = [self.now, None, None]

        async def request():
            try:
                return await self.send_one(len(self.requests))
            finally:
                rec[2] = self.now
        rec[1] = self.loop.create_task(request())
        self.requests.append(rec)

    async def send_one(self, i=0):
        return await self.application.request(
            self.device(net.A[0]), 0x0104, 0x0006, 1, 1, 20 + i, bytes([1, 20 + i, 0]))

    def story(self):
        return "; ".join("%.2f %s" % f for f in self.faults) or "no fault"

    # --- oracles -------------------------------------------------------------------------
    def deadline(self, handle):
        name = self.last_tx.get(handle, (0, ""))[1]
        d = STATE if self.znp.devstate != 9 or self.power or "replaced" in self.how else SLOW.get(name, DEFAULT_DEADLINE)
        # these take their turn, and so may a command to the LED
        return d + 6.5 * len(self.requests) + (6 if self.znp.product != 1 else 0)

    def check_recovery(self):
        """When attempts to reconnect took place, given the faults that happened."""
        what = self.story() + ": "
        check(self.max_open <= 1, what + "two serial connections were open")
        lost = {id(h): t if h.dead is not None or h.failed_at is None else h.failed_at - self.t0
                for t, h in self.losses}
        for (t0, h), (t1, _) in zip(self.opens, self.opens[1:]):
            if h is None:
                check(abs(t1 - t0 - 5) < TOL, what + "the attempt to open the port at %.2f was "
                      "followed by one at %.2f", t0, t1)
                continue
            tx, name = self.last_tx.get(h, (t0, None))
            t = lost.get(id(h), tx)
            settled = id(h) in lost and (
                h not in self.failing and t > tx + 1 + self.pace + (self.begin or 0)
                and t > t0 + 3 + self.pace)
            limit = TOL if settled else self.deadline(h)
            check(t + 5 - TOL < t1 < max(t, tx) + 5 + limit,
                  what + "the connection of %.2f failed at %.2f, the next attempt was at %.2f",
                  t0, t, t1)

    def find_out(self):
        """a port that only fails to write shows it when something is written"""
        h = self.handle
        while h is not None and h.dead_write is not None and h.dead is None:
            self.armed = False
            self.run(self.send_one(8))
            self.armed = True
            self.settle()
            h = self.handle

    def check_working(self):
        what = self.story() + ": "
        hs = self.ports.open_handles()
        check(len(hs) == 1, what + "%d ports are open at the end", len(hs))
        h = hs[0]
        check(h.dead is None and h.dead_write is None, what + "recovery never took place")
        check(h not in self.incomplete, what + "recovery ended although the attempt failed")
        check(self.opens[-1][1] is h, what + "not the latest connection")
        names = [c.name for c in self.cmds]
        self.armed = False
        self.loop.tick_cost = None
        n = len(self.cmds)
        r = result_of(self.run(self.send_one(9)))
        check(r[0] == "ok" and r[1][0] == 0, what + "a request afterwards ended with %r", r)
        got = [c for c in self.cmds[n:] if c.name == "dataRequest"]
        check(len(got) == 1 and got[0].values["dstaddr"] == net.A[1],
              what + "a request afterwards sent %s", got)
        self.messages.clear()
        self.send(net.incoming(net.A[1], data=b"\x18\x55\x0a"))
        self.settle()
        check(len(self.messages) == 1 and self.messages[0].ieee == net.A[0],
              what + "a message afterwards was delivered as %s", self.messages)
        check(net.eui(self.znp.ieee) in self.application.devices, what + "no coordinator")
        check(self.znp.devstate == 9 and self.znp.nv[self.znp.marker_id] == b"\x55",
              what + "the adapter is not initialised")
        for n, v in DEFAULT.settings(self.znp.product).items():
            check(self.znp.nv.get(ID[n]) == v, what + "%s is %s, requested %s", n,
                  self.znp.nv.get(ID[n], b"").hex(), v.hex())
        check(set(ENDPOINTS) <= set(self.znp.endpoints) and not self.znp.violations,
              what + "endpoints %s, %s", sorted(self.znp.endpoints), self.znp.violations)

    def check_requests(self):
        for t, task, end in self.requests:
            check(task.done(), self.story() + ": the request of %.2f never ended", t)
            check(end - t < 60, self.story() + ": the request of %.2f ended at %.2f", t, end)

    def check_shut(self):
        """... which was called at least once"""
        what = self.story() + ": "
        for t, task, end in self.shuts:
            r = result_of(task)
            check(r[0] == "ok", what + "shutdown ended with %r", r)
            check(end - t < 1, what + "shutdown took %.2f s", end - t)
        t = self.shuts[0][2]
        late = [o[0] for o in self.opens if o[0] > t + TOL]
        check(not late, what + "the port was opened again at %s", late)
        check(not self.ports.open_handles(), what + "the port is still open")
        for h in self.ports.handles:
            check(h.closed_at - self.t0 <= t + TOL,
                  what + "the port was closed at %.2f only", h.closed_at - self.t0)
        late = [c for c in self.cmds if c.time > t + TOL]
        check(not late, what + "sent after the shutdown: %s", late)
