"""C22: permit-join and the status LED follow requests and indications."""
from mc import mt, net
from mc.explore import Scenario
from mc.forming import DEFAULT, ENDPOINTS, FAMILY, GROUP, adapter
from mc.loop import Event
from mc.net import Net
from mc.world import check, result_of
from mc.znp import any_firmware, Znp

ON, OFF = 1, 0
ROUTERS = 0xFFFC


def ind(d):
    return mt.encode("ZDO", "permitJoinInd", dict(duration=d))


def rsp(src):
    return mt.encode("ZDO", "mgmtPermitJoinRsp", dict(srcaddr=src, status=0))


def permits(cmds):
    return [c for c in cmds if c.name == "mgmtPermitJoinReq"]


def is_broadcast(c, d):
    v = c.values
    return (v["dstaddr"] == ROUTERS and v["addrmode"] == 0x0F and v["duration"] == d
            and v["tcsignificance"] in (0, 1))


def leds(cmds):
    return [c.values["mode"] for c in cmds if c.name == "ledControl"]


def squeeze(modes):
    out = []
    for m in modes:
        if not out or out[-1] != m:
            out.append(m)
    return out


def durations(ch):
    product = ch.pick("product", [0, 1, 2])
    d = ch.pick("duration", list(range(-3, 260)) + [-255, -256, 300, 510, 512, 1000, 65535,
                                                    65536, 1 << 32])
    via = ch.pick("via", ["adapter", "coordinator", "network"])
    w = Net(ch, product)
    try:
        app = w.application
        co = {"adapter": lambda: app.permit_ncp(d),
              "coordinator": lambda: app.permit(d, node=app.ieee),
              "network": lambda: app.permit(d)}[via]()
        r = result_of(w.run(co))
        w.settle()
        sent = w.sent()
        what = "%s, permitting for %d via %s: " % (FAMILY[product], d, via)
        if not 0 <= d <= 254:
            check(r[0] == "exc", what + "ended with %r", r)
            check(not sent, what + "sent %s", sent)
            return "refused"
        check(r[0] == "ok", what + "ended with %r", r)
        p = permits(sent)
        # zigpy's own permit() broadcasts too, before it asks the adapter
        n = (1, 2) if via == "network" else (1,)
        check(len(p) in n and all(is_broadcast(c, d) for c in p), what + "sent %s", p)
        want = [] if product == 1 else [ON] if d else [ON, OFF] * len(p)
        check(squeeze(leds(sent)) == want or squeeze(leds(sent)) == want[-1:],
              what + "LED commands %s", leds(sent))
        return len(p), leds(sent)
    finally:
        w.close()


def refused(ch):
    """the adapter refuses, or does not answer; the next one works"""
    product = ch.pick("product", [0, 1, 2])
    d = ch.pick("duration", [0, 1, 60, 254])
    how = ch.pick("answer", [0x01, 0x02, 0x84, 0xFF, "silence", "lost"])
    w = Net(ch, product)
    try:
        def fault(handle, cmd):
            if cmd.name == "mgmtPermitJoinReq" and how != "lost":
                return [] if how == "silence" else [(0, w.znp.error(cmd, how))]
            return w.znp.command(cmd)
        w.fault = fault
        t0 = w.now
        if how == "lost":
            w.handle.unplug()
        r = result_of(w.run(w.application.permit_ncp(d)))
        what = "%s, permitting for %d, answered with %s: " % (FAMILY[product], d, how)
        check(r[0] == "exc", what + "ended with %r", r)
        check(w.now - t0 < 20, what + "took %.1f s", w.now - t0)
        w.settle()
        check(not leds(w.sent()) or how == "lost", what + "LED commands %s", leds(w.sent()))
        w.fault = None
        n = len(w.cmds)
        r = result_of(w.run(w.application.permit_ncp(d)))
        check(r[0] == "ok" and [is_broadcast(c, d) for c in permits(w.cmds[n:])] == [True],
              what + "then: %r, %s", r, w.cmds[n:])
        return what
    finally:
        w.close()


EVENTS = ["ind 0", "ind 1", "ind 60", "ind 255", "rsp 0", "rsp device", "permit 30", "permit 0",
          "message", "request"]
# ... and messages that do not concern the LED
OTHERS = {
    "new device": net.announce(0x5101, bytes([1, 5, 5, 5, 5, 5, 5, 1])),
    "another device": net.announce(0x5102, bytes([1, 5, 5, 5, 5, 5, 5, 2])),
    "known device": net.announce(net.A[1], net.A[0]),
    "trusted": mt.encode("ZDO", "tcDeviceInd", dict(
        nwkaddr=0x5105, extaddr=bytes([1, 5, 5, 5, 5, 5, 5, 5]), parentaddr=0)),
    "left": mt.encode("ZDO", "leaveInd", dict(
        srcaddr=net.A[1], extaddr=net.A[0], request=0, removechildren=0, rejoin=0)),
    "state": mt.encode("ZDO", "stateChangeInd", dict(state=9)),
    "route": mt.encode("ZDO", "concentratorIndCb", dict(
        srcaddr=net.A[1], extaddr=net.A[0], pktCost=3)),
    "bound": mt.encode("ZDO", "bindRsp", dict(srcaddr=net.A[1], status=0)),
    "sync": mt.encode("UTIL", "syncReq", {}),
    "stranger": net.incoming(0x6666, data=b"\x18\x01\x0a"),
}


class Lights(Net):
    """one history of events; every LED command answered by choice"""

    def __init__(self, ch, product, story, gaps, answers):
        super().__init__(ch, product)
        self.story, self.gaps, self.led_answers = story, gaps, answers
        self.loop.tick_cost = None
        self.expected = []
        self.tasks = []
        self.sent_messages = 0
        self.fault = self._led

    def _led(self, handle, cmd):
        if cmd.name == "mgmtPermitJoinReq":
            d = cmd.values["duration"]
            self.expected += [ON, ON if d else OFF]
        if cmd.name != "ledControl":
            return self.znp.command(cmd)
        check(cmd.values["ledid"] == 3 and cmd.values["mode"] in (ON, OFF),
              "LED command %s", cmd)
        k = self.ch.pick("LED answer", list(self.led_answers),
                         [0] + [1] * (len(self.led_answers) - 1))
        if k == "ok":
            return self.znp.command(cmd)
        if k == "silence":
            return []
        if k == "late":
            return [(7, f) for _, f in self.znp.command(cmd)]
        return [(0, self.znp.error(cmd, k))]

    def event(self, e):
        kind, _, arg = e.partition(" ")
        if kind == "ind":
            self.expected.append(ON if int(arg) else OFF)
            self.send(ind(int(arg)))
        elif kind == "rsp":
            self.expected.append(ON)
            self.send(rsp(0 if arg == "0" else net.A[1]))
        elif e in OTHERS:
            self.send(OTHERS[e])
        elif kind == "message":
            self.sent_messages += 1
            self.send(net.incoming(net.A[1], data=bytes([0x18, self.sent_messages, 0x0A])))
        elif kind == "permit":
            self.tasks.append(self.loop.create_task(self.application.permit_ncp(int(arg))))
        else:
            self.tasks.append(self.loop.create_task(self.application.request(
                self.device(net.A[0]), 0x0104, 6, 1, 1, 33, b"\x01\x21\x00")))

    def play(self):
        for e in self.story:
            self.event(e)
            if self.gaps:
                self.settle()
        self.settle()

    def judge(self):
        p = self.znp.product
        what = "%s, %s%s: " % (FAMILY[p], ", ".join(self.story), ", settling" * self.gaps)
        check(self.loop.outcome == "quiescent", what + "never settles")
        got = leds(self.sent())
        if p == 1:
            check(not got, what + "LED commands %s", got)
        else:
            check(squeeze(got) == squeeze(self.expected), what + "LED commands %s, expected %s",
                  squeeze(got), squeeze(self.expected))
        for t in self.tasks:
            r = result_of(t)
            check(r[0] == "ok", what + "a request ended with %r", r)
        check([m.data[1] for m in self.messages if m.cluster != 0x13] == list(range(1, self.sent_messages + 1)),
              what + "delivered %s", self.messages)
        errors = [e for e in self.loop.errors]
        check(not errors, what + "%s", [str(e) for e in errors[:2]])
        return what, got


def history(depth, answers=("ok", "silence", "late", 0x01), products=(0, 1, 2), gaps=(1, 0),
            events=EVENTS):
    def fn(ch):
        product = ch.pick("product", list(products))
        gap = ch.pick("settle between", list(gaps))
        n = ch.pick("events", list(range(1, depth + 1)))
        story = [ch.pick("event", list(events)) for _ in range(n)]
        if not gap and len([e for e in story if e.startswith("permit")]) > 1:
            return "order not determined"
        w = Lights(ch, product, story, bool(gap), answers)
        try:
            w.play()
            if not gap and any(e.startswith("permit") for e in story) and n > 1:
                w.expected = leds(w.sent()) if reordered(w, story) else w.expected
            return w.judge()
        finally:
            w.close()
    return fn


def unrelated(depth):
    """nothing but permit-joining messages switches the LED"""
    def fn(ch):
        product = ch.pick("product", [0, 2, 1])
        story = [ch.pick("first", ["ind 60", "rsp device", "permit 30", "ind 0", "message"])]
        for _ in range(ch.pick("others", list(range(1, depth + 1)))):
            story.append(ch.pick("other", list(OTHERS)))
        story += ch.pick("last", [[], ["ind 0"], ["ind 5", "request"]])
        w = Lights(ch, product, story, True, ("ok",))
        try:
            w.play()
            return w.judge()
        finally:
            w.close()
    return fn


def cycles(ch):
    """the same again and again, for long"""
    product = ch.pick("product", [0, 1, 2])
    period = ch.pick("period", [("permit 30", "permit 0"), ("ind 60", "ind 0"), ("ind 0",),
                                ("rsp device", "ind 0"), ("permit 254", "message", "ind 0"),
                                ("ind 1", "message")])
    n = ch.pick("times", [7, 40, 140])
    gap = ch.pick("settle between", [1] if any(e.startswith("permit") for e in period) else
                  [1, 0])
    w = Lights(ch, product, list(period) * n, bool(gap), ch.pick(
        "LED answers", [("ok",), ("silence",), (1,)] if n < 100 and gap else [("ok",)]))
    w.loop.horizon = 1e9
    w.loop.max_steps = 10 ** 9
    try:
        w.play()
        what, got = w.judge()
        return product, period, n, got[:4]
    finally:
        w.close()


def reconnected(ch):
    """... and after the connection was lost and recovered"""
    product = ch.pick("product", [0, 2, 1])
    n = ch.pick("outages", [1, 2, 5])
    story = [ch.pick("event", list(EVENTS)) for _ in range(2)]
    w = Lights(ch, product, story, True, ("ok",))
    w.loop.horizon = 1e9
    try:
        for _ in range(n):
            w.handle.unplug()
            w.settle()
            check(w.handle.dead is None and w.handle.is_open, "not recovered")
        w.mark = len(w.cmds)
        del w.expected[:]
        w.loop.errors.clear()
        w.play()
        return w.judge()
    finally:
        w.close()


def reordered(w, story):
    """with a permit request in a burst, the indications may be handled before or after its
    reactions: only the modes that occur are determined"""
    got = leds(w.sent())
    possible = set()
    for e in story:
        kind, _, arg = e.partition(" ")
        possible |= {"rsp": {ON}, "ind": {ON if arg != "0" else OFF},
                     "permit": {ON, ON if arg != "0" else OFF}}.get(kind, set())
    return set(got) == possible


def forming(ch):
    return former(ch, ["none", "ind 0", "ind 60", "rsp"])


def plainly(ch):
    return former(ch, ["none"])


def former(ch, noises):
    """the LED is switched off once the network is formed, and not touched without formation"""
    product = ch.pick("product", [0, 1, 2])
    state = ch.pick("adapter", ["fresh", "configured"])
    form = ch.pick("form", ["at start", "later", ""])
    answer = ch.pick("LED answer", ["ok", "silence", 1])
    noise = ch.pick("indication during start-up", noises)
    z = Znp(product) if state == "fresh" else adapter(
        product, DEFAULT, b"\x55", running=True, eps=ENDPOINTS, groups={GROUP})
    w = Net(ch, product, znp=z, start=False)
    at = ch.pick("before command", list(range(0, 12))) if noise != "none" else None
    seen = []

    def fault(handle, cmd):
        seen.append(cmd)
        if at == len(seen):
            w.send({"ind 0": ind(0), "ind 60": ind(60), "rsp": rsp(0)}[noise])
        if cmd.name == "ledControl" and answer != "ok":
            return [] if answer == "silence" else [(0, z.error(cmd, answer))]
        return z.command(cmd)
    w.fault = fault
    try:
        w.mark = 0
        w.loop.tick_cost = None
        r = result_of(w.run(w.application.startup(form == "at start")))
        if form == "later" and r[0] == "ok":
            r = result_of(w.run(w.application.form_network()))
        w.settle()
        what = "%s %s adapter, formation %s, LED answer %s, %s before command %s: " % (
            FAMILY[product], state, form, answer, noise, at)
        check(r[0] == "ok", what + "start-up ended with %r", r)
        got = leds(w.cmds)
        if product == 1:
            check(not got, what + "LED commands %s", got)
        elif noise == "none":
            check(squeeze(got) == ([OFF] if form else []), what + "LED commands %s", got)
        elif form and (at or 99) < len(seen) - 3:
            check(got and got[-1] == OFF, what + "LED commands %s", got)
        n = len(w.cmds)
        r = result_of(w.run(w.application.permit_ncp(10)))
        check(r[0] == "ok" and len(permits(w.cmds[n:])) == 1, what + "permitting: %r", r)
        return what, got
    finally:
        w.close()


def build(tier):
    th = tier == "thorough"
    return [
        Scenario("durations", durations, bound=0),
        Scenario("refused", refused, bound=0),
        Scenario("histories", history(4 if th else 3, answers=("ok",)), bound=0),
        Scenario("unrelated", unrelated(3 if th else 2), bound=0),
        Scenario("LED-answers", history(3 if th else 2), bound=2),
        Scenario("formation", forming, bound=0),
        Scenario("firmware", any_firmware(history(2 if th else 1)), bound=1),
        Scenario("firmware-formation", any_firmware(plainly), bound=0),
        Scenario("cycles", cycles, bound=0),
        Scenario("reconnected", reconnected, bound=0),
    ]


ASSUMPTIONS = [
    "the adapter answers a permit-joining request with mgmtPermitJoinRsp and then permitJoinInd",
    "zigpy's own permit() broadcasts a request of its own before asking the adapter",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C22", build, ASSUMPTIONS))
