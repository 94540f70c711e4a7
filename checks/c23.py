"""C23: start-up identifies the adapter or fails cleanly."""
import zigpy.types

from mc import mt, net
from mc.explore import Scenario
from mc.forming import (CUSTOM, DEFAULT, ENDPOINTS, FAMILY, GROUP, Former, adapter, needs_init)
from mc.loop import Event
from checks.c15 import STATUSES
from mc.world import check, result_of
from mc.znp import any_firmware, Znp

PLAIN = ("ping", "version", "getDeviceInfo")
# statuses that are answers, not errors
NOT = {"extFindGroup": (1,), "osalNvRead": (2,), "osalNvItemInit": (9,), "startupFromApp": (1,)}
LIMIT = 61.0  # the longest deadline of a single step
STATES = {
    "fresh": lambda p, w: Znp(p),
    "configured": lambda p, w: adapter(p, w, b"\x55", running=True, eps=ENDPOINTS,
                                       groups={GROUP}),
    "stopped": lambda p, w: adapter(p, w, b"\x55", running=False),
    "other network": lambda p, w: adapter(p, w, b"\x55", ("PANID", "CHANLIST"), running=True),
}
IDENTITIES = [
    (bytes([0x11, 0x22, 0x33, 0x44, 0x00, 0x4B, 0x12, 0x00]), 0),
    (bytes(range(1, 9)), 0x1234), (b"\x00" * 7 + b"\x01", 0xFFF7), (b"\xff" * 8, 1),
]


class Starter(Former):
    def __init__(self, ch, znp, want, kinds=(), faults=0, losses=0):
        super().__init__(ch, znp, want, horizon=3000.0)
        self.kinds, self.left, self.losses = kinds, faults, losses
        self.story = []
        self.active = True
        self.known = []
        self.fault = self._fault
        self.loop.sources.append(self._events)

    def _fault(self, handle, cmd):
        if not self.left or not self.active or cmd.name == "ledControl":
            return self.znp.command(cmd)
        kinds = ["ok"] + [k for k in self.kinds
                          if k != "error" and not isinstance(k, int)
                          or self.znp.error(cmd, 1) is not None and k not in NOT.get(cmd.name, ())]
        k = self.ch.pick("answer", kinds, [0] + [1] * (len(kinds) - 1))
        if k == "ok":
            return self.znp.command(cmd)
        self.left -= 1
        self.story.append((self.now, "%s at %s" % (k, cmd.name)))
        if isinstance(k, int):
            return [(0, self.znp.error(cmd, k))]
        if k == "error":
            return [(0, self.znp.error(cmd, 0x0D))]
        if k == "rpc error":
            return [(0, b"\xfe\x03\x60\x00\x02\x21\x02\x42")]
        if k == "lost":
            handle.unplug()
            return []
        answers = self.znp.command(cmd)
        if k == "late":  # after every deadline
            return [(70 + d, f) for d, f in answers]
        if k == "delayed":  # well within the deadline
            return [(4 + d, f) for d, f in answers]
        if k == "undecodable":
            return [(d, self._spoil(f)) for d, f in answers if not callable(f)]
        return []  # silence

    @staticmethod
    def _spoil(f):
        body = b"\x00" + f[2:4]  # no payload
        x = 0
        for b in body:
            x ^= b
        return b"\xfe" + body + bytes([x])

    def _events(self):
        h = self.handle
        if self.losses and self.active and h is not None and h.dead is None:
            return [Event("unplug", self._lose, idle=1, busy=1)]
        return []

    def _lose(self):
        self.losses -= 1
        self.story.append((self.now, "lost"))
        self.handle.unplug()

    def attempt(self, form, again=False):
        if not again:
            self.application = self.app()
        for ieee, nwk in self.known:
            self.application.add_device(ieee, nwk)
        self.known = [ieee for ieee, nwk in self.known]
        self.mark = len(self.cmds)
        self.nv0 = dict(self.znp.nv)
        self.resets0 = self.znp.resets
        self.outcome = None
        self._watch_outcome()
        self.ended = None
        task = self.loop.create_task(self.application.startup(form))
        task.add_done_callback(lambda t: self._finish())
        self.run(None)
        self.active = False
        check(task.done(), "%s: start-up never ended", self.story)
        return result_of(task)

    def _finish(self):
        self.ended = self.now
        self.loop._finish("ended")

    def check_identity(self, what, form, former=()):
        """former: addresses of adapters the same application ran on before"""
        app, z = self.application, self.znp
        ieee = net.eui(z.ieee)
        check(app.ieee == ieee, what + "the application has IEEE address %s, the adapter %s",
              app.ieee, ieee)
        check(app.nwk == z.nwk, what + "the application has short address %s", app.nwk)
        check(int(app.version["product"]) == z.product, what + "detected version %s",
              app.version)
        check(set(app.devices) - set(former) - {ieee} == set(self.known) - {ieee}
              and ieee in app.devices, what + "devices %s", list(app.devices))
        dev = app.get_device(ieee=ieee)
        check(dev.nwk == z.nwk and dev.ieee == ieee, what + "coordinator %s", dev)
        check(set(former) - {ieee} or app.get_device(nwk=z.nwk) is dev, what + "no device with address %s", z.nwk)
        check(dev.manufacturer == "Texas Instruments" and dev.model == "ZNP Coordinator",
              what + "the coordinator is %s %s", dev.manufacturer, dev.model)
        if form:
            self.check_configured(what)
            self.check_endpoints(what, set(self.znp.endpoints) - set(ENDPOINTS))
        else:
            names = [c.name for c in self.cmds[self.mark:] if c.name != "ledControl"]
            check(set(names) <= set(PLAIN), what + "sent %s without formation", names)
            check(self.znp.nv == self.nv0 and self.znp.resets == self.resets0,
                  what + "the adapter was changed without formation")


KINDS = ("error", "silence", "lost", "late", "rpc error", "undecodable", "delayed")


def starts(faults=1, losses=0, products=(0, 1, 2), states=tuple(STATES), kinds=KINDS,
           forms=(True, False), idents=1, retry=True):
    def fn(ch):
        product = ch.pick("product", list(products))
        state = ch.pick("adapter", list(states))
        form = ch.pick("form", list(forms))
        z = STATES[state](product, DEFAULT)
        z.ieee, z.nwk = IDENTITIES[ch.pick("identity", list(range(idents)))]
        w = Starter(ch, z, DEFAULT, kinds, faults, losses)
        try:
            r = w.attempt(form)
            what = "%s %s adapter, formation %s, %s: start-up ended with %r: " % (
                FAMILY[product], state, form, w.story, r[:2])
            bad = [s for s in w.story if not s[1].startswith("delayed")]
            # a late answer fails what waits for it; the readiness of an adapter that was
            # formed before may come late without notice
            check(r[0] in ("ok", "exc"), what + "neither success nor failure")
            if not bad:
                check(r[0] == "ok", what + "although every answer came in time")
            else:
                check(w.ended < bad[-1][0] + LIMIT + 30, what + "it took until %.1f", w.ended)
                if r[0] == "ok":
                    harmless = all(s[1] == "lost" and w.ended - s[0] < 0.01 for s in bad)
                    check(harmless, what + "in spite of the fault")
            if r[0] == "ok":
                w.check_identity(what, form)
            elif form is False:
                names = [c.name for c in w.cmds[w.mark:]]
                check(set(names) <= set(PLAIN), what + "sent %s without formation", names)
            if retry and r[0] == "exc":
                w.run(w.application.shutdown())
                w.settle()
                w.wire.clear()
                w.loop.env_timers.clear()
                w.left = w.losses = 0
                w.active = False
                r2 = w.attempt(form)
                check(r2[0] == "ok", what + "the next one ended with %r", r2)
                w.check_identity(what + "then ", form)
            return w.story, r[0], r[0] == "exc" and r[1]
        finally:
            w.close()
    return fn


def known(ch):
    """with devices known from the database, the coordinator itself among them"""
    product = ch.pick("product", [0, 1, 2])
    form = ch.pick("form", [True, False])
    z = STATES[ch.pick("adapter", ["fresh", "configured"])](product, DEFAULT)
    z.ieee, z.nwk = IDENTITIES[ch.pick("identity", [0, 1])]
    w = Starter(ch, z, DEFAULT)
    try:
        me = net.eui(z.ieee)
        kinds = {"other": (net.eui(net.A[0]), 0x5678), "itself": (me, z.nwk),
                 "itself elsewhere": (me, 0x4321), "old adapter": (net.eui(net.B[0]), 0x2222)}
        for k, v in kinds.items():
            if ch.pick(k, [False, True]) and v[0] not in dict(w.known):
                w.known.append(v)
        what = "%s, known %s: " % (FAMILY[product], w.known)
        r = w.attempt(form)
        check(r[0] == "ok", what + "start-up ended with %r", r)
        w.check_identity(what, form)
        for ieee, nwk in kinds.values():
            if ieee in w.known and ieee != me:
                check(w.application.get_device(ieee=ieee).nwk == nwk, what + "%s changed", ieee)
        return form
    finally:
        w.close()


def descriptions(ch):
    """whatever the adapter says about itself"""
    product = ch.pick("product", [0, 1, 2])
    z = STATES[ch.pick("adapter", ["fresh", "configured"])](product, DEFAULT)
    z.ieee, z.nwk = IDENTITIES[1]
    what = ch.pick("what", ["version", "ping", "info", "reset"])
    if what == "version":
        field = ch.pick("field", ["transportrev", "majorrel", "minorrel", "maintrel", "revision"])
        vals = dict(transportrev=2, product=product, majorrel=2, minorrel=7, maintrel=1,
                    revision=20190608)
        vals[field] = ch.pick("value", [0, 1, 2, 3, 6, 127, 255]) if field != "revision" else \
            ch.pick("value", [0, 1, 20180507, 20200211, 20210120, 0xFFFFFFFF])
        z.replies[("SYS", "version")] = lambda cmd: [(0, z.rsp(cmd, **vals))]
        detail = vals
    elif what == "ping":
        detail = ch.pick("capabilities", [0] + [1 << i for i in range(16)] + [0xFFFF])
        z.replies[("SYS", "ping")] = lambda cmd: [(0, z.rsp(cmd, capabilities=detail))]
    elif what == "info":
        n = ch.pick("associated devices", [0, 1, 2, 40, 112])
        detail = n, ch.pick("device type", [1, 2, 4, 7])
        z.replies[("UTIL", "getDeviceInfo")] = lambda cmd: [(0, z.rsp(
            cmd, status=0, ieeeaddr=z.ieee, shortaddr=z.nwk, devicetype=detail[1],
            devicestate=z.devstate, numassocdevices=n,
            assocdeviceslist=[(0x1111 * i) & 0xFFFF for i in range(n)]))]
    else:
        detail = ch.pick("reason", [0, 1, 2, 255])
        z.replies[("SYS", "resetReq")] = lambda cmd: [(0.5, (z.reset(), z.areq(
            "SYS", "resetInd", reason=detail, transportrev=2, productid=product, majorrel=2,
            minorrel=6, hwrev=3))[1])]
    form = ch.pick("form", [True, False])
    w = Starter(ch, z, DEFAULT)
    try:
        r = w.attempt(form)
        text = "%s, %s %s: " % (FAMILY[product], what, detail)
        check(r[0] == "ok", text + "start-up ended with %r", r)
        w.check_identity(text, form)
        if what == "version":
            got = {k: int(v) for k, v in w.application.version.items()}
            check(got == detail, text + "detected version %s", got)
        return text
    finally:
        w.close()


SWAPS = [(1, "configured", 0), (0, "configured", 1), (2, "fresh", 2), (1, "stopped", 1)]


def again(count):
    """one application object, started several times, on adapters that may change; between the
    runs it is shut down, or the adapter is replaced while it runs"""
    def fn(ch):
        swaps = [ch.pick("adapter", SWAPS)]
        w = None
        former = []
        story = []
        try:
            for i in range(count):
                if i:
                    swaps.append(ch.pick("next adapter", SWAPS))
                product, state, ident = swaps[-1]
                z = STATES[state](product, DEFAULT)
                z.ieee, z.nwk = IDENTITIES[ident]
                how = ch.pick("then", ["shutdown", "failed", "replaced"]) if i else None
                form = True if how == "replaced" else ch.pick("form", [True, False])
                if w is None:
                    w = Starter(ch, z, DEFAULT)
                story.append((how, FAMILY[product], state, ident, form))
                what = "%s: " % (story,)
                if how == "replaced":
                    w.mark = len(w.cmds)
                    w.znp = z
                    w.handle.unplug()
                    w.settle()
                    check(w.loop.outcome == "quiescent", what + "never settles")
                    w.outcome = None
                else:
                    if how:
                        r = result_of(w.run(w.application.shutdown()))
                        check(r[0] == "ok", what + "shutdown ended with %r", r)
                        w.settle()
                    if how == "failed":  # a start on a silent adapter in between
                        w.fault = lambda handle, cmd: []
                        r = w.attempt(form, True)
                        check(r[0] == "exc", what + "start-up on silence ended with %r", r)
                        w.run(w.application.shutdown())
                        w.settle()
                        w.fault = w._fault
                    w.znp = z
                    r = w.attempt(form, again=i > 0)
                    check(r[0] == "ok", what + "start-up ended with %r", r)
                w.check_identity(what, form, former)
                former.append(net.eui(z.ieee))
            return story
        finally:
            if w is not None:
                w.close()
    return fn


def build(tier):
    th = tier == "thorough"
    return [
        Scenario("identity", starts(0, idents=len(IDENTITIES)), bound=0),
        Scenario("firmware", any_firmware(starts(0)), bound=0),
        Scenario("descriptions", descriptions, bound=0),
        Scenario("known", known, bound=0),
        Scenario("again", again(3 if th else 2), bound=0),
        Scenario("fault", starts(1), bound=1),
        Scenario("statuses", starts(1, kinds=tuple(range(1, 256)) if th else STATUSES,
                                    states=("configured", "fresh"), retry=False), bound=1),
        Scenario("plain-statuses", starts(1, kinds=tuple(range(1, 256)), states=("configured",),
                                          forms=(False,), retry=False), bound=1),
        Scenario("loss", starts(0, 1, states=tuple(STATES) if th else ("fresh", "stopped"),
                                products=(0, 1, 2)), bound=1),
        Scenario("delays", starts(2, kinds=("delayed", "silence"), products=(0, 1, 2) if th else
                                  (1,), states=("fresh", "stopped")), bound=2),
    ]


ASSUMPTIONS = [
    "the simulated adapter behaves as Z-Stack; the adapter is one of the three known families",
    "losing the connection in the very instant start-up ends may be noticed only afterwards",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C23", build, ASSUMPTIONS))
