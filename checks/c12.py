"""C12: the device table follows announcements."""
import asyncio

import zigpy.device

from mc import mt
from mc.explore import Enumeration, Chooser, Scenario
from mc.net import A, B, Net, announce, eui, incoming, incoming_ext, key
from mc.recover import Recover
from mc.world import check
from mc.znp import IEEE

D = (bytes([0xD1, 9, 9, 9, 0x11, 0x22, 0x33, 0x44]), None)
E_ = (bytes([0x44, 0x33, 0x22, 0x11, 9, 9, 9, 0xD1]), None)
WHO = {"A": A[0], "B": B[0], "D": D[0], "E": E_[0]}
N = [0x1234, 0x3412, 0x00D1, 0xD100, 0]


class Table:
    """Reference: what the table has to look like, and which devices may get a message."""

    def __init__(self, known):
        self.nwk = dict(known)
        self.events = []

    def announce(self, ieee, nwk, caps):
        self.nwk[ieee] = nwk
        self.events.append((
            {ieee}, 0x13, b"\0" + nwk.to_bytes(2, "little") + ieee + bytes([caps])))

    def message(self, nwk, data):
        # while two devices claim one short address either may be meant
        who = {i for i, n in self.nwk.items() if n == nwk}
        if who:
            self.events.append((who, 6, data))

    def message_ieee(self, ieee, data):
        if ieee in self.nwk:
            self.events.append(({ieee}, 6, data))


def judge(w, t, table=True):
    have = {key(i): int(d.nwk) for i, d in w.application.devices.items()}
    want = dict(t.nwk)
    check(not table or have == want, "table is %s, expected %s", show(have), show(want))
    for i, d in w.application.devices.items() if table else ():
        check(key(d.ieee) == key(i), "device %s is registered under %s", d.ieee, i)
    got = [(m.ieee, m.cluster, m.data) for m in w.messages]
    check(all(m.src_ep == m.dst_ep == 0 for m in w.messages if m.cluster == 0x13),
          "an announcement was delivered from/to another endpoint than 0")
    check(len(got) == len(t.events) and all(
        g[0] in e[0] and g[1:] == e[1:] for g, e in zip(got, t.events)),
        "delivered:\n %s\nexpected:\n %s",
        "\n ".join("%s 0x%04x %s" % (g[0].hex(), g[1], g[2].hex()) for g in got),
        "\n ".join("%s 0x%04x %s" % ([i.hex() for i in e[0]], e[1], e[2].hex())
                   for e in t.events))
    check(not w.loop.errors, "errors: %s", w.loop.errors)


def show(t):
    return {k.hex(): hex(v) for k, v in t.items()}


def history(depth, who, addrs, messages, group=False, caps=(0x80,), table=True,
            unready=False):
    def fn(ch):
        known = [d for d in (A, B) if ch.pick("known", [True, False])] if who else []
        w = Net(ch, devices=known, horizon=1e6, ready_devices=not unready)
        to = dict(dst_ep=0) if unready else {}  # what reaches any device
        try:
            w.loop.tick_cost = None
            for i, _ in known if unready else ():
                d = w.device(i)
                d.status = zigpy.device.Status(ch.pick("status", [0, 1, 2]))
                d.initializing = ch.pick("interview", [False, True])
            if group:
                w.deliver = "choose"
            t = Table({**{i: n for i, n in known}, IEEE: 0})
            ops = [("ann", i, n) for i in who for n in addrs] + ["stop"]
            if messages:
                ops += [("msg", n) for n in addrs] + [("ext", i) for i in who]
            for i in range(depth):
                op = ch.pick("op", ops)
                if op == "stop":
                    break
                data = bytes([i, 0xFE, 1])
                if op[0] == "ann":
                    c = caps[i % len(caps)]
                    # the frame's own source may be another router
                    w.send(announce(op[2], WHO[op[1]], src=[None, 0x4321][i % 2],
                                    capabilities=c))
                    n0 = len(t.events)
                    t.announce(WHO[op[1]], op[2], c)
                elif op[0] == "msg":
                    w.send(incoming(op[1], data=data, **to))
                    t.message(op[1], data)
                else:
                    w.send(incoming_ext(3, WHO[op[1]], data=data, **to))
                    t.message_ieee(WHO[op[1]], data)
                if not group:
                    w.run(asyncio.sleep(0.01))
                    judge(w, t, table)
            w.settle()
            judge(w, t, table)
            joined = {i for i, n in w.joined}
            new = set(t.nwk) - {i for i, n in known} - {IEEE}
            check(not table or new <= joined, "new devices %s, but joins of %s were reported", new, joined)
            return show({key(i): int(d.nwk) for i, d in w.application.devices.items()})
        finally:
            w.close()
    return fn


def addresses(stats):
    """every kind of address and capability"""
    w = Net(Chooser(), devices=(A, B), horizon=1e6)
    try:
        w.loop.max_steps = 10 ** 9
        t = Table({A[0]: A[1], B[0]: B[1], IEEE: 0})
        fresh = 0

        def ann(nwk, ieee, caps, src=None):
            stats.evals += 1
            stats.distinct += 1
            t.events.clear()
            w.messages.clear()
            w.send(announce(nwk, ieee, src, caps))
            t.announce(ieee, nwk, caps)
            data = b"\x05" + ieee
            w.send(incoming(nwk, data=data))
            t.message(nwk, data)
            w.send(incoming_ext(2, nwk, data=data))
            t.message(nwk, data)
            w.send(incoming_ext(3, ieee, data=data))
            t.message_ieee(ieee, data)
            w.run(asyncio.sleep(0.01))
            got = [(m.ieee, m.cluster, m.data) for m in w.messages]
            check(len(got) == len(t.events) and all(
                g[0] in e[0] and g[1:] == e[1:] for g, e in zip(got, t.events)),
                "announcement of %s at 0x%04x: delivered %s", ieee.hex(), nwk, got)
            check(int(w.device(ieee).nwk) == nwk, "device %s is at %s", ieee.hex(),
                  w.device(ieee).nwk)
            check(int(w.device(A[0]).nwk) == t.nwk[A[0]] and int(
                w.device(B[0]).nwk) == t.nwk[B[0]], "another device's entry changed")

        for v in range(1, 256):
            for nwk in (v, v << 8, 0xFFF7 - v):
                ann(nwk, A[0], v)
                ann(nwk, bytes([v, 0, 0, 0, 0x4B, 0x12, nwk & 0xFF, nwk >> 8]), 255 - v, src=v)
            ann(v << 8 | 1, bytes([0, 0, 0, 0, 0, 0, 0, v]), 0x8E)
        for nwk in [0] + list(range(0xFFF0, 0x10000)):
            ann(nwk, A[0], 0x80)
            ann(nwk, D[0], 0x80)
        ann(0, IEEE, 0x0F)
        for b in range(256):
            ann(0x4000 | b, bytes([b]) * 8, b)
    finally:
        w.close()


def meanwhile(phases=("recovery",), products=(1,), running=(True,), **kw):
    """announcements and messages at any point of a start-up or a recovery"""
    def fn(ch):
        product = ch.pick("product", list(products))
        run = ch.pick("running", list(running))
        phase = ch.pick("phase", list(phases))
        story = ch.pick("story", ["new device", "moved", "address taken over", "twice"])
        t = Table({A[0]: A[1], B[0]: B[1], IEEE: 0})
        d, x = WHO["D"], bytes([1, 0xFE, 2])
        steps = {
            "new device": [("ann", d, 0x4455), ("msg", 0x4455)],
            "moved": [("ann", A[0], 0x4455), ("msg", 0x4455)],
            "address taken over": [("ann", A[0], 0x4455), ("ann", d, A[1])],
            "twice": [("ann", d, 0x4455), ("ann", d, 0x5566)],
        }[story]
        frames = {announce(s[2], s[1]) if s[0] == "ann" else incoming(s[1], data=x): s
                  for s in steps}
        w = Recover(ch, product, run, start=phase == "recovery", traffic=frames,
                    devices=(A, B), **kw)
        try:
            if phase == "recovery":
                w._lose("unplug")
            else:
                w.loop.tick_cost = None
                task = w.loop.create_task(w.application.startup(phase == "start-up"))
            check(w.settle() == "quiescent", "%s: never came to rest", w.story())
            for f in w.heard:
                s = frames[f]
                if s[0] == "ann":
                    t.announce(s[1], s[2], 0x80)
                else:
                    t.message(s[1], x)
            if phase != "recovery":
                if not task.done() or task.cancelled() or task.exception() is not None:
                    t.nwk.pop(IEEE)
            w.loop.errors.clear()
            judge(w, t)
            return w.story(), show(t.nwk)
        finally:
            w.close()
    return fn


def build(tier):
    th = tier == "thorough"
    return [
        Enumeration("addresses", addresses),
        Scenario("announcements", history(4 if th else 3, "ABD", N[:3], False), bound=0),
        Scenario("messages", history(4 if th else 3, "AD", N[:3], True), bound=0),
        Scenario("messages-deep", history(5 if th else 4, "AD", N[:2], True), bound=0),
        Scenario("coordinator", history(3, "AD", [0, 0x1234], True), bound=0),
        Scenario("unready", history(3 if th else 2, "AD", N[:2], True, unready=True), bound=0),
        Scenario("four", history(4 if th else 3, "ABDE", N[2:4], True, caps=(0x80, 0x8E, 0)),
                 bound=0),
        Scenario("meanwhile", meanwhile(("recovery", "start-up", "start-up without formation"),
                                        products=(0, 1, 2) if th else (1,),
                                        running=(True, False) if th else (True,),
                                        interject=1 if th else None), bound=2),
        Scenario("meanwhile-any", meanwhile(("recovery", "start-up")), bound=2 if th else 1),
        Scenario("meanwhile-faults", meanwhile(losses=1 * th, opens=1 * th, cmds=1, kinds=(
            "silence", "error"), interject=1 if th else None), bound=3 if th else 2),
        Scenario("grouped", history(4 if th else 3, "AD", N[:2], True, group=True), bound=1),
    ]


ASSUMPTIONS = [
    "while two devices claim the same short address, a message from it may be attributed to "
    "either of them",
    "zigpy's own reaction to a join (interviewing the device) is cut off",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C12", build, ASSUMPTIONS))
