"""C08: replies to ZDO requests reach the device that sent them, under the right number."""
import asyncio

from mc import mt
from mc.explore import Scenario
from mc.loop import Event
from mc.net import A, B, Net, Two, announce, eui, incoming
from mc.world import check, result_of
from mc.znp import IEEE as IEEE0

IEEE = bytes(range(0x30, 0x38))
NEIGHBOUR = dict(extPanId=b"\xdd" * 8, extAddr=b"\x01\x02\x03\x04\x05\x06\x07\x08", nwkAddr=0x5678,
                 deviceType=1, rxOnWhenIdle=1, relationship=2, permitJoin=1, depth=3, lqi=99)

KINDS = {
    # name: (cluster, reply command, request parameters(nwk), reply fields(nwk, n))
    "node": (2, "nodeDescRsp", lambda a: le(a), lambda a, n: dict(
        nwkaddr=a, logicaltype_cmplxdescavai_userdescavai=1, apsflags_freqband=0x40,
        maccapflags=0x8E, manufacturercode=0x1000 + n, maxbuffersize=80, maxintransfersize=160,
        servermask=0, maxouttransfersize=160, descriptorcap=0)),
    "power": (3, "powerDescRsp", lambda a: le(a), lambda a, n: dict(
        nwkaddr=a, currentpowermode_avaipowersrc=0x10, currentpowersrc_currentpowersrclevel=n)),
    "simple": (4, "simpleDescRsp", lambda a: le(a) + b"\x01", lambda a, n: dict(
        nwkaddr=a, len=12, endpoint=1, profileid=260, deviceid=n, deviceversion=1,
        numinclusters=2, inclusterlist=[0, 6], numoutclusters=0, outclusterlist=[])),
    "active": (5, "activeEpRsp", lambda a: le(a), lambda a, n: dict(
        nwkaddr=a, activeepcount=2, activeeplist=[1, n])),
    "match": (6, "matchDescRsp", lambda a: le(a) + le(260) + b"\x01\x06\x00\x00", lambda a, n: dict(
        nwkaddr=a, matchlength=2, matchlist=bytes([1, n]))),
    "bind": (0x21, "bindRsp", lambda a: IEEE + b"\x01\x06\x00\x03" + A[0] + b"\x01",
             lambda a, n: dict()),
    "unbind": (0x22, "unbindRsp", lambda a: IEEE + b"\x01\x06\x00\x03" + A[0] + b"\x01",
               lambda a, n: dict()),
    "lqi": (0x31, "mgmtLqiRsp", lambda a: b"\x00", lambda a, n: dict(
        neighbortableentries=n, startindex=0, neighborlqilistcount=1,
        neighborlqilist=[NEIGHBOUR])),
    "leave": (0x34, "mgmtLeaveRsp", lambda a: IEEE + b"\x00", lambda a, n: dict()),
    "permit": (0x36, "mgmtPermitJoinRsp", lambda a: b"\x3c\x00", lambda a, n: dict()),
}
DEV = {"A": A, "B": B}
WINDOW = 10.0
SLACK = 0.3


def le(v):
    return v.to_bytes(2, "little")


class Zdo(Net):
    def __init__(self, ch, fates=None, product=1, **kw):
        self.dev = dict(DEV)
        super().__init__(ch, product=product, **kw)
        self.loop.tick_cost = None
        self.fates = fates or {"ok": 0}
        self.calls = {}  # id -> dict(id, tsn, dev, kind, task, tx, over)
        self.log = []  # replies that came in, and the requests that could be waiting for each
        self.n = 0
        self.fault = self._fault

    # requests
    def request(self, dev, kind, tsn):
        cluster, _, params, _ = KINDS[kind]
        nwk = self.dev[dev][1]
        i = len(self.calls)
        c = self.calls[i] = dict(dev=dev, kind=kind, tx=None, over=None, tsn=tsn, id=i,
                                 cancelling=False)
        c["task"] = self.loop.create_task(self.application.request(
            self.device(self.dev[dev][0]), 0, cluster, 0, 0, tsn, bytes([tsn]) + params(nwk)))
        c["task"].add_done_callback(lambda t, c=c: self._ended(c, t))
        return c

    def cancel(self, c):
        if c["over"] is None and not c["task"].done():
            c["task"].cancel()
            c["cancelling"] = True  # takes effect when it next runs

    def _ended(self, c, task):
        r = result_of(task)
        if r[0] == "ok" and isinstance(r[1], tuple) and r[1][0] == 0:
            return
        if c["over"] is None:
            c["over"] = "failed"

    def _fault(self, handle, cmd):
        name = cmd.name
        for c in self.calls.values():
            if c["tx"] is None and c["task"] is not None and not c["task"].done():
                cluster, rsp, _, _ = KINDS[c["kind"]]
                if mt.BY_NAME[("ZDO", name)]["id"] == cluster if cmd.subsys == "ZDO" else False:
                    if cmd.values.get("dstaddr") == self.dev[c["dev"]][1]:
                        break
        else:
            return self.znp.command(cmd)  # LED, ...
        c["tx"] = self.now
        k = self.ch.pick("adapter", list(self.fates), list(self.fates.values()))
        c["fate"] = k
        if k == "ok":
            return [(0, self.znp.rsp(cmd, status=0))]
        if k == "reject":
            return [(0, self.znp.rsp(cmd, status=0x80))]
        if k == "slow":
            return [(3, self.znp.rsp(cmd, status=0))]
        if k == "reply-first":
            return [(0, self.reply(c["dev"], c["kind"])), (0, self.znp.rsp(cmd, status=0))]
        return []  # silent

    # replies
    def reply(self, dev, kind, n=None, status=0, about=None, whole=False):
        """a reply frame that notes what is expected when it is handed over"""
        self.n += 1
        n = n or self.n
        _, name, _, fields = KINDS[kind]
        vals = dict(srcaddr=self.dev[dev][1], status=status, **fields(self.dev[dev][1], n))
        if about is not None and "nwkaddr" in vals:
            vals["nwkaddr"] = about
        if status and not whole:
            # nothing but the address follows an error
            vals = {k: ([] if isinstance(v, list) else b"" if isinstance(v, bytes) else 0)
                    if k not in ("srcaddr", "status", "nwkaddr") else v for k, v in vals.items()}
        f = mt.encode("ZDO", name, vals)
        return Reply(f, (dev, kind))

    def _deliver(self):
        h, data = self.wire[0]
        tag = getattr(data, "tag", None)
        super()._deliver()
        if tag is not None:
            self.arrived(*tag, bytes(data)[6:-1])

    def arrived(self, dev, kind, rest):
        # may: it could have captured this one; must: it is certainly still waiting
        cs = sorted((c for c in self.calls.values() if c["dev"] == dev and c["kind"] == kind
                     and c["tx"] is not None and c["over"] is None
                     and self.now - c["tx"] < WINDOW + SLACK), key=lambda c: c["tx"])
        self.log.append((self.dev[dev][0], 0x8000 | KINDS[kind][0], rest, [
            (c["tsn"], c["id"], not c["cancelling"] and self.now - c["tx"] <= WINDOW) for c in cs]))

    def explained(self, got, log, done):
        """is `got` what the replies in `log` may lead to, with the calls in `done` answered?"""
        if not log:
            return not got
        ieee, cluster, rest, cands = log[0]
        sure = False
        for tsn, i, must in cands:
            if i in done:
                continue
            if got and got[0] == (ieee, cluster, tsn, rest) and self.explained(
                    got[1:], log[1:], done | {i}):
                return True
            if must:
                sure = True
                break
        return not sure and self.explained(got, log[1:], done)

    def judge(self):
        got = [(m.ieee, m.cluster, m.data[0] if m.data else None, m.data[1:])
               for m in self.messages if m.cluster & 0x8000]
        check(self.explained(got, self.log, frozenset()),
              "delivered replies (device, cluster, number, data):\n %s\n"
              "replies that came in, and numbers waiting for each (True: for sure):\n %s",
              "\n ".join(map(show, got)),
              "\n ".join("%s 0x%04x %s %s" % (i.hex(), k, d.hex(), c)
                         for i, k, d, c in self.log))
        other = [m for m in self.messages if not m.cluster & 0x8000]
        check(not other, "also delivered %s", other)
        check(not self.loop.errors, "errors: %s", self.loop.errors)
        for c in self.calls.values():
            r = result_of(c["task"])
            check(r[0] != "pending", "request %d never ended", c["tsn"])
        return [show(g) for g in got]


class Reply(bytes):
    def __new__(cls, data, tag):
        self = super().__new__(cls, data)
        self.tag = tag
        return self


def show(g):
    return "%s 0x%04x #%s %s" % (g[0].hex(), g[1], g[2], g[3].hex())


def world(fn, **kw):
    def run(ch):
        w = Zdo(ch, **kw)
        try:
            fn(w, ch)
            w.settle()
            return w.judge()
        finally:
            w.close()
    return run


def kinds(w, ch):
    """one request of each kind; then a duplicate of its reply, and one nobody asked for"""
    kind = ch.pick("kind", list(KINDS))
    tsn = ch.pick("tsn", [0, 1, 0x7F, 0x80, 0xFF])
    dev = ch.pick("device", ["A", "B"])
    status = ch.pick("status", [0, 0x84])
    if status and kind == "simple":
        return  # a failed one lacks fields the adapter's format requires
    other = {"A": "B", "B": "A"}[dev]
    when = ch.pick("when", ["before", "wrong device", "wrong kind", "none"])
    if when == "before":
        w.send(w.reply(dev, kind))
        w.run(asyncio.sleep(0.1))
    w.request(dev, kind, tsn)
    w.run(asyncio.sleep(0.1))
    if when == "wrong device":
        w.send(w.reply(other, kind))
    elif when == "wrong kind":
        for k in KINDS:
            if k != kind:
                w.send(w.reply(dev, k))
    w.run(asyncio.sleep(ch.pick("delay", [0, 5, 9.8])))
    w.send(w.reply(dev, kind, status=status))
    w.send(w.reply(dev, kind))


def statuses(w, ch):
    """replies with every status, each of which ends its request"""
    kind = ch.pick("kind", list(KINDS))
    status = ch.pick("status", list(range(256)))
    w.request("A", kind, 21)
    w.run(asyncio.sleep(0.1))
    w.request("A", kind, 22)
    w.run(asyncio.sleep(0.1))
    w.send(w.reply("A", kind, status=status, whole=True))
    w.run(asyncio.sleep(0.1))
    w.send(w.reply("A", kind))


def numbers(kind):
    def fn(w, ch):
        tsn = ch.pick("tsn", list(range(256)))
        w.request("A", kind, tsn)
        w.run(asyncio.sleep(0.1))
        w.send(w.reply("A", kind))
    return fn


def addresses(w, ch):
    """devices whose addresses differ in one bit, or in the order of the bytes"""
    a = ch.pick("address", [0x1234, 0x0001, 0xFFF0, 0x8000])
    b = ch.pick("other", [a ^ 1 << i for i in range(16)] + [a >> 8 | (a & 0xFF) << 8, a ^ 0xFFFF,
                                                            a ^ 0xFF00, a ^ 0x00FF, 0])
    if a == b or b >= 0xFFF8:
        return
    kind = ch.pick("kind", ["node", "simple", "bind", "lqi"])
    order = ch.pick("order", ["one", "AB", "BA"])
    for n, (k, v) in enumerate((("A", a), ("B", b))):
        w.dev[k] = (bytes([0xC0 + n, 1, 2, 3, 4, 5, 6, 7]), v)
        if v:
            w.application.add_device(eui(w.dev[k][0]), v)
        else:
            w.dev[k] = (IEEE0, v)
    w.request("A", kind, 21)
    w.run(asyncio.sleep(0.1))
    if order == "one":
        w.send(w.reply("B", kind))
    else:
        w.request("B", kind, 22)
        w.run(asyncio.sleep(0.1))
        for k in order:
            w.send(w.reply(k, kind))
    w.run(asyncio.sleep(0.1))
    w.send(w.reply("A", kind))
    w.send(w.reply("B", kind))


def between(counts):
    """any number of other commands between a request and its reply"""
    def fn(w, ch):
        n = ch.pick("others", counts)
        kind = ch.pick("other", ["command", "message"])
        w.request("A", "node", 7)
        w.run(asyncio.sleep(0.001))

        async def others():
            for i in range(n):
                if kind == "command":
                    await w.application._api.version()
                else:
                    await w.application.request(w.device(B[0]), 260, 6, 1, 1, 100 + i % 100,
                                                b"\x01", expect_reply=False)

        start = w.now
        r = result_of(w.run(others()))
        check(r[0] == "ok", "other commands: %r", r)
        check(w.now - start < 9, "other commands took %s s", w.now - start)
        w.send(w.reply("A", "node"))
    return fn


def described(w, ch):
    """the device that a reply is about need not be the one that sent it"""
    kind = ch.pick("kind", ["node", "power", "simple", "active", "match"])
    about = ch.pick("about", [A[1], B[1], 0, 0x7777, 0xFFFF, A[1] ^ 1])
    both = ch.pick("waiting", ["A", "AB", "BA"])
    for i, d in enumerate(both):
        w.request(d, kind, 30 + i)
        w.run(asyncio.sleep(0.1))
    for d in ch.pick("from", ["A", "B", "AB", "BA"]):
        w.send(w.reply(d, kind, about=about))
        w.run(asyncio.sleep(0.1))


MEANWHILE = {
    "announce A": lambda w: w.send(announce(A[1], A[0])),
    "announce B": lambda w: w.send(announce(B[1], B[0])),
    "announce another": lambda w: w.send(announce(0x4242, bytes(range(0x90, 0x98)))),
    "announced by another": lambda w: w.send(announce(A[1], A[0], src=B[1])),
    "message from A": lambda w: w.send(incoming(A[1], cluster=2)),
    "message of A's kind": lambda w: w.send(incoming(A[1], cluster=0x8002, src_ep=0, dst_ep=0)),
    "message from B": lambda w: w.send(incoming(B[1])),
    "joins allowed": lambda w: w.send(mt.encode("ZDO", "permitJoinInd", dict(duration=60))),
    "joins over": lambda w: w.send(mt.encode("ZDO", "permitJoinInd", dict(duration=0))),
    "state": lambda w: w.send(mt.encode("ZDO", "stateChangeInd", dict(state=9))),
    "confirm": lambda w: w.send(mt.encode("AF", "dataConfirm", dict(
        status=0, endpoint=0, transid=7))),
    "stray response": lambda w: w.send(mt.frame(3, 5, 2, b"\x00")),
    "bad frame": lambda w: w.send(mt.frame(2, 5, 0x82, b"\x34\x12")),
    "permit": lambda w: w.loop.create_task(w.application.permit_ncp(60)),
    "send": lambda w: w.loop.create_task(w.application.request(
        w.device(A[0]), 260, 6, 1, 1, 7, b"\x01\x07\x00")),
    "multicast": lambda w: w.loop.create_task(w.application.mrequest(
        3, 260, 6, 1, 7, b"\x01\x07\x00")),
    "look up": lambda w: w.application.get_device(nwk=A[1]),
}


def meanwhile(n):
    """other things happen between a request and its reply"""
    def fn(w, ch):
        kind = ch.pick("kind", ["node", "simple", "bind"])
        w.request("A", kind, 7)
        w.run(asyncio.sleep(0.1))
        for _ in range(n):
            MEANWHILE[ch.pick("meanwhile", list(MEANWHILE))](w)
            w.run(asyncio.sleep(ch.pick("pause", [0.1, 4]) if n == 1 else 0.1))
        w.messages[:] = [m for m in w.messages if m.cluster & 0x8000 and m.data[:1] == b"\x07"]
        w.send(w.reply("B", kind))
        w.send(w.reply("A", kind))
    return fn


def long(counts):
    """any number of exchanges, overlapping in twos, the numbers wrapping around"""
    def fn(w, ch):
        kind = ch.pick("kind", ["node", "simple", "bind"])
        gap = ch.pick("gap", [0.01, 3])  # (a request is forgotten after ten seconds)
        lost = ch.pick("unanswered", [0, 5])
        w.loop.horizon = 1e9
        w.loop.max_steps = 10 ** 8
        n = ch.pick("exchanges", counts)
        for k in range(n):
            dev = "AB"[k & 1]
            w.request(dev, kind, k & 0xFF)
            w.run(asyncio.sleep(gap))
            if lost and k % lost == 0:
                w.run(asyncio.sleep(11))
                continue
            if k & 3 == 3:
                w.request("AB"[~k & 1], kind, (k + 128) & 0xFF)
                w.run(asyncio.sleep(gap))
                w.send(w.reply("AB"[~k & 1], kind))
            w.send(w.reply(dev, kind))
            w.run(asyncio.sleep(gap))
            if k < n - 1:
                w.judge()
                w.calls.clear()
                w.log.clear()
                w.messages.clear()
    return fn


def two(depth):
    """two adapters in one process, with devices of the same short address and kind of request"""
    def fn(ch):
        w = Two(ch, (1, 1))
        try:
            for z in w.znps.values():
                z.zdo_reply = False
            tsn, want, live = 40, [], [[], []]
            for n in range(depth):
                op = ch.pick("op", ["q0", "q1", "r0", "r1"])
                i = int(op[1])
                if op[0] == "q":
                    w.loop.create_task(w.apps[i].request(
                        w.apps[i].get_device(nwk=A[1]), 0, 0x0002, 0, 0, tsn,
                        bytes([tsn]) + A[1].to_bytes(2, "little")))
                    live[i].append(tsn)
                    tsn += 1
                else:
                    vals = dict(srcaddr=A[1], status=0, **KINDS["node"][3](A[1], n + 1))
                    f = mt.encode("ZDO", "nodeDescRsp", vals)
                    w.send(f, w.handle_of(i))
                    if live[i]:
                        want.append((w.ieee(i, A), live[i].pop(0), f[6:-1]))
                w.run(asyncio.sleep(0.01))
            w.settle()
            got = [(m.ieee, m.data[0], m.data[1:]) for m in w.messages if m.cluster == 0x8002]
            check(got == want, "delivered %s, expected %s", got, want)
            return len(got)
        finally:
            w.close()
    return fn


def history(depth, ops, step=1):
    """every sequence of requests, replies and pauses"""
    def fn(w, ch):
        tsn, live = 40, []
        for i in range(depth):
            avail = [o for o in ops if i or o[0] == "q"]
            op = ch.pick("op", avail + (["stop"] if i > 1 else []))
            if op == "stop":
                break
            if op[0] == "q":
                live.append(w.request(op[1], op[2:], tsn))
                tsn += step
            elif op[0] == "r":
                w.send(w.reply(op[1], op[2:]))
            elif op == "cancel":
                if live:
                    w.cancel(live.pop())
                continue
            elif op[0] == "w":
                w.run(asyncio.sleep(float(op[1:])))
                continue
            w.run(asyncio.sleep(0.01))
    return fn


def races(todo, replies):
    """requests and replies injected at any point of each other's handling"""
    def fn(w, ch):
        picked = [ch.pick("request", ["Anode", "Asimple", "Bnode"]) for _ in range(todo)]
        left = list(picked)
        budget = [replies, 1]
        live = []

        def issue():
            k = left.pop(0)
            live.append(w.request(k[0], k[1:], 60 + len(live)))

        def source():
            out = [Event("send " + left[0], issue, idle=0, busy=1)] if left else []
            if budget[0]:
                # (what comes in just before the request is on the line could be taken either way)
                for k in sorted({c["dev"] + c["kind"] for c in live if c["tx"] is not None}):
                    def rep(k=k):
                        budget[0] -= 1
                        w.send(w.reply(k[0], k[1:]))
                    out.append(Event("reply " + k, rep, idle=0 if not left else 1, busy=1))
            if budget[1]:
                for c in live:
                    if not c["task"].done():
                        def can(c=c):
                            budget[1] -= 1
                            w.cancel(c)
                        out.append(Event("cancel %d" % c["tsn"], can, idle=1, busy=1))
            return out

        w.loop.sources.append(source)
        w.settle()
    return fn


def build(tier):
    th = tier == "thorough"
    out = [Scenario("kinds", world(kinds), bound=0),
           Scenario("addresses", world(addresses, devices=()), bound=0),
           Scenario("statuses", world(statuses), bound=0),
           Scenario("numbers", world(numbers("node")), bound=0)]
    out += [Scenario("described", world(described), bound=0),
            Scenario("meanwhile", world(meanwhile(1)), bound=0),
            Scenario("meanwhile-2", world(meanwhile(3 if th else 2)), bound=0)]
    if th:
        out += [Scenario("numbers-" + k, world(numbers(k)), bound=0) for k in KINDS
                if k != "node"]
    around = sorted({n + d for e in range(2, 17 if th else 13) for n in [2 ** e, 2 ** e // 3]
                     for d in (-2, -1, 0, 1)} | set(range(20)))
    out.append(Scenario("between", world(between(around)), bound=0))
    some = ["qAnode", "qAsimple", "qBnode", "rAnode", "rAsimple", "rBnode", "w6.3", "cancel"]
    fates = {"ok": 0, "reject": 0, "silent": 0, "reply-first": 0}
    out += [
        Scenario("history", world(history(4, some), fates=dict(fates, **{"reply-first": 1})),
                 bound=1),
        Scenario("history-accepted", world(history(6 if th else 5, [
            "qAnode", "qAbind", "qBnode", "rAnode", "rAbind", "rBnode"])), bound=0),
        Scenario("history-late", world(history(6 if th else 5, [
            "qAnode", "rAnode", "w3.5", "w9.7", "w10.7"])), bound=0),
        Scenario("history-same-number", world(history(5 if th else 4, [
            "qAnode", "qAbind", "qBnode", "rAnode", "rAbind", "rBnode", "cancel"], 0)), bound=0),
        Scenario("races", world(races(3 if th else 2, 2 if not th else 3),
                                fates={"ok": 0, "reject": 1, "silent": 1, "slow": 1,
                                       "reply-first": 1}), bound=3 if th else 2),
    ]
    out.append(Scenario("long", world(long([270, 600] + [3000, 10000] * th)), bound=0))
    out.append(Scenario("two-adapters", two(7 if th else 5), bound=0))
    if th:
        out.append(Scenario("history-5", world(history(5, some), fates={
            "ok": 0, "reject": 0, "silent": 1, "reply-first": 1}), bound=1))
    return out


ASSUMPTIONS = [
    "a reply in the 0.3 s after the 10 s window may be either delivered or not",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C08", build, ASSUMPTIONS))
