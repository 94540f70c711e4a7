"""C10: the adapter's concurrency limit is respected, slots are never lost, sends keep their order."""
import asyncio
import heapq

from checks.c07 import KINDS, tag
from mc import mt
from mc.explore import Scenario
from mc.loop import Event
from mc.net import A, B, Net, Two
from mc.world import check, result_of
from mc.znp import IEEE, any_firmware

EPS = 1e-6
LIMIT = {0: 2, 1: 16, 2: 2}
HOLD = ("multicast", "broadcast", "zdo-broadcast")
DEADLINE = 6.0


class Send:
    def __init__(self, i, kind):
        self.i, self.kind = i, kind
        self.tx = self.answer = self.end = self.cancel = self.issued = self.task = None
        self.fate = None

    def __repr__(self):
        return "#%d %s (issued %.2f, transmitted %s, answered %s, ended %s%s)" % (
            self.i, self.kind, self.issued, self.tx, self.answer, self.end,
            "" if self.cancel is None else ", cancelled %.2f" % self.cancel)


class Queue(Net):
    def __init__(self, ch, fates, product=2, **kw):
        super().__init__(ch, product=product, horizon=4000.0, **kw)
        self.loop.tick_cost = None
        self.znp.zdo_reply = False  # no LED commands in between
        self.znp.af_confirm = False
        self.fates = fates
        self.limit = LIMIT[product]
        self.sends = []
        self.fault = self._fault
        self.probing = False

    def issue(self, kind):
        s = Send(len(self.sends), kind)
        self.sends.append(s)
        s.issued = self.now
        dev = self.device((A[0], B[0], IEEE)[s.i % 3])

        async def call():
            try:
                return await KINDS[kind][0](self.application, dev, 20 + s.i)
            finally:
                s.end = self.now

        s.task = self.loop.create_task(call())
        return s

    def cancel(self, s):
        s.cancel = self.now
        s.task.cancel()

    def _fault(self, handle, cmd):
        n = tag(cmd) - 20
        check(0 <= n < len(self.sends), "transmitted %s, which nobody asked for", cmd)
        s = self.sends[n]
        check(s.tx is None, "%r was transmitted twice", s)
        s.tx = self.now
        k = "ok" if self.probing else self.ch.pick("adapter", list(self.fates),
                                                   list(self.fates.values()))
        s.fate = k
        if k == "silent":
            return []
        status = 0xE1 if k in ("reject", "slow-reject") else 0
        delay = {"slow": 3, "slow-reject": 3, "late": 0.15}.get(k, 0)
        return [(delay, Answer(self.znp.rsp(cmd, status=status), s, status == 0))]

    def _deliver(self):
        a = self.wire[0][1]
        super()._deliver()
        if isinstance(a, Answer):
            a.send.answer = self.now
            a.send.accepted = a.ok

    def free(self, s):
        """when the slot of a send that ended is free again"""
        if s.answer is not None and s.accepted and s.kind in HOLD and (
                s.cancel is None):
            return max(s.end, s.answer + 0.2)
        return s.end

    def judge(self):
        for s in self.sends:
            check(s.task.done(), "%r never ended; sends: %s", s, self.sends)
            if s.end is None:
                s.end = s.cancel  # cancelled before it started
            check(s.tx is not None or s.cancel is not None, "%r was never transmitted", s)
        sent = sorted((c for c in self.cmds[self.mark:]), key=lambda c: 0)
        order = [tag(c) - 20 for c in sent]
        check(order == sorted(order), "transmitted in the order %s", order)
        # the limit
        for s in self.sends:
            if s.tx is not None:
                n = [o for o in self.sends if o.tx is not None and o.i < s.i
                     and self.free(o) > s.tx + EPS]
                check(len(n) < self.limit, "%r was transmitted while %s were in progress", s, n)
        # no send waits longer than for a slot and for the line
        slots = [0.0] * self.limit
        line, slack = 0.0, 0.0
        for s in self.sends:
            grant = max(s.issued, slots[0])
            if s.tx is None:
                if grant < s.end - EPS:
                    heapq.heapreplace(slots, s.end)
                continue
            due, latest = max(grant, line), max(grant, line + slack)
            if s.cancel is None or s.cancel > latest + EPS:
                check(due - 0.01 < s.tx < latest + 0.01, "%r: a slot and the line were free at %.3f; sends: "
                      "%s", s, due, self.sends)
            # the answer to a cancelled one may be awaited until it is overdue
            line = s.answer if s.answer is not None else s.tx + DEADLINE
            slack = 0.1 if s.answer is None and s.cancel is not None else 0.0
            heapq.heapreplace(slots, max(self.free(s), grant))
        check(not self.loop.errors, "errors: %s", self.loop.errors)

    def probe(self):
        """all slots are still there: as many broadcasts as there are slots go out at once"""
        self.judge()
        out = [(s.kind, s.fate, s.tx and round(s.tx, 3), round(s.end, 3)) for s in self.sends]
        self.run(asyncio.sleep(20))
        self.probing = True
        self.mark = len(self.cmds)
        self.sends = []
        self.loop.sources = self.loop.sources[:1]
        for _ in range(self.limit + 1):
            self.issue("broadcast")
        self.run(asyncio.sleep(1))
        self.judge()
        return out


class Answer(bytes):
    def __new__(cls, data, send, ok):
        self = super().__new__(cls, data)
        self.send, self.ok = send, ok
        return self


def concurrent(kinds, fates, cancels=0, product=2, gaps=(0,)):
    """sends issued one after the other (at any moment, at a cost), cancelled at any moment"""
    def fn(ch):
        w = Queue(ch, fates, product)
        try:
            todo = [ch.pick("kind", list(k)) if isinstance(k, (list, tuple)) else k
                    for k in kinds]
            left = [cancels]

            def cancel(s):
                left[0] -= 1
                w.cancel(s)

            def issue():
                w.issue(todo.pop(0))

            def source():
                out = [Event("send " + todo[0], issue, idle=0, busy=1)] if todo else []
                if left[0]:
                    out += [Event("cancel #%d" % s.i, lambda s=s: cancel(s), idle=1, busy=1)
                            for s in w.sends if not s.task.done() and s.cancel is None]
                return out

            if gaps == (0,):
                while todo:
                    issue()
            w.loop.sources.append(source)
            check(w.settle() == "quiescent", "never came to rest: %s", w.loop.outcome)
            return w.probe()
        finally:
            w.close()
    return fn


def spaced(n, kinds, fates, pauses, product=2):
    """sends and pauses in every order"""
    def fn(ch):
        w = Queue(ch, fates, product)
        try:
            for i in range(n):
                w.issue(ch.pick("kind", list(kinds)))
                d = ch.pick("pause", list(pauses))
                if d:
                    w.run(asyncio.sleep(d))
            w.settle()
            return w.probe()
        finally:
            w.close()
    return fn


def crowd(counts, kinds, products=(0, 1, 2)):
    """any number of sends at once"""
    def fn(ch):
        n = ch.pick("sends", counts)
        w = Queue(ch, {ch.pick("answers", ["ok", "reject", "late"]): 0},
                  ch.pick("product", list(products)))
        w.loop.max_steps = 10 ** 8
        w.loop.horizon = 1e9
        try:
            period = ch.pick("kinds", kinds)
            for i in range(n):
                w.issue(period[i % len(period)])
            check(w.settle() == "quiescent", "never came to rest: %s", w.loop.outcome)
            w.probe()
            return n, period
        finally:
            w.close()
    return fn


def two(ch):
    """what one application sends does not take slots from another one"""
    products = ch.pick("products", [(2, 2), (1, 2), (2, 1), (0, 0)])
    w = Two(ch, products)
    for z in w.znps.values():
        z.zdo_reply = z.af_confirm = False
    try:
        counts = [ch.pick("sends", [0, 1, 2, 3]) for _ in range(2)]
        kind = ch.pick("kind", ["broadcast", "multicast", "unicast"])
        at = [[], []]
        base = w.fault

        def fault(handle, cmd):
            if cmd.name.startswith("dataRequest"):
                at[handle.line.path == "/dev/zero"].append(round(w.now, 4))
            return base(handle, cmd)
        w.fault = fault
        t0 = round(w.now, 4)
        tasks = [w.loop.create_task(KINDS[kind][0](w.apps[i], w.apps[i].get_device(nwk=A[1]),
                                                   20 + k))
                 for k in range(3) for i in range(2) if k < counts[i]]
        w.settle()
        for t in tasks:
            check(result_of(t)[0] == "ok", "a send ended with %r", result_of(t))
        hold = 0.2 if kind in HOLD else 0
        for i in range(2):
            lim = LIMIT[products[i]]
            want = [t0 + hold * (k // lim) for k in range(counts[i])]
            check(len(at[i]) == len(want) and all(abs(a - b) < 0.01 for a, b in zip(at[i], want)),
                  "adapter %d: %d %ss were transmitted at %s, expected %s; the other one: %s", i,
                  counts[i], kind, at[i], want, at[1 - i])
        return counts, kind
    finally:
        w.close()


def recovering(products=(2, 0), firsts=(0, 1, 2, 3, 5), seconds=(0, 3),
               kinds=("broadcast", "unicast", "multicast"), fates=("ok", "silent")):
    """sends before, during and after an interruption of the connection"""
    def fn(ch):
        w = Queue(ch, {"ok": 0}, ch.pick("product", list(products)))
        try:
            normal, znp = w.fault, w.znp

            def fault(handle, cmd):
                if cmd.name not in ("dataRequest", "dataRequestExt"):
                    return znp.command(cmd)
                out = normal(handle, cmd)
                w.sends[tag(cmd) - 20].handle = handle
                return out
            w.fault = fault
            w.fates = {ch.pick("fate before", list(fates)): 0}
            kind = ch.pick("kind", list(kinds))
            for _ in range(ch.pick("before", list(firsts))):
                w.issue(kind)
            at = ch.pick("lost after", [0.001, 0.1, 1])
            w.run(asyncio.sleep(at))
            w.handle.unplug()
            if w.sends and not w.sends[0].task.done() and ch.pick("cancel", [False, True]):
                w.cancel(w.sends[0])
            d = ch.pick("more after", [0.1, 4.9, 5.9, 6.001, 6.05, 6.101, 6.2, 7])
            w.run(asyncio.sleep(d))
            w.fates = {"ok": 0}
            kind = ch.pick("kind of more", list(kinds))
            for _ in range(ch.pick("more", list(seconds))):
                w.issue(kind)
            check(w.settle() == "quiescent", "never came to rest")
            what = "lost after %s, more %s after that: " % (at, d)
            for s in w.sends:
                check(s.task.done(), what + "%r never ended; sends: %s", s, w.sends)
                if s.tx is None or getattr(s, "handle", None) is None:
                    continue
                n = [o for o in w.sends if o is not s and o.tx is not None
                     and o.handle is s.handle and (o.tx, o.i) < (s.tx, s.i)
                     and w.free(o) > s.tx + EPS]
                check(len(n) < w.limit, what + "%r was transmitted while %s were in progress", s,
                      n)
            out = [(s.kind, s.tx and round(s.tx, 3), round(s.end, 3)) for s in w.sends]
            # all slots are there again
            w.run(asyncio.sleep(20))
            w.fault = normal
            w.probing = True
            w.mark = len(w.cmds)
            w.sends = []
            for _ in range(w.limit + 1):
                w.issue("broadcast")
            w.run(asyncio.sleep(1))
            w.loop.errors.clear()
            w.judge()
            return at, d, out
        finally:
            w.close()
    return fn


def build(tier):
    th = tier == "thorough"
    all_ = list(KINDS)
    three = {"ok": 0, "reject": 0, "silent": 0}
    every = {"ok": 0, "reject": 1, "silent": 1, "slow": 1, "late": 1}
    out = [
        Scenario("three", concurrent([all_] * 3, three), bound=0),
        Scenario("four", concurrent([["unicast", "multicast", "broadcast"]] * 4, every),
                 bound=3 if th else 2),
        Scenario("cancels", concurrent([["unicast", "broadcast"]] * 4, {
            "ok": 0, "silent": 1, "reject": 1, "slow": 1}, cancels=2), bound=3 if th else 2),
        Scenario("arrivals", concurrent([["unicast", "broadcast"]] * (4 if th else 3), {
            "ok": 0, "reject": 1, "late": 1}, cancels=1, gaps=None), bound=3 if th else 2),
        Scenario("spaced", spaced(4, ["unicast", "broadcast", "multicast"],
                                  {"ok": 0, "late": 1}, [0, 0.1, 0.25]), bound=1),
        Scenario("z12", concurrent([["unicast", "broadcast", "permit"]] * 4, every, product=0),
                 bound=1),
        Scenario("crowd", crowd([5, 20, 40, 100] + [300] * th, [
            ("unicast",), ("broadcast",), ("multicast", "unicast"), ("unicast", "zdo", "permit")]),
                 bound=0),
        Scenario("firmware", any_firmware(crowd([5, 20], [("unicast",), ("broadcast", "zdo")])),
                 bound=0),
        Scenario("two-adapters", two, bound=0),
        Scenario("recovery", recovering(), bound=0),
        Scenario("z3x0", concurrent(["broadcast"] * 18, every, cancels=1, product=1,
                                    ), bound=2 if th else 1),
        Scenario("z3x0-mixed", concurrent([["broadcast", "unicast"]] + ["broadcast"] * 15
                                          + [["unicast", "multicast", "zdo"]] * 3,
                                          {"ok": 0, "late": 1}, product=1), bound=1),
    ]
    return out


ASSUMPTIONS = [
    "the response to a cancelled send is still due; nothing is sent before it came in or is "
    "overdue (0.1 s after its deadline), see C05",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C10", build, ASSUMPTIONS))
