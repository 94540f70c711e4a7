"""C07: the result of a send tells what the adapter did with that very transmission."""
import asyncio

from zigpy.types import BroadcastAddress

from checks import c09
from mc import mt
from mc.explore import Scenario
from mc.loop import Event
from mc.net import A, B, Net
from mc.world import check, result_of
from mc.znp import IEEE

from zigpy_cc.exception import CommandError

KINDS = {
    # name: (call(app, dev, tsn), MT command, identifies(cmd, tsn))
    "unicast": (lambda a, d, n: a.request(d, 260, 6, 1, 1, n, bytes([1, n])), "dataRequest"),
    "unicast-noreply": (lambda a, d, n: a.request(d, 260, 6, 1, 1, n, bytes([1, n]),
                                                  expect_reply=False), "dataRequest"),
    "multicast": (lambda a, d, n: a.mrequest(0x0102, 260, 6, 1, n, bytes([2, n])),
                  "dataRequestExt"),
    "broadcast": (lambda a, d, n: a.broadcast(260, 6, 1, 255, 0, 30, n, bytes([3, n])),
                  "dataRequestExt"),
    "zdo": (lambda a, d, n: a.request(d, 0, 0x0004, 0, 0, n, bytes([n]) + d.nwk.serialize() +
                                      bytes([n])), "simpleDescReq"),
    "permit": (lambda a, d, n: a.permit_ncp(n), "mgmtPermitJoinReq"),
    "zdo-noreply": (lambda a, d, n: a.request(
        d, 0, 0x0004, 0, 0, n, bytes([n]) + d.nwk.serialize() + bytes([n]), expect_reply=False),
        "simpleDescReq"),
    "zdo-broadcast": (lambda a, d, n: a.broadcast(
        0, 0x0004, 0, 0, 0, 0, n, bytes([n]) + d.nwk.serialize() + bytes([n])), "simpleDescReq"),
}


def tag(cmd):
    """which send a transmission belongs to"""
    v = cmd.values
    if cmd.name.startswith("dataRequest"):
        return v["transid"]
    if cmd.name == "simpleDescReq":
        return v["endpoint"]
    return v["duration"]


def scenario(kinds, answers, cancels=0, gap=None, product=1):
    """answers: {name: cost}"""
    def fn(ch):
        w = Net(ch, product=product, horizon=900.0)
        try:
            w.loop.tick_cost = None
            picked = [ch.pick("kind", list(k)) if isinstance(k, (list, tuple)) else k
                      for k in kinds]
            fate = {}

            def fault(handle, cmd):
                n = tag(cmd)
                check(n not in fate, "send %d was transmitted twice", n)
                k = ch.pick("answer", list(answers), list(answers.values()))
                if k == "confirm-fails":
                    fate[n] = ("ok", 0)
                    return [(0, w.znp.rsp(cmd, status=0)),
                            (0.1, mt.encode("AF", "dataConfirm", dict(
                                status=0xE9, endpoint=1, transid=n)))]
                if k == "others-first":
                    fate[n] = ("ok", 0)
                    pre = b"".join(mt.frame(3, s, c, b"\xee") for s, c in
                                   ((4, 0), (5, 0x40), (4, 2 if cmd.name != "dataRequestExt"
                                                        else 1)))
                    return [(0, pre), (0.2, w.znp.rsp(cmd, status=0))]
                if k == "silent":
                    fate[n] = ("silent", None)
                    return []
                if k == "slow":
                    fate[n] = ("ok", 0)
                    return [(5.5, w.znp.rsp(cmd, status=0))]
                if k == "slow-reject":
                    fate[n] = ("reject", 0x10)
                    return [(5.5, w.znp.rsp(cmd, status=0x10))]
                if k == "ok":
                    fate[n] = ("ok", 0)
                    return w.znp.command(cmd)
                st = k if isinstance(k, int) else 0xE1
                fate[n] = ("reject", st) if st else ("ok", 0)
                return [(0, w.znp.rsp(cmd, status=st))]

            w.fault = fault
            tasks, cancelled = [], set()
            todo = list(picked)
            left = [cancels]

            def issue():
                k = todo.pop(0)
                i = len(tasks)
                dev = w.device((A[0], B[0], IEEE)[i % 3])
                tasks.append(w.loop.create_task(KINDS[k][0](w.application, dev, 20 + i)))

            def cancel(i):
                left[0] -= 1
                cancelled.add(i)
                tasks[i].cancel()

            def source():
                out = [Event("send " + todo[0], issue, idle=0, busy=1)] if todo else []
                if left[0]:
                    out += [Event("cancel %d" % i, lambda i=i: cancel(i), idle=1, busy=1)
                            for i, t in enumerate(tasks) if not t.done()]
                return out

            w.loop.sources.append(source)
            check(w.settle() == "quiescent", "never came to rest: %s", w.loop.outcome)
            out = []
            for i, (k, t) in enumerate(zip(picked, tasks)):
                n = 20 + i
                r = result_of(t)
                out.append((k, fate.get(n), r[0], r[1] if r[0] == "ok" else None))
                if i in cancelled:
                    continue
                what = "%s (number %d of %s), adapter's answer %s: " % (k, i, picked, fate.get(n))
                check(n in fate, what + "never transmitted, ended with %r", r)
                f, st = fate[n]
                if f == "silent":
                    check(r[0] == "exc" and isinstance(r[2], asyncio.TimeoutError),
                          what + "ended with %r", r)
                elif k == "permit":
                    if f == "ok":
                        check(r[0] == "ok", what + "ended with %r", r)
                    else:
                        check(r[0] == "exc" and isinstance(r[2], CommandError)
                              and r[2].status == st, what + "ended with %r", r)
                else:
                    check(r[0] == "ok" and isinstance(r[1], tuple) and len(r[1]) == 2
                          and r[1][0] == st and isinstance(r[1][1], str) and r[1][1],
                          what + "ended with %r", r)
            return out
        finally:
            w.close()
    return fn


def same_number(n, answers, apart=False):
    """sends that have the transaction number in common"""
    sends = {
        "unicast": (lambda a, d, i: a.request(d, 260, 6, 1, 1, 9, bytes([i])), "dataRequest"),
        "multicast": (lambda a, d, i: a.mrequest(0x0102, 260, 6, 1, 9, bytes([i])),
                      "dataRequestExt"),
        "zdo": (lambda a, d, i: a.request(d, 0, 4, 0, 0, 9, b"\x09" + d.nwk.serialize()
                                          + bytes([i])), "simpleDescReq"),
    }

    def fn(ch):
        w = Net(ch, product=ch.pick("product", [1, 2]), horizon=900.0)
        try:
            w.loop.tick_cost = None
            fate = {}

            def fault(handle, cmd):
                i = cmd.values["endpoint"] if cmd.name == "simpleDescReq" \
                    else cmd.values["data"][0]
                check(i not in fate, "send %d was transmitted twice", i)
                k = fate[i] = ch.pick("answer", list(answers), list(answers.values()))
                if k == "silent":
                    return []
                if k == "ok":
                    out = [(0, w.znp.rsp(cmd, status=0))]
                    if cmd.name != "simpleDescReq":
                        out.append((0.3, mt.encode("AF", "dataConfirm", dict(
                            status=0, endpoint=1, transid=9))))
                    return out
                return [(0, w.znp.rsp(cmd, status=k))]

            w.fault = fault
            picked = [ch.pick("kind", list(sends)) for _ in range(n)]
            tasks = []

            async def go():
                for i, k in enumerate(picked):
                    tasks.append(w.loop.create_task(sends[k][0](
                        w.application, w.device((A, B)[i % 2][0]), i)))
                    if apart:
                        await asyncio.wait(tasks)
            w.run(go())
            check(w.settle() == "quiescent", "never came to rest: %s", w.loop.outcome)
            for i, (k, t) in enumerate(zip(picked, tasks)):
                r = result_of(t)
                what = "%s (number %d of %s), answers %s: " % (k, i, picked, fate)
                f = fate.get(i)
                if f == "silent":
                    check(r[0] == "exc" and isinstance(r[2], asyncio.TimeoutError),
                          what + "ended with %r", r)
                else:
                    check(r[0] == "ok" and r[1][0] == (0 if f == "ok" else f) and r[1][1],
                          what + "ended with %r", r)
            return picked, sorted(fate.items())
        finally:
            w.close()
    return fn


def identical(n, answers):
    """the very same send again and again: each is a transmission of its own"""
    def fn(ch):
        w = Net(ch, product=ch.pick("product", [1, 2]), horizon=900.0)
        try:
            w.loop.tick_cost = None
            kind = ch.pick("kind", list(KINDS))
            gap = ch.pick("apart", [None, 0, 0.1, 1, 9])
            fate = []

            def fault(handle, cmd):
                if cmd.name == "ledControl":
                    return w.znp.command(cmd)
                k = ch.pick("answer", list(answers))
                fate.append(k)
                if k == "silent":
                    return []
                return [(0, w.znp.rsp(cmd, status=0 if k == "ok" else k))]

            w.fault = fault
            tasks = []

            async def go():
                for i in range(n):
                    tasks.append(w.loop.create_task(KINDS[kind][0](
                        w.application, w.device(A[0]), 9)))
                    if gap is not None:
                        await asyncio.wait(tasks)
                        await asyncio.sleep(gap)
            w.run(go())
            check(w.settle() == "quiescent", "never came to rest: %s", w.loop.outcome)
            what = "%s sent %d times, answered %s: " % (kind, n, fate)
            check(len(fate) == n, what + "transmitted %d times", len(fate))
            for i, (t, f) in enumerate(zip(tasks, fate)):
                r = result_of(t)
                if f == "silent":
                    good = r[0] == "exc" and isinstance(r[2], asyncio.TimeoutError)
                elif kind == "permit":
                    good = r[0] == "ok" if f == "ok" else (
                        r[0] == "exc" and isinstance(r[2], CommandError) and r[2].status == f)
                else:
                    good = r[0] == "ok" and r[1][0] == (0 if f == "ok" else f) and bool(r[1][1])
                check(good, what + "number %d ended with %r", i, r)
            return kind, fate
        finally:
            w.close()
    return fn


def services(answers, full=True):
    """requests for every ZDO service, to devices and to all"""
    def fn(ch):
        w = Net(ch, product=ch.pick("product", [0, 1] if full else [2]), horizon=900.0)
        try:
            w.loop.tick_cost = None
            cluster = ch.pick("cluster", list(c09.ZDO))
            p = ch.pick("parameters", [c09.params(cluster)[0], c09.params(cluster)[-1]][:1 + full])
            to = ch.pick("to", ["A", "coordinator", "all"] if full else ["A"])
            reply = ch.pick("reply", [True, False]) if to != "all" and full else True
            k = ch.pick("answer", answers)
            seen = []

            def fault(handle, cmd):
                if cmd.name == "ledControl":
                    return w.znp.command(cmd)
                seen.append(cmd)
                return [] if k == "silent" else [(0, w.znp.rsp(cmd, status=k))]
            w.fault = fault
            data = b"\x07" + p
            if to == "all":
                co = w.application.broadcast(0, cluster, 0, 0, 0, 0, 7, data,
                                             broadcast_address=BroadcastAddress(0xFFFC))
            else:
                dev = w.device(A[0] if to == "A" else IEEE)
                co = w.application.request(dev, 0, cluster, 0, 0, 7, data, expect_reply=reply)
            r = result_of(w.run(co))
            what = "ZDO cluster 0x%x (%s) to %s, answered %s: " % (cluster, p.hex(), to, k)
            check(len(seen) == 1, what + "sent %s", seen)
            if k == "silent":
                check(r[0] == "exc" and isinstance(r[2], asyncio.TimeoutError),
                      what + "ended with %r", r)
            else:
                check(r[0] == "ok" and r[1][0] == k and r[1][1], what + "ended with %r", r)
            return what
        finally:
            w.close()
    return fn


def sizes(lens, answers):
    """what is sent, and to which endpoints, does not matter for the result"""
    def fn(ch):
        w = Net(ch, product=1, horizon=900.0)
        try:
            w.loop.tick_cost = None
            kind = ch.pick("kind", ["unicast", "multicast", "broadcast"])
            n = ch.pick("bytes", lens)
            k = ch.pick("answer", answers)
            if len(lens) < 20:
                cluster = ch.pick("cluster", [0, 6, 0x19, 0x500, 0xFC00])
                profile = ch.pick("profile", [0x104, 0xC05E, 0xA1E0, 0x109])
                src, dst = ch.pick("endpoints", [(1, 1), (242, 242), (11, 255), (1, 3)])
                reply = ch.pick("reply", [True, False]) if kind == "unicast" else True
            else:
                cluster, profile, src, dst, reply = 6, 0x104, 1, 1, True
            data = bytes(i & 0xFF for i in range(n))
            seen = []

            def fault(handle, cmd):
                seen.append(cmd)
                return [] if k == "silent" else [(0, w.znp.rsp(cmd, status=k))]
            w.fault = fault
            a = w.application
            r = result_of(w.run({
                "unicast": lambda: a.request(w.device(A[0]), profile, cluster, src, dst, 7, data,
                                             expect_reply=reply),
                "multicast": lambda: a.mrequest(0x0102, profile, cluster, src, 7, data),
                "broadcast": lambda: a.broadcast(profile, cluster, src, dst, 0, 30, 7, data),
            }[kind]()))
            what = "%s of %d bytes, cluster 0x%x profile 0x%x endpoints %d->%d, answered %s: " % (
                kind, n, cluster, profile, src, dst, k)
            check(len(seen) == 1, what + "sent %s", seen)
            if k == "silent":
                check(r[0] == "exc" and isinstance(r[2], asyncio.TimeoutError),
                      what + "ended with %r", r)
            else:
                check(r[0] == "ok" and r[1][0] == k and r[1][1], what + "ended with %r", r)
            return what
        finally:
            w.close()
    return fn


def many(counts):
    """many sends at once, or one after the other"""
    def fn(ch):
        n = ch.pick("sends", counts)
        kinds = [k for k in KINDS if k != "zdo"]
        period = ch.pick("kinds", [(k,) for k in kinds] + [tuple(kinds)])
        fates = ch.pick("answers", [("ok",), (0xE1,), ("ok", 0xB7), ("ok", "silent", 1)]
                        if n <= 60 else [("ok", 0xB7)])
        once = ch.pick("at once", [True, False])
        w = Net(ch, product=ch.pick("product", [1, 2]), horizon=1e9)
        try:
            w.loop.tick_cost = None
            w.loop.max_steps = 10 ** 8
            fate = []

            def fault(handle, cmd):
                if cmd.name == "ledControl":
                    return w.znp.command(cmd)
                k = fates[len(fate) % len(fates)]
                fate.append(k)
                if k == "silent":
                    return []
                return [(0, w.znp.rsp(cmd, status=0 if k == "ok" else k))]
            w.fault = fault
            tasks = []

            async def go():
                for i in range(n):
                    tasks.append(w.loop.create_task(KINDS[period[i % len(period)]][0](
                        w.application, w.device((A, B)[i % 2][0]), i % 200)))
                    if not once:
                        await asyncio.wait(tasks[-1:])
                await asyncio.wait(tasks)
            w.run(go())
            what = "%d sends (%s), %s, answered %s: " % (n, "/".join(period), "at once" if once
                                                         else "one by one", fates)
            check(len(fate) == n, what + "%d were transmitted", len(fate))
            for i, (t, f) in enumerate(zip(tasks, fate)):
                r = result_of(t)
                text = what + "number %d, answered %s, ended with %r"
                if f == "silent":
                    ok = r[0] == "exc" and isinstance(r[2], asyncio.TimeoutError)
                elif period[i % len(period)] == "permit":
                    ok = r[0] == "ok" if f == "ok" else (
                        r[0] == "exc" and isinstance(r[2], CommandError) and r[2].status == f)
                else:
                    ok = r[0] == "ok" and r[1][0] == (0 if f == "ok" else f) and bool(r[1][1])
                check(ok, text, i, f, r)
            return n, period, fates
        finally:
            w.close()
    return fn


ALL = list(KINDS)
SENDS = ["unicast", "multicast", "broadcast", "zdo"]


def build(tier):
    th = tier == "thorough"
    three = {"ok": 0, "reject": 0, "silent": 0}
    statuses = dict.fromkeys(range(0, 256), 0)
    out = [
        Scenario("one-status", scenario([ALL], statuses), bound=0),
        Scenario("one", scenario([ALL], {"ok": 0, "confirm-fails": 0, "others-first": 0, "slow": 0,
                                         "slow-reject": 0, "silent": 0}, cancels=1), bound=1),
        Scenario("two", scenario([ALL, ALL], {**three, "confirm-fails": 1, "others-first": 1,
                                              "slow": 1, "slow-reject": 1}, cancels=1),
                 bound=2 if th else 1),
        Scenario("three", scenario([ALL, ALL, ALL] if th else [SENDS] * 3, three), bound=0),
        Scenario("queue-5", scenario([["unicast", "zdo"]] + ["unicast"] * 3 + [SENDS],
                                     three, product=0), bound=0),
        Scenario("queue-6", scenario(["zdo"] * 5 + ["zdo" if not th else SENDS], three), bound=0),
        Scenario("three-races", scenario([SENDS] * 3, {"ok": 0, "reject": 1, "silent": 1},
                                         cancels=1), bound=2 if th else 1),
        Scenario("sizes", sizes(list(range(0, 231, 1 if th else 2)), [0, 0x10, 0xE1, "silent"]),
                 bound=0),
        Scenario("messages", sizes([1, 90], [0, 0x10, 0xE9] if th else [0, 0xE9]), bound=0),
        Scenario("many", many([20, 60, 200] + [1000] * th), bound=0),
        Scenario("services", services([0, 1, 0x80, 0x84, 0xC2, 0xFF, "silent"]), bound=0),
        Scenario("service-statuses", services(list(range(256)), False), bound=0),
        Scenario("identical", identical(4 if th else 3, {"ok": 0, 0x10: 0, 0xE1: 0, "silent": 0}),
                 bound=0),
        Scenario("same-number", same_number(4 if th else 3, {"ok": 0, 0xB7: 0, "silent": 0}),
                 bound=0),
        Scenario("same-number-apart", same_number(3, {"ok": 0, 0xB7: 0, "silent": 0}, True),
                 bound=0),
    ]
    return out


ASSUMPTIONS = [
    "synchronous responses carry no correlation beyond their command, so a response that comes "
    "after its request timed out is out of scope here",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C07", build, ASSUMPTIONS))
