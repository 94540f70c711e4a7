"""C06: every request ends in bounded time, whatever happens, and leaves nothing behind."""
import asyncio

from checks.c05 import each
from mc.explore import Scenario
from mc.net import A, B, Net
from mc.loop import Event
from mc.reqworld import OPS, RESETS, Call, ReqWorld
from mc.world import check, result_of


def residue(api, what, samples=()):
    # after the last deadline
    for _, pending in samples[-1:]:
        check(len(pending) == 0, "%s: still waiting for %s", what, pending)
    pending = getattr(api, "_waiters", ())
    check(len(pending) == 0, "%s: still waiting for %s", what, pending)


def scenario(ops, answers=None, **kw):
    def fn(ch):
        names = [ch.pick("op", list(o)) if isinstance(o, (list, tuple)) else o for o in ops]
        w = ReqWorld(ch, names, answers, **kw)
        try:
            check(w.settle() == "quiescent", "never came to rest: %s", w.loop.outcome)
            w.judge()
            check(not w.loop.errors, "exception in a callback: %s", w.loop.errors)
            residue(w.api, "after %s" % w.outcome(), w.samples)
            out = w.outcome()
            # afterwards everything works normally
            w.left = dict.fromkeys(w.left, 0)
            w.answers = {"ok": 0}
            w.loop.tick_cost = None
            for op in ("ping", "read"):
                c = Call(len(w.ops), op)
                w.ops.append(c)
                w.todo.append(c)
            w.settle()
            w.judge()
            if w.closed is None and w.lost is None:
                for c in w.ops[-2:]:
                    check(result_of(c.task)[0] == "ok", "a later request ended with %r",
                          result_of(c.task))
            residue(w.api, "after two more requests", w.samples)
            return out
        finally:
            w.close()
    return fn


def stale(op):
    """A response that comes at any later moment never completes another command's request."""
    others = [o for o in OPS if o not in RESETS and o != "areq"
              and OPS[o][:2] != OPS[op][:2]]

    def fn(ch):
        first = op
        names = [first, ch.pick("next", others)]
        w = ReqWorld(ch, names, {"silent": 0, "ok": 1, "at-7": 1, "at-5.9": 1}, spurious=2)
        try:
            check(w.settle() == "quiescent", "never came to rest: %s", w.loop.outcome)
            w.judge()
            residue(w.api, "after %s" % w.outcome(), w.samples)
            return w.outcome()
        finally:
            w.close()
    return fn


SENDS = {
    "unicast": lambda a, d, i: a.request(d, 260, 6, 1, 1, 10 + i, b"\x01\x00", expect_reply=True),
    "unicast-noreply": lambda a, d, i: a.request(d, 260, 6, 1, 1, 10 + i, b"\x01\x00",
                                                 expect_reply=False),
    "node-desc": lambda a, d, i: a.request(d, 0, 2, 0, 0, 10 + i,
                                           bytes([10 + i]) + d.nwk.serialize()),
    "multicast": lambda a, d, i: a.mrequest(7, 260, 6, 1, 10 + i, b"\x01"),
    "broadcast": lambda a, d, i: a.broadcast(260, 6, 1, 1, 0, 30, 10 + i, b"\x01"),
    "permit": lambda a, d, i: a.permit_ncp(30),
}


def many(ch):
    """many requests at once or one after the other, any of which may stay unanswered"""
    n = ch.pick("requests", [5, 20, 60, 300])
    kind = ch.pick("by", ["sends", "requests"])
    gap = ch.pick("every", [None, 0.5])
    fates = ch.pick("answers", ["ok", "silent", "reject", "every other"])
    w = Net(ch, horizon=1e9)
    try:
        w.loop.tick_cost = None
        w.loop.max_steps = 10 ** 9
        w.znp.af_confirm = False
        app = w.application
        last = [w.now]
        seen = []

        def sample():
            seen.append(dict(getattr(app._api, "_waiters", None) or {}))

        def fault(handle, cmd):
            last[0] = w.now
            count[0] += 1
            k = fates if fates != "every other" else ("ok", "silent")[count[0] % 2]
            return {"ok": lambda: w.znp.command(cmd), "silent": lambda: [],
                    "reject": lambda: [(0, w.znp.error(cmd, 0xE1))]}[k]()
        count = [0]
        w.fault = fault
        names = ("unicast", "node-desc", "unicast-noreply")
        tasks = []

        async def all_of_them():
            for i in range(n):
                co = SENDS[names[i % 3]](app, w.device((A, B)[i % 2][0]), i % 200) \
                    if kind == "sends" else app._api.version()
                tasks.append(w.loop.create_task(co))
                if gap:
                    await asyncio.sleep(gap)
            await asyncio.wait(tasks)
            await asyncio.sleep(max(0, last[0] + 10.37 - w.now))
            sample()
        w.run(all_of_them())
        what = "%d %s every %s s, answered %s" % (n, kind, gap, fates)
        check(len(tasks) == n and all(t.done() for t in tasks), "%s: not ended", what)
        residue(app._api, what, [(0, s) for s in seen])
        w.fault = None
        r = result_of(w.run(SENDS["unicast"](app, w.device(A[0]), 99)))
        check(r[0] == "ok" and r[1][0] == 0, "%s: a later request ended with %r", what, r)
        w.settle()
        residue(app._api, what)
        return what
    finally:
        w.close()


def sends(n, bound_cancel):
    """The reply expectations of the application's sends expire too."""
    def fn(ch):
        w = Net(ch, horizon=500.0)
        try:
            picked = [ch.pick("send", list(SENDS)) for _ in range(n)]
            w.znp.af_confirm = False
            samples = []

            def sample():
                samples.append((w.now, dict(getattr(w.application._api, "_waiters", None) or {})))

            def fault(handle, cmd):
                w.loop.call_env(10.37, sample)
                k = ch.pick("answer " + cmd.name, ["ok", "reject", "silent", "late"], [0, 1, 1, 1])
                ok = w.znp.command(cmd)
                if k == "ok":
                    return ok
                if k == "reject":
                    return [(0, w.znp.error(cmd, 0xE1))]
                if k == "late":
                    return [(7.0, f) for _, f in ok]
                return []

            w.fault = fault
            tasks = []
            todo = list(picked)
            left = [bound_cancel]

            def issue():
                k = todo.pop(0)
                dev = w.device((A, B)[len(tasks) % 2][0])
                tasks.append(w.loop.create_task(SENDS[k](w.application, dev, len(tasks))))

            def cancel(t):
                left[0] -= 1
                t.cancel()

            def source():
                out = [Event("send " + todo[0], issue, idle=0, busy=1)] if todo else []
                if left[0]:
                    out += [Event("cancel %d" % i, lambda t=t: cancel(t), idle=1, busy=1)
                            for i, t in enumerate(tasks) if not t.done()]
                return out

            w.loop.sources.append(source)
            check(w.settle() == "quiescent", "never came to rest: %s", w.loop.outcome)
            for k, t in zip(picked, tasks):
                check(t.done(), "%s never ended", k)
            check(w.now - w.started < 60, "came to rest only after %s s", w.now)
            residue(w.application._api, "after %s: %s" % (
                picked, [result_of(t)[:2] for t in tasks]), samples)
            w.fault = None
            w.loop.tick_cost = None
            r = result_of(w.run(SENDS["unicast"](w.application, w.device(A[0]), 99)))
            check(r[0] == "ok" and r[1][0] == 0, "a later request ended with %r", r)
            w.settle()
            residue(w.application._api, "at the end")
            return [result_of(t)[:1] for t in tasks]
        finally:
            w.close()
    return fn


ONE = [o for o in OPS]
MIX = ["ping", "read", "reset", "startup", "areq"]


def build(tier):
    th = tier == "thorough"
    few = {"ok": 0, "status1": 1, "silent": 1, "at-6.05": 1, "at-7": 1}
    return [
        Scenario("one", scenario([ONE], cancels=1, closes=1, spurious=1, drops=1), bound=2),
        Scenario("pairs-cancel", scenario([MIX, MIX], few, cancels=2), bound=3 if th else 2),
        Scenario("pairs-close", scenario([MIX, MIX], few, closes=1, drops=1),
                 bound=3 if th else 2),
        Scenario("triple-cancel", scenario([["read", "ping"]] * 3, {"ok": 0, "silent": 1},
                                           cancels=3), bound=3 if th else 2),
        Scenario("triple-mixed", scenario([MIX, ["read"], MIX], few, cancels=1, closes=1),
                 bound=2 if th else 1),
        Scenario("many", many, bound=0),
        Scenario("each", each([(d, st, None) for d in (None, 0, 5.9, 6.5, 19, 21)
                               for st in (0, 1)], residue), bound=0),
        Scenario("sends-2", sends(2, 1), bound=2 if th else 1),
        Scenario("sends-3", sends(3, 2), bound=2 if th else 1),
    ] + [Scenario("stale-" + op, stale(op), bound=3 if th else 2)
         for op in ("ping", "read", "startup", "led")]


ASSUMPTIONS = [
    "pending expectations are read from API._waiters, which the repository's own tests rely on",
    "when the connection is closed or lost, a request may fail at once or at its deadline",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C06", build, ASSUMPTIONS))
