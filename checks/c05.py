"""C05: requests are serialised, transmitted in order and paired with their own responses."""
import itertools

from checks.c04 import cases, from_impl, to_impl
from mc import mt
from mc.explore import Scenario
from mc.reqworld import OPS, RESETS, Call, ReqWorld
from mc.world import World, check, result_of

from zigpy_cc import types as t
from zigpy_cc.api import API
from zigpy_cc.exception import CommandError


def scenario(ops, answers=None, **kw):
    def fn(ch):
        names = [ch.pick("op", list(o)) if isinstance(o, (list, tuple)) else o for o in ops]
        w = ReqWorld(ch, names, answers, **kw)
        try:
            check(w.settle() == "quiescent", "never came to rest: %s", w.loop.outcome)
            w.judge()
            check(not w.loop.errors, "exception in a callback: %s", w.loop.errors)
            return w.outcome()
        finally:
            w.close()
    return fn


SYNC = [o for o in OPS if o not in RESETS and o != "areq"]
ALL = list(OPS)
MIX = ["ping", "read", "startup", "led", "areq", "reset"]
FEW = {"ok": 0, "status1": 1, "silent": 1, "at-5.9": 1, "at-6.05": 1}


def at_once(ops, answers):
    """many callers at the same instant"""
    def fn(ch):
        w = ReqWorld(ch, ops, answers)
        w.todo = []
        try:
            for c in w.ops:
                w._issue_now(c)
            check(w.settle() == "quiescent", "never came to rest: %s", w.loop.outcome)
            w.judge()
            return w.outcome()
        finally:
            w.close()
    return fn


def long(counts):
    """any number of requests, in groups, before the ones that are looked at"""
    def fn(ch):
        w = ReqWorld(ch, [], {"ok": 0}, horizon=5000.0)
        try:
            n = ch.pick("requests", counts)
            group = ch.pick("at a time", [1, 20, 130])
            fate = ch.pick("answers", ["ok", "status1", "silent"] if n < 300 else ["ok", "status1"])
            w.answers = {fate: 0}
            for k in range(n):
                w.loop.resume()
                c = Call(k % 100, "read" if k % 2 else "led")
                w.ops.append(c)
                w._issue_now(c)
                if k % group == group - 1:
                    w.settle()
            w.settle()
            w.judge()
            out = len(w.ops), w.ops[-1].end
            w.answers = dict.fromkeys(("ok", "status1", "silent"), 0)
            for i, op in enumerate(("read", "ping")):
                c = Call(100 + i, op)
                w.ops = w.ops[n:] + [c]
                n = 0
                w._issue_now(c)
            check(w.settle() == "quiescent", "never came to rest: %s", w.loop.outcome)
            w.judge()
            return out, w.outcome()
        finally:
            w.close()
    return fn


def outstanding(counts):
    """whatever else is being waited for, of the same connection"""
    def fn(ch):
        w = ReqWorld(ch, [], {"ok": 0, "at-5.9": 0, "status1": 0, "silent": 0}, horizon=5000.0)
        try:
            n = ch.pick("waiting", counts)
            for c in [Call(0, ch.pick("op", ["ping", "read", "reset", "led"])), Call(1, "read")]:
                w.ops.append(c)
                w._issue_now(c)

            def wait():
                for i in range(n):
                    w.api.wait_for(t.CommandType.AREQ, t.Subsystem.ZDO, "stateChangeInd",
                                   {"state": 200}, 60000)
            if ch.pick("from", ["the start", "while answers are due"]) == "the start":
                wait()
            else:
                w.loop.call_env(0.2, wait)
            c = Call(2, "ping")
            w.ops.append(c)
            w._issue_now(c)
            check(w.settle() == "quiescent", "never came to rest: %s", w.loop.outcome)
            w.judge()
            return n, w.outcome()
        finally:
            w.close()
    return fn


def two(ch):
    """two adapters in one process: neither waits for, or takes, the other one's responses"""
    w = World(ch, None, 400.0)
    w.loop.tick_cost = None
    second = w.ports.add("/dev/zero")
    second.on_write, second.on_open = w._host_wrote, w._opened
    try:
        apis = []
        for w.path in ("/dev/null", "/dev/zero"):
            apis.append(API(w.device_config()))
            check(result_of(w.run(apis[-1].connect()))[0] == "ok", "connecting failed")
        at = [[], []]

        def on_cmd(handle, cmd):
            i = handle.line.path == "/dev/zero"
            n = len(at[i])
            at[i].append((w.now, cmd.values["id"]))
            d = ch.pick("answer", [0, 1.5, "never", 5.9])
            plan.append((i, cmd.values["id"], d))
            if d != "never":
                w.loop.call_env(d, w._emit, handle, mt.encode(
                    "SYS", "osalNvRead", dict(status=0, len=2, value=bytes([i, n])), mt.SRSP))
        plan = []
        w.on_cmd = on_cmd
        order = ch.pick("order", ["0101", "0011", "1100", "01", "10", "0110"])
        t0 = w.now
        tasks, ends = [], {}
        for k, c in enumerate(order):
            tk = w.loop.create_task(apis[int(c)].request(
                t.Subsystem.SYS, "osalNvRead", {"id": 100 + k, "offset": 0}))
            tk.add_done_callback(lambda _, k=k: ends.update({k: w.now}))
            tasks.append(tk)
        check(w.settle() == "quiescent", "never came to rest")
        what = "requests to %s, answered %s: " % (order, plan)
        for i in range(2):
            mine = [k for k, c in enumerate(order) if int(c) == i]
            check([v for _, v in at[i]] == [100 + k for k in mine], what + "transmitted %s", at[i])
            due = t0
            for n, k in enumerate(mine):
                check(abs(at[i][n][0] - due) < 0.01, what + "request %d was transmitted at %.2f",
                      k, at[i][n][0] - t0)
                d = [d for _, v, d in plan if v == 100 + k][0]
                due += 6 if d == "never" else d
                r = result_of(tasks[k])
                check(abs(ends[k] - due) < 0.02, what + "request %d ended after %.2f s", k,
                      ends[k] - t0)
                if d == "never":
                    check(r[:2] == ("exc", "TimeoutError"), what + "ended with %r", r)
                else:
                    check(r[0] == "ok" and bytes(r[1].payload["value"]) == bytes([i, n]),
                          what + "request %d ended with %r", k, r)
        return what
    finally:
        w.close()


def table(types=(mt.SRSP, mt.AREQ)):
    """every command of the table is answered by its own response only: first, every response
    (and notification) of every other command comes in"""
    frames = {}
    for (subsys, name), cmd in mt.BY_NAME.items():
        for ctype in types:
            fs = mt.fields_of(cmd, ctype)
            for vals in (cases(fs, False) if fs is not None else ()):
                for k in ("status", "len"):
                    if k == "status" and k in vals:
                        vals[k] = 0
                frames[(subsys, name, ctype)] = (mt.frame(
                    ctype, mt.SUBSYS[subsys], cmd["id"], mt.encode_fields(fs, vals)), fs, vals)
                break
    sync = [k[:2] for k in frames if k[2] == mt.SRSP and mt.BY_NAME[k[:2]]["type"] == "SREQ"
            and not any(ty in mt.UNSUPPORTED for _, ty in mt.BY_NAME[k[:2]]["request"])]

    def fn(ch):
        subsys, name = ch.pick("command", sync)
        first = ch.pick("others", ["before", "none"])
        fs = mt.BY_NAME[(subsys, name)]["request"]
        vals = next(cases(fs, False))
        own, ofs, ovals = frames[(subsys, name, mt.SRSP)]
        w = World(ch, None, 400.0)
        w.loop.tick_cost = None
        try:
            api = API(w.device_config())
            w.run(api.connect())

            def on_cmd(handle, cmd):
                if (cmd.subsys, cmd.name, cmd.ctype) == (subsys, name, mt.SREQ):
                    at.append(w.now)
                    if first == "before":
                        for k, (f, _, _) in frames.items():
                            if k != (subsys, name, mt.SRSP):
                                w.send(f)
                    w.loop.call_env(2.0, w._emit, handle, own)
            at = []
            w.on_cmd = on_cmd
            task = w.loop.create_task(api.request(t.Subsystem[subsys], name, to_impl(fs, vals)))
            ended = []
            task.add_done_callback(lambda t: ended.append(w.now))
            check(w.settle() == "quiescent", "never came to rest")
            r = result_of(task)
            what = "%s.%s, other responses %s: " % (subsys, name, first)
            check(len(at) == 1, what + "transmitted %d times", len(at))
            check(r[0] == "ok", what + "ended with %r", r)
            check(abs(ended[0] - at[0] - 2.0) < 1e-3, what + "ended %.3f s after transmission",
                  ended[0] - at[0])
            got = from_impl(ofs, r[1].payload)
            check(r[1].command == name and int(r[1].subsystem) == mt.SUBSYS[subsys]
                  and got == ovals, what + "got %s", r[1])
            return subsys, name
        finally:
            w.close()
    return fn


SLOW = (("APP_CNF", "bdbStartCommissioning"), ("ZDO", "startupFromApp"))


def each(answers, after=None):
    """every command of the table, on its own.  answers: (delay or None, status, accepted)"""
    cmds = []
    for (subsys, name), cmd in mt.BY_NAME.items():
        if cmd["type"] != "SREQ" or mt.fields_of(cmd, mt.SRSP) is None or any(
                ty in mt.UNSUPPORTED for _, ty in cmd["request"] + cmd["response"]):
            continue
        cmds.append((subsys, name))

    def fn(ch):
        subsys, name = ch.pick("command", cmds)
        cmd = mt.BY_NAME[(subsys, name)]
        fs, ofs = cmd["request"], cmd["response"]
        has = any(n == "status" for n, _ in ofs)
        delay, status, accepted = ch.pick("answer", [a for a in answers if has or a[1] == 0])
        w = World(ch, None, 400.0)
        w.loop.tick_cost = None
        try:
            api = API(w.device_config())
            w.run(api.connect())
            ovals = next(cases(ofs, False))
            if has:
                ovals["status"] = status
            own = mt.frame(mt.SRSP, mt.SUBSYS[subsys], cmd["id"], mt.encode_fields(ofs, ovals))
            at, ended = [], []

            def on_cmd(handle, c):
                if not at and (c.subsys, c.name, c.ctype) == (subsys, name, mt.SREQ):
                    at.append(w.now)
                    if delay is not None:
                        w.loop.call_env(delay, w._emit, handle, own)
                elif at:
                    w.send(mt.encode("SYS", "ping", dict(capabilities=7), mt.SRSP))
            w.on_cmd = on_cmd
            vals = to_impl(fs, next(cases(fs, False)))
            task = w.loop.create_task(api.request(t.Subsystem[subsys], name, vals, None, accepted))
            task.add_done_callback(lambda t: ended.append(w.now))
            check(w.settle() == "quiescent", "never came to rest")
            r = result_of(task)
            what = "%s.%s, answered %s, accepting %s: " % (
                subsys, name, "never" if delay is None else "after %s s with status %s" % (
                    delay, status), accepted)
            check(len(at) == 1, what + "transmitted %d times", len(at))
            deadline = 20 if (subsys, name) in SLOW else 6
            if delay is None or delay > deadline:
                check(r[:2] == ("exc", "TimeoutError"), what + "ended with %r", r)
                due = deadline
            else:
                due = delay
                if has and status not in (accepted or [0]):
                    check(r[0] == "exc" and isinstance(r[2], CommandError)
                          and r[2].status == status, what + "ended with %r", r)
                else:
                    check(r[0] == "ok" and from_impl(ofs, r[1].payload) == ovals,
                          what + "ended with %r", r)
            check(abs(ended[0] - at[0] - due) < 0.01, what + "ended %.2f s after transmission",
                  ended[0] - at[0])
            if after is not None:
                after(api, what)
            n = len(w.cmds)
            r = result_of(w.run(api.request(t.Subsystem.SYS, "ping", {}))) \
                if (subsys, name) != ("SYS", "ping") else ("ok",)
            check(r[0] == "ok", what + "a later request ended with %r", r)
            return name, due, r[0]
        finally:
            w.close()
    return fn


def build(tier):
    th = tier == "thorough"
    out = [
        # every pair / triple of operations, answers in every way
        Scenario("one", scenario([ALL]), bound=2),
        Scenario("pairs", scenario([ALL, ALL]), bound=2 if th else 1),
        Scenario("pairs-spurious", scenario([["ping", "read", "led", "reset", "areq"],
                                             ["ping", "read", "read02", "reset"]], spurious=1),
                 bound=2),
        Scenario("same-3", scenario([SYNC[:4], ["ping", "read"], SYNC[:4]]), bound=2 if th else 1),
        Scenario("triples", scenario([ALL, ALL, ALL]), bound=1 if th else 0),
        Scenario("four", scenario([["read", "ping"]] * 4, {"ok": 0, "status1": 1, "at-5.9": 1,
                                                           "silent": 1, "at-6.05": 1}),
                 bound=3 if th else 2),
        Scenario("five-reads", scenario(["read"] * 5, {"ok": 0, "status1": 1, "silent": 1}),
                 bound=3 if th else 2),
        Scenario("statuses", scenario([SYNC], dict.fromkeys(range(256), 0)), bound=0),
        Scenario("many", at_once(["read", "ping"] * 6, {"ok": 0, "status1": 1, "at-5.9": 1}),
                 bound=3 if th else 2),
        Scenario("long", long([1, 19, 60, 255, 256, 257, 700] + [33000, 66000] * th), bound=0),
        Scenario("table", table(), bound=0),
        Scenario("each", each([(0.5, st, acc) for st in (0, 1, 2, 9, 0x10, 0x80, 0xB8, 0xC2, 0xFF)
                               for acc in (None, [0], [0, st], [0, 1], [9])]), bound=0),
    ] + [Scenario("outstanding", outstanding([1, 10, 33, 70, 130, 300]), bound=0)
         ] * hasattr(API, "wait_for") + [
        Scenario("two-adapters", two, bound=0),
        # a caller that gives up does not make its request answered
        Scenario("cancel-2", scenario([MIX, MIX], FEW, cancels=1), bound=3 if th else 2),
        Scenario("cancel-3", scenario([["read", "ping"]] * 3, {"ok": 0, "silent": 1, "at-5.9": 1},
                                      cancels=2), bound=3 if th else 2),
    ]
    return out


ASSUMPTIONS = [
    "the adapter is arbitrary: for each request it may answer at once, late (5.9/6.05/6.2/7 s), "
    "twice, with an error, never, or send other responses before",
    "a response to the same command that arrives after a time-out, while the next request for "
    "that command is waiting, counts as a response that arrived while it was waiting",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C05", build, ASSUMPTIONS))
