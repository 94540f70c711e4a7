"""Callers issuing requests through API.request against a scripted adapter (C05, C06).

The adapter is pure environment: for each request it receives it decides (choice points) whether,
when and how to answer.  Every answer carries a unique serial number, so that a result identifies
the very response that produced it.  `judge` is a functional oracle: given what was transmitted
and delivered when, it says how each call must have ended."""
from mc import mt
from mc.loop import Event
from mc.world import World, check, result_of

from zigpy_cc import types as t
from zigpy_cc.api import API
from zigpy_cc.exception import CommandError

EPS = 1e-6

OPS = {
    # name: (subsystem, command, payload(i), expected_status, deadline)
    "ping": ("SYS", "ping", lambda i: {}, None, 6),
    "version": ("SYS", "version", lambda i: {}, None, 6),
    "read": ("SYS", "osalNvRead", lambda i: {"id": 100 + i, "offset": 0}, None, 6),
    "read02": ("SYS", "osalNvRead", lambda i: {"id": 100 + i, "offset": 0}, [0, 2], 6),
    "sapi": ("SAPI", "readConfiguration", lambda i: {"configid": 100 + i}, None, 6),
    "led": ("UTIL", "ledControl", lambda i: {"ledid": i, "mode": 1}, None, 6),
    "init9": ("SYS", "osalNvItemInit",
              lambda i: {"id": 100 + i, "len": 1, "initlen": 1, "initvalue": b"\x00"}, [9], 6),
    "startup": ("ZDO", "startupFromApp", lambda i: {"startdelay": 100 + i}, [0, 1], 20),
    "bdb": ("APP_CNF", "bdbStartCommissioning", lambda i: {"mode": i}, None, 20),
    "areq": ("ZDO", "permitJoinInd", lambda i: {"duration": i}, None, None),
    "reset": ("SYS", "resetReq", lambda i: {"type": 1}, None, 30),
    "sapireset": ("SAPI", "systemReset", lambda i: {}, None, 30),
}
RESETS = ("reset", "sapireset")


class Call:
    def __init__(self, i, op):
        self.i, self.op = i, op
        self.subsys, self.cmd, mk, self.expected, self.deadline = OPS[op]
        self.payload = mk(i)
        self.tx = None  # (order, time)
        self.end = None  # (order, time)
        self.cancelled = None  # order
        self.issued = None
        self.task = None

    @property
    def sync(self):
        return self.deadline is not None and self.op not in RESETS

    def __repr__(self):
        return "#%d %s" % (self.i, self.op)


class ReqWorld(World):
    ANSWERS = {
        "ok": 0, "status1": 1, "status2": 1, "silent": 1, "twice": 1, "other-first": 1,
        "wrong-type": 1, "at-5.9": 1, "at-6.05": 1, "at-6.2": 1, "at-7": 1,
    }

    def __init__(self, ch, ops, answers=None, cancels=0, closes=0, spurious=0, horizon=400.0,
                 stagger=False, drops=0):
        super().__init__(ch, None, horizon)
        self.ops = [Call(i, op) for i, op in enumerate(ops)]
        self.answers = dict(self.ANSWERS) if answers is None else answers
        self.left = {"cancel": cancels, "close": closes, "spurious": spurious, "drop": drops}
        self.stagger = stagger
        self.order = 0
        self.serial = 0
        self.rx = []  # (order, time, subsys, cmd, ctype, status, serial)
        self.sent_frames = {}
        self.todo = list(self.ops)
        self.unmatched = []
        self.closed = None
        self.lost = None
        self.api = API(self.device_config())
        self.waiting = []  # delayed answers
        task = self.run(self.api.connect())
        check(result_of(task)[0] == "ok", "connect failed: %r", result_of(task))
        self.mark = len(self.cmds)
        self.on_cmd = self._on_cmd
        self.loop.sources.append(self._events)
        self.gateway_handle = self.handle
        self.samples = []  # (time, what was still being waited for after each deadline)

    def sample(self):
        self.samples.append((self.now, dict(getattr(self.api, "_waiters", None) or {})))

    def tick(self):
        self.order += 1
        return self.order

    # --- environment ---------------------------------------------------------------------
    def _events(self):
        out = []
        if self.todo:
            c = self.todo[0]
            out.append(Event("issue %r" % c, lambda c=c: self._issue(c), idle=0, busy=1))
        if self.left["cancel"]:
            for c in self.ops:
                if c.task is not None and not c.task.done() and c.cancelled is None:
                    out.append(Event("cancel %r" % c, lambda c=c: self._cancel(c), idle=1, busy=1))
        if self.left["close"] and self.closed is None:
            out.append(Event("close", self._close, idle=1, busy=1))
        if self.left["drop"] and self.lost is None and self.closed is None:
            out.append(Event("unplug", self._drop, idle=1, busy=1))
        if self.left["spurious"]:
            for op in sorted({c.op for c in self.ops if c.sync}):
                out.append(Event("spurious " + op, lambda op=op: self._spurious(op), idle=1,
                                 busy=1))
        return out

    def _issue(self, c):
        self.todo.remove(c)
        self._issue_now(c)

    def _issue_now(self, c):
        c.issued = self.tick()

        async def call():
            try:
                return await self.api.request(t.Subsystem[c.subsys], c.cmd, dict(c.payload),
                                              None, c.expected)
            finally:
                c.end = (self.tick(), self.now)
                if c.tx is None and c.deadline:
                    self.loop.call_env(c.deadline + 0.37, self.sample)

        c.task = self.loop.create_task(call())

    def _cancel(self, c):
        self.left["cancel"] -= 1
        c.cancelled = self.tick()
        c.task.cancel()

    def _close(self):
        self.left["close"] -= 1
        self.closed = (self.tick(), self.now)
        self.api.close()

    def _drop(self):
        self.left["drop"] -= 1
        self.lost = (self.tick(), self.now)
        self.gateway_handle.unplug()

    def _spurious(self, op):
        self.left["spurious"] -= 1
        s, c = OPS[op][:2]
        self._respond(s, c, mt.SRSP, 0)

    def _respond(self, subsys, cmd, ctype, status):
        self.serial += 1
        n = self.serial
        vals = {}
        fields = mt.BY_NAME[(subsys, cmd)]
        fields = fields.get("response") if ctype == mt.SRSP else fields["request"]
        for f, ty in fields:
            vals[f] = b"" if ty == "BUFFER" else 0
            if ty == "BUFFER":
                vals[f] = bytes([n & 255, 0, n >> 8 & 255])
            elif ty in ("UINT16", "UINT32"):
                vals[f] = n & 0xFFFF
        for f in ("len",):
            if f in vals:
                vals[f] = 3
        if "status" in vals:
            vals["status"] = status
        elif not any(ty in ("UINT16", "UINT32", "BUFFER") for _, ty in fields) and fields:
            vals[fields[0][0]] = n & 255
        if (subsys, cmd) == ("SYS", "version"):
            vals["revision"] = n & 0xFFFF
        data = mt.encode_fields(fields, vals)
        has_status = any(f == "status" for f, _ in fields)
        frame = mt.frame(ctype, mt.SUBSYS[subsys], mt.BY_NAME[(subsys, cmd)]["id"], data)
        self.wire.append((self.gateway_handle,
                          Tagged(frame, (subsys, cmd, ctype, status if has_status else None,
                                         {k: v for k, v in vals.items()}))))

    def _deliver(self):
        h, data = self.wire.pop(0)
        tag = getattr(data, "tag", None)
        if tag is not None:
            self.rx.append((self.tick(), self.now) + tag)
        h.feed(bytes(data))

    def _on_cmd(self, handle, cmd):
        order = self.tick()
        # among equal ones prefer the one whose task wrote it, then those that have not ended
        writer = None
        while handle.writers and writer is None:
            data, task = handle.writers.pop(0)
            if mt.frame(*cmd.raw) == data:
                writer = task
        for c in sorted(self.ops, key=lambda c: (c.task is None or c.task is not writer,
                                                 c.end is not None, c.issued or 0)):
            if c.tx is None and c.issued is not None and (c.subsys, c.cmd) == (
                    cmd.subsys, cmd.name):
                want = {k: v for k, v in c.payload.items() if k in cmd.values}
                if want == cmd.values:
                    c.tx = (order, self.now)
                    if c.deadline:
                        self.loop.call_env(c.deadline + 0.37, self.sample)
                    self._adapter(c)
                    return
        self.unmatched.append(cmd)

    def _adapter(self, c):
        if c.op == "areq":
            return
        if c.op in RESETS:
            k = self.ch.pick("reset", ["ok", "never", "srsp-first", "late"], [0, 1, 1, 1])
            if k == "srsp-first":
                self._respond("SYS", "ping", mt.SRSP, 0)
            if k != "never":
                delay = {"ok": 0.5, "srsp-first": 0.5, "late": 31}[k]
                self.loop.call_env(delay, self._respond, "SYS", "resetInd", mt.AREQ, 0)
            return
        names = list(self.answers)
        k = self.ch.pick("answer %s" % c.op, names, [self.answers[n] for n in names])
        me = (c.subsys, c.cmd, mt.SRSP)
        if k == "ok":
            self._respond(*me, self.good(c))
        elif k == "status1":
            self._respond(*me, 1)
        elif k == "status2":
            self._respond(*me, 2)
        elif isinstance(k, int):
            self._respond(*me, k)
        elif k == "twice":
            self._respond(*me, self.good(c))
            self._respond(*me, self.good(c))
        elif k == "other-first":
            self._respond("SYS", "nvLength" if ("SYS", "nvLength") in mt.BY_NAME else "osalNvDelete",
                          mt.SRSP, 0)
            for s, n in (("SYS", "ping"), ("SAPI", "readConfiguration"), ("SYS", "osalNvRead"),
                         ("ZDO", "startupFromApp")):
                if (s, n) != me[:2]:
                    self._respond(s, n, mt.SRSP, 0)
            self._respond(*me, self.good(c))
        elif k == "wrong-type":
            # an asynchronous frame with the same subsystem and id is not the response
            self._respond(c.subsys, c.cmd, mt.AREQ, 0)
            self.loop.call_env(1.0, self._respond, *me, self.good(c))
        elif isinstance(k, str) and k.startswith("at-"):
            self.loop.call_env(float(k[3:]), self._respond, *me, self.good(c))

    def good(self, c):
        return c.expected[-1] if c.expected else 0

    # --- oracle --------------------------------------------------------------------------
    def judge(self):
        check(not self.unmatched, "transmitted %s, which nobody asked for", self.unmatched)
        cut = [x for x in (self.closed, self.lost) if x is not None]
        cut = min(cut) if cut else None
        # order of transmission: the order of issue
        sent = sorted((c for c in self.ops if c.tx), key=lambda c: c.tx)
        by_issue = sorted((c for c in self.ops if c.tx), key=lambda c: c.issued)
        check(sent == by_issue, "issued in order %s, transmitted in order %s", by_issue, sent)
        prev = None
        for c in sent:
            if prev is not None and c.sync:
                over = self.over(prev)
                check(over is not None and over < c.tx[0]
                      or c.tx[1] >= prev.tx[1] + prev.deadline - EPS,
                      "%r was transmitted while %r was unanswered", c, prev)
            if c.sync:
                prev = c
        for c in self.ops:
            self.judge_call(c, cut)

    def over(self, c):
        """when a request is over: answered, or given up by its caller's deadline (a cancelled
        call's response is still due)"""
        outs = [o for o, tm, s, n, ty, *_ in self.rx
                if (s, n, ty) == (c.subsys, c.cmd, mt.SRSP) and o > c.tx[0]][:1]
        if c.end and result_of(c.task)[0] != "cancelled":
            outs.append(c.end[0])
        return min(outs) if outs else None

    def judge_call(self, c, cut):
        r = result_of(c.task)
        what = "%r (issued, transmitted at %s): " % (c, c.tx and c.tx[1])
        check(r[0] != "pending", what + "never ended")
        if c.tx is None:
            ok = (r[0] == "cancelled" and c.cancelled is not None) or (
                cut is not None and (c.op == "areq" or r[0] == "exc" and cut[0] < c.end[0]))
            check(ok, what + "was not transmitted, ended with %r", r)
            return
        if c.op == "areq":
            check(r == ("ok", None) or c.cancelled is not None or (
                r[0] == "exc" and cut is not None), what + "ended with %r", r)
            check(abs(c.end[1] - c.tx[1]) < EPS, what + "returned %s s later",
                  c.end[1] - c.tx[1])
            return
        if c.op in RESETS:
            want = [x for x in self.rx if x[2:5] == ("SYS", "resetInd", mt.AREQ)]
        else:
            want = [x for x in self.rx if x[2:5] == (c.subsys, c.cmd, mt.SRSP)]
        want = [x for x in want if x[0] > c.tx[0] and x[1] < c.tx[1] + c.deadline]
        if r[0] == "cancelled":
            check(c.cancelled is not None, what + "was cancelled by nobody")
            return
        if want and abs(want[0][1] - c.tx[1] - c.deadline) < 0.001 and r[0] == "exc" \
                and r[1] == "TimeoutError" and abs(c.end[1] - c.tx[1] - c.deadline) < 0.01:
            return  # at the very instant of the deadline: either way
        if not want:
            if cut is not None and c.tx[1] <= cut[1] <= c.tx[1] + c.deadline:
                # may be told at once or find out by its timeout
                check(r[0] == "exc" and c.end[1] <= c.tx[1] + c.deadline + 0.01,
                      what + "connection gone, ended with %r", r)
                return
            check(c.cancelled is None or c.end[1] >= c.tx[1] + c.deadline - 0.01,
                  what + "cancelled, but ended with %r", r)
            check(r[0] == "exc" and r[1] == "TimeoutError", what + "unanswered, ended with %r", r)
            check(abs(c.end[1] - (c.tx[1] + c.deadline)) < 0.01,
                  what + "timed out after %.3f s", c.end[1] - c.tx[1])
            return
        first = want[0]
        status, vals = first[5], first[6]
        check(abs(c.end[1] - first[1]) < EPS, what + "answered at %s but ended at %s", first[1],
              c.end[1])
        accepted = c.expected or [0]
        if status is not None and c.op not in RESETS and status not in accepted:
            check(r[0] == "exc" and isinstance(r[2], CommandError) and r[2].status == status,
                  what + "answered with status %s, ended with %r", status, r)
            return
        check(r[0] == "ok", what + "answered with status %s, ended with %r", status, r)
        obj = r[1]
        got = {k: (bytes(v) if isinstance(v, (bytes, bytearray)) else int(v))
               for k, v in obj.payload.items()}
        check(obj.command == first[3] and got == vals,
              what + "got %s, expected the first response %s", obj, vals)

    def outcome(self):
        return [(c.op, result_of(c.task)[0], c.tx and round(c.tx[1], 3),
                 c.end and round(c.end[1], 3)) for c in self.ops]


class Tagged(bytes):
    def __new__(cls, data, tag):
        self = super().__new__(cls, data)
        self.tag = tag
        return self
