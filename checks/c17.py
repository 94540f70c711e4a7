"""C17: a lost connection is always re-established."""
import serial

from mc.explore import Scenario
from mc.net import A, PATHS, Two, incoming
from mc.recover import OPEN_ERRORS, TOL, Recover
from mc.znp import any_firmware
from mc.world import check, result_of


PASTS = [("restarted",), ("restarted at once",), ("lost", "restarted"),
         ("shut down while lost",), ("lost twice at once",), ("idle",), ("lost", "idle"),
         ("lost", "shut down while lost", "restarted", "lost")]


def recovery(products=(1,), running=(True,), powers=(False,), pasts=((),), **kw):
    def fn(ch):
        if len(pasts) > 1:
            kw["history"] = ch.pick("past", pasts)
            kw["horizon"] = 1e8
        product = ch.pick("product", list(products))
        run = ch.pick("running", list(running))
        power = ch.pick("power", list(powers))
        w = Recover(ch, product, run, power=power, **kw)
        try:
            w.first = w.now
            out = w.settle()
            check(out == "quiescent", "%s: recovery never ends (%s)", w.story(), out)
            w.find_out()
            w.check_recovery()
            w.check_working()
            w.check_requests()
            return w.story(), len(w.opens), len(w.cmds)
        finally:
            w.close()
    return fn


class Stubborn(Recover):
    """the same fault again and again"""
    fail = None  # (what, how often)

    def open_result(self, line):
        if self.fail and self.fail[0] == "open" and self.fail[1] > 0:
            self.fail[1] -= 1
            self.faults.append((self.now, "open fails"))
            self.opens.append((self.now, None))
            return serial.SerialException("could not open port")
        return super().open_result(line)

    def _fault(self, handle, cmd):
        if self.fail and self.fail[0] != "open" and self.fail[1] > 0:
            how, name = self.fail[0]
            if cmd.name == name:
                self.last_tx[handle] = (self.now, cmd.name)
                self.fail[1] -= 1
                self.failing.add(handle)
                self.incomplete.add(handle)
                self.faults.append((self.now, "%s at %s" % (how, name)))
                if how == "error":
                    return [(0, self.znp.error(cmd, 0x0C))]
                if how == "lost":
                    self._lose("unplug", "at %s" % cmd.name)
                return []
        return super()._fault(handle, cmd)


class Slow(Recover):
    """an adapter that takes its time"""

    def _fault(self, handle, cmd):
        out = super()._fault(handle, cmd)
        if not self.pace and self.begin is None:
            return out
        return [(self.pace + (self.begin if callable(f) and self.begin is not None else d), f)
                for d, f in out]


def slow(paces, begins, **kw):
    """an attempt is given the time it needs"""
    def fn(ch):
        product = ch.pick("product", [0, 1, 2])
        run = ch.pick("running", [True, False])
        w = Slow(ch, product, run, power=ch.pick("power", [False, True]), **kw)
        try:
            w.first = w.now
            w.pace = ch.pick("pace", paces)
            w.begin = ch.pick("takes to start", begins)
            w._lose("unplug")
            check(w.settle() == "quiescent", "%s: recovery never ends", w.story())
            what = "every answer takes %s s, starting %s s: %s: " % (w.pace, w.begin, w.story())
            if len(w.faults) == 1:
                check(len(w.opens) == 2, what + "attempts at %s", [o[0] for o in w.opens])
            w.check_recovery()
            w.pace = 0
            w.check_working()
            return what, len(w.opens)
        finally:
            w.close()
    return fn


def persistent(counts):
    def fn(ch):
        what = ch.pick("what", ["open", ("silence", "ping"), ("silence", "version"),
                                ("error", "osalNvRead"), ("lost", "getDeviceInfo"), "losses"])
        n = ch.pick("times", [c for c in counts if what == "open" or c <= counts[-1] // 2])
        w = Stubborn(ch, ch.pick("product", [0, 1]), True, horizon=1e6)
        w.loop.max_steps = 10 ** 7
        try:
            w.first = w.now
            if what != "losses":
                w.fail = [what, n]
                w._lose("unplug")
                check(w.settle() == "quiescent", "recovery never ends")
            else:
                for _ in range(n):
                    w._lose("unplug")
                    check(w.settle() == "quiescent", "recovery never ends")
            w.check_recovery()
            w.check_working()
            if ch.pick("afterwards", ["nothing", "shutdown"]) == "shutdown":
                w._shutdown()
                w.settle()
                w.check_shut()
            return what, n, len(w.opens)
        finally:
            w.close()
    return fn


def absent(ch):
    """an adapter that is gone for long: hours, days"""
    n = ch.pick("attempts", [400, 725, 1500, 17500])
    w = Stubborn(ch, ch.pick("product", [0, 1, 2]), True, horizon=1e7)
    w.loop.max_steps = 10 ** 8
    try:
        w.first = w.now
        w.fail = ["open", n]
        w._lose("unplug")
        check(w.settle() == "quiescent", "recovery never ends")
        check(len(w.opens) == n + 2, "%d attempts", len(w.opens) - 1)
        check(w.opens[-1][0] - w.opens[1][0] <= 5.01 * n, "the last attempt was at %.1f",
              w.opens[-1][0])
        w.check_working()
        return n, len(w.opens)
    finally:
        w.close()


def two(ch):
    """two adapters in one process; one (or the other, or both) is lost, comes back later"""
    w = Two(ch, (1, 2))
    try:
        t0 = w.now
        what, n = "", len(w.ports.handles)
        absent = {}
        lost = ch.pick("lost", ["0", "1", "01", "10"])
        between = ch.pick("between", [0, 0.5, 4.99, 5, 5.5, 7.2]) if len(lost) > 1 else 0
        for k, i in enumerate(map(int, lost)):
            absent[i] = ch.pick("failing attempts", [0, 1, 3])
            w.loop.call_env(k * between, w.handle_of(i).unplug)
            what += "lost %d at %.2f, %d attempts fail; " % (i, k * between, absent[i])
        left = dict(absent)
        at = {0: [], 1: []}

        def open_result(line):
            i = line.path == PATHS[1]
            at[i].append(round(w.now - t0, 2))
            if left.get(i):
                left[i] -= 1
                return serial.SerialException("could not open port")
        w.open_result = open_result
        stop = ch.pick("shut down", ["no", "0", "1"])
        if stop != "no":
            when = ch.pick("when", [0.3, 5.2, 6.4, 11.7])
            w.loop.call_env(when, lambda: w.loop.create_task(w.apps[int(stop)].shutdown()))
            what += "%s is shut down at %.1f; " % (stop, when)
        check(w.settle() == "quiescent", what + "never comes to rest")
        for i in range(2):
            mine = [h for h in w.ports.open_handles() if h.line.path == PATHS[i]]
            if str(i) == stop:
                check(not mine, what + "the port of %d is open", i)
                check(all(x <= when + 0.01 for x in at[i]), what + "%d was opened at %s", i, at[i])
                continue
            first = [k * between for k, x in enumerate(lost) if int(x) == i]
            want = [round(f + 5 * (j + 1), 2) for f in first for j in range(absent[i] + 1)]
            check(len(at[i]) == len(want) and all(
                abs(a - b) <= TOL for a, b in zip(at[i], want)), what +
                "the port of %d was opened at %s, expected %s", i, at[i], want)
            check(len(mine) == 1 and mine[0].dead is None, what + "%d has no connection", i)
            mark = len(w.cmds)
            w.send(incoming(A[1], data=b"\x18\x66\x0a"), mine[0])
            r = result_of(w.run(w.apps[i].request(
                w.apps[i].get_device(nwk=A[1]), 0x0104, 6, 1, 1, 21 + i, bytes([1, 21 + i, 0]))))
            w.settle()
            check(r[0] == "ok" and r[1][0] == 0, what + "a request through %d ended with %r", i, r)
            check([m.ieee for m in w.messages] == [w.ieee(i, A)], what +
                  "a message through %d was delivered as %s", i, w.messages)
            w.messages.clear()
            check([c.name for c in w.cmds[mark:]] == ["dataRequest"], what + "sent %s",
                  w.cmds[mark:])
        return what
    finally:
        w.close()


def build(tier):
    th = tier == "thorough"
    out = [
        Scenario("losses", recovery(losses=3), bound=3),
        Scenario("mixed", recovery(losses=2, opens=2, cmds=2,
                                   kinds=("silence", "error", "lost")), bound=3),
        Scenario("odd-answers", recovery(products=(0, 1, 2), running=(True, False), losses=1,
                                         cmds=2, kinds=("odd",), how=("unplug", "torn"),
                                         ), bound=3 if th else 2),
        Scenario("replaced", recovery(products=(0, 1, 2), losses=1, cmds=1, kinds=(
            "odd", "error", "silence", "lost"), how=("replaced",)), bound=2),
        Scenario("opens", recovery(losses=1, opens=6), bound=7),
        Scenario("open-errors", recovery(losses=1, opens=2, cmds=1, open_kinds=tuple(OPEN_ERRORS)),
                 bound=4 if th else 3),
        Scenario("persistent", persistent([2, 3, 4, 5, 6, 8, 10, 11, 12, 16, 20, 21, 31, 33, 50,
                                           65, 101, 130] + [257, 300, 1001] * th), bound=0),
        Scenario("products", recovery(products=(0, 1, 2), running=(True, False), losses=2,
                                      opens=1, cmds=1, powers=(False, True)), bound=2),
        Scenario("formed-anew", recovery(products=(0, 1, 2), losses=2, fresh=True), bound=2),
        Scenario("write-errors", recovery(losses=2, requests=1,
                                          how=("unplug", "write error")), bound=3 if th else 2),
        Scenario("requests", recovery(losses=2, requests=1), bound=3),
        Scenario("absent", absent, bound=0),
        Scenario("firmware", any_firmware(recovery(products=(0, 1, 2), running=(True, False),
                                                   losses=1)), bound=1),
        Scenario("two-adapters", two, bound=0),
        Scenario("slow", slow([0, 0.3, 1.5, 5.5], [None, 20, 35, 52]), bound=0),
        Scenario("slow-lost", slow([0, 2, 5.5] if th else [2], [None, 35] if th else [35],
                                   losses=1), bound=1),
        Scenario("ends", recovery(products=(0, 1), losses=2, cmds=1 * th, how=(
            "read error", "hang-up", "torn")), bound=2 + th),
        Scenario("restarted", recovery(pasts=PASTS, losses=2, opens=1, cmds=1,
                                       kinds=("silence", "error", "lost")), bound=2),
    ]
    if th:
        out += [
            Scenario("losses-4", recovery(losses=4), bound=4),
            Scenario("losses-power", recovery(losses=3, powers=(True,)), bound=3),
            Scenario("requests-2", recovery(losses=2, requests=2), bound=3),
            Scenario("mixed-4", recovery(losses=3, opens=2, cmds=2, requests=1,
                                         kinds=("silence", "error", "lost")), bound=4),
        ]
    return out


ASSUMPTIONS = [
    "the adapter answers at once or not at all (late answers: C05, C06)",
    "a port that fails to write without failing to read is noticed when something is written",
    "a failing attempt may take as long as the deadline of the command that was waiting, and "
    "of the requests queued before it",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C17", build, ASSUMPTIONS))
