"""C18: shutting down is final and releases the port."""
import asyncio

import serial
import zigpy.types

from mc.explore import Scenario
from checks.c17 import PASTS, two
from mc.recover import TOL, Recover
from mc.world import check, result_of


def shutdowns(products=(1,), running=(True,), phases=("operation",), pasts=((),),
              **kw):
    """a shutdown (or two) at any point of normal operation, recovery or start-up"""
    def fn(ch):
        if len(pasts) > 1:
            kw["history"] = ch.pick("past", pasts)
            kw["horizon"] = 1e8
        product = ch.pick("product", list(products))
        run = ch.pick("running", list(running))
        phase = ch.pick("phase", list(phases))
        w = Recover(ch, product, run, start=phase == "operation", **kw)
        try:
            startup = None
            if phase == "start-up":
                w.loop.tick_cost = None
                startup = w.loop.create_task(w.application.startup(True))
            elif phase == "start-up without formation":
                w.loop.tick_cost = None
                startup = w.loop.create_task(w.application.startup(False))
            out = w.settle()
            if not w.shuts:
                w.left["loss"] = w.left["open"] = w.left["cmd"] = w.left["request"] = 0
                w._shutdown()
                out = w.settle()
            check(out == "quiescent", "%s: still busy after shutdown (%s)", w.story(), out)
            w.check_shut()
            w.check_requests()
            check(w.max_open <= 1, "%s: two serial connections were open", w.story())
            if startup is not None:
                check(startup.done(), "%s: start-up never ended", w.story())
            return w.story(), len(w.opens), len(w.cmds)
        finally:
            w.close()
    return fn


def before(ch):
    """shutting down an application that was never started"""
    w = Recover(ch, 1, start=False)
    try:
        for _ in range(ch.pick("times", [1, 2])):
            w._shutdown()
        w.settle()
        w.check_shut()
        check(not w.opens, "the port was opened")
    finally:
        w.close()


def creation(products=(0, 1, 2), forms=(True, False), **kw):
    """creating the application: every failure of start-up"""
    def fn(ch):
        product = ch.pick("product", list(products))
        form = ch.pick("auto_form", list(forms))
        run = ch.pick("running", [True, False])
        w = Recover(ch, product, run, start=False, **kw)
        try:
            w.loop.tick_cost = None
            cls = type(w.application)
            w.open_exc = None
            conf = dict(w.config(), topology_scan_enabled=False)
            task = w.loop.create_task(cls.new(cls.SCHEMA(conf), auto_form=form))
            ended = []
            task.add_done_callback(lambda t: ended.append(w.now))
            out = w.settle()
            r = result_of(task)
            what = "%s, creating ended with %r: " % (w.story(), r)
            check(out == "quiescent", what + "still busy (%s)", out)
            check(r[0] in ("ok", "exc"), what + "")
            check(w.max_open <= 1, what + "two serial connections were open")
            if not w.faults:
                check(r[0] == "ok" and len(w.ports.open_handles()) == 1, what + "failed")
                w.run(r[1].shutdown())
                w.settle()
            elif r[0] == "ok":
                # the connection was lost after the last step, or a fault did not matter
                check(w.losses and not w.opens[-1][1].dead or
                      w.ports.open_handles(), what + "no port is open")
                w.run(r[1].shutdown())
                w.settle()
            else:
                check(not w.ports.open_handles(), what + "the port was left open")
                late = [t for t, _ in w.opens if t > ended[0]]
                check(not late, what + "the port was opened again at %s", late)
                original(w, r[2], what)
            check(not w.ports.open_handles(), what + "the port is still open")
            return w.story(), r[0], r[0] == "exc" and r[1]
        finally:
            w.close()
    return fn


def original(w, e, what):
    from zigpy_cc.exception import CommandError

    kind = w.faults[0][1]
    if kind == "open fails":
        check(e is w.open_exc, what + "not the original error")
    elif kind.startswith("error"):
        if kind.endswith("activeEpReq"):
            ok = isinstance(e, (asyncio.TimeoutError, CommandError))
        else:
            ok = isinstance(e, CommandError) and e.status == 0x0C
        check(ok, what + "not the original error")
    elif kind.startswith("silence"):
        last = kind.split()[-1]
        check(isinstance(e, asyncio.TimeoutError) or "failed to start" in str(e),
              what + "not the original error")
    else:  # lost; a request without a connection ends with an AttributeError
        check(isinstance(e, (asyncio.TimeoutError, OSError, AttributeError))
              or "failed to start" in str(e),
              what + "not the original error")


KINDS = ("silence", "error", "lost")


def build(tier):
    th = tier == "thorough"
    ph = ("operation", "start-up", "start-up without formation")
    out = [
        Scenario("never-started", before, bound=0),
        Scenario("anywhere", shutdowns(phases=ph, products=(0, 1, 2), running=(True, False),
                                       shutdowns=2), bound=2),
        Scenario("recovery", shutdowns(losses=2, shutdowns=1), bound=3),
        Scenario("faulty-recovery", shutdowns(losses=1, shutdowns=1, opens=2, cmds=1,
                                              kinds=KINDS), bound=3),
        Scenario("faulty-start", shutdowns(losses=1, shutdowns=1, opens=1, cmds=1, kinds=KINDS,
                                           phases=ph[1:]), bound=2),
        Scenario("torn-frames", shutdowns(losses=1, shutdowns=1, noise=1, phases=ph), bound=2),
        Scenario("odd-answers", shutdowns(losses=1, shutdowns=1, cmds=1, kinds=("odd",),
                                          phases=ph), bound=2),
        Scenario("requests", shutdowns(losses=1, shutdowns=1, requests=2), bound=3),
        Scenario("restarted", shutdowns(pasts=PASTS, losses=1, shutdowns=1, opens=1, cmds=1,
                                        kinds=KINDS), bound=2),
        Scenario("two-adapters", two, bound=0),
        Scenario("creation", creation(losses=1, opens=1, cmds=1, kinds=KINDS), bound=1),
        Scenario("creation-fresh", creation(losses=1, opens=1, cmds=1, kinds=KINDS, fresh=True,
                                            forms=(True,)), bound=1),
    ]
    if th:
        out += [
            Scenario("recovery-3", shutdowns(losses=3, shutdowns=2), bound=4),
            Scenario("faulty-recovery-3", shutdowns(losses=2, shutdowns=1, opens=2, cmds=2,
                                                    kinds=KINDS, requests=1), bound=4),
            Scenario("faulty-start-3", shutdowns(losses=1, shutdowns=2, opens=1, cmds=1,
                                                 kinds=KINDS, phases=ph[1:]), bound=3),
            Scenario("creation-2", creation(losses=2, opens=1, cmds=2, kinds=KINDS,
                                            forms=(True,)), bound=2),
        ]
    return out


ASSUMPTIONS = [
    "the adapter answers at once or not at all",
    "the port counts as closed when the transport closed it, which may take one more turn of "
    "the event loop",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C18", build, ASSUMPTIONS))
