"""C16: endpoints and the green-power group end up registered exactly once."""
import itertools

from mc.explore import Scenario
from mc.forming import DEFAULT, ENDPOINTS, FAMILY, GROUP, Former, adapter
from mc.world import check
from mc.znp import any_firmware, Znp

EPS = sorted(ENDPOINTS)
FOREIGN = [[], [7], [9, 10, 240]]


def patterns(full):
    if full:
        return [c for k in range(len(EPS) + 1) for c in itertools.combinations(EPS, k)]
    out = {()}
    for k in (1, 2):
        for c in itertools.combinations(EPS, k):
            out.add(c)
            out.add(tuple(e for e in EPS if e not in c))
    for i in range(len(EPS)):
        for j in range(i + 1, len(EPS) + 1):
            out.add(tuple(EPS[i:j]))
    out.add(tuple(EPS[::2]))
    out.add(tuple(EPS[1::2]))
    return sorted(out, key=lambda c: (len(c), c))


def registered(pats, products=(0, 1, 2), orders=("sorted",), foreign=FOREIGN[:1],
               states=(True,)):
    def fn(ch):
        product = ch.pick("product", list(products))
        pat = ch.pick("before", pats)
        more = ch.pick("others", foreign)
        group = ch.pick("group", [True, False])
        running = ch.pick("running", list(states))
        order = ch.pick("order", list(orders))
        z = adapter(product, DEFAULT, b"\x55", running=running, eps=list(pat) + more,
                    groups={GROUP} if group else set())
        if order != "sorted":
            z.replies[("ZDO", "activeEpReq")] = lambda cmd: unusual(z, cmd, order)
        w = Former(ch, z, DEFAULT)
        try:
            r = w.form()
            what = "%s, endpoints %s and group %s before: " % (
                FAMILY[product], list(pat) + more, group)
            check(r[0] == "ok", what + "start-up ended with %r", r)
            w.check_endpoints(what, more)
            regs = [c.values["endpoint"] for c in w.sent("register")]
            check(sorted(regs) == [e for e in EPS if e not in pat],
                  what + "registered %s", regs)
            adds = [(c.values["endpoint"], c.values["groupid"]) for c in w.sent("extAddGroup")]
            check(adds == ([] if group else [GROUP]), what + "added to groups %s", adds)
            check(z.groups == {GROUP}, what + "the groups are %s", z.groups)
            return regs, adds
        finally:
            w.close()
    return fn


def unusual(z, cmd, order):
    """the answers to activeEpReq, in other orders and among those of other devices"""
    srsp = z.rsp(cmd, status=0)
    eps = sorted(z.endpoints)

    def rsp(src, l):
        return z.areq("ZDO", "activeEpRsp", srcaddr=src, status=0, nwkaddr=src,
                      activeepcount=len(l), activeeplist=l)
    mine, other = rsp(0, eps[::-1]), rsp(0x1234, EPS)
    none = rsp(0x0100, [])
    return [(0, f) for f in {
        "reversed": [srsp, mine],
        "rsp first": [mine, srsp],
        "other device first": [other, srsp, mine],
        "other device between": [srsp, other, mine],
        "none between": [srsp, none, mine]}[order]]


ORDERS = ["reversed", "rsp first", "other device first", "other device between", "none between"]


def crowded(sizes):
    """any number of other endpoints, before, between and behind"""
    free = [e for e in range(1, 241) if e not in EPS]

    def fn(ch):
        n = ch.pick("others", list(sizes))
        where = ch.pick("where", ["low", "high", "spread"])
        more = {"low": free[:n], "high": free[len(free) - n:],
                "spread": free[::len(free) // (n + 1)][:n]}[where]
        return registered([(), (1,), tuple(EPS[:6]), tuple(EPS)], products=(1,),
                          foreign=[more])(ch)
    return fn


def slowly(ch):
    """adapters that take their time, with their endpoint list most of all"""
    product = ch.pick("product", [0, 1, 2])
    pat = ch.pick("before", [(), (1,), (242,), tuple(EPS[:7]), tuple(EPS)])
    z = adapter(product, DEFAULT, b"\x55", running=True, eps=list(pat),
                groups={GROUP} if ch.pick("group", [True, False]) else set())
    w = Former(ch, z, DEFAULT)
    pace = ch.pick("pace", [0, 1, 2.5, 4, 5.5])
    more = ch.pick("endpoint list", [0, 3, 6, 9.5])
    if pace + more > 9.5:
        return "out of time"

    def fault(handle, cmd):
        out = z.command(cmd)
        return [(pace + d + more * (cmd.name == "activeEpReq" and i > 0), f)
                for i, (d, f) in enumerate(out)]
    w.fault = fault
    try:
        r = w.form()
        what = "%s, endpoints %s before, each answer takes %s s, the endpoint list %s s: " % (
            FAMILY[product], list(pat), pace, pace + more)
        check(r[0] == "ok", what + "start-up ended with %r", r)
        w.check_endpoints(what)
        check(len(w.sent("register")) == len(EPS) - len(pat), what + "registered %s",
              w.sent("register"))
        return len(w.cmds)
    finally:
        w.close()


def refused(fresh):
    """an error answer (or none) to any of the registration commands makes formation fail"""
    def fn(ch):
        product = ch.pick("product", [0, 1, 2])
        if fresh:
            z = Znp(product)
            pat = ()
        else:
            pat = ch.pick("before", [(), (1,), (242,), tuple(EPS[:6])])
            z = adapter(product, DEFAULT, b"\x55", running=True, eps=pat)
        cmds = [("register", e) for e in EPS if e not in pat] + [
            ("extFindGroup", None), ("extAddGroup", None)]
        name, ep = ch.pick("refused", cmds)
        how = ch.pick("how", [0x01, 0x02, 0xB8, 0x10, 0xFF, "silence"]
                      if name != "extFindGroup" else [0x02, 0xB8, 0x10, 0xFF, "silence"])
        w = Former(ch, z, DEFAULT)

        def fault(handle, cmd):
            if cmd.name == name and (ep is None or cmd.values["endpoint"] == ep):
                return [] if how == "silence" else [(0, z.error(cmd, how))]
            return z.command(cmd)
        w.fault = fault
        try:
            r = w.form()
            what = "%s, endpoints %s before, %s of %s answered with %s: " % (
                FAMILY[product], pat, name, ep, how)
            check(w.sent(name), what + "never sent")
            check(r[0] == "exc", what + "start-up ended with %r", r)
            check(w.outcome is w.UNSEEN, what + "formation reported %r", w.outcome)
            return r[1]
        finally:
            w.close()
    return fn


def build(tier):
    th = tier == "thorough"
    out = [
        Scenario("patterns", registered(patterns(False), products=(0, 1, 2)), bound=0),
        Scenario("others", registered([(), (1,), (242,), tuple(EPS), tuple(EPS[:7])],
                                      foreign=FOREIGN, states=(True, False),
                                      orders=["sorted"] + ORDERS), bound=0),
        Scenario("firmware", any_firmware(registered([(), (1,), tuple(EPS[:7]), tuple(EPS)])),
                 bound=0),
        Scenario("slow", slowly, bound=0),
        Scenario("crowded", crowded(range(1, 78 - len(EPS), 1 if th else 2)), bound=0),
        Scenario("refused-fresh", refused(True), bound=0),
        Scenario("refused", refused(False), bound=0),
    ]
    if th:
        out.append(Scenario("all-patterns", registered(patterns(True), orders=(
            "sorted", "reversed")), bound=0))
    return out


ASSUMPTIONS = [
    "the simulated adapter keeps its endpoint and group tables as Z-Stack does; a reset clears "
    "the endpoint table",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C16", build, ASSUMPTIONS))
