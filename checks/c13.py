"""C13: forming the network leaves the adapter configured as requested."""
import itertools

from mc.explore import Scenario
from mc.forming import (CUSTOM, DEFAULT, ENDPOINTS, FAMILY, GROUP, OTHER, Former, adapter,
                        needs_init)
from mc.world import check
from mc.znp import any_firmware, ID, Znp

MARKERS = {"no marker": None, "marker 0": b"\x00", "marker ff": b"\xff", "marker": b"\x55"}


def picked_adapter(ch, want, products=(0, 1, 2), eps=True, extra=()):
    product = ch.pick("product", list(products))
    marker = MARKERS[ch.pick("marker", list(MARKERS))]
    other = set()
    for n in ("CHANLIST", "PRECFGKEYS_ENABLE", "PRECFGKEY", "EXTENDED_PAN_ID") + tuple(extra):
        if ch.pick(n, ["same", "other"]) == "other":
            other.add(n)
    pan = ch.pick("PANID", ["same", "other", "random"])
    if pan == "other":
        other.add("PANID")
    running = ch.pick("state", ["stopped", "running"]) == "running"
    full = eps and ch.pick("endpoints", ["none", "all"]) == "all"
    return adapter(product, want, marker, other, pan == "random", running,
                   ENDPOINTS if full else (), {GROUP} if full else ())


def states(want, **kw):
    def fn(ch):
        z = picked_adapter(ch, want, **kw)
        return judge(ch, z, want)
    return fn


def judge(ch, z, want, pace=None, begin=None, explicit=False):
    init = needs_init(z, want)
    w = Former(ch, z, want)
    if pace is not None:
        w.slow(pace, begin)
    try:
        what = "%s, settings %s: " % (FAMILY[z.product], {hex(k): v.hex() for k, v in
                                                         sorted(z.nv.items())})
        if pace is not None or explicit:
            what += "every answer takes %s s, starting %s s%s: " % (
                pace or 0, begin, ", formed on request" if explicit else "")
        r = w.form(explicit=explicit)
        check(r[0] == "ok", what + "start-up ended with %r", r)
        if init:
            w.check_initialised(what + "formed, but ")
            check(not z.commissioned or z.cleared, what + "not cleared")
        return (init, str(w.outcome), len(w.cmds))
    finally:
        w.close()


def arbitrary(ch):
    """what the settings were before does not matter: factory state, all ones, values that
    resemble the requested ones"""
    product = ch.pick("product", [0, 1, 2])
    want = ch.pick("want", [0, 1]) and CUSTOM or DEFAULT
    z = Znp(product)
    kind = ch.pick("before", ["factory", "ones", "zeros", "swapped", "one off"])
    for n, v in want.settings(product).items():
        old = z.nv[ID[n]]
        z.nv[ID[n]] = {
            "factory": old, "ones": b"\xff" * len(v), "zeros": b"\x00" * len(v),
            "swapped": v[::-1], "one off": v[:-1] + bytes([v[-1] ^ 1])}[kind]
    z.nv[ID["STARTUP_OPTION"]] = ch.pick("option", [b"\x00", b"\x02", b"\x03", b"\x01"])
    m = ch.pick("marker", list(MARKERS))
    if MARKERS[m] is not None:
        z.nv[z.marker_id] = MARKERS[m]
    z.commissioned = ch.pick("commissioned", [False, True])
    z.devstate = ch.pick("devstate", [0, 1, 2, 5, 8, 9, 10])
    z.product = product
    return judge(ch, z, want)


def single_bits(lo, hi):
    """every single bit of every compared setting"""
    def fn(ch):
        product = ch.pick("product", [0, 1, 2])
        z = adapter(product, CUSTOM, b"\x55", running=True)
        bits = [(n, i) for n in ("CHANLIST", "PANID", "EXTENDED_PAN_ID", "PRECFGKEY",
                                 "PRECFGKEYS_ENABLE") for i in range(8 * len(CUSTOM.nv[n]))]
        n, i = ch.pick("bit", bits[lo:hi])
        v = bytearray(z.nv[ID[n]])
        v[i // 8] ^= 1 << i % 8
        z.nv[ID[n]] = bytes(v)
        return judge(ch, z, CUSTOM)
    return fn


def second(ch):
    """an adapter formed in a process that formed another network before"""
    for i in range(2):
        product = ch.pick("product", [0, 1, 2])
        want = ch.pick("want", [0, 1]) and CUSTOM or DEFAULT
        before = ch.pick("before", ["factory", "other", "invalidated"])
        z = Znp(product) if before == "factory" else adapter(
            product, want, b"\x55" if before == "other" else b"\x00", ("PANID", "CHANLIST"),
            running=True, eps=ENDPOINTS, groups={GROUP})
        out = judge(ch, z, want)
    return out


def slowly(ch):
    """adapters that take their time"""
    product = ch.pick("product", [0, 1, 2])
    before = ch.pick("before", ["factory", "other", "stopped"])
    z = Znp(product) if before == "factory" else adapter(
        product, CUSTOM, b"\x55", ("PANID", "CHANLIST") if before == "other" else ())
    return judge(ch, z, CUSTOM, ch.pick("pace", [0, 0.1, 1, 2.5, 4, 5.5]),
                 ch.pick("begin", [None, 3, 9, 12, 19, 25, 31, 40, 52]))


def on_request(ch):
    """formation asked for after a start-up without"""
    return judge(ch, picked_adapter(ch, CUSTOM), CUSTOM, explicit=True)


def build(tier):
    th = tier == "thorough"
    out = [
        Scenario("default", states(DEFAULT, eps=th), bound=0),
        Scenario("custom", states(CUSTOM, eps=th, extra=("LOGICAL_TYPE", "ZDO_DIRECT_CB")
                                  if th else ()), bound=0),
        Scenario("before", arbitrary, bound=0),
        Scenario("firmware", any_firmware(arbitrary) if th else any_firmware(second), bound=0),
        Scenario("second", second, bound=0),
        Scenario("slow", slowly, bound=0),
        Scenario("on-request", on_request, bound=0),
        Scenario("bits", single_bits(0, 10 ** 6), bound=0),
    ]
    return out


ASSUMPTIONS = [
    "the simulated adapter (mc/znp.py) keeps NV items, resets, clears and starts as Z-Stack does; "
    "the standard NV items exist, Z-Stack 3.x.0 has no SAPI, and the other families disclose the "
    "network key through SAPI only (as the driver has it)",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C13", build, ASSUMPTIONS))
