"""C14: a correctly configured adapter is resumed, never wiped; others are re-initialised."""
from checks.c13 import MARKERS, picked_adapter, single_bits as bits13
from mc.explore import Scenario
from mc.forming import (CUSTOM, DEFAULT, ENDPOINTS, FAMILY, GROUP, Former, Want, adapter,
                        needs_init)
from mc.world import check
from mc.znp import any_firmware, ID


def judge(ch, z, want, pace=None, begin=None, explicit=False):
    init, running, marker = needs_init(z, want), z.devstate == 9, z.nv.get(z.marker_id)
    w = Former(ch, z, want)
    if pace is not None:
        w.slow(pace, begin)
    try:
        what = "%s, state %d, settings %s: " % (FAMILY[z.product], z.devstate, {
            hex(k): v.hex() for k, v in sorted(z.nv.items())})
        if pace is not None or explicit:
            what += "every answer takes %s s, starting %s s%s: " % (
                pace or 0, begin, ", formed on request" if explicit else "")
        r = w.form(explicit=explicit)
        check(r[0] == "ok", what + "start-up ended with %r", r)
        if init:
            check(z.resets > 0 and z.cleared > 0 and z.nv_writes,
                  what + "does not match but was not initialised")
            w.check_configured(what)
            out = "restored" if z.product == 0 and marker != b"\x55" else "reset"
        else:
            w.check_resumed(what + "matches, but ", running)
            out = "resumed"
        if w.outcome is not w.UNSEEN:
            check(w.outcome == out, what + "reported %r, expected %r", w.outcome, out)
        return (init, str(w.outcome), len(w.cmds))
    finally:
        w.close()


def states(want, **kw):
    def fn(ch):
        z = picked_adapter(ch, want, **kw)
        return judge(ch, z, want)
    return fn


def bits(ch):
    """every single bit of every compared setting, and of the marker"""
    product = ch.pick("product", [0, 1, 2])
    z = adapter(product, CUSTOM, b"\x55", running=ch.pick("running", [True, False]))
    todo = [(ID[n], i) for n in ("CHANLIST", "PANID", "EXTENDED_PAN_ID", "PRECFGKEY",
                                 "PRECFGKEYS_ENABLE") for i in range(8 * len(CUSTOM.nv[n]))]
    todo += [(z.marker_id, i) for i in range(8)] + [
        (ID[n], i) for n in ("LOGICAL_TYPE", "ZDO_DIRECT_CB", "TCLK") for i in (0, 7)]
    i, b = ch.pick("bit", todo)
    v = bytearray(z.nv[i])
    v[b // 8] ^= 1 << b % 8
    z.nv[i] = bytes(v)
    return judge(ch, z, CUSTOM)


def pans(part):
    """stored PAN ids"""
    def fn(ch):
        product = ch.pick("product", [0, 1, 2])
        want = [DEFAULT, CUSTOM][ch.pick("want", [0, 1])]
        v = ch.pick("byte", list(range(256)))
        z = adapter(product, want, b"\x55", running=True)
        own = want.nv["PANID"]
        z.nv[ID["PANID"]] = {"low": lambda o: bytes([v, o]), "high": lambda o: bytes([o, v])}[
            part](ch.pick("other byte", [own[part == "low"], 0, 0xFF]))
        return judge(ch, z, want)
    return fn


def filled(ch):
    """settings of equal bytes, in another order, or moved"""
    product = ch.pick("product", [0, 1, 2])
    want = [DEFAULT, CUSTOM][ch.pick("want", [0, 1])]
    z = adapter(product, want, b"\x55", running=ch.pick("running", [True, False]))
    i = ID[ch.pick("setting", ["CHANLIST", "PANID", "EXTENDED_PAN_ID", "PRECFGKEY",
                               "PRECFGKEYS_ENABLE"])]
    v = z.nv[i]
    k = ch.pick("as", ["reversed", "moved", "moved back", "xor", "first byte", "last byte"] + list(
        range(256)))
    z.nv[i] = {"reversed": v[::-1], "moved": v[1:] + v[:1], "moved back": v[-1:] + v[:-1],
               "xor": bytes(255 - b for b in v), "first byte": v[:1] + bytes(len(v) - 1),
               "last byte": bytes(len(v) - 1) + v[-1:]}.get(k) or bytes([k]) * len(v)
    return judge(ch, z, want)


def channels(ch):
    """configured channel sets against the stored mask"""
    product = ch.pick("product", [0, 1, 2])
    a, b = ch.pick("first", list(range(11, 27))), ch.pick("second", list(range(11, 27)))
    want = Want(dict(channels=sorted({a, b})), sorted({a, b}))
    z = adapter(product, want, b"\x55", running=True)
    kind = ch.pick("stored", ["same", "first only", "all"])
    if kind == "first only":
        z.nv[ID["CHANLIST"]] = (1 << a).to_bytes(4, "little")
    elif kind == "all":
        z.nv[ID["CHANLIST"]] = (0x07FFF800).to_bytes(4, "little")
    return judge(ch, z, want)


DEVSTATES = list(range(11)) + list(range(128, 143))


def devstates(ch):
    """in every state the adapter may be in"""
    product = ch.pick("product", [0, 1, 2])
    z = adapter(product, DEFAULT, b"\x55")
    z.commissioned = ch.pick("commissioned", [True, False])
    z.devstate = ch.pick("state", DEVSTATES)
    return judge(ch, z, DEFAULT)


def again(ch):
    """what was formed is resumed the next time, also after a power cut"""
    want = [DEFAULT, CUSTOM][ch.pick("want", [0, 1])]
    z = picked_adapter(ch, want, eps=False)
    w = Former(ch, z, want)
    try:
        r = w.form()
        check(r[0] == "ok", "start-up ended with %r", r)
        w.shutdown()
        if ch.pick("power cut", [False, True]):
            z.reset()
        running = z.devstate == 9
        eps = set(z.endpoints)
        r = w.form(again=ch.pick("same application", [False, True]))
        check(r[0] == "ok", "second start-up ended with %r", r)
        w.check_resumed("formed before, but ", running)
        w.check_endpoints("formed before, but ", eps)
        check(w.outcome in (w.UNSEEN, "resumed"), "reported %r", w.outcome)
        return len(w.cmds)
    finally:
        w.close()


def changed(depth):
    return lambda ch: changing(ch, depth)


def changing(ch, depth):
    """... and initialised again if the adapter's settings changed in between"""
    product = ch.pick("product", [0, 1, 2])
    k = ch.pick("want", [0, 1])
    want, other = [(DEFAULT, CUSTOM), (CUSTOM, DEFAULT)][k]
    same = ch.pick("same application", [True, False])
    z = adapter(product, want, b"\x55", running=True)
    w = Former(ch, z, want)
    try:
        what = "%s, %s settings" % (FAMILY[product], ["default", "custom"][k])
        for step in range(ch.pick("steps", list(range(1, depth + 1)))):
            how = ch.pick("in between", ["nothing", "other network", "setting", "marker", "wiped"])
            what += ", " + how
            if how == "other network":
                for n, v in other.settings(product).items():
                    z.nv[ID[n]] = v
            elif how == "setting":
                n = ch.pick("item", ["PRECFGKEY", "CHANLIST", "PRECFGKEYS_ENABLE"])
                z.nv[ID[n]] = bytes(len(want.nv[n]))
            elif how == "marker":
                z.nv.pop(z.marker_id)
            elif how == "wiped":
                z.nv = dict(adapter(product, other).nv)
            if ch.pick("power", [True, False]):
                z.reset()
            init, running, marker = needs_init(z, want), z.devstate == 9, z.nv.get(z.marker_id)
            cleared = z.cleared
            r = w.form(again=same)
            check(r[0] == "ok", what + ": start-up ended with %r", r)
            if init:
                check(z.cleared > cleared, what + ": was not initialised")
                w.check_configured(what + ": ")
                out = "restored" if z.product == 0 and marker != b"\x55" else "reset"
            else:
                w.check_resumed(what + ": matches, but ", running)
                out = "resumed"
            check(w.outcome in (w.UNSEEN, out), what + ": reported %r, expected %r", w.outcome, out)
            w.shutdown()
        return what
    finally:
        w.close()


def slowly(ch):
    """adapters that take their time"""
    product = ch.pick("product", [0, 1, 2])
    z = adapter(product, CUSTOM, b"\x55", ch.pick("other", [(), ("CHANLIST",)]),
                running=ch.pick("running", [True, False]))
    return judge(ch, z, CUSTOM, ch.pick("pace", [0, 0.1, 1, 2.5, 4, 5.5]),
                 ch.pick("begin", [None, 3, 9, 12, 19, 25, 31, 40, 52]))


def on_request(ch):
    """formation asked for after a start-up without"""
    return judge(ch, picked_adapter(ch, CUSTOM), CUSTOM, explicit=True)


def build(tier):
    th = tier == "thorough"
    return [
        Scenario("default", states(DEFAULT, eps=True), bound=0),
        Scenario("custom", states(CUSTOM, eps=th, extra=("LOGICAL_TYPE", "ZDO_DIRECT_CB")
                                  if th else ()), bound=0),
        Scenario("bits", bits, bound=0),
        Scenario("pan-low", pans("low"), bound=0), Scenario("pan-high", pans("high"), bound=0),
        Scenario("filled", filled, bound=0),
        Scenario("channels", channels, bound=0),
        Scenario("states", devstates, bound=0),
        Scenario("slow", slowly, bound=0),
        Scenario("on-request", on_request, bound=0),
        Scenario("firmware", any_firmware(changed(1)), bound=0),
        Scenario("again", again, bound=0),
        Scenario("changed", changed(3 if th else 2), bound=0),
    ]


ASSUMPTIONS = [
    "the simulated adapter (mc/znp.py) keeps NV items, resets, clears and starts as Z-Stack does; "
    "the standard NV items exist, Z-Stack 3.x.0 has no SAPI, and the other families disclose the "
    "network key through SAPI only (as the driver has it)",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C14", build, ASSUMPTIONS))
