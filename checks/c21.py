"""C21: network settings are stored exactly as configured."""
import itertools

from mc.explore import Scenario
from mc.forming import DEFAULT, ENDPOINTS, FAMILY, GROUP, Former, Want, adapter
from mc.world import check
from mc.znp import any_firmware, DEFAULT_KEY, ID, Znp

ALL = tuple(range(11, 27))
BASE_EXT = bytes([0x10, 0x32, 0x54, 0x76, 0x98, 0xBA, 0xDC, 0xFE])
BASE_KEY = bytes(0x0F + 0x11 * i & 0xFF for i in range(16))


def want(channels=None, pan=None, ext=None, key=None):
    """the configuration, and what the adapter has to store (ext and key: as stored)"""
    conf, kw = {}, {}
    if channels is not None:
        conf["channels"] = list(channels)
        kw["channels"] = tuple(channels)
    if pan is not None:
        conf["pan_id"] = kw["pan"] = pan
    if ext is not None:
        conf["extended_pan_id"] = ":".join("%02x" % b for b in reversed(ext))
        kw["ext"] = ext
    if key is not None:
        conf["key"] = list(key)
        kw["key"] = key
    return Want(conf, **kw)


def stored(values, make, products=(0, 1, 2), modes=("written", "compared")):
    def fn(ch):
        v = ch.pick("value", values)
        product = ch.pick("product", list(products))
        mode = ch.pick("mode", list(modes))
        wnt = make(v)
        if mode == "written":
            z = adapter(product, wnt, None, ("CHANLIST", "PANID", "EXTENDED_PAN_ID", "PRECFGKEY",
                                             "PRECFGKEYS_ENABLE"))
        else:
            z = adapter(product, wnt, b"\x55", running=True, eps=ENDPOINTS, groups={GROUP})
        w = Former(ch, z, wnt)
        try:
            r = w.form()
            what = "%s, configured %s, %s: " % (FAMILY[product], wnt.conf, mode)
            check(r[0] == "ok", what + "start-up ended with %r", r)
            if mode == "written":
                w.check_initialised(what)
                written(w, wnt, what)
            else:
                w.check_resumed(what, True)
            return sorted((k, x.hex()) for k, x in z.nv.items())
        finally:
            w.close()
    return fn


OTHERWISE = [dict(channel=20), dict(channel=26), dict(key_sequence_number=7),
             dict(tc_address="11:22:33:44:55:66:77:88"), dict(update_id=255), dict(update_id=0),
             dict(tc_link_key=list(range(16))), dict(tc_link_key=[0xFF] * 16),
             dict(channel=11, key_sequence_number=255, update_id=1,
                  tc_address="01:02:03:04:05:06:07:08", tc_link_key=list(range(0xF0, 0x100)))]


def beside(make):
    """what else the configuration may say about the network changes nothing in these"""
    combos = [(), ("channels",), ("pan",), ("ext",), ("key",), ("channels", "pan", "ext", "key")]
    vals = dict(channels=(12, 25), pan=0x0203, ext=BASE_EXT, key=BASE_KEY)

    def one(v):
        names, more = v
        wnt = make({n: vals[n] for n in names})
        wnt.conf.update(more)
        return wnt
    return stored(list(itertools.product(combos, OTHERWISE)), one)


def repeatedly(values, make, products=(0, 1, 2), times=3):
    """one application forms a network, finds it again, and forms it again on a blank adapter"""
    def fn(ch):
        wnt = make(ch.pick("value", values))
        product = ch.pick("product", list(products))
        w = Former(ch, Znp(product), wnt)
        try:
            for i in range(times):
                if i:
                    w.shutdown()
                    w.znp = Znp(product)
                r = w.form(again=True)
                what = "%s, configured %s, time %d: " % (FAMILY[product], wnt.conf, i + 1)
                check(r[0] == "ok", what + "start-up ended with %r", r)
                w.check_initialised(what)
                written(w, wnt, what)
                w.check_endpoints(what)
                w.settle()
                w.shutdown()
                r = w.form(again=True)
                check(r[0] == "ok", what + "the next start-up ended with %r", r)
                w.check_resumed(what + "then ", True)
                w.settle()
            return sorted((k, x.hex()) for k, x in w.znp.nv.items())
        finally:
            w.close()
    return fn


def written(w, wnt, what):
    """every write of a setting carries the value to store, in full, at offset 0"""
    names = {ID[n]: n for n in wnt.nv}
    for c in w.sent("osalNvWrite", "writeConfiguration"):
        i = c.values.get("id", c.values.get("configid"))
        if i in names:
            v = wnt.nv[names[i]]
            check(c.values["value"] == v and c.values["len"] == len(v)
                  and c.values.get("offset", 0) == 0, what + "%s was written as %s",
                  names[i], c)


def byte_values(base, every):
    out = []
    for i in range(len(base)):
        for b in every:
            out.append(base[:i] + bytes([b]) + base[i + 1:])
    return sorted(set(out))


def pans(full):
    if full:
        return list(range(0x10000))
    out = {0x1A62, 0x1A61, 0x1A63, 0x621A}
    for b in range(256):
        out |= {b, b << 8, b * 0x101, 0x3400 | b, b << 8 | 0x12}
    for i in range(16):
        out |= {1 << i, 0xFFFF ^ (1 << i)}
    return sorted(out)


def subsets(full):
    if full:
        return [c for k in range(1, 17) for c in itertools.combinations(ALL, k)]
    out = {c for k in (1, 2) for c in itertools.combinations(ALL, k)}
    out |= {tuple(x for x in ALL if x not in c) for c in out}
    out |= {ALL[i:j] for i in range(16) for j in range(i + 1, 17)}
    return sorted(c for c in out if c)


def build(tier):
    th = tier == "thorough"
    full = range(256)
    some = [0, 1, 0x7F, 0x80, 0xFF, 0xFE, 0x0D, 0x55]
    combos = [dict(zip(("channels", "pan", "ext", "key"), c)) for c in itertools.product(
        (None, (12, 25)), (None, 0x0203), (None, BASE_EXT), (None, BASE_KEY))]
    one = ("written",)
    out = [
        Scenario("combinations", stored(combos, lambda d: want(**d)), bound=0),
        Scenario("firmware", any_firmware(stored(combos[::5], lambda d: want(**d))), bound=0),
        Scenario("beside", beside(lambda d: want(**d)), bound=0),
        Scenario("repeatedly", repeatedly(combos, lambda d: want(**d), times=6 if th else 3),
                 bound=0),
        Scenario("pan-ids", stored(pans(False), lambda p: want(pan=p), products=(1,)), bound=0),
        Scenario("pan-ids-12", stored([0, 1, 0x1A62, 0x3412, 0xFFFE, 0xFF00, 0xFF],
                                      lambda p: want(pan=p), products=(0, 2)), bound=0),
        Scenario("channels", stored(subsets(False), lambda c: want(c), products=(2,)), bound=0),
        Scenario("channels-12", stored([(c,) for c in ALL], lambda c: want(c),
                                       products=(0, 1)), bound=0),
        Scenario("order", stored(list(itertools.permutations((11, 19, 26))),
                                 lambda c: want(c), products=(0, 1)), bound=0),
        Scenario("key", stored(byte_values(BASE_KEY, full if th else some),
                               lambda k: want(key=k), products=(0, 1)), bound=0),
        Scenario("key-3", stored(byte_values(BASE_KEY, full), lambda k: want(key=k),
                                 products=(2,), modes=one), bound=0),
        Scenario("uniform", stored([(e, k) for e in (0, 0xFF, 0xDD) for k in (0, 0xFF, 0x01)],
                                   lambda p: want(ext=bytes([p[0]] * 8),
                                                  key=bytes([p[1]] * 16))), bound=0),
        Scenario("ext", stored(byte_values(BASE_EXT, full), lambda e: want(ext=e),
                               products=(0, 1, 2) if th else (1,), modes=(
                                   "written", "compared") if th else one), bound=0),
        Scenario("ext-2", stored(byte_values(BASE_EXT, some), lambda e: want(ext=e),
                                 products=(0, 2)), bound=0),
    ]
    if th:
        out += [
            Scenario("all-pan-ids", stored(pans(True), lambda p: want(pan=p), products=(1,)),
                     bound=0),
            Scenario("all-channels", stored(subsets(True), lambda c: want(c), products=(1,)),
                     bound=0),
        ]
    return out


ASSUMPTIONS = [
    "the network part of the configuration is read by zigpy's schema",
    "the simulated adapter keeps NV items as Z-Stack does",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C21", build, ASSUMPTIONS))
