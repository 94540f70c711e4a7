"""C11: incoming messages are delivered exactly once, to the right device, in order."""
import asyncio
import itertools

import zigpy.device

from checks import c12
from mc import mt
from mc.explore import Chooser, Enumeration, Scenario
from mc.loop import Event
from mc.net import (A, B, C, PATHS, Net, Two, announce, incoming, incoming_ext, key)
from mc.recover import Recover
from mc.world import check, result_of
from mc.znp import IEEE

LONG = bytes(i * 5 & 0xFF for i in range(256))
DEVS = {"A": A, "B": B, "C": C}
HIGH = (bytes([0xFF, 0xFE, 0xFD, 0, 0, 0, 0, 0]), 0xFFF7)
ZERO = (bytes([1, 0, 0, 0, 0, 0, 0, 0]), 0x0001)


class In:
    def __init__(self, ch=None, **kw):
        self.w = Net(ch or Chooser(), devices=(A, B, C, HIGH, ZERO), horizon=1e9, **kw)
        self.w.loop.max_steps = 10 ** 9
        self.w.loop.tick_cost = None

    def feed(self, data):
        self.w.send(data)
        self.w.run(asyncio.sleep(0.001))

    def case(self, stats, frame, want, what):
        stats.evals += 1
        stats.distinct += 1
        self.w.messages.clear()
        self.feed(frame)
        got = [fields(m) for m in self.w.messages]
        check(got == want, "%s: delivered %s, expected %s", what, got, want)
        check(not self.w.loop.errors, "%s: %s", what, self.w.loop.errors)


def fields(m):
    return (m.ieee.hex(), m.cluster, m.src_ep, m.dst_ep, m.data.hex(), m.lqi)


def expected(ieee, cluster, src, dst, data, lqi):
    return (ieee.hex(), cluster, src, dst, data.hex(), lqi)


def short_form(stats):
    o = In()
    try:
        for (ieee, nwk), cluster, src, dst, data, lqi, group in itertools.product(
                (A, B, C, HIGH, ZERO, (IEEE, 0)), [0, 6, 0x0600, 0xFC00, 0xFFFF],
                [0, 1, 242, 255], [0, 1, 255], [b"", b"\x00", b"\xfe\x01\x02", LONG[:70]],
                [0, 1, 255], [0, 0x0101]):
            o.case(stats, incoming(nwk, cluster, src, dst, data, lqi, group),
                   [expected(ieee, cluster, src, dst, data, lqi)],
                   "message from 0x%04x" % nwk)
        for v in range(256):
            for cluster in (v, v << 8):
                o.case(stats, incoming(A[1], cluster), [expected(A[0], cluster, 1, 1, b"\1\2\3",
                                                                 77)], "cluster 0x%x" % cluster)
            o.case(stats, incoming(A[1], 6, v, 1, b"x", 255 - v),
                   [expected(A[0], 6, v, 1, b"x", 255 - v)], "endpoint %d" % v)
            o.case(stats, incoming(A[1], 6, 1, v, b"x", v), [expected(A[0], 6, 1, v, b"x", v)],
                   "to endpoint %d" % v)
            d = LONG[:v]
            if v <= 255 - 17:
                o.case(stats, incoming(B[1], 6, 1, 1, d), [expected(B[0], 6, 1, 1, d, 77)],
                       "%d bytes" % v)
            d = bytes([v])
            o.case(stats, incoming(B[1], 6, 1, 1, d, tsn=v), [expected(B[0], 6, 1, 1, d, 77)],
                   "number %d" % v)
    finally:
        o.w.close()


def extended_form(stats):
    o = In()
    try:
        for (ieee, nwk), mode, cluster, src, dst, data, lqi in itertools.product(
                (A, B, C, HIGH, ZERO, (IEEE, 0)), [2, 3], [0, 6, 0x0600, 0xFFFF], [0, 1, 255],
                [0, 1, 255], [b"", b"\xfe\x01\x02", LONG[:60]], [0, 255]):
            addr = nwk if mode == 2 else ieee
            o.case(stats, incoming_ext(mode, addr, cluster, src, dst, data, lqi),
                   [expected(ieee, cluster, src, dst, data, lqi)],
                   "extended message from %s" % (addr,))
        for v in range(256):
            d = LONG[:v]
            if v <= 255 - 27:
                o.case(stats, incoming_ext(2, B[1], 6, 1, 1, d), [expected(B[0], 6, 1, 1, d, 77)],
                       "extended, %d bytes" % v)
            o.case(stats, incoming_ext(3, A[0], v << 8 | 1, v, 255 - v, b"x", v),
                   [expected(A[0], v << 8 | 1, v, 255 - v, b"x", v)], "extended, %d" % v)
    finally:
        o.w.close()


def headers(stats):
    """how a message travelled does not matter: every combination of the other fields"""
    o = In()
    try:
        for wasb, sec, ts, tsn, group, dev in itertools.product(
                (0, 1, 2, 255), (0, 1, 255), (0, 1, 0x7FFFFFFF, 0xFFFFFFFF), (0, 1, 0xFF),
                (0, 1, 0x0902, 0xFFFF), (A, C)):
            k = dict(wasbroadcast=wasb, securityuse=sec, timestamp=ts, tsn=tsn, group=group)
            want = [expected(dev[0], 6, 1, 1, b"\1\2\3", 77)]
            o.case(stats, incoming(dev[1], **k), want, "message with %s" % k)
            for panid in (0, 0x1A62, 0xFFFF):
                o.case(stats, incoming_ext(3, dev[0], panid=panid, **k), want,
                       "extended message with %s, pan 0x%x" % (k, panid))
                o.case(stats, incoming_ext(2, dev[1], panid=panid, **k), want,
                       "extended message with %s, pan 0x%x" % (k, panid))
        for v in range(256):
            k = dict(wasbroadcast=v, securityuse=255 - v, timestamp=v << 24 | v << 8,
                     group=v << 8 | v)
            want = [expected(B[0], 6, 1, 1, b"\1\2\3", 77)]
            o.case(stats, incoming(B[1], **k), want, "message with %s" % k)
            o.case(stats, incoming_ext(3, B[0], panid=v << 8, **k), want,
                   "extended message with %s" % k)
    finally:
        o.w.close()


EPS = ((1, 1), (0, 0), (11, 13), (242, 242))


def clusters(ids, few=None):
    """every cluster, from and to endpoints of several kinds"""
    def fn(stats):
        o = In()
        try:
            for c in ids:
                for n, (src, dst) in enumerate(EPS) if few is None or c in few else (
                        (c, EPS[c % 4]),):
                    f = incoming(A[1], c, src, dst) if (c + n) % 2 else incoming_ext(
                        2 + (c >> 1) % 2, A[(c >> 1) % 2 == 0], c, src, dst)
                    o.case(stats, f, [expected(A[0], c, src, dst, b"\1\2\3", 77)],
                           "cluster 0x%x, endpoints %d->%d" % (c, src, dst))
        finally:
            o.w.close()
    return fn


def appended(stats):
    """newer stacks append fields to a message (the neighbour it came from, the radius left)"""
    o = In()
    try:
        tails = [bytes([a, b, c]) for a, b, c in itertools.product((0, 1, 0x34, 0xFE, 0xFF),
                                                                   (0, 0x12, 0xFF), (0, 0x1E, 0xFE))]
        tails += [b"\0", b"\x34\x12", bytes(8), bytes(range(40))]
        for (ieee, nwk), form, n, cluster, tail in itertools.product(
                (A, C), (0, 2, 3), (0, 1, 2, 3, 60, 180), (0, 6, 0xFFFF), tails):
            d = LONG[:n]
            a = (cluster, 1, 2, d, 9)
            f = incoming(nwk, *a) if not form else incoming_ext(
                form, nwk if form == 2 else ieee, *a)
            o.case(stats, mt.longer(f, tail), [expected(ieee, *a)],
                   "message of %d bytes with %s appended" % (n, tail.hex()))
    finally:
        o.w.close()


def unready(stats):
    """devices zigpy is still getting to know: it drops what it cannot handle yet itself"""
    o = In()
    try:
        dev = o.w.device(A[0])
        for status, busy, form, cluster, src, dst, data in itertools.product(
                (0, 1, 2), (False, True), (0, 2, 3), (0, 6, 0x19, 0x8005), (0, 1), (0, 1, 255),
                (b"", b"\x18\x01\x0a")):
            dev.status = zigpy.device.Status(status)
            dev.initializing = busy
            f = incoming(A[1], cluster, src, dst, data) if not form else incoming_ext(
                form, A[1] if form == 2 else A[0], cluster, src, dst, data)
            drop = dst != 0 and (status == 0 or status == 1 and cluster != 0)
            o.case(stats, f, [] if drop else [expected(A[0], cluster, src, dst, data, 77)],
                   "message to a device of status %d (%s)" % (status, busy))
            check(dev.lqi == 77, "link quality of a device of status %d: %s", status, dev.lqi)
            o.case(stats, incoming(B[1], cluster, src, dst, data, 78),
                   [expected(B[0], cluster, src, dst, data, 78)], "message to another device")
            dev.lqi = None
    finally:
        o.w.close()


def contents(form):
    """nor does it matter for any kind of content"""
    def fn(stats):
        o = In()
        try:
            for wasb, sec, ts, tsn, group, data, cluster, dst, src in itertools.product(
                    (0, 1), (0, 1), (0, 99), (0, 7), (0, 3),
                    (b"", b"\x18", LONG[:4], b"\x18\x07\x0a\x00\x00\x10", LONG[3:90], LONG[:200]),
                    (0, 6, 0x13, 0x500, 0x8002, 0xFC00), (0, 1, 242, 255), (0, 1, 242)):
                k = dict(wasbroadcast=wasb, securityuse=sec, timestamp=ts, tsn=tsn, group=group)
                a = (cluster, src, dst, data, 200)
                want = [expected(A[0], *a)]
                what = "message with %s, cluster 0x%x, endpoints %d->%d, %d bytes" % (
                    k, cluster, src, dst, len(data))
                if form == 0:
                    f = incoming(A[1], *a, **k)
                else:
                    f = incoming_ext(form, A[0] if form == 3 else A[1], *a, **k)
                o.case(stats, f, want, what)
        finally:
            o.w.close()
    return fn


def unknown(stats):
    """every short address, and addresses that resemble those of known devices"""
    o = In()
    known = {A[1]: A[0], B[1]: B[0], C[1]: C[0], HIGH[1]: HIGH[0], ZERO[1]: ZERO[0], 0: IEEE}
    try:
        for nwk in itertools.chain(range(0, 0x10000, 0x0F1), range(256), range(0, 0x10000, 256),
                                   known):
            want = [expected(known[nwk], 6, 1, 1, b"\1\2\3", 77)] if nwk in known else []
            o.case(stats, incoming(nwk), want, "message from 0x%04x" % nwk)
            o.case(stats, incoming_ext(2, nwk), want, "extended message from 0x%04x" % nwk)
        for ieee, nwk in (A, B, C):
            for i in range(8):
                for x in (1, 0x80, 0xFF):
                    bad = bytearray(ieee)
                    bad[i] ^= x
                    o.case(stats, incoming_ext(3, bytes(bad)), [],
                           "extended message from %s" % bytes(bad).hex())
            o.case(stats, incoming_ext(3, nwk), [], "extended message from 0x%x" % nwk)
            if ieee[::-1] not in (A[0], B[0], C[0]):
                o.case(stats, incoming_ext(3, ieee[::-1]), [], "reversed address")
    finally:
        o.w.close()


def notifications(stats):
    """every other frame the adapter may send, of all types, naming a known device"""
    o = In()
    delivered = ("incomingMsg", "incomingMsgExt", "endDeviceAnnceInd")
    try:
        for (subsys, name), cmd in mt.BY_NAME.items():
            for ctype in (mt.SREQ, mt.AREQ, mt.SRSP, mt.POLL):
                if ctype == mt.AREQ and name in delivered:
                    continue
                fs = mt.fields_of(cmd, ctype)
                for nwk, ieee, fill in ((A[1], A[0], 0), (B[1], B[0], 1), (A[1], C[0], 255)):
                    vals = {}
                    try:
                        for n, t in fs or ():
                            if t == "UINT16" and ("addr" in n or n == "srcaddr"):
                                vals[n] = nwk
                            elif t == "IEEEADDR":
                                vals[n] = ieee
                            elif t == "INT8":
                                vals[n] = -1 if fill == 255 else fill
                            elif t in mt.FIXED and not t.startswith("BUFFER"):
                                vals[n] = fill
                            elif t.startswith("BUFFER"):
                                vals[n] = bytes(mt.FIXED.get(t, 0))
                            else:
                                vals[n] = []
                        prev = None
                        for n, t in fs or ():
                            if t.startswith("LIST") or t == "BUFFER":
                                if prev and mt.is_length_for(prev, t):
                                    vals[prev] = 0
                            prev = n
                        data = mt.encode_fields(fs or (), vals)
                    except mt.Unsupported:
                        continue
                    o.case(stats, mt.frame(ctype, mt.SUBSYS[subsys], cmd["id"], data), [],
                           "%s of %s.%s" % (ctype, subsys, name))
        for ctype in (mt.POLL, mt.SREQ, mt.SRSP):
            for f in (incoming(A[1]), incoming_ext(2, A[1]), incoming_ext(3, A[0])):
                o.case(stats, mt.frame(ctype, 4, f[3], f[4:-1]), [], "type %d" % ctype)
        for subsys in range(32):
            if subsys != 4:
                for f in (incoming(A[1]), incoming_ext(2, A[1])):
                    o.case(stats, mt.frame(mt.AREQ, subsys, f[3], f[4:-1]), [],
                           "subsystem %d" % subsys)
    finally:
        o.w.close()


TOKENS = {
    "A": (incoming(A[1]), A[0], 6, b"\1\2\3"),
    "A again": (incoming(A[1]), A[0], 6, b"\1\2\3"),
    "B": (incoming(B[1], 0x0500, data=b"\x09"), B[0], 0x0500, b"\x09"),
    "C by ieee": (incoming_ext(3, C[0], data=b""), C[0], 6, b""),
    "B extended": (incoming_ext(2, B[1], data=b"\xfe\xfe"), B[0], 6, b"\xfe\xfe"),
    "unknown": (incoming(0x7777), None, 0, b""),
    "unknown ieee": (incoming_ext(3, bytes(8)), None, 0, b""),
    "confirm": (mt.encode("AF", "dataConfirm", dict(status=0, endpoint=1, transid=0)), None, 0,
                b""),
    "permit": (mt.encode("ZDO", "permitJoinInd", dict(duration=0)), None, 0, b""),
    "srsp": (mt.encode("AF", "dataRequest", dict(status=0), mt.SRSP), None, 0, b""),
    "route": (mt.encode("ZDO", "srcRtgInd", dict(dstaddr=A[1], relaycount=0, relaylist=[])),
              None, 0, b""),
    "reply": (mt.encode("ZDO", "bindRsp", dict(srcaddr=A[1], status=0)), None, 0, b""),
    "reset": (mt.encode("SYS", "resetInd", dict(reason=0, transportrev=2, productid=1, majorrel=2,
                                                minorrel=7, hwrev=1)), None, 0, b""),
    "bad": (mt.frame(mt.AREQ, 4, 0x81, b"\x00"), None, 0, b""),
}


def histories(depth, names, fails=False, sends=False):
    """every sequence of messages and notifications, in all groupings into reads"""
    def fn(ch):
        o = In(ch)
        w = o.w
        try:
            w.deliver = "choose"
            want = []
            tasks = []
            if fails:
                # a device that cannot handle a message does not affect the others
                boom = ch.pick("failing handler", [-1] + list(range(depth)))

                def on_message(m):
                    if len(w.messages) - 1 == boom:
                        raise ValueError("handler failed")
                w.on_message = on_message
            for i in range(depth):
                k = ch.pick("frame", names + ["stop"])
                if k == "stop":
                    break
                if k == "send":
                    tasks.append(w.loop.create_task(w.application.request(
                        w.device(A[0]), 260, 6, 1, 1, 20 + i, b"q")))
                    continue
                frame, ieee, cluster, data = TOKENS[k]
                w.send(frame)
                if ieee is not None:
                    want.append(expected(ieee, cluster, 1, 1, data, 77))
            w.settle()
            got = [fields(m) for m in w.messages]
            check(got == want, "delivered %s, expected %s", got, want)
            for t in tasks:
                check(t.done() and result_of(t)[:1] == ("ok",), "send ended with %r", result_of(t))
            if not fails:
                check(not w.loop.errors, "errors: %s", w.loop.errors)
            return got
        finally:
            w.close()
    return fn


def two(ch):
    """two adapters in one process: messages whose bytes come in alternately"""
    w = Two(ch, (1, 2))
    try:
        frames, want = [b"", b""], [[], []]
        for n in range(2):
            for i in range(2):
                kind = ch.pick("message", ["short", "by ieee", "announce", "none"])
                dev = (A, B)[n]
                ieee = w.ieee(i, dev)
                d = bytes([0x18, i, n])
                if kind == "short":
                    frames[i] += incoming(dev[1], data=d)
                elif kind == "by ieee":
                    frames[i] += incoming_ext(3, ieee, data=d)
                elif kind == "announce":
                    frames[i] += announce(dev[1], ieee)
                    want[i].append((ieee, 0x13, b"\0" + dev[1].to_bytes(2, "little") + ieee
                                    + b"\x80"))
                if kind in ("short", "by ieee"):
                    want[i].append((ieee, 6, d))
        cut = [ch.pick("cut", [0, 1, 2, 4, 9, 30]) for _ in range(2)]
        for part in (0, 1):
            for i in range(2):
                w.send((frames[i][:cut[i]], frames[i][cut[i]:])[part], w.handle_of(i))
                w.run(asyncio.sleep(0.01))
        w.settle()
        for i in range(2):
            mine = {w.ieee(i, A), w.ieee(i, B)}
            got = [(m.ieee, m.cluster, m.data) for m in w.messages if m.ieee in mine]
            check(got == want[i], "application %d: delivered %s, expected %s", i, got, want[i])
            have = {key(d.ieee): int(d.nwk) for d in w.apps[i].devices.values()}
            table = {w.znps[PATHS[i]].ieee: w.apps[i].nwk, w.ieee(i, A): A[1], w.ieee(i, B): B[1]}
            if i == 0:
                table[C[0]] = C[1]
            check(have == table, "application %d: devices %s", i, have)
        check(len(w.messages) == sum(map(len, want)), "also delivered %s", w.messages)
        return cut, want
    finally:
        w.close()


def meanwhile(phases=("recovery",), count=2, products=(1,), running=(True,), **kw):
    """messages at any point of a start-up or a recovery from losses, failing commands"""
    def fn(ch):
        product = ch.pick("product", list(products))
        run = ch.pick("running", list(running))
        phase = ch.pick("phase", list(phases))
        traffic = {}
        for i in range(count):
            dev = (A, B)[i % 2]
            d = bytes([0x18, i, 0x55])
            f = incoming_ext(3, dev[0], data=d) if i % 3 == 2 else incoming(dev[1], data=d)
            traffic[f] = expected(dev[0], 6, 1, 1, d, 77)
        w = Recover(ch, product, run, start=phase == "recovery", traffic=traffic,
                    devices=(A, B), **kw)
        try:
            task = None
            if phase == "recovery":
                w._lose("unplug")
            else:
                w.loop.tick_cost = None
                task = w.loop.create_task(w.application.startup(phase == "start-up"))
            check(w.settle() == "quiescent", "%s: never came to rest", w.story())
            want = [traffic[f] for f in w.heard]
            got = [fields(m) for m in w.messages]
            check(got == want, "%s: delivered %s, expected %s", w.story(), got, want)
            return w.story(), len(want)
        finally:
            w.close()
    return fn


def build(tier):
    th = tier == "thorough"
    ids = list(range(0x10000))
    known = None if th else {*range(0x1100), *range(0x8000, 0x8040), *range(0xFC00, 0x10000)}
    names = list(TOKENS)
    few = ["A", "B", "C by ieee", "unknown", "permit", "bad", "confirm"]
    return [
        Enumeration("short", short_form), Enumeration("extended", extended_form),
        Enumeration("headers", headers), Enumeration("appended", appended),
        *[Enumeration("clusters-%d" % i, clusters(ids[i::8], known)) for i in range(8)],
        Enumeration("unready", unready),
        Enumeration("contents", contents(0)), Enumeration("contents-nwk", contents(2)),
        Enumeration("contents-ieee", contents(3)), Enumeration("unknown", unknown), Enumeration("notifications", notifications),
        Scenario("histories", histories(3, names), bound=2 if th else 1),
        Scenario("histories-deep", histories(5 if th else 4, few), bound=2 if th else 1),
        Scenario("histories-fail", histories(4 if th else 3, ["A", "B", "C by ieee", "unknown"],
                                             fails=True), bound=1),
        Scenario("meanwhile", meanwhile(("recovery", "start-up", "start-up without formation"),
                                        products=(0, 1, 2) if th else (1,),
                                        running=(True, False) if th else (True,),
                                        interject=1 if th else None), bound=2),
        Scenario("meanwhile-any", meanwhile(("recovery", "start-up")), bound=2 if th else 1),
        Scenario("meanwhile-faults", meanwhile(losses=1, opens=1, cmds=1, kinds=(
            "silence", "error"), interject=1 if th else None), bound=3 if th else 2),
        # short addresses that change hands
        Scenario("moving", c12.history(5 if th else 4, "AD", c12.N[:2], True, table=False), bound=0),
        Scenario("two-adapters", two, bound=0),
        Scenario("histories-send", histories(4 if th else 3, ["A", "B", "send", "confirm",
                                                              "permit"], sends=True), bound=1),
    ]


ASSUMPTIONS = ["devices are initialised (zigpy itself drops messages of a device it is still "
               "getting to know)"]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C11", build, ASSUMPTIONS))
