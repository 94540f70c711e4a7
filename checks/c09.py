"""C09: outgoing Zigbee messages become the right adapter commands."""
import itertools

import zigpy.types as zt
import zigpy.zdo.types as zdo_t

from mc import mt
from mc.explore import Chooser, Enumeration, Scenario
from mc.net import A, B, C, Net, eui
from mc.world import check, result_of

LONG = bytes(i * 7 & 0xFF for i in range(300))
DATA = [b"", b"\x00", b"\xfe\x05\x04", LONG[:50], LONG[:80]]
D_IEEE = bytes([0xD1, 2, 3, 4, 5, 6, 7, 8])
ADDRS = [0x0000, 0x0001, 0x00FF, 0x0100, 0x1234, 0x3412, 0xFEFE, 0xFFF7]


def le(v, n=2):
    return v.to_bytes(n, "little")


def data_request(dst, dst_ep, src_ep, cluster, tsn, data, radius=30):
    return mt.frame(mt.SREQ, 4, 1, le(dst) + bytes([dst_ep, src_ep]) + le(cluster)
                    + bytes([tsn, 0, radius, len(data)]) + data)


def data_request_ext(mode, dst, dst_ep, src_ep, cluster, tsn, data, radius):
    return mt.frame(mt.SREQ, 4, 2, bytes([mode]) + le(dst, 8) + bytes([dst_ep]) + b"\0\0"
                    + bytes([src_ep]) + le(cluster) + bytes([tsn, 0, radius])
                    + le(len(data)) + data)


# ZDO clusters with a command of the adapter: lengths of the parameters it takes, None: see below
ZDO = {0: 10, 1: 4, 2: 2, 3: 2, 4: 3, 5: 2, 6: None, 0x20: None, 0x21: 21, 0x22: 21, 0x30: 6,
       0x31: 1, 0x32: 1, 0x33: 1, 0x34: 9, 0x35: 9, 0x36: 2}


def zdo_length(cluster, params):
    """how many bytes of parameters the command takes; None if they are incomplete"""
    if cluster in (6, 0x20):
        i = 4 if cluster == 6 else 13
        for _ in range(2):
            if i >= len(params):
                return None
            i += 1 + 2 * params[i]
        return i if i <= len(params) else None
    return ZDO[cluster] if len(params) >= ZDO[cluster] else None


def zdo(dst, cluster, params):
    """the frame for a ZDO request, None if the adapter has no equivalent"""
    if cluster not in ZDO:
        return None
    n = zdo_length(cluster, params)
    if n is None:
        return None
    params = params[:n]
    if cluster in (0, 1):
        body = params
    elif cluster == 0x36:
        body = bytes([15 if dst == 0xFFFC else 2]) + le(dst) + params
    else:
        body = le(dst) + params
    return mt.frame(mt.SREQ, 5, cluster, body)


class Out:
    """One application, many sends."""

    def __init__(self, stats, product=1):
        self.stats = stats
        self.w = Net(Chooser(), product=product, devices=(A, B, C), horizon=1e9)
        self.w.loop.max_steps = 10 ** 9
        self.w.loop.tick_cost = None
        self.w.znp.zdo_reply = False
        self.w.znp.af_confirm = False
        self.app = self.w.application
        self.dev = self.app.add_device(eui(D_IEEE), 0x7777)

    def send(self, coro, want, what):
        """want: the frame, or None if it has to be refused"""
        self.stats.evals += 1
        self.stats.distinct += 1
        w = self.w
        mark = len(w.raw[w.handle])
        task = w.run(coro)
        r = result_of(task)
        out = w.raw[w.handle][mark:]
        if want is None:
            check(r[0] == "exc", "%s has no equivalent but ended with %r", what, r[:2])
            check(not out, "%s has no equivalent but %s was transmitted", what, out.hex())
        else:
            check(out == want, "%s:\n transmitted %s\n expected    %s (ended with %r)", what,
                  out.hex(), want.hex(), r[:2])
            check(r[0] == "ok", "%s ended with %r", what, r)
        if len(self.stats.samples) < 2 and self.stats.evals in (7, 1007):
            self.stats.samples.append({"send": str(what)[:200], "line": out.hex()[:200]})

    def to(self, nwk):
        self.dev.nwk = zt.NWK(nwk)
        return self.dev

    def unicast(self, nwk, profile, cluster, src, dst, tsn, data, want):
        self.send(self.app.request(self.to(nwk), profile, cluster, src, dst, tsn, data), want,
                  "unicast to 0x%04x profile 0x%x cluster 0x%x ep %s->%s #%s %s" % (
                      nwk, profile, cluster, src, dst, tsn, data.hex()))


def unicasts(addr, tier):
    def fn(stats):
        o = Out(stats)
        try:
            for profile, cluster, src, dst, tsn, data in itertools.product(
                    [0x0104, 0xA1E0, 1, 0xFFFF], [0, 6, 0x0600, 0x0500, 0xFC00, 0xFFFF],
                    [0, 1, 2, 255], [0, 1, 242, 255], [0, 1, 128, 255], DATA):
                o.unicast(addr, profile, cluster, src, dst, tsn, data,
                          data_request(addr, dst, src, cluster, tsn, data))
        finally:
            o.w.close()
    return fn


def walk(stats):
    """one argument at a time over its whole range"""
    o = Out(stats)
    try:
        for v in range(256):
            d = bytes([v]) * 3
            o.unicast(0x1234, 260, 6, v, 1, 9, d, data_request(0x1234, 1, v, 6, 9, d))
            o.unicast(0x1234, 260, 6, 1, v, 9, d, data_request(0x1234, v, 1, 6, 9, d))
            o.unicast(0x1234, 260, 6, 1, 2, v, d, data_request(0x1234, 2, 1, 6, v, d))
            for k in (v, v << 8):
                o.unicast(k, 260, 6, 1, 2, 3, d, data_request(k, 2, 1, 6, 3, d))
                o.unicast(1, 260, k, 1, 2, 3, d, data_request(1, 2, 1, k, 3, d))
            d = LONG[:v]
            o.unicast(1, 260, 6, 1, 2, 3, d, data_request(1, 2, 1, 6, 3, d) if v <= 245 else None)
        for d in (LONG[:256], LONG[:257], LONG[:300]):
            o.unicast(1, 260, 6, 1, 2, 3, d, None)
        for args in ((65536, 1, 1, 0), (6, 256, 1, 0), (6, 1, 256, 0), (6, 1, 1, 256),
                     (-1, 1, 1, 0), (6, -1, 1, 0), (6, 1, -1, 0), (6, 1, 1, -1)):
            cl, s, d, n = args
            o.send(o.app.request(o.to(5), 260, cl, s, d, n, b"x"), None, "unicast %s" % (args,))
        # the device's own address decides, whatever others are called
        for ieee, nwk in (A, B, C):
            o.send(o.app.request(o.w.device(ieee), 260, 6, 1, 1, 4, b"x"),
                   data_request(nwk, 1, 1, 6, 4, b"x"), "unicast to %s" % ieee.hex())
            o.send(o.app.request(o.w.device(ieee), 260, 6, 1, 1, 4, b"x", expect_reply=False),
                   data_request(nwk, 1, 1, 6, 4, b"x"), "unicast to %s" % ieee.hex())
            o.send(o.app.request(o.w.device(ieee), 260, 6, 1, 1, 4, b"x", use_ieee=True),
                   data_request(nwk, 1, 1, 6, 4, b"x"), "unicast to %s" % ieee.hex())
    finally:
        o.w.close()


def groups(tier):
    def fn(stats):
        o = Out(stats)
        try:
            for group, profile, cluster, src, tsn, data in itertools.product(
                    [0, 1, 0x00FF, 0x0100, 0x1234, 0xFFFF], [0x0104, 0xFFFF],
                    [6, 0x0600, 0xFC00], [0, 1, 2, 255], [0, 1, 255], DATA):
                o.send(o.app.mrequest(group, profile, cluster, src, tsn, data),
                       data_request_ext(1, group, 255, src or 1, cluster, tsn, data, 30),
                       "multicast to 0x%04x cluster 0x%x ep %d #%d %s" % (
                           group, cluster, src, tsn, data.hex()))
            for v in range(256):
                for g in (v, v << 8):
                    o.send(o.app.mrequest(zt.Group(g), 260, 6, 1, v, b"ab"),
                           data_request_ext(1, g, 255, 1, 6, v, b"ab", 30),
                           "multicast to 0x%04x #%d" % (g, v))
                d = LONG[:v]
                o.send(o.app.mrequest(3, 260, 6, 1, 5, d),
                       data_request_ext(1, 3, 255, 1, 6, 5, d, 30) if v <= 235 else None,
                       "multicast of %d bytes" % v)
            o.send(o.app.mrequest(3, 260, 6, 1, 5, LONG[:256]), None, "multicast of 256 bytes")
        finally:
            o.w.close()
    return fn


def broadcasts(tier):
    def fn(stats):
        o = Out(stats)
        try:
            addrs = [None, 0xFFFF, 0xFFFD, 0xFFFC, 0xFFFB]
            for addr, profile, cluster, src, dst, radius, tsn, data in itertools.product(
                    addrs, [0x0104], [6, 0x0600, 0xFC00], [0, 1, 255], [0, 1, 255],
                    [0, 1, 30, 255], [0, 255], DATA[1:4]):
                kw = {} if addr is None else dict(
                    broadcast_address=zt.BroadcastAddress(addr) if tsn else addr)
                o.send(o.app.broadcast(profile, cluster, src, dst, 0, radius, tsn, data, **kw),
                       data_request_ext(2, addr or 0xFFFD, dst, src, cluster, tsn, data, radius),
                       "broadcast to %s cluster 0x%x ep %d->%d radius %d #%d %s" % (
                           addr, cluster, src, dst, radius, tsn, data.hex()))
            for v in range(256):
                o.send(o.app.broadcast(260, 6, 1, 255, 7, v, 255 - v, b"ab"),
                       data_request_ext(2, 0xFFFD, 255, 1, 6, 255 - v, b"ab", v),
                       "broadcast radius %d" % v)
                d = LONG[:v]
                o.send(o.app.broadcast(260, 6, 1, 255, 0, 30, 1, d),
                       data_request_ext(2, 0xFFFD, 255, 1, 6, 1, d, 30) if v <= 235 else None,
                       "broadcast of %d bytes" % v)
        finally:
            o.w.close()
    return fn


def params(cluster):
    """parameters of every kind for a ZDO cluster"""
    ieee = bytes([1, 2, 3, 4, 5, 6, 7, 8])
    if cluster == 0:
        return [ieee + bytes([a, b]) for a in (0, 1, 255) for b in (0, 5, 255)]
    if cluster == 1:
        return [le(n) + bytes([a, b]) for n in ADDRS for a in (0, 1) for b in (0, 7)]
    if cluster in (2, 3, 5):
        return [le(n) for n in ADDRS]
    if cluster == 4:
        return [le(n) + bytes([e]) for n in ADDRS for e in (0, 1, 242, 255)]
    if cluster == 6:
        lists = [[], [0], [6], [0x0600, 5], [1, 2, 3], list(range(9)), list(range(255, 296))]
        return [le(n) + le(p) + bytes([len(i)]) + b"".join(map(le, i)) + bytes([len(q)])
                + b"".join(map(le, q))
                for n in (0, 0x1234) for p in (260, 0xC05E) for i in lists for q in lists]
    if cluster == 0x20:
        return [le(0x1234) + ieee + bytes([3]) + le(260) + bytes([len(i)])
                + b"".join(map(le, i)) + b"\x01" + le(0x0102) for i in ([], [6], [6, 8])]
    if cluster in (0x21, 0x22):
        return [ieee + bytes([s]) + le(c) + b"\x03" + D_IEEE + bytes([d])
                for s in (0, 1, 255) for c in (0, 6, 0x0600, 0xFFFF) for d in (0, 1, 255)]
    if cluster == 0x30:
        return [le(0x07FFF800, 4) + bytes([s, i]) for s in (0, 5) for i in (0, 3)]
    if cluster in (0x31, 0x32, 0x33):
        return [bytes([i]) for i in range(256)]
    if cluster == 0x34:
        return [ieee + bytes([i]) for i in (0, 0x40, 0x80, 0xC0)]
    if cluster == 0x35:
        return [ieee + bytes([i]) for i in (0, 0x8E)]
    if cluster == 0x36:
        return [bytes([d, t]) for d in (0, 1, 60, 254, 255) for t in (0, 1)]


def services(stats):
    """every ZDO service with an equivalent, to several devices, with every transaction number"""
    o = Out(stats)
    try:
        for cluster in ZDO:
            for addr in ADDRS:
                for tsn in (0, 1, 127, 255):
                    for p in params(cluster)[:200 if addr == 0x1234 else 12]:
                        o.unicast(addr, 0, cluster, 0, 0, tsn, bytes([tsn]) + p,
                                  zdo(addr, cluster, p))
            p = params(cluster)[-1]
            for tsn in range(256):
                o.unicast(0x4321, 0, cluster, 0, 0, tsn, bytes([tsn]) + p,
                          zdo(0x4321, cluster, p))
            for p in params(cluster)[:60]:
                o.send(o.app.broadcast(0, cluster, 0, 0, 0, 0, 5, b"\x05" + p,
                                       broadcast_address=zt.BroadcastAddress(0xFFFC)),
                       zdo(0xFFFC, cluster, p), "broadcast of ZDO cluster 0x%x %s" % (
                           cluster, p.hex()))
                o.send(o.app.broadcast(0, cluster, 0, 0, 0, 0, 5, b"\x05" + p),
                       zdo(0xFFFD, cluster, p), "broadcast of ZDO cluster 0x%x %s" % (
                           cluster, p.hex()))
            # incomplete ones
            for p in (params(cluster)[0], params(cluster)[-1]):
                for n in range(len(p)):
                    if zdo_length(cluster, p[:n]) is None:
                        o.unicast(0x1234, 0, cluster, 0, 0, 1, b"\x01" + p[:n], None)
        # the endpoints of a ZDO message are always 0 and do not matter here; but addressing a
        # group in a binding has no equivalent
        for cluster in (0x21, 0x22):
            o.unicast(0x1234, 0, cluster, 0, 0, 1, b"\x01" + bytes(8) + b"\x01\x06\x00\x01\x34\x12",
                      None)
    finally:
        o.w.close()


def clusters(lo, hi, fill):
    def fn(stats):
        o = Out(stats)
        try:
            for cluster in range(lo, hi):
                if cluster not in ZDO:
                    o.unicast(0x1234, 0, cluster, 0, 0, 1, b"\x01" + fill, None)
        finally:
            o.w.close()
    return fn


def from_zigpy(stats):
    """ZDO requests made with zigpy's own interface"""
    o = Out(stats)
    try:
        N, E = zt.NWK, eui
        addr = zdo_t.MultiAddress()
        addr.addrmode, addr.ieee, addr.endpoint = zt.uint8_t(3), E(B[0]), zt.uint8_t(4)
        calls = {
            "NWK_addr_req": (E(B[0]), 1, 2), "IEEE_addr_req": (N(0x3412), 1, 2),
            "Node_Desc_req": (N(0x3412),), "Power_Desc_req": (N(0x3412),),
            "Simple_Desc_req": (N(0x3412), 3), "Active_EP_req": (N(0x3412),),
            "Match_Desc_req": (N(0x3412), 260, [6, 0x0500], [0x19]),
            "Bind_req": (E(A[0]), 1, 0x0600, addr), "Unbind_req": (E(A[0]), 1, 0x0600, addr),
            "Mgmt_Lqi_req": (3,), "Mgmt_Rtg_req": (3,), "Mgmt_Leave_req": (E(A[0]), 0x40),
            "Mgmt_Permit_Joining_req": (60, 1), "User_Desc_req": (N(1),),
            "Discovery_Cache_req": (N(1), E(A[0])), "Device_annce": (N(1), E(A[0]), 0x80),
            "System_Server_Discovery_req": (1,), "Find_node_cache_req": (N(1), E(A[0])),
            "Extended_Simple_Desc_req": (N(1), 1, 0), "Extended_Active_EP_req": (N(1), 0),
        }
        for ieee, nwk in (A, B):
            dev = o.w.device(ieee)
            for name, args in calls.items():
                cluster = int(zdo_t.ZDOCmd[name])
                p = dev.zdo._serialize(zdo_t.ZDOCmd[name], *args)
                want = zdo(nwk, cluster, p)
                stats.evals += 1
                stats.distinct += 1
                mark = len(o.w.raw[o.w.handle])
                r = result_of(o.w.run(getattr(dev.zdo, name)(*args)))
                out = o.w.raw[o.w.handle][mark:]
                check(r[0] == "exc", "%s ended with %r without a reply", name, r)
                check(out == (want or b""), "%s%s to 0x%04x: transmitted %s, expected %s", name,
                      args, nwk, out.hex(), want and want.hex())
            # and an application message
            mark = len(o.w.raw[o.w.handle])
            o.w.run(dev.request(260, 6, 1, 2, 77, b"abc", expect_reply=False))
            out = o.w.raw[o.w.handle][mark:]
            check(out == data_request(nwk, 2, 1, 6, 77, b"abc"), "device request: %s", out.hex())
    finally:
        o.w.close()


def build(tier):
    th = tier == "thorough"
    out = [Enumeration("unicast-%04x" % a, unicasts(a, tier)) for a in ADDRS]
    out += [Enumeration("walk", walk), Enumeration("multicast", groups(tier)),
            Enumeration("broadcast", broadcasts(tier)), Enumeration("zdo", services),
            Enumeration("zigpy", from_zigpy)]
    spans = [(0, 0x400), (0x7F00, 0x8400), (0xFF00, 0x10000)]
    if th:
        spans = [(i, i + 0x2000) for i in range(0, 0x10000, 0x2000)]
    for lo, hi in spans:
        out.append(Enumeration("clusters-%04x" % lo, clusters(lo, hi, b"")))
        out.append(Enumeration("clusters-%04x-data" % lo, clusters(lo, hi, bytes(40))))
    return out


ASSUMPTIONS = ["fields the message does not determine (options, radius of unicasts and "
               "multicasts) have the values Z-Stack expects: 0 and 30"]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C09", build, ASSUMPTIONS, rule="every listed message is one input, sent through "
                  "the running application; the bytes on the line are compared"))
