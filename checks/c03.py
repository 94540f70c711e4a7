"""C03: a frame that cannot be interpreted or handled harms no other frame and no request."""
import itertools

from mc import mt
from mc.explore import Enumeration, Scenario, Violation
from mc.net import A, B, C, Net, announce, incoming, incoming_ext
from mc.world import check, result_of

FAIL_CLUSTER = 0xFA11
UNSUPPORTED = [(s, c["name"]) for s, l in mt.TABLE.items() for c in l
               if any(t in mt.UNSUPPORTED for _, t in c["request"])]


def flip(f):
    return f[:-1] + bytes([f[-1] ^ 1])


BAD = {
    "type4": mt.frame(4, 1, 1, b"\x01"),
    "type7": mt.frame(7, 21, 255),
    "subsys-unnamed": mt.frame(2, 0x1F, 1, b"\x00\x01"),
    "subsys-unnamed-10": mt.frame(3, 10, 0, b""),
    "subsys-no-commands": mt.frame(2, 0, 1, b"\x00"),
    "subsys-nwk": mt.frame(2, 3, 1, b"\x00"),
    "cmd-unknown-af": mt.frame(2, 4, 0x7E, b"\x00\x00"),
    "cmd-unknown-zdo": mt.frame(2, 5, 0xFF),
    "cmd-unknown-srsp": mt.frame(3, 1, 0xF0, b"\x00"),
    "trunc-incoming": mt.frame(2, 4, 0x81, b"\x00\x00\x06\x00\x34"),
    "trunc-incoming-len": mt.frame(2, 4, 0x81, incoming(A[1])[4:-2]),
    "empty-incoming": mt.frame(2, 4, 0x81),
    "trunc-annce": mt.frame(2, 5, 0xC1, announce(A[1], A[0])[4:-3]),
    "trunc-annce-nwk": mt.frame(2, 5, 0xC1, announce(A[1], A[0])[4:8]),
    "trunc-lqi": mt.frame(2, 5, 0xB1, b"\x34\x12\x00\x02\x00\x02" + bytes(30)),
    "trunc-srsp": mt.frame(3, 1, 8, b"\x00\x05\x01"),
    "trunc-srsp-version": mt.frame(3, 1, 2, b"\x02"),
    "bind-table": mt.frame(2, 5, 0xB3, b"\x34\x12\x00\x01\x00\x01" + bytes(21)),
    "routing-table": mt.frame(2, 5, 0xB2, b"\x34\x12\x00\x01\x00\x01" + bytes(5)),
    "network-list": mt.frame(2, 5, 0xB0, b"\x34\x12\x00\x01\x00\x01" + bytes(12)),
    "assoc-list": mt.frame(2, 5, 0x80, bytes(13)),
    "addrmode-4": incoming_ext(4, A[1]),
    "addrmode-255": incoming_ext(255, A[0]),
    "unknown-source": incoming(0x7777),
    "unknown-source-ext": incoming_ext(3, bytes(8)),
    "addrmode-none": incoming_ext(0, 0x9999),
    "handler-fails": incoming(A[1], cluster=FAIL_CLUSTER),
    "handler-fails-b": incoming(B[1], cluster=FAIL_CLUSTER),
    "checksum": flip(incoming(A[1], data=b"\xee")),
    "checksum-srsp": flip(mt.frame(3, 4, 1, b"\x00")),
    "start-only": b"\x00\x55",
    "poll": mt.frame(0, 4, 0x81, incoming(A[1])[4:-1]),
    "sreq": mt.frame(1, 4, 1, b""),
    "other-srsp": mt.frame(3, 4, 0, b"\x00"),
    "other-srsp-error": mt.frame(3, 1, 1, b"\x01\x00"),
    "zdo-rsp-nobody-asked": mt.frame(2, 5, 0x85, b"\x34\x12\x00\x34\x12\x01\x01"),
    "permit-bad": mt.frame(2, 5, 0xCB),
    "max-junk": mt.frame(2, 4, 0x82, b"\x09" * 250),
}
REQ = dict(profile=260, cluster=6, src_ep=1, dst_ep=1, sequence=9, data=b"\x01\x09\x00")
SRSP = mt.frame(3, 4, 1, b"\x00")
GOOD = {
    "msg-a": incoming(A[1], data=b"\x18\x01\x0a", lqi=11),
    "msg-b": incoming(B[1], cluster=0x0402, src_ep=3, data=b"\x18\xfe\x0a", lqi=12),
    "msg-ext": incoming_ext(3, C[0], data=b"\x18\x02", lqi=13),
    "annce-b": announce(B[1], B[0]),
    "srsp": SRSP,
}
EXPECT = {
    "msg-a": (A[0], 6, 1, b"\x18\x01\x0a", 11), "msg-b": (B[0], 0x0402, 3, b"\x18\xfe\x0a", 12),
    "msg-ext": (C[0], 6, 1, b"\x18\x02", 13),
    "annce-b": (B[0], 0x13, 0, b"\x00" + announce(B[1], B[0])[6:-1], 0),
}


def view(m):
    return (m.ieee, m.cluster, m.src_ep, m.data, m.lqi)


def make(w, pending):
    def on_message(m):
        if m.cluster == FAIL_CLUSTER:
            raise RuntimeError("handler failed")
    w.on_message = on_message
    if not pending:
        return None
    w.znp.replies[("AF", "dataRequest")] = lambda cmd: []
    dev = w.device(A[0])
    return w.loop.create_task(w.application.request(dev, *REQ.values()))


def judge(w, task, names, t_sent, late=False):
    want = [EXPECT[n] for n in names if n in EXPECT]
    got = [view(m) for m in w.messages if m.cluster != FAIL_CLUSTER]
    check(got == want, "frames %s: delivered %s, expected %s", names, got, want)
    fails = sum(1 for n in names if n.startswith("handler-fails"))
    n = sum(1 for m in w.messages if m.cluster == FAIL_CLUSTER)
    check(n == fails, "frames %s: %d of %d failing messages delivered", names, n, fails)
    if task is not None:
        r = result_of(task)
        if "srsp" in names and not late:
            check(r[0] == "ok" and r[1][0] == 0, "frames %s: the request ended with %r", names, r)
        else:
            check(r[0] == "exc" and r[1] == "TimeoutError",
                  "frames %s: the unanswered request ended with %r", names, r)
    # everything still works
    w.messages.clear()
    w.znp.replies.clear()
    w.send(GOOD["msg-a"])
    t = w.loop.create_task(w.application.request(w.device(A[0]), *REQ.values()))
    w.settle()
    check([view(m) for m in w.messages] == [EXPECT["msg-a"]],
          "frames %s: a later message was delivered as %s", names, w.messages)
    r = result_of(t)
    check(r[0] == "ok" and r[1][0] == 0, "frames %s: a later request ended with %r", names, r)


def stream(shape, cuts):
    """shape: string of g/b.  Contents and grouping into reads are all enumerated."""
    def fn(ch):
        w = Net(ch, horizon=200.0)
        try:
            pending = True
            task = make(w, pending)
            w.run(_sleep(0.01))
            names = [ch.pick("frame", list(GOOD if s == "g" else BAD)) for s in shape]
            frames = [GOOD.get(n) or BAD[n] for n in names]
            w.deliver = "frame"
            if cuts:
                data = b"".join(frames)
                k = ch.choose("cut", [0] * len(data), list(range(len(data))))
                if k:
                    w.send(data[:k])
                w.send(data[k:])
            else:
                buf = frames[0]
                for f in frames[1:]:
                    if ch.choose("group", [0, 0], ["same read", "new read"]):
                        w.send(buf)
                        buf = b""
                    buf += f
                w.send(buf)
            w.settle()
            judge(w, task, names, 0)
            return names
        finally:
            w.close()
    return fn


def slow(shape):
    """the bytes come in two parts, at any position, with a pause in between"""
    def fn(ch):
        w = Net(ch, horizon=400.0)
        try:
            task = make(w, True)
            w.run(_sleep(0.01))
            names = [ch.pick("frame", list(GOOD if s == "g" else BAD)) for s in shape]
            data = b"".join(GOOD.get(n) or BAD[n] for n in names)
            pause = ch.pick("pause", [0.05, 0.9, 3, 40])
            k = ch.pick("cut", list(range(1, len(data))))
            w.send(data[:k])
            w.run(_sleep(pause))
            w.send(data[k:])
            w.settle()
            start = len(data)
            if "srsp" in names:
                i = names.index("srsp")
                start = len(b"".join(GOOD.get(n) or BAD[n] for n in names[:i + 1]))
            late = pause > 5 and k < start
            judge(w, task, names, 0, late)
            return names
        finally:
            w.close()
    return fn


async def _sleep(s):
    import asyncio
    await asyncio.sleep(s)


def many(counts):
    """any number of bad frames of a kind, at once or spread over time, before good ones"""
    def fn(ch):
        n = ch.pick("frames", counts)
        name = ch.pick("kind", list(BAD) + ["all"])
        spread = ch.pick("spread", ["one read", "one by one", 0.7, 61])
        w = Net(ch, horizon=1e9)
        w.loop.max_steps = 10 ** 9
        w.loop.tick_cost = None
        try:
            make(w, False)
            each = list(BAD) if name == "all" else [name]
            names = [each[i % len(each)] for i in range(n)]
            frames = [BAD[k] for k in names]

            async def noise():
                import asyncio
                for f in frames:
                    w.send(f)
                    await asyncio.sleep(spread if isinstance(spread, (int, float)) else 0.001)
            if spread == "one read":
                w.send(b"".join(frames))
                w.run(_sleep(0.001))
            else:
                w.run(noise())
            last = names[-1]
            what = "after %d frames (%s), %s: " % (n, name, spread)
            if last == "start-only":
                w.send(bytes(90))  # completes it
                w.run(_sleep(0.001))
            fails = sum(k.startswith("handler-fails") for k in names)
            got = [m for m in w.messages if m.cluster == FAIL_CLUSTER]
            if "start-only" not in each or spread != "one read":
                check(len(got) <= fails and (len(got) == fails or name == "all"),
                      what + "%d of %d failing messages were delivered", len(got), fails)
            w.messages.clear()
            # everything still works
            t = w.loop.create_task(w.application.request(w.device(A[0]), *REQ.values()))
            for k in ("msg-a", "msg-b", "msg-ext", "annce-b"):
                w.send(GOOD[k])
            w.run(_sleep(1))
            check([view(m) for m in w.messages] == [EXPECT[k] for k in (
                "msg-a", "msg-b", "msg-ext", "annce-b")], what + "delivered %s", w.messages)
            check(t.done() and result_of(t)[0] == "ok" and result_of(t)[1][0] == 0,
                  what + "a request ended with %r", result_of(t))
            r = result_of(w.run(w.application.permit_ncp(60)))
            check(r[0] == "ok", what + "permitting joins ended with %r", r)
            check(len(w.line.opened) == 1, what + "the port was opened %d times",
                  len(w.line.opened))
            return name, n
        finally:
            w.close()
    return fn


def mutants(lo, hi, payloads):
    """Every type/subsystem byte x command id, well framed, between two good messages, while a
    request is waiting for its response - all in one read."""
    def fn(stats):
        from mc.explore import Chooser
        w = Net(Chooser(), horizon=1e9)
        w.loop.max_steps = 10 ** 9
        make(w, False)
        dev = w.device(A[0])
        try:
            for cmd0 in range(lo, hi):
                for cid in range(256):
                    for p in payloads:
                        if cmd0 == 0x61 + 3 and cid == 1:
                            continue  # the response being waited for
                        one(w, dev, stats, mt.frame(cmd0 >> 5, cmd0 & 31, cid, p))
        finally:
            w.close()
    return fn


def one(w, dev, stats, f):
    stats.evals += 1
    stats.distinct += 1
    w.messages.clear()
    w.znp.replies[("AF", "dataRequest")] = lambda cmd: [
        (0, GOOD["msg-a"] + f + GOOD["msg-b"] + SRSP + GOOD["msg-ext"])]
    r = result_of(w.run(w.application.request(dev, *REQ.values())))
    got = [view(m) for m in w.messages if view(m) in EXPECT.values()]
    if got != [EXPECT["msg-a"], EXPECT["msg-b"], EXPECT["msg-ext"]]:
        raise Violation("frame %s between good ones: delivered %s" % (f.hex(), w.messages))
    if not (r[0] == "ok" and r[1][0] == 0):
        raise Violation("frame %s before the response: the request ended with %r" % (f.hex(), r))
    if stats.evals % 997 == 0 and len(stats.samples) < 2:
        stats.samples.append({"frame": f.hex()})


def value(t, name):
    if t.startswith("LIST_UINT"):
        return [1, 2]
    if t == "LIST_NEIGHBOR_LQI":
        n = dict(extPanId=bytes(8), extAddr=bytes(range(8)), nwkAddr=5, deviceType=1,
                 rxOnWhenIdle=1, relationship=2, permitJoin=1, depth=3, lqi=4)
        return [n, n]
    if t == "BUFFER":
        return b"\x07\x08"
    if t in ("IEEEADDR",) or t.startswith("BUFFER"):
        return bytes(range(0x60, 0x60 + mt.FIXED[t]))
    return 2


def truncations(subsys):
    """Every command of the table as every frame type, cut at every length."""
    def fn(stats):
        from mc.explore import Chooser
        w = Net(Chooser(), horizon=1e9)
        w.loop.max_steps = 10 ** 9
        make(w, False)
        dev = w.device(A[0])
        try:
            for c in mt.TABLE[subsys]:
                for ctype in range(4):
                    fields = mt.fields_of(c, ctype)
                    if fields is None:
                        continue
                    if (subsys, c["name"], ctype) == ("AF", "dataRequest", 3):
                        continue
                    data = b""
                    for n, t in fields:
                        if t in mt.UNSUPPORTED:
                            data += bytes(30)
                        else:
                            data += mt.encode_fields([(n, t)], {n: value(t, n)})
                    for k in range(len(data) + 1):
                        one(w, dev, stats, mt.frame(ctype, mt.SUBSYS[subsys], c["id"], data[:k]))
        finally:
            w.close()
    return fn


def build(tier):
    thorough = tier == "thorough"
    out = [Scenario("gbg", stream("gbg", False), bound=0),
           Scenario("bgb", stream("bgb", False), bound=0),
           Scenario("gbg-cuts", stream("gbg" if thorough else "bg", True), bound=0)]
    out.append(Scenario("slow", slow("bg"), bound=0))
    out.append(Scenario("many", many([3, 70, 1100] + [4500] * thorough), bound=0))
    if thorough:
        out.append(Scenario("slow-3", slow("gbg"), bound=0))
        out.append(Scenario("gbbg", stream("gbbg", False), bound=0))
    pl = [b"", b"\x00", b"\x11\x22\x03" + bytes(range(30))]
    if thorough:
        pl += [b"\x01\x02", bytes(8), b"\xff" * 12, bytes([2] * 24)]
    out += [Enumeration("mutants-%02x" % lo, mutants(lo, lo + 16, pl)) for lo in range(0, 256, 16)]
    out += [Enumeration("truncations-" + s, truncations(s)) for s in mt.TABLE if mt.TABLE[s]]
    return out


ASSUMPTIONS = [
    "a failing handler is one whose device raises from handle_message",
    "frames of the type POLL/SREQ coming from the adapter are uninterpreted noise",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C03", build, ASSUMPTIONS))
