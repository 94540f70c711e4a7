"""C01: frames leave the serial port whole, once, in order, however writes are split."""
import asyncio
import itertools

from mc import mt
from mc.explore import Chooser, Enumeration, Scenario, Violation
from mc.loop import Event
from mc.net import A, Net
from mc.world import World, check, result_of

from zigpy_cc import types as t, uart
from zigpy_cc.api import API


class Sink:
    """A transport / API that only records."""

    def __init__(self):
        self.data = b""

    def write(self, data):
        self.data += bytes(data)

    def close(self):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


def gateway():
    sink = Sink()
    gw = uart.Gateway(Sink())
    gw.connection_made(sink)
    return gw, sink


def payloads():
    yield from (bytes([a]) for a in range(256))
    yield from (bytes([0xFE] * n) for n in range(256))
    yield from (bytes((i * 7 + n) & 0xFF for i in range(n)) for n in range(256))


TYPES = [0, 1, 2, 3]
SUBSYSTEMS = list(range(10)) + [15, 21]


def headers(ctype):
    """every subsystem x command id, with four payloads"""
    def fn(stats):
        for ss in SUBSYSTEMS:
            for cid in range(256):
                for data in (b"", b"\x00", b"\xfe\x01", bytes(range(17))):
                    one(stats, ctype, ss, cid, data)
    return fn


def lengths(stats):
    """every payload length 0..255 with three patterns, every one-byte payload; longer refused"""
    for ctype, ss, cid in ((1, 1, 1), (2, 4, 0x81), (0, 21, 255), (3, 7, 0)):
        for data in payloads():
            one(stats, ctype, ss, cid, data)
        for n in itertools.chain(range(256, 300), (511, 512, 513, 1000, 65536)):
            for fill in (0, 1, 0xFE):
                gw, sink = gateway()
                stats.evals += 1
                stats.distinct += 1
                try:
                    gw.send(uart.UnpiFrame(ctype, ss, cid, bytes([fill]) * n))
                except Exception:
                    pass
                else:
                    raise Violation("payload of %d bytes was not refused" % n)
                if sink.data:
                    raise Violation("payload of %d bytes refused, but %r was transmitted"
                                    % (n, sink.data[:20]))


def one(stats, ctype, ss, cid, data):
    gw, sink = gateway()
    gw.send(uart.UnpiFrame(ctype, ss, cid, data))
    stats.evals += 1
    stats.distinct += 1
    want = mt.frame(ctype, ss, cid, data)
    if sink.data != want:
        raise Violation("type %d subsystem %d command %d payload %s: wrote %s, expected %s"
                        % (ctype, ss, cid, data.hex(), sink.data.hex(), want.hex()))
    if len(stats.samples) < 2:
        stats.samples.append({"frame": want.hex()})


FRAMES = [(1, 1, 1, b""), (2, 1, 0, b"\x01"), (1, 4, 1, bytes(range(16))),
          (1, 4, 2, b"\xfe" * 250), (1, 1, 9, bytes(255))]


def link(nframes):
    """Submit frames through the real transport; the line takes writes in pieces."""
    def fn(ch):
        w = World(ch, horizon=200.0)
        w.blocked = True
        try:
            gws = []

            async def go():
                gw = await uart.connect(w.device_config(), Sink())
                gws.append(gw)

            task = w.run(go())
            check(result_of(task)[0] == "ok", "connect failed: %r" % (result_of(task),))
            w.short_writes = w.blocked_writes = True
            start = len(w.raw[w.handle])
            sent = []
            todo = [FRAMES[ch.choose("frame", [0] * len(FRAMES), [len(f[3]) for f in FRAMES])]
                    for _ in range(nframes)]

            def submit():
                f = todo.pop(0)
                sent.append(f)
                gws[0].send(uart.UnpiFrame(*f))

            def source():
                # submitted as soon as the line is idle, or (1) while it is busy
                return [Event("submit", submit, idle=0, busy=1)] if todo else []

            w.loop.sources.append(source)
            w.settle()
            got = w.raw[w.handle][start:]
            want = b"".join(mt.frame(*f) for f in sent)
            check(not todo, "frames were never submitted")
            check(got == want, "submitted %d frames: the line got %s, expected %s",
                  len(sent), got.hex(), want.hex())
            return "%d frames %d writes" % (len(sent), len(w.handle.tx))
        finally:
            w.close()
    return fn


def commands(ncallers):
    """The same through the request layer: callers issue commands, the line splits writes."""
    CMDS = [("SYS", "ping", {"capabilities": 1}), ("SYS", "osalNvRead", {"id": 3, "offset": 0}),
            ("UTIL", "ledControl", {"ledid": 3, "mode": 1}),
            ("AF", "dataStore", {"index": 1, "length": 5, "data": b"\xfe\x00\xfe\xfe\x01"})]

    def fn(ch):
        from mc.znp import Znp

        w = World(ch, Znp(1, running=True), horizon=200.0)
        try:
            api = API(w.device_config())
            task = w.run(api.connect())
            check(result_of(task)[0] == "ok", "connect failed: %r" % (result_of(task),))
            start = len(w.raw[w.handle])
            w.short_writes = w.blocked_writes = True
            picked = [ch.pick("cmd", CMDS) for _ in range(ncallers)]
            tasks = [w.loop.create_task(api.request(t.Subsystem[s], n, dict(v)))
                     for s, n, v in picked]
            w.settle()
            got = w.raw[w.handle][start:]
            want = b"".join(mt.encode(s, n, v) for s, n, v in picked)
            check(got == want, "issued %s: the line got %s, expected %s",
                  [p[1] for p in picked], got.hex(), want.hex())
            return [result_of(x)[0] for x in tasks]
        finally:
            w.close()
    return fn


def repeated(stats):
    """frames that have everything but a byte of the payload in common, on one connection"""
    gw, sink = gateway()
    for ctype, ss, cid in ((1, 1, 9), (1, 4, 1), (2, 5, 0xC1)):
        for n in range(1, 256):
            for at in {0, n // 2, n - 1}:
                data = bytearray(i * 3 & 0xFF for i in range(n))
                want = b""
                sink.data = b""
                for v in (data[at], data[at] ^ 1, data[at] ^ 1, data[at]):
                    data[at] = v
                    gw.send(uart.UnpiFrame(ctype, ss, cid, bytes(data)))
                    want += mt.frame(ctype, ss, cid, bytes(data))
                stats.evals += 1
                stats.distinct += 1
                if sink.data != want:
                    raise Violation("four frames of %d bytes that differ in byte %d: wrote %s, "
                                    "expected %s" % (n, at, sink.data.hex(), want.hex()))


def messages(stats):
    """the same through the application: every length, one transaction number"""
    w = Net(Chooser(), horizon=1e9)
    w.loop.max_steps = 10 ** 9
    w.loop.tick_cost = None
    w.znp.af_confirm = False
    try:
        app = w.application
        dev = w.device(A[0])
        for n in range(1, 226):
            for tsn in ((9, 9, 9), (9, 10, 9)):
                for kind in ("unicast", "multicast", "broadcast"):
                    sent = []
                    mark = len(w.raw[w.handle])
                    for i, v in enumerate(tsn):
                        data = bytes([i]) + bytes(n - 1) if kind != "multicast" \
                            else bytes(n - 1) + bytes([i])
                        sent.append(data)
                        w.run({"unicast": lambda: app.request(dev, 260, 6, 1, 1, v, data),
                               "multicast": lambda: app.mrequest(3, 260, 6, 1, v, data),
                               "broadcast": lambda: app.broadcast(260, 6, 1, 255, 0, 30, v, data),
                               }[kind]())
                    stats.evals += 1
                    stats.distinct += 1
                    d = mt.Deframer()
                    got = [bytes(f[3]) for f in d.push(w.raw[w.handle][mark:])]
                    if len(got) != 3 or any(not g.endswith(s) for g, s in zip(got, sent)):
                        raise Violation("three %ss of %d bytes (numbers %s): the line got %s" % (
                            kind, n, tsn, [g.hex() for g in got]))
    finally:
        w.close()


def backlog(counts):
    """any number of frames, of any size, submitted while the line takes nothing for a while"""
    def fn(ch):
        n = ch.pick("frames", counts)
        size = ch.pick("bytes", [[0], [90], [250], [255], [3, 255, 17, 120]])
        together = ch.pick("submitted", ["at once", "one by one", "in tens"])
        piece = ch.pick("piece", [None, 1, 4096, 300]) if n < 100 else ch.pick(
            "piece", [None, 4096])
        w = World(ch, horizon=1e6)
        w.loop.max_steps = 10 ** 8
        try:
            gws = []

            async def go():
                gws.append(await uart.connect(w.device_config(), Sink()))
            check(result_of(w.run(go()))[0] == "ok", "connect failed")
            h = w.handle
            stuck = [True]

            def write_size(handle, data):
                return -1 if stuck[0] else min(piece or len(data), len(data))
            w.write_size = write_size
            h.writable = lambda: not stuck[0]
            start = len(w.raw[h])
            want = b""

            async def submit():
                nonlocal want
                for i in range(n):
                    k = size[i % len(size)]
                    f = (1, 4, i & 0x7F, bytes((i + j) & 0xFF for j in range(k)))
                    want += mt.frame(*f)
                    gws[0].send(uart.UnpiFrame(*f))
                    if together == "one by one" or together == "in tens" and i % 10 == 9:
                        await asyncio.sleep(0.01)
            r = result_of(w.run(submit()))
            check(r[0] == "ok", "%d frames submitted while the line takes nothing: %r", n, r)
            check(w.raw[h][start:] == b"", "the line took something")
            stuck[0] = False
            w.settle()
            got = w.raw[h][start:]
            check(got == want, "%d frames of %s bytes submitted while the line takes nothing: then "
                  "it got %d bytes, expected %d (the same up to %d)", n, size, len(got), len(want),
                  next((i for i, (x, y) in enumerate(zip(got, want)) if x != y),
                       min(len(got), len(want))))
            return n, len(got)
        finally:
            w.close()
    return fn


def build(tier):
    thorough = tier == "thorough"
    out = [Enumeration("headers-type%d" % c, headers(c)) for c in TYPES]
    out.append(Enumeration("lengths", lengths))
    out.append(Enumeration("repeated", repeated))
    out.append(Enumeration("messages", messages))
    out.append(Scenario("backlog", backlog([1, 2, 3, 10, 40, 130, 300] + [1000, 5000] * thorough),
                        bound=0))
    out.append(Scenario("link-1", link(1), bound=4 if thorough else 3))
    out.append(Scenario("link-2", link(2), bound=4 if thorough else 3))
    out.append(Scenario("link-3", link(3), bound=3 if thorough else 2))
    out.append(Scenario("commands-2", commands(2), bound=3 if thorough else 2))
    if thorough:
        out.append(Scenario("link-4", link(4), bound=2))
        out.append(Scenario("commands-3", commands(3), bound=3))
    return out


ASSUMPTIONS = [
    "the serial device accepts a non-empty prefix of each write (or, as a deviation, nothing "
    "with EAGAIN) and is writable again later",
    "pyserial-asyncio's SerialTransport runs for real; serial.serial_for_url is replaced",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C01", build, ASSUMPTIONS))
