"""C02: the receiving side delivers exactly the frames of the byte stream, as soon as each is
complete, however the stream is cut into reads.  Oracle: mt.Deframer (written independently)."""
import itertools

from mc import mt
from mc.explore import Enumeration, Scenario, Violation
from mc.world import World, check, result_of

from zigpy_cc import uart

KNOWN_SS = set(range(10)) | {15, 21}


class Up:
    """What sits above the link: records the frames it is given."""

    def __init__(self):
        self.received = []
        self.ended = None
        self.port = self

    @property
    def frames(self):
        check(self.ended is None and self.port.ended is None, "the link was ended")
        return self.received

    def data_received(self, frame):
        self.received.append((int(frame.command_type), int(frame.subsystem),
                            int(frame.command_id), bytes(frame.data)))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in ("connection_lost", "close", "abort"):
            self.ended = name
        return lambda *a, **k: None


def gateway():
    up = Up()
    gw = uart.Gateway(up)
    port = Up()
    gw.connection_made(port)
    up.port = port
    return gw, up


def interpretable(f):
    return f[0] <= 3 and f[1] in KNOWN_SS


def reference(stream):
    """[(offset after the last byte, frame)]"""
    d = mt.Deframer()
    out = []
    for i, b in enumerate(stream):
        f = d.push1(b)
        if f is not None and interpretable(f):
            out.append((i + 1, f))
    return out


def bytewise(stream):
    gw, up = gateway()
    out = []
    n = 0
    for i in range(len(stream)):
        gw.data_received(stream[i:i + 1])
        for f in up.frames[n:]:
            out.append((i + 1, f))
        n = len(up.frames)
    return out


def chunked(stream, cuts):
    """Returns [(offset of the end of the read, frame)]"""
    gw, up = gateway()
    out = []
    n = prev = 0
    for c in tuple(cuts) + (len(stream),):
        gw.data_received(stream[prev:c])
        out += [(c, f) for f in up.frames[n:]]
        n = len(up.frames)
        prev = c
    return out


def expect_chunked(ref, cuts, end):
    ends = sorted(set(cuts) | {end})
    return [(next(e for e in ends if e >= off), f) for off, f in ref]


def verify(stats, stream, cutsets):
    ref = reference(stream)
    stats.distinct += 1
    stats.evals += 1
    got = bytewise(stream)
    if got != ref:
        raise Violation("stream %s, byte by byte: delivered %s, expected %s"
                        % (stream.hex(), got, ref))
    for cuts in cutsets:
        stats.evals += 1
        got = chunked(stream, cuts)
        want = expect_chunked(ref, cuts, len(stream))
        if got != want:
            raise Violation("stream %s cut at %s: delivered %s, expected %s"
                            % (stream.hex(), list(cuts), got, want))
    if ref and len(stats.samples) < 2:
        stats.samples.append({"stream": stream.hex(), "frames": len(ref)})


# every stream over a small alphabet closed enough under XOR to contain valid frames:
# FE (start), lengths 0 and 1, header bytes 01/21/20, command id 1
ALPHABET = (0xFE, 0x00, 0x01, 0x21, 0x20)


def words(first, length, cut):
    def fn(stats):
        for rest in itertools.product(ALPHABET, repeat=length - len(first)):
            stream = bytes(first + rest)
            n = len(stream)
            verify(stats, stream, [()] + ([(i,) for i in range(1, n)] if cut else []))
    return fn


def frame(ctype, ss, cid, data=b""):
    return mt.frame(ctype, ss, cid, data)


def bad(f):
    return f[:-1] + bytes([f[-1] ^ 0x5A])


TOKENS = {
    "empty": frame(3, 1, 1),
    "areq": frame(2, 4, 0x81, bytes(range(9))),
    "fe-payload": frame(3, 1, 8, b"\xfe\x01\xfe\x00\x21\xfe"),
    "fe-checksum": next(f for f in (frame(3, 5, 9, bytes([a, 3])) for a in range(256))
                        if f[-1] == 0xFE),
    "fe-id": frame(2, 15, 0xFE, b"\xfe"),
    "nested": frame(2, 4, 3, frame(3, 1, 1) + frame(2, 5, 7, b"\x02")),
    "badsum": bad(frame(3, 1, 8, b"\x00\x01")),
    "badsum-nested": bad(frame(2, 4, 3, frame(3, 1, 1, b"\x05"))),
    "badsum-empty": bad(frame(3, 1, 1)),
    "badtype": frame(5, 1, 1, b"\x01"),
    "badsubsys": frame(3, 0x1E, 1, b"\x01\x02"),
    "start": b"\xfe",
    "fefe": b"\xfe\xfe",
    "trunc": frame(3, 1, 8, b"\x00\x01\x02")[:-2],
    "junk": b"\x00\x01\x21\xef",
    "len3": b"\xfe\x03",
    "max": frame(2, 4, 0x82, bytes(250)),
    "len254": frame(2, 4, 0x82, bytes((i * 3) & 255 for i in range(254))),
    "len255": frame(2, 4, 0x82, bytes(255)),
}
SHORT = [k for k, v in TOKENS.items() if len(v) < 40]


def tokens(first, depth, every_cut):
    """All sequences of tokens; every single cut, cuts at and around token borders."""
    def fn(stats):
        for names in itertools.product(SHORT if depth > 2 else TOKENS, repeat=depth - 1):
            names = (first,) + names
            stream = b"".join(TOKENS[n] for n in names)
            n = len(stream)
            cuts = [()]
            borders = set()
            pos = 0
            for name in names:
                pos += len(TOKENS[name])
                borders |= {pos - 1, pos, pos + 1, pos + 2, pos + 4, pos + 5}
            borders = sorted(b for b in borders if 0 < b < n)
            singles = range(1, n) if every_cut or n < 64 else borders
            cuts += [(i,) for i in singles]
            if every_cut:
                cuts += list(itertools.combinations(borders, 2))
            verify(stats, stream, cuts)
    return fn


def all_chunkings(stats):
    """Every one of the 2^(n-1) ways to cut short streams."""
    for stream in (frame(3, 1, 1) + frame(2, 1, 0, b"\x01"),
                   b"\x00" + bad(frame(3, 1, 1)) + frame(3, 1, 1, b"\xfe"),
                   b"\xfe\x01\x61\xfe\x00" + frame(3, 1, 1)):
        n = len(stream)
        verify(stats, stream, [tuple(i + 1 for i in range(n - 1) if m >> i & 1)
                               for m in range(1 << (n - 1))])


def headers(hi):
    """every type/subsystem byte x command id x checksum right/wrong, followed by a good frame"""
    good = frame(3, 1, 1)

    def fn(stats):
        for b in range(hi * 32, hi * 32 + 32):
            for cid in range(256):
                for data in (b"", b"\xfe\x02"):
                    f = frame(b >> 5, b & 31, cid, data)
                    for s in (f, bad(f)):
                        verify(stats, s + good, [(), (len(s),)])
    return fn


def checksums(stats):
    """one frame with every possible checksum byte; every length byte 0..255 with a frame of it"""
    f = frame(2, 4, 0x81, b"\x01\x02\xfe")
    for c in range(256):
        verify(stats, f[:-1] + bytes([c]) + frame(3, 1, 1), [()])
    for n in range(256):
        for fill in (0, 1, 0xFE):
            f = frame(2, 4, 0x82, bytes([fill]) * n)
            verify(stats, f + frame(3, 1, 1), [(), (len(f),), (len(f) - 1,), (1,), (4,), (5,)])


def wire(depth):
    """The same over the real transport: the driver merges and splits what arrives."""
    NAMES = ["empty", "areq", "badsum", "fe-payload", "trunc", "junk"]

    def fn(ch):
        w = World(ch, horizon=50.0)
        try:
            gws = []
            up = Up()

            async def go():
                gws.append(await uart.connect(w.device_config(), up))

            task = w.run(go())
            check(result_of(task)[0] == "ok", "connect failed: %r" % (result_of(task),))
            names = [ch.pick("token", NAMES) for _ in range(depth)]
            stream = b"".join(TOKENS[n] for n in names)
            # arrives in pieces: token borders plus (deviation) one more cut each
            w.deliver = "choose"
            for n in names:
                tok = TOKENS[n]
                k = ch.choose("cut", [0] + [1] * (len(tok) - 1), list(range(len(tok))))
                if k:
                    w.send(tok[:k])
                w.send(tok[k:])
            w.settle()
            want = [f for _, f in reference(stream)]
            check(up.frames == want, "stream %s: delivered %s, expected %s",
                  stream.hex(), up.frames, want)
            return "%d frames" % len(want)
        finally:
            w.close()
    return fn


def gaps(pauses):
    """however long the line pauses within a frame"""
    NAMES = ["empty", "areq", "badsum", "fe-payload", "trunc", "junk", "nested"]

    def fn(ch):
        w = World(ch, horizon=5000.0)
        try:
            up = Up()
            task = w.run(uart.connect(w.device_config(), up))
            check(result_of(task)[0] == "ok", "connect failed: %r" % (result_of(task),))
            h = w.handle
            names = [ch.pick("token", NAMES) for _ in range(2)]
            stream = b"".join(TOKENS[n] for n in names)
            cut = ch.pick("cut", list(range(1, len(stream))))
            pause = ch.pick("pause", pauses)
            again = ch.pick("cut again", [0, 1, 3])
            w.send(stream[:cut], h)
            w.loop.call_env(pause, w.send, stream[cut:cut + again], h)
            w.loop.call_env(2 * pause, w.send, stream[cut + again:], h)
            w.settle()
            want = [f for _, f in reference(stream)]
            check(up.frames == want, "stream %s paused for %s s at %s: delivered %s, expected %s",
                  stream.hex(), pause, cut, up.frames, want)
            return "%d frames" % len(want)
        finally:
            w.close()
    return fn


def long(stats):
    """the parser has no memory: after any number of frames it works as at the beginning"""
    for name in ("empty", "areq", "badsum", "badsubsys", "junk", "start", "max", "fe-payload"):
        unit = TOKENS[name]
        stream = unit * (70000 // len(unit) if name in ("max", "areq") else 3000)
        stream += bytes(300) + TOKENS["areq"] * 2 + TOKENS["empty"]
        gw, up = gateway()
        for i in range(0, len(stream), 4096):
            gw.data_received(stream[i:i + 4096])
            stats.evals += 1
        stats.distinct += 1
        want = [f for _, f in reference(stream)]
        if up.frames != want:
            raise Violation("a long stream of %s: delivered %d frames, expected %d"
                            % (name, len(up.frames), len(want)))


def interleaved(stats):
    """several links (at once, or one after the other) do not see each other's bytes"""
    names = [n for n in TOKENS if len(TOKENS[n]) < 20]
    for a, b in itertools.product(names, repeat=2):
        streams = [TOKENS[a] + TOKENS["areq"], TOKENS[b] + TOKENS["empty"]]
        want = [[f for _, f in reference(s)] for s in streams]
        for cut, cut2 in itertools.product(range(len(TOKENS[a]) + 1), range(len(TOKENS[b]) + 1)):
            stats.evals += 1
            gws = [gateway(), gateway()]
            gws[0][0].data_received(streams[0][:cut])
            gws[1][0].data_received(streams[1][:cut2])
            gws[0][0].data_received(streams[0][cut:])
            gws[1][0].data_received(streams[1][cut2:])
            late = gateway()  # a link made while the others are in the middle of something
            late[0].data_received(streams[1])
            got = [g[1].frames for g in gws] + [late[1].frames]
            if got != want + want[1:]:
                raise Violation("two links, %s cut at %d and %s cut at %d: delivered %s, "
                                "expected %s" % (streams[0].hex(), cut, streams[1].hex(), cut2,
                                                 got, want))
        stats.distinct += 1


def build(tier):
    thorough = tier == "thorough"
    n = 10 if thorough else 8
    out = []
    for a in itertools.product(ALPHABET, repeat=2):
        if a[0] == 0xFE:
            # the interesting half goes deeper
            for b in ALPHABET:
                out.append(Enumeration("words-%d-%s" % (n + 1, bytes(a + (b,)).hex()),
                                       words(a + (b,), n + 1, thorough)))
        else:
            out.append(Enumeration("words-%d-%s" % (n, bytes(a).hex()), words(a, n, True)))
    for k in TOKENS:
        out.append(Enumeration("tokens-2-" + k, tokens(k, 2, True)))
    for k in SHORT:
        out.append(Enumeration("tokens-3-" + k, tokens(k, 3, thorough)))
        if thorough:
            out.append(Enumeration("tokens-4-" + k, tokens(k, 4, False)))
    out.append(Enumeration("all-chunkings", all_chunkings))
    out += [Enumeration("headers-%d" % i, headers(i)) for i in range(8)]
    out.append(Enumeration("checksums", checksums))
    out.append(Scenario("wire-2", wire(2), bound=2))
    out.append(Scenario("gaps", gaps([0.002, 1.2, 65]), bound=0))
    out.append(Enumeration("long", long))
    out.append(Enumeration("interleaved", interleaved))
    if thorough:
        out.append(Scenario("wire-3", wire(3), bound=2))
    return out


ASSUMPTIONS = ["type codes 4..7 and subsystem codes without a name are not interpretable and "
               "their frames are dropped"]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C02", build, ASSUMPTIONS))
