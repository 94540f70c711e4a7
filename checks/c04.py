"""C04: every command of the MT table is encoded and decoded as the MT specification says.

Oracle: mt.encode_fields / decode_fields over a frozen copy of the table (spec/mt_table.json)."""
import itertools

import zigpy.types as zt

from mc import mt
from mc.explore import Enumeration, Violation
from mc.world import REPO  # noqa: F401  (puts the tree under test on the path)

from zigpy_cc import types as t, uart
from zigpy_cc.zpi_object import ZpiObject

MODES = (0, 1, 2, 3, 15)


def walk(bits):
    top = (1 << bits) - 1
    vals = {0, 1, top, top - 1, 1 << (bits - 1), 0x123456789ABCDEF0 & top, 0x0102030405060708 & top,
            0xFF, 0x100 & top, 0xFF00 & top, 0xFE, 0xFFFE & top}
    for i in range(bits):
        vals |= {1 << i, top ^ (1 << i)}
    return sorted(vals)


def lqi(i=0, **kw):
    n = dict(extPanId=bytes(range(0x10 + i, 0x18 + i)), extAddr=bytes(range(0xA0 + i, 0xA8 + i)),
             nwkAddr=0x1234 + i, deviceType=1, rxOnWhenIdle=2, relationship=3, permitJoin=2,
             depth=15 + i, lqi=0xC0 + i)
    n.update(kw)
    return n


def base(i, name, typ):
    """A distinctive value for field number i"""
    if name.endswith("addrmode"):
        return 2
    if typ in ("UINT8", "UINT16", "UINT32"):
        n = mt.FIXED[typ]
        return int.from_bytes(bytes((0x11 * (i + 1) + 0x21 * k) & 0xFF for k in range(n)), "little")
    if typ == "INT8":
        return -(i + 3)
    if typ == "BUFFER":
        return bytes((0x31 + i * 5 + k) & 0xFF for k in range(3))
    if typ in mt.FIXED:
        return bytes((0x41 + i * 7 + k) & 0xFF for k in range(mt.FIXED[typ]))
    if typ == "LIST_UINT8":
        return [0x51 + i, 0xFE, 0]
    if typ == "LIST_UINT16":
        return [0x5152 + i, 0xFE01]
    if typ == "LIST_NEIGHBOR_LQI":
        return [lqi(0), lqi(1)]
    return None


def variants(name, typ, thorough):
    if name.endswith("addrmode"):
        return MODES
    if typ == "UINT8":
        return range(256)
    if typ == "INT8":
        return range(-128, 128)
    if typ == "UINT16":
        return range(65536) if thorough else walk(16)
    if typ == "UINT32":
        return walk(32)
    if typ == "BUFFER":
        out = [bytes([v]) for v in range(256)] + [bytes([0xFE] * n) for n in range(0, 221)]
        return out + [bytes((k * 5 + n) & 0xFF for k in range(n)) for n in range(0, 201, 13)]
    if typ in mt.FIXED:
        n = mt.FIXED[typ]
        out = []
        for pos in range(n):
            for v in (range(256) if thorough or n <= 8 else (0, 1, 0x80, 0xFE, 0xFF)):
                out.append(bytes(v if k == pos else (k + 1) for k in range(n)))
        return out + [bytes(n), b"\xff" * n]
    if typ == "LIST_UINT8":
        return [[v] for v in range(256)] + [list(range(n)) for n in range(0, 201)]
    if typ == "LIST_UINT16":
        return [[v] for v in walk(16)] + [[(k * 259) & 0xFFFF for k in range(n)]
                                          for n in range(0, 101)]
    if typ == "LIST_NEIGHBOR_LQI":
        out = [[lqi(k) for k in range(n)] for n in range(0, 10)]
        for d, r, s, p in itertools.product(range(4), range(4), range(8), range(4)):
            out.append([lqi(0, deviceType=d, rxOnWhenIdle=r, relationship=s, permitJoin=p)])
        for v in range(256):
            out.append([lqi(0, depth=v), lqi(1, lqi=v)])
        for v in walk(16):
            out.append([lqi(0, nwkAddr=v)])
        for k in range(8):
            for v in (0, 0xFE, 0xFF):
                e = bytes(v if j == k else j for j in range(8))
                out += [[lqi(0, extPanId=e)], [lqi(0, extAddr=e)]]
        return out
    return []


def prefix_of(fields, i):
    """index of the field that holds the size of field i, if any"""
    if i and (fields[i][1].startswith("LIST") or
              (fields[i][1] == "BUFFER" and mt.is_length_for(fields[i - 1][0], "BUFFER"))):
        return i - 1
    return None


def fix_lengths(fields, values):
    for i, (n, typ) in enumerate(fields):
        j = prefix_of(fields, i)
        if j is not None:
            values[fields[j][0]] = len(values[n])
    return values


def cases(fields, thorough):
    if any(ty in mt.UNSUPPORTED for _, ty in fields):
        return
    b = {n: base(i, n, ty) for i, (n, ty) in enumerate(fields)}
    yield fix_lengths(fields, dict(b))
    sizes = {prefix_of(fields, i) for i in range(len(fields))}
    for i, (n, ty) in enumerate(fields):
        if i in sizes:
            continue
        for v in variants(n, ty, thorough):
            yield fix_lengths(fields, {**b, n: v})
    # all zeros, all ones
    for pick in (0, -1):
        vals = {}
        for n, ty in fields:
            vs = list(variants(n, ty, False))
            if ty == "BUFFER" or ty.startswith("LIST"):
                vals[n] = b[n]
            elif ty == "INT8":
                vals[n] = pick
            elif ty in ("UINT8", "UINT16", "UINT32") and not n.endswith("addrmode"):
                vals[n] = 0 if pick == 0 else (1 << 8 * mt.FIXED[ty]) - 1
            else:
                vals[n] = vs[pick]
        yield fix_lengths(fields, vals)


def to_impl(fields, values, ieee_as_int=False):
    out = {}
    for n, ty in fields:
        v = values[n]
        if ty == "IEEEADDR":
            v = int.from_bytes(v, "little") if ieee_as_int else zt.EUI64.deserialize(v)[0]
        elif ty == "LIST_NEIGHBOR_LQI":
            v = [dict(x, extPanId=zt.EUI64.deserialize(x["extPanId"])[0],
                      extAddr=zt.EUI64.deserialize(x["extAddr"])[0]) for x in v]
        out[n] = v
    return out


def from_impl(fields, payload):
    out = {}
    for n, ty in fields:
        v = payload[n]
        if ty in ("UINT8", "UINT16", "UINT32", "INT8"):
            v = int(v)
        elif ty == "IEEEADDR":
            v = bytes(v.serialize())
        elif ty in mt.FIXED or ty == "BUFFER":
            v = bytes(v)
        elif ty.startswith("LIST_UINT"):
            v = [int(x) for x in v]
        elif ty == "LIST_NEIGHBOR_LQI":
            v = [{k: bytes(x[k].serialize()) if k.startswith("ext") else int(x[k])
                  for k in ("extPanId", "extAddr", "nwkAddr", "deviceType", "rxOnWhenIdle",
                            "relationship", "permitJoin", "depth", "lqi")} for x in v]
        out[n] = v
    return out


def decode(ctype, ss, cid, data):
    """What the implementation makes of a frame (through its own link frame class)"""
    return ZpiObject.from_unpi_frame(uart.UnpiFrame(ctype, ss, cid, data))


_seen = set()


def count(stats, *key):
    stats.evals += 1
    if key not in _seen:
        _seen.add(key)
        stats.distinct += 1


def fits(data):
    return len(data) <= 250


def check_one(stats, subsys, cmd, ctype, fields, values):
    ss, cid, name = mt.SUBSYS[subsys], cmd["id"], cmd["name"]
    data = mt.encode_fields(fields, values)
    if not fits(data):
        return
    count(stats, ctype, data)
    what = "%s.%s %s %s" % (subsys, name, ("POLL", "SREQ", "AREQ", "SRSP")[ctype], values)
    # encode, the way requests are built
    if ctype == mt.TYPES[cmd["type"]]:
        for as_int in (False, True) if any(ty == "IEEEADDR" for _, ty in fields) else (False,):
            obj = ZpiObject.from_command(t.Subsystem[subsys], name,
                                         to_impl(fields, values, as_int))
            f = obj.to_unpi_frame()
            got = (int(f.command_type), int(f.subsystem), int(f.command_id), bytes(f.data))
            if got != (ctype, ss, cid, data):
                raise Violation("encoding %s gave %s, expected %s" % (what, got,
                                                                     (ctype, ss, cid, data)))
    # decode
    try:
        want = mt.decode_fields(fields, data)
    except mt.Short:
        want = None  # a buffer without length in the middle: not decodable
    try:
        obj = decode(ctype, ss, cid, data)
    except Exception as e:
        if want is not None:
            raise Violation("decoding %s (%s) failed: %r" % (what, data.hex(), e))
        return
    if want is None:
        raise Violation("decoding %s (%s) should fail, gave %s" % (what, data.hex(), obj.payload))
    got = (int(obj.command_type), int(obj.subsystem), obj.command, int(obj.command_id))
    if got != (ctype, ss, name, cid):
        raise Violation("decoding %s (%s) gave %s" % (what, data.hex(), got))
    if set(obj.payload) != {n for n, _ in fields}:
        raise Violation("decoding %s gave fields %s" % (what, sorted(obj.payload)))
    got = from_impl(fields, obj.payload)
    if got != want:
        raise Violation("decoding %s (%s) gave %s" % (what, data.hex(), got))
    f = obj.to_unpi_frame()
    if (int(f.command_type), int(f.subsystem), int(f.command_id), bytes(f.data)) != (
            ctype, ss, cid, data):
        raise Violation("re-encoding decoded %s gave %s, expected %s"
                        % (what, bytes(f.data).hex(), data.hex()))
    if stats.evals % 499 == 0 and len(stats.samples) < 2:
        stats.samples.append({"command": what, "bytes": data.hex()})


def check_short(stats, subsys, cmd, ctype, fields, values):
    """Every truncation: an error, or (buffers that take the rest) exactly what the bytes say."""
    ss, cid = mt.SUBSYS[subsys], cmd["id"]
    data = mt.encode_fields(fields, values)
    if not fits(data):
        return
    for k in range(len(data)):
        count(stats, ctype, data[:k])
        try:
            want = mt.decode_fields(fields, data[:k])
        except mt.Short:
            want = None
        try:
            obj = decode(ctype, ss, cid, data[:k])
        except Exception:
            if want is not None:
                raise Violation("%s.%s: %s was refused" % (subsys, cmd["name"], data[:k].hex()))
            continue
        if want is None:
            raise Violation("%s.%s truncated to %d of %d bytes (%s) was decoded to %s" % (
                subsys, cmd["name"], k, len(data), data[:k].hex(), obj.payload))
        if from_impl(fields, obj.payload) != want:
            raise Violation("%s.%s: %s was decoded to %s, expected %s" % (
                subsys, cmd["name"], data[:k].hex(), obj.payload, want))


def check_longer(stats, subsys, cmd, ctype, fields):
    """What follows a complete command changes nothing in it (or is refused)."""
    if not fields or fields[-1][1] == "BUFFER" and prefix_of(fields, len(fields) - 1) is None:
        return
    ss, cid = mt.SUBSYS[subsys], cmd["id"]
    full = next(cases(fields, False))
    empty = {n: v for n, v in full.items()}
    sized = [i for i in range(len(fields)) if prefix_of(fields, i) is not None]
    picks = [full]
    for k in range(1, len(sized) + 1):
        for c in itertools.combinations(sized, k):
            vals = dict(empty)
            for i in c:
                vals[fields[i][0]] = vals[fields[i][0]][:0]
            picks.append(fix_lengths(fields, vals))
            vals = dict(vals)
            for i in c:
                vals[fields[i][0]] = empty[fields[i][0]][:1]
            picks.append(fix_lengths(fields, vals))
    for values in picks:
        data = mt.encode_fields(fields, values)
        try:
            want = mt.decode_fields(fields, data)
        except mt.Short:
            continue
        for tail in (b"\0", b"\x34\x12", b"\xfe\x01\x02\x03", b"\x34\x12\x1d", bytes(20), b"\xff" * 41):
            if not fits(data + tail):
                continue
            count(stats, ctype, data + tail)
            try:
                obj = decode(ctype, ss, cid, data + tail)
            except Exception:
                continue
            got = {n for n, _ in fields} <= set(obj.payload) and from_impl(fields, obj.payload)
            if got != want:
                raise Violation("%s.%s: %s followed by %s was decoded to %s, expected %s" % (
                    subsys, cmd["name"], data.hex(), tail.hex(), obj.payload, want))


def check_range(stats, subsys, cmd, ctype, fields):
    """Values that have no encoding are refused."""
    if ctype != mt.TYPES[cmd["type"]]:
        return
    vals = next(cases(fields, False))
    sizes = {prefix_of(fields, i) for i in range(len(fields))}
    for i, (n, ty) in enumerate(fields):
        if ty in ("UINT8", "UINT16", "UINT32", "INT8"):
            bits = 8 * mt.FIXED[ty]
            bads = (128, -129, 255) if ty == "INT8" else (1 << bits, -1, (1 << bits) + 1)
            for bad in bads:
                count(stats, "range", n, bad)
                p = to_impl(fields, vals)
                p[n] = bad
                try:
                    f = ZpiObject.from_command(t.Subsystem[subsys], cmd["name"], p).to_unpi_frame()
                except Exception:
                    continue
                raise Violation("%s.%s %s=%d was encoded to %s" % (
                    subsys, cmd["name"], n, bad, bytes(f.data).hex()))


def check_unsupported(stats, subsys, cmd, ctype, fields):
    name = cmd["name"]
    head = b""
    for i, (n, ty) in enumerate(fields):
        if ty in mt.UNSUPPORTED:
            break
        head += mt.encode_fields([(n, ty)], {n: bytes(mt.FIXED[ty]) if ty == "IEEEADDR" else 1})
    for tail in (b"", bytes(2), bytes(30), b"\x01" * 100):
        count(stats, ctype, head + tail)
        try:
            obj = decode(ctype, mt.SUBSYS[subsys], cmd["id"], head + tail)
        except Exception:
            continue
        raise Violation("%s.%s with an unsupported list was decoded to %s"
                        % (subsys, name, obj.payload))
    if ctype == mt.TYPES[cmd["type"]]:
        vals = {n: [{}] if ty in mt.UNSUPPORTED else base(0, n, ty) for n, ty in fields}
        count(stats, "unsupported")
        try:
            f = ZpiObject.from_command(t.Subsystem[subsys], name, to_impl(fields, vals)
                                       ).to_unpi_frame()
        except Exception:
            return
        raise Violation("%s.%s with an unsupported list was encoded to %s"
                        % (subsys, name, bytes(f.data).hex()))


def command(subsys, cmd, thorough):
    def fn(stats):
        typ = mt.TYPES[cmd["type"]]
        _seen.clear()
        for ctype in sorted({typ, mt.SRSP}):
            fields = mt.fields_of(cmd, ctype)
            if fields is None:
                continue
            if ctype == mt.SRSP and typ != mt.SRSP and cmd.get("response") is None:
                continue
            if any(ty in mt.UNSUPPORTED for _, ty in fields):
                check_unsupported(stats, subsys, cmd, ctype, fields)
                continue
            n = 0
            for values in cases(fields, thorough):
                check_one(stats, subsys, cmd, ctype, fields, values)
                if n < 3:
                    check_short(stats, subsys, cmd, ctype, fields, values)
                n += 1
            check_longer(stats, subsys, cmd, ctype, fields)
            check_range(stats, subsys, cmd, ctype, fields)
    return fn


def group(subsys, cmds, thorough):
    def fn(stats):
        for c in cmds:
            command(subsys, c, thorough)(stats)
    return fn


def build(tier):
    thorough = tier == "thorough"
    size = 2 if thorough else 8
    out = []
    for s, l in mt.TABLE.items():
        for i in range(0, len(l), size):
            out.append(Enumeration("%s-%d" % (s, i), group(s, l[i:i + size], thorough)))
    return out


ASSUMPTIONS = [
    "spec/mt_table.json is a frozen copy of the command table, reviewed against the MT API",
    "reserved bits of neighbour table entries are zero; payloads up to 250 bytes",
    "undefined address modes are refused (see C03)",
    "a buffer that is not preceded by its length takes the rest of the frame",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C04", build, ASSUMPTIONS))
