"""Independent reference for MT framing and the MT command table (spec/mt_table.json)."""
import json
import os

_SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")

POLL, SREQ, AREQ, SRSP = 0, 1, 2, 3
TYPES = {"POLL": 0, "SREQ": 1, "AREQ": 2, "SRSP": 3}
SUBSYS = {"RESERVED": 0, "SYS": 1, "MAC": 2, "NWK": 3, "AF": 4, "ZDO": 5, "SAPI": 6, "UTIL": 7,
          "DEBUG": 8, "APP": 9, "APP_CNF": 15, "GREENPOWER": 21}
SUBSYS_NAME = {v: k for k, v in SUBSYS.items()}
FIXED = {"UINT8": 1, "UINT16": 2, "UINT32": 4, "INT8": 1, "IEEEADDR": 8, "BUFFER8": 8,
         "BUFFER16": 16, "BUFFER18": 18, "BUFFER32": 32, "BUFFER42": 42, "BUFFER100": 100}
UNSUPPORTED = ("LIST_ROUTING_TABLE", "LIST_BIND_TABLE", "LIST_NETWORK", "LIST_ASSOC_DEV")

TABLE = json.load(open(os.path.join(_SPEC, "mt_table.json")))
BY_NAME = {(s, c["name"]): c for s, l in TABLE.items() for c in l}
BY_ID = {(s, c["id"]): c for s, l in TABLE.items() for c in l}


class Short(Exception):
    pass


class Unsupported(Exception):
    pass


def xor(data):
    x = 0
    for b in data:
        x ^= b
    return x


def frame(ctype, subsys, cmd, payload=b""):
    body = bytes([len(payload), (ctype << 5) | subsys, cmd]) + payload
    return b"\xfe" + body + bytes([xor(body)])


def encode_fields(fields, values):
    """values: ints, bytes for buffers and IEEE addresses (wire order), lists of ints,
    lists of dicts for neighbour tables."""
    out = b""
    for name, typ in fields:
        v = values[name]
        if typ in ("UINT8", "UINT16", "UINT32"):
            out += int(v).to_bytes(FIXED[typ], "little")
        elif typ == "INT8":
            out += int(v).to_bytes(1, "little", signed=True)
        elif typ == "IEEEADDR" or typ.startswith("BUFFER"):
            v = bytes(v)
            assert typ == "BUFFER" or len(v) == FIXED[typ], (name, typ, v)
            out += v
        elif typ == "LIST_UINT8":
            out += bytes(v)
        elif typ == "LIST_UINT16":
            for i in v:
                out += int(i).to_bytes(2, "little")
        elif typ == "LIST_NEIGHBOR_LQI":
            for n in v:
                out += bytes(n["extPanId"]) + bytes(n["extAddr"])
                out += n["nwkAddr"].to_bytes(2, "little")
                out += bytes([n["deviceType"] | n["rxOnWhenIdle"] << 2 | n["relationship"] << 4,
                              n["permitJoin"], n["depth"], n["lqi"]])
        else:
            raise Unsupported(typ)
    return out


def is_length_for(prev_name, typ):
    """Does the field before a variable-size field give its size?"""
    if prev_name is None:
        return False
    return typ != "BUFFER" or "len" in prev_name


def decode_fields(fields, data):
    out, pos, prev = {}, 0, None

    def take(n):
        nonlocal pos
        if pos + n > len(data):
            raise Short()
        pos += n
        return data[pos - n:pos]

    for name, typ in fields:
        if typ in ("UINT8", "UINT16", "UINT32"):
            v = int.from_bytes(take(FIXED[typ]), "little")
        elif typ == "INT8":
            v = int.from_bytes(take(1), "little", signed=True)
        elif typ in FIXED:
            v = take(FIXED[typ])
        elif typ == "BUFFER":
            n = out[prev] if is_length_for(prev, typ) else len(data) - pos
            v = take(n)
        elif typ == "LIST_UINT8":
            v = list(take(out[prev]))
        elif typ == "LIST_UINT16":
            v = [int.from_bytes(take(2), "little") for _ in range(out[prev])]
        elif typ == "LIST_NEIGHBOR_LQI":
            v = []
            for _ in range(out[prev]):
                b = take(22)
                v.append({"extPanId": b[:8], "extAddr": b[8:16],
                          "nwkAddr": int.from_bytes(b[16:18], "little"),
                          "deviceType": b[18] & 3, "rxOnWhenIdle": b[18] >> 2 & 3,
                          "relationship": b[18] >> 4 & 7, "permitJoin": b[19] & 3,
                          "depth": b[20], "lqi": b[21]})
        else:
            raise Unsupported(typ)
        out[name] = v
        prev = name
    return out


def fields_of(cmd, ctype):
    """None: the command has no such direction"""
    return cmd.get("response") if ctype == SRSP else cmd.get("request")


def encode(subsys, name, values, ctype=None):
    """A whole frame from names."""
    cmd = BY_NAME[(subsys, name)]
    if ctype is None:
        ctype = TYPES[cmd["type"]]
    return frame(ctype, SUBSYS[subsys], cmd["id"], encode_fields(fields_of(cmd, ctype), values))


def longer(frame_, tail):
    """the same frame with further payload bytes (newer stacks append fields)"""
    body = bytes([frame_[1] + len(tail)]) + frame_[2:-1] + tail
    return b"\xfe" + body + bytes([xor(body)])


class Deframer:
    """Reference deframing: skip to 0xFE, a frame spans what it declares, drop it as a whole
    when the checksum is wrong, continue at the next byte."""

    def __init__(self):
        self.buf = b""
        self.skipped = b""
        self.bad = []

    def push(self, data):
        out = []
        for b in data:
            f = self.push1(b)
            if f is not None:
                out.append(f)
        return out

    def push1(self, b):
        if not self.buf and b != 0xFE:
            self.skipped += bytes([b])
            return None
        self.buf += bytes([b])
        if len(self.buf) >= 5 and len(self.buf) == self.buf[1] + 5:
            raw, self.buf = self.buf, b""
            if xor(raw[1:-1]) == raw[-1]:
                return (raw[2] >> 5, raw[2] & 0x1F, raw[3], raw[4:-1])
            self.bad.append(raw)
        return None


class Cmd:
    """A decoded command on the line."""

    __slots__ = ("time", "ctype", "subsys", "name", "values", "raw")

    def __init__(self, time, ctype, subsys, name, values, raw):
        self.time, self.ctype, self.subsys = time, ctype, subsys
        self.name, self.values, self.raw = name, values, raw

    def __repr__(self):
        return "%.3f %s.%s %s" % (self.time, self.subsys, self.name, self.values)


def decode(time, f):
    ctype, ss, cid, payload = f
    sname = SUBSYS_NAME.get(ss)
    cmd = BY_ID.get((sname, cid))
    if cmd is None or fields_of(cmd, ctype) is None:
        return Cmd(time, ctype, sname or ss, "?%d" % cid, {"_": payload}, f)
    try:
        return Cmd(time, ctype, sname, cmd["name"], decode_fields(fields_of(cmd, ctype), payload),
                   f)
    except (Short, Unsupported, KeyError):
        return Cmd(time, ctype, sname, cmd["name"], {"_undecodable": payload}, f)
