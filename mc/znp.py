"""Simulated Z-Stack network processor: speaks bytes on a fake serial line.

It is an ordinary reactive machine: `command(cmd)` returns the frames it sends.  Faults are
applied by `World`/checks around it (hook `fault`).
"""
from mc import mt

SOFT_MARKER = {0: 3840, 1: 96, 2: 96}
ID = dict(STARTUP_OPTION=3, EXTENDED_PAN_ID=45, PRECFGKEY=98, PRECFGKEYS_ENABLE=99, PANID=131,
          CHANLIST=132, LOGICAL_TYPE=135, ZDO_DIRECT_CB=143, TCLK=257)
IEEE = bytes([0x11, 0x22, 0x33, 0x44, 0x00, 0x4B, 0x12, 0x00])
TCLK_VALUE = (b"\xff" * 8 + b"ZigBeeAlliance09" + b"\x00" * 8)

# the answer to a command of a subsystem the adapter does not have
NO_SUBSYSTEM = b"\xfe\x03\x60\x00\x01\x26\x05\x41"

DEFAULT_KEY = bytes([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])


def factory_nv(product):
    """Factory state: the items a stack creates at its first start."""
    return {ID["STARTUP_OPTION"]: b"\x00", ID["EXTENDED_PAN_ID"]: b"\x00" * 8,
            ID["PRECFGKEY"]: b"\x00" * 16, ID["PRECFGKEYS_ENABLE"]: b"\x01",
            ID["PANID"]: b"\xff\xff", ID["CHANLIST"]: (0x800).to_bytes(4, "little"),
            ID["LOGICAL_TYPE"]: b"\x01", ID["ZDO_DIRECT_CB"]: b"\x00",
            ID["TCLK"]: b"\x00" * 32}


# what an adapter reports about its firmware: interface, major, minor and maintenance release,
# revision
FIRMWARES = [(2, 2, 7, 1, 20190608), (0, 0, 0, 0, 0), (2, 2, 6, 3, 20180507),
             (2, 2, 4, 1, 20150815), (2, 2, 7, 2, 20211217), (2, 3, 30, 2, 20201026),
             (1, 1, 255, 0, 0xFFFFFFFF), (255, 255, 0, 255, 1)]


def any_firmware(fn, firmwares=FIRMWARES):
    """a scenario with adapters of every firmware version"""
    def run(ch):
        Znp.firmware = ch.pick("firmware", list(firmwares))
        try:
            return Znp.firmware, fn(ch)
        finally:
            Znp.firmware = FIRMWARES[0]
    return run


class Znp:
    firmware = FIRMWARES[0]

    def __init__(self, product=1, nv=None, running=False, endpoints=(), groups=(),
                 commissioned=False):
        self.product = product
        self.nv = dict(factory_nv(product) if nv is None else nv)
        self.devstate = 9 if running else 0
        self.commissioned = commissioned or running
        self.endpoints = {e: None for e in endpoints}
        self.groups = set(groups)
        self.bdb_channels = {}
        self.bdb_done = []
        self.commissioning = []  # the same, since the network state was last cleared
        self.resets = 0
        self.cleared = 0  # number of resets that cleared the network state
        self.log = []  # Cmd received
        self.nv_writes = []  # (id, old, new)
        self.violations = []  # protocol misuse
        self.ieee = IEEE
        self.nwk = 0
        self.status = {}  # (subsys, name) -> forced status
        self.start_status = None
        self.af_confirm = True
        self.zdo_reply = True
        self.replies = {}  # (subsys,name) -> callable(cmd) -> list of (delay, frame)
        self.on_commit = None  # called after each state change

    # ---------------------------------------------------------------------------------
    @property
    def marker_id(self):
        return SOFT_MARKER[self.product]

    def rsp(self, cmd, **values):
        return mt.encode(cmd.subsys, cmd.name, values, mt.SRSP)

    def areq(self, subsys, name, **values):
        return mt.encode(subsys, name, values, mt.AREQ)

    def error(self, cmd, status):
        """An error answer with the given status to any command having a status field."""
        spec = mt.BY_NAME[(cmd.subsys, cmd.name)]
        vals = {}
        for n, t in spec.get("response", ()):
            if t.startswith("LIST"):
                vals[n] = []
            elif t == "BUFFER":
                vals[n] = b""
            elif t in mt.FIXED and t not in ("UINT8", "UINT16", "UINT32", "INT8"):
                vals[n] = b"\x00" * mt.FIXED[t]
            else:
                vals[n] = 0
        if "status" not in vals:
            return None
        vals["status"] = status
        return self.rsp(cmd, **vals)

    def write_nv(self, i, off, data):
        old = self.nv[i]
        new = old[:off] + data + old[off + len(data):]
        self.nv[i] = new
        self.nv_writes.append((i, old, new))

    def command(self, cmd):
        """Returns list of (delay, bytes)."""
        self.log.append(cmd)
        forced = self.status.get((cmd.subsys, cmd.name))
        if forced is not None:
            f = self.error(cmd, forced)
            return [(0, f)] if f else []
        custom = self.replies.get((cmd.subsys, cmd.name))
        if custom is not None:
            return custom(cmd)
        h = getattr(self, "do_%s_%s" % (cmd.subsys, cmd.name), None)
        if h is not None:
            out = h(cmd)
        elif cmd.ctype == mt.SREQ:
            f = self.error(cmd, 0)
            out = [f] if f else [self.rsp(cmd, **{})] if (cmd.subsys, cmd.name) in mt.BY_NAME \
                and not mt.BY_NAME[(cmd.subsys, cmd.name)]["response"] else []
        else:
            out = []
        return [o if isinstance(o, tuple) else (0, o) for o in out]

    # --- SYS ------------------------------------------------------------------------
    def reset(self):
        self.resets += 1
        if self.nv.get(ID["STARTUP_OPTION"], b"\0")[0] & 0x02:
            self.cleared += 1
            self.commissioned = False
            self.commissioning = []
            self.groups = set()
            self.nv[ID["STARTUP_OPTION"]] = b"\x00"
        self.devstate = 0
        self.endpoints = {}
        self.bdb_channels = {}
        self.bdb_done = []

    def reset_ind(self):
        return self.areq("SYS", "resetInd", reason=0, transportrev=self.firmware[0],
                         productid=self.product, majorrel=self.firmware[1],
                         minorrel=self.firmware[2], hwrev=1)

    def do_SYS_resetReq(self, cmd):
        self.reset()
        return [(0.5, self.reset_ind())]

    def do_SYS_ping(self, cmd):
        return [self.rsp(cmd, capabilities=0x0579)]

    def do_SYS_version(self, cmd):
        f = self.firmware
        return [self.rsp(cmd, transportrev=f[0], product=self.product, majorrel=f[1],
                         minorrel=f[2], maintrel=f[3], revision=f[4])]

    def do_SYS_osalNvRead(self, cmd):
        v = self.nv.get(cmd.values["id"])
        if v is None or self.withheld(cmd.values["id"]):
            return [self.rsp(cmd, status=2, len=0, value=b"")]
        v = v[cmd.values["offset"]:]
        return [self.rsp(cmd, status=0, len=len(v), value=v)]

    def do_SYS_osalNvWrite(self, cmd):
        i, off, data = cmd.values["id"], cmd.values["offset"], cmd.values["value"]
        if i not in self.nv or self.withheld(i, True):
            return [self.rsp(cmd, status=9)]
        if off + len(data) > len(self.nv[i]):
            return [self.rsp(cmd, status=0x0C)]
        self.write_nv(i, off, data)
        return [self.rsp(cmd, status=0)]

    def do_SYS_osalNvItemInit(self, cmd):
        i = cmd.values["id"]
        if i in self.nv:
            return [self.rsp(cmd, status=0)]
        v = cmd.values["initvalue"]
        self.nv[i] = v + b"\xff" * (cmd.values["len"] - len(v))
        return [self.rsp(cmd, status=9)]

    def do_SYS_osalNvDelete(self, cmd):
        i = cmd.values["id"]
        if i not in self.nv:
            return [self.rsp(cmd, status=9)]
        del self.nv[i]
        return [self.rsp(cmd, status=0)]

    def withheld(self, i, write=False):
        """Z-Stack 3.x.0 has no SAPI; the others give keys away through SAPI only"""
        return i == ID["PRECFGKEY"] and self.product in ((0,) if write else (0, 2))

    # --- SAPI -----------------------------------------------------------------------
    def do_SAPI_readConfiguration(self, cmd):
        if self.product == 1:
            return [NO_SUBSYSTEM]
        v = self.nv.get(cmd.values["configid"])
        if v is None:
            return [self.rsp(cmd, status=2, configid=cmd.values["configid"], len=0, value=b"")]
        return [self.rsp(cmd, status=0, configid=cmd.values["configid"], len=len(v), value=v)]

    def do_SAPI_writeConfiguration(self, cmd):
        if self.product == 1:
            return [NO_SUBSYSTEM]
        i = cmd.values["configid"]
        if i not in self.nv or len(self.nv[i]) < len(cmd.values["value"]):
            return [self.rsp(cmd, status=9)]
        self.write_nv(i, 0, cmd.values["value"])
        return [self.rsp(cmd, status=0)]

    # --- APP_CNF --------------------------------------------------------------------
    def do_APP_CNF_bdbSetChannel(self, cmd):
        if self.product == 0:
            return []
        self.bdb_channels[cmd.values["isPrimary"]] = cmd.values["channel"]
        return [self.rsp(cmd, status=0)]

    def do_APP_CNF_bdbStartCommissioning(self, cmd):
        if self.product == 0:
            return []
        self.bdb_done.append((cmd.values["mode"], dict(self.bdb_channels)))
        self.commissioning.append(self.bdb_done[-1])
        out = [self.rsp(cmd, status=0)]
        if cmd.values["mode"] & 4:
            out += self._start()
        return out

    def _start(self):
        def started():
            self.devstate = 9
            self.commissioned = True
            return self.areq("ZDO", "stateChangeInd", state=9)
        return [(0.1, self.areq("ZDO", "stateChangeInd", state=8)), (1.0, started)]

    # --- ZDO ------------------------------------------------------------------------
    def do_ZDO_startupFromApp(self, cmd):
        st = (0 if self.commissioned else 1) if self.start_status is None else self.start_status
        return [self.rsp(cmd, status=st)] + (self._start() if st in (0, 1) else [])

    def do_ZDO_activeEpReq(self, cmd):
        out = [self.rsp(cmd, status=0)]
        if cmd.values["dstaddr"] == 0:
            eps = sorted(self.endpoints)
            out.append(self.areq("ZDO", "activeEpRsp", srcaddr=0, status=0, nwkaddr=0,
                                 activeepcount=len(eps), activeeplist=eps))
        return out

    def do_ZDO_extFindGroup(self, cmd):
        g = (cmd.values["endpoint"], cmd.values["groupid"])
        return [self.rsp(cmd, status=0 if g in self.groups else 1, groupid=g[1], namelen=0,
                         groupname=b"")]

    def do_ZDO_extAddGroup(self, cmd):
        g = (cmd.values["endpoint"], cmd.values["groupid"])
        if g in self.groups:
            self.violations.append("group added twice %r" % (g,))
            return [self.rsp(cmd, status=0xB8)]
        self.groups.add(g)
        return [self.rsp(cmd, status=0)]

    def do_ZDO_mgmtPermitJoinReq(self, cmd):
        out = [self.rsp(cmd, status=0)]
        if self.zdo_reply:
            out.append(self.areq("ZDO", "mgmtPermitJoinRsp", srcaddr=0, status=0))
            out.append(self.areq("ZDO", "permitJoinInd", duration=cmd.values["duration"]))
        return out

    # --- AF -------------------------------------------------------------------------
    def do_AF_register(self, cmd):
        ep = cmd.values["endpoint"]
        if ep in self.endpoints:
            self.violations.append("endpoint %d registered twice" % ep)
            return [self.rsp(cmd, status=0xB8)]
        self.endpoints[ep] = {k: v for k, v in cmd.values.items()}
        return [self.rsp(cmd, status=0)]

    def do_AF_dataRequest(self, cmd):
        out = [self.rsp(cmd, status=0)]
        if self.af_confirm:
            out.append((0.05, self.areq("AF", "dataConfirm", status=0,
                                        endpoint=cmd.values["srcendpoint"],
                                        transid=cmd.values["transid"])))
        return out

    do_AF_dataRequestExt = do_AF_dataRequest

    # --- UTIL -----------------------------------------------------------------------
    def do_UTIL_getDeviceInfo(self, cmd):
        return [self.rsp(cmd, status=0, ieeeaddr=self.ieee, shortaddr=self.nwk, devicetype=7,
                         devicestate=self.devstate, numassocdevices=0, assocdeviceslist=[])]
