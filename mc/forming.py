"""Network formation over adapters in every prior state: states, requested settings, oracles."""
from mc import mt
from mc.world import World, check, result_of
from mc.znp import DEFAULT_KEY, ID, SOFT_MARKER, TCLK_VALUE, Znp, factory_nv

NAMES = {v: k for k, v in ID.items()}
SETTINGS = ("LOGICAL_TYPE", "CHANLIST", "PANID", "EXTENDED_PAN_ID", "PRECFGKEY",
            "PRECFGKEYS_ENABLE", "ZDO_DIRECT_CB")
ENDPOINTS = {
    # endpoint: (profile, device id, in clusters, out clusters)
    1: (0x0104, 5, [], []), 2: (0x0101, 5, [], []), 3: (0x0106, 5, [], []),
    4: (0x0107, 5, [], []), 5: (0x0108, 5, [], []), 6: (0x0109, 5, [], []),
    8: (0x0104, 5, [], []), 11: (0x0104, 0x0400, [], [0x0500, 0x0502]),
    12: (0xC05E, 5, [], []), 13: (0x0104, 5, [0x0019], []), 47: (0x0104, 5, [], []),
    110: (0x0104, 5, [], []), 242: (0xA1E0, 5, [], []),
}
GROUP = (242, 0x0B84)
FAMILY = {0: "Z-Stack 1.2", 1: "Z-Stack 3.x.0", 2: "Z-Stack 3.0.x"}


class Want:
    """Requested settings as the adapter stores them; conf is the configuration asking for them."""

    def __init__(self, conf=None, channels=(15, 20, 25), pan=0x1A62, ext=b"\xdd" * 8,
                 key=DEFAULT_KEY):
        self.conf = conf or {}
        self.mask = sum(1 << c for c in channels)
        self.pan, self.ext, self.key = pan, ext, key
        self.nv = {
            "LOGICAL_TYPE": b"\x00", "CHANLIST": self.mask.to_bytes(4, "little"),
            "PANID": pan.to_bytes(2, "little"), "EXTENDED_PAN_ID": ext, "PRECFGKEY": key,
            "PRECFGKEYS_ENABLE": b"\x00", "ZDO_DIRECT_CB": b"\x01"}

    def settings(self, product):
        out = dict(self.nv)
        if product == 0:
            out["TCLK"] = TCLK_VALUE
        return out


DEFAULT = Want()
CUSTOM = Want(dict(channels=[11, 26], pan_id=0x3412, extended_pan_id="01:02:03:04:05:06:07:08",
                   key=[0xF0 + i for i in range(16)]),
              (11, 26), 0x3412, bytes([8, 7, 6, 5, 4, 3, 2, 1]),
              bytes(0xF0 + i for i in range(16)))

OTHER = {"CHANLIST": (1 << 12).to_bytes(4, "little"), "PANID": b"\x62\x1b",
         "EXTENDED_PAN_ID": b"\xdd" * 7 + b"\xde", "PRECFGKEY": DEFAULT_KEY[::-1],
         "PRECFGKEYS_ENABLE": b"\x01", "LOGICAL_TYPE": b"\x01", "ZDO_DIRECT_CB": b"\x00",
         "TCLK": b"\x00" * 32}
COMPARED = ("CHANLIST", "PRECFGKEYS_ENABLE", "PRECFGKEY", "PANID", "EXTENDED_PAN_ID")


def adapter(product, want, marker=None, other=(), random_pan=False, running=False, eps=(),
            groups=(), extra=None):
    """An adapter whose settings match `want` but for those in `other`."""
    nv = factory_nv(product)
    for n, v in want.settings(product).items():
        nv[ID[n]] = OTHER[n] if n in other else v
    if random_pan:
        nv[ID["PANID"]] = b"\xff\xff"
    if marker is not None:
        nv[SOFT_MARKER[product]] = marker
    nv.update(extra or {})
    return Znp(product, nv=nv, running=running, endpoints=eps, groups=groups)


def needs_init(znp, want):
    """Reference decision, from the adapter's state alone."""
    if znp.nv.get(znp.marker_id) != b"\x55":
        return True
    bad = {n for n in COMPARED if znp.nv.get(ID[n]) != want.nv[n]}
    if znp.product == 0 or znp.nv.get(ID["PANID"]) == b"\xff\xff":
        bad -= {"PANID", "EXTENDED_PAN_ID"}
    return bool(bad)


class Former(World):
    """Runs the application's start-up with formation against a given adapter."""

    UNSEEN = "(not reported)"

    def __init__(self, ch, znp, want, horizon=5000.0):
        super().__init__(ch, znp, horizon, network=want.conf)
        self.want = want
        self.loop.tick_cost = None
        self.application = None
        self.loop.sources.append(lambda: [])

    def slow(self, pace, begin):
        """the adapter takes `pace` s for each answer and `begin` s to start or to reboot"""
        def fault(handle, cmd):
            if cmd.name == "resetReq" and begin is not None:
                return [(min(begin, 28), f) for d, f in self.znp.command(cmd)]
            return [(pace + (begin if callable(f) and begin is not None else d), f)
                    for d, f in self.znp.command(cmd)]
        self.fault = fault

    def form(self, again=False, explicit=False):
        """Returns the result of one start-up with formation (again: of the same application;
        explicit: formation asked for after the start-up)."""
        if not again or self.application is None:
            self.application = self.app()
        self.outcome = self.UNSEEN
        self.mark = len(self.cmds)
        self.nv0 = dict(self.znp.nv)
        self.resets0, self.writes0 = self.znp.resets, len(self.znp.nv_writes)
        self._watch_outcome()
        r = result_of(self.run(self.application.startup(not explicit)))
        if explicit and r[0] == "ok":
            r = result_of(self.run(self.application.form_network()))
        return r

    def _watch_outcome(self):
        """note what the formation reports, where it can be seen"""
        import zigpy_cc.zigbee.application as mod

        real = getattr(mod, "start_znp", None)
        if real is None:
            return
        real = getattr(real, "_mc_real", real)

        async def start_znp(*a, **k):
            r = await real(*a, **k)
            self.outcome = r
            return r
        start_znp._mc_real = real
        mod.start_znp = start_znp

    def shutdown(self):
        r = result_of(self.run(self.application.shutdown()))
        check(r[0] == "ok", "shutdown ended with %r", r)

    def sent(self, *names):
        return [c for c in self.cmds[self.mark:] if c.name in names]

    # --- oracles -------------------------------------------------------------------------
    def check_configured(self, what):
        z, want = self.znp, self.want
        check(z.devstate == 9, what + "the adapter is not running as coordinator (state %s)",
              z.devstate)
        check(z.nv.get(z.marker_id) == b"\x55", what + "its marker is %s", z.nv.get(z.marker_id))
        for n, v in want.settings(z.product).items():
            check(z.nv.get(ID[n]) == v, what + "%s is %s, requested %s", n,
                  z.nv.get(ID[n], b"").hex(), v.hex())

    def check_initialised(self, what):
        """(of one uninterrupted initialisation)"""
        z, want = self.znp, self.want
        self.check_configured(what)
        cmds = self.cmds[self.mark:]
        # cleared: the clear option in effect at a reset, and no setting written before
        armed = cleared = None
        for i, c in enumerate(cmds):
            if c.name == "osalNvWrite" and c.values["id"] == ID["STARTUP_OPTION"]:
                armed = i if c.values["value"][0] & 2 else None
            elif c.name == "resetReq" and armed is not None:
                cleared, armed = i, None
        check(cleared is not None, what + "it was not rebooted with cleared network state")
        # each setting (other than the final repetition) was written after the reboot
        for n in want.settings(z.product):
            at = [i for i, c in enumerate(cmds)
                  if c.name == "osalNvWrite" and c.values["id"] == ID[n]
                  or c.name == "writeConfiguration" and c.values["configid"] == ID[n]]
            check(at and at[-1] > cleared, what + "%s was not written after the reboot", n)
        if z.product:
            modes = [m for m, _ in z.bdb_done]
            check(4 in modes, what + "it was not commissioned (%s)", modes)
            chans = dict(z.bdb_done)[4]
            check(chans == {1: want.mask, 0: 0}, what + "it was commissioned on %s", chans)
            check(2 in modes and modes.index(4) < modes.index(2),
                  what + "commissioning modes: %s", modes)
        else:
            check(not z.bdb_done and not self.sent("bdbSetChannel", "bdbStartCommissioning"),
                  what + "a Z-Stack 1.2 adapter was sent commissioning commands")

    def check_commissioned(self, what):
        """(of however many attempts)"""
        z = self.znp
        if z.product:
            modes = [m for m, _ in z.commissioning]
            check(4 in modes, what + "it was not commissioned (%s)", modes)
            chans = [c for m, c in z.commissioning if m == 4][-1]
            check(chans == {1: self.want.mask, 0: 0}, what + "it was commissioned on %s", chans)
            check(2 in modes[modes.index(4):], what + "commissioning modes: %s", modes)

    def check_resumed(self, what, was_running):
        z = self.znp
        for names in (("osalNvWrite", "osalNvItemInit", "osalNvDelete", "writeConfiguration",
                       "setNwkKey", "setPanid", "setChannels"),
                      ("resetReq", "systemReset"),
                      ("bdbStartCommissioning", "bdbSetChannel")):
            check(not self.sent(*names), what + "it was sent %s", self.sent(*names))
        check(z.nv == self.nv0, what + "its settings changed")
        n = len(self.sent("startupFromApp", "startRequest"))
        check(n == (0 if was_running else 1), what + "it was started %d times", n)
        check(z.devstate == 9, what + "it is not running")

    def check_endpoints(self, what, before=()):
        z = self.znp
        check(not z.violations, what + "%s", z.violations)
        check(set(z.endpoints) == set(ENDPOINTS) | set(before), what + "endpoints are %s",
              sorted(z.endpoints))
        regs = {}
        for c in self.sent("register"):
            e = c.values["endpoint"]
            check(e not in regs, what + "endpoint %d was registered twice", e)
            regs[e] = c.values
            prof, dev, ins, outs = ENDPOINTS[e]
            got = (c.values["appprofid"], c.values["appdeviceid"],
                   list(c.values["appinclusterlist"]), list(c.values["appoutclusterlist"]))
            check(got == (prof, dev, ins, outs), what + "endpoint %d was registered as %s", e,
                  got)
            check(c.values["appnuminclusters"] == len(ins)
                  and c.values["appnumoutclusters"] == len(outs), what + "endpoint %d: counts", e)
        check(GROUP in z.groups, what + "groups are %s", z.groups)
