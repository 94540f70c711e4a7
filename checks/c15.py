"""C15: an interrupted initialisation is always detected and redone."""
from mc import mt
from mc.explore import Scenario
from mc.forming import CUSTOM, DEFAULT, ENDPOINTS, FAMILY, GROUP, Former, adapter, needs_init
from mc.world import check
from mc.znp import any_firmware, ID, Znp

CUTS = ["ok", "silence before", "silence after", "error", "lost before", "lost after"]

PRIOR = {
    "factory": lambda p, w: Znp(p),
    "configured otherwise": lambda p, w: adapter(
        p, w, b"\x55", ("CHANLIST", "PANID", "PRECFGKEY"), running=True, eps=ENDPOINTS,
        groups={GROUP}),
    "another key": lambda p, w: adapter(p, w, b"\x55", ("PRECFGKEY",)),
    "marker only missing": lambda p, w: adapter(p, w, None, (), running=True),
    "uncompared settings": lambda p, w: adapter(
        p, w, b"\x55", ("CHANLIST", "LOGICAL_TYPE", "ZDO_DIRECT_CB") + (
            ("TCLK",) if p == 0 else ()), running=True),
    "invalidated": lambda p, w: adapter(p, w, b"\x00", ("PANID",)),
    "configured": lambda p, w: adapter(p, w, b"\x55", (), running=False),
}


# statuses that are answers, not errors
ANSWERS = {"extFindGroup": ["error 1"], "osalNvRead": ["error 2"], "osalNvItemInit": ["error 9"],
           "startupFromApp": ["error 1"]}
STATUSES = [1, 2, 3, 4, 5, 8, 9, 10, 11, 13, 16, 17, 26, 0x7F, 0x80, 0x81, 0xB8, 0xC1, 0xC7, 0xFE,
            0xFF]


class Cutter(Former):
    def __init__(self, ch, znp, want, kinds):
        super().__init__(ch, znp, want, horizon=50000.0)
        self.kinds = kinds
        self.begun = False
        self.cut = None
        self.cuts = []
        self.fault = self._fault

    def invariant(self, when):
        z = self.znp
        if self.begun and z.nv.get(z.marker_id) == b"\x55":
            for n, v in self.want.settings(z.product).items():
                check(z.nv[ID[n]] == v, "%s after %s (cuts: %s): the adapter is marked as "
                      "configured, but %s is %s, requested %s", FAMILY[z.product], when,
                      self.cuts, n, z.nv[ID[n]].hex(), v.hex())

    def apply(self, cmd):
        n, r = len(self.znp.nv_writes), self.znp.resets
        nv = dict(self.znp.nv)
        out = self.znp.command(cmd)
        if self.znp.nv != nv or self.znp.resets != r:
            self.begun = True
        self.invariant(cmd)
        return out

    def _fault(self, handle, cmd):
        if self.cut is not None:
            return []  # gone until the next attempt
        kinds = self.kinds if cmd.name != "ledControl" else ["ok"]
        if any(k.startswith("error") for k in kinds):
            if self.znp.error(cmd, 0x0C) is None:
                kinds = [k for k in kinds if not k.startswith("error")]
            else:
                no = ANSWERS.get(cmd.name, ())
                kinds = [k for k in kinds if k not in no]
        k = self.ch.pick("cut", kinds, [0] + [1] * (len(kinds) - 1)) if len(kinds) > 1 else "ok"
        if k == "ok":
            return self.apply(cmd)
        self.cuts.append("%s %s.%s" % (k, cmd.subsys, cmd.name))
        if k == "dropped":
            return []
        if k == "answer dropped":
            for delay, f in self.apply(cmd):
                if callable(f):
                    self.loop.call_env(delay, f)
            return []
        if k.startswith("error"):
            self.cut_error = cmd
            return [(0, self.znp.error(cmd, int(k[6:] or "12")))]
        self.cut = k
        if k.endswith("after"):
            for delay, f in self.apply(cmd):
                if callable(f):
                    self.loop.call_env(delay, f)  # still happens
        if k.startswith("lost"):
            self.line.present = False
            handle.unplug()
        return []


def interrupted(priors, wants=(0,), kinds=CUTS, products=(0, 1, 2), power=True,
                same=False):
    def fn(ch):
        product = ch.pick("product", list(products))
        want = (DEFAULT, CUSTOM)[ch.pick("want", list(wants))]
        prior = ch.pick("before", list(priors))
        z = PRIOR[prior](product, want)
        w = Cutter(ch, z, want, kinds)
        try:
            runs = 0
            while True:
                runs += 1
                before = len(w.cuts)
                init = needs_init(z, want)
                w.cut = None
                w.line.present = True
                r = w.form(again=same)
                what = "%s, %s before, cuts %s: " % (FAMILY[product], prior, w.cuts)
                check(r[0] in ("ok", "exc"), what + "start-up ended with %r", r)
                if r[0] == "ok":
                    check(len(w.cuts) == before, what + "start-up reported success")
                    break
                check(len(w.cuts) > before, what + "an uninterrupted start-up ended with %r", r)
                w.run(w.application.shutdown())
                w.wire.clear()
                w.loop.env_timers.clear()
                if power and ch.pick("power cut", [False, True]):
                    z.reset()
                w.invariant("the interruption")
                check(runs < 6, what + "never formed")
            if init:
                w.check_initialised(what + "formed at last, but ")
            else:
                w.check_configured(what + "formed at last, but ") if w.begun else None
            if w.begun:
                w.check_commissioned(what + "formed at last, but ")
            w.check_endpoints(what, ()) if w.begun else None
            return (prior, runs, w.cuts)
        finally:
            w.close()
    return fn


def build(tier):
    th = tier == "thorough"
    out = [Scenario("one-cut", interrupted(PRIOR, (0, 1)), bound=1)]
    two = ["configured otherwise", "uncompared settings"]
    errors = ["ok"] + ["error %d" % s for s in (range(1, 256) if th else STATUSES)]
    out += [Scenario("refused", interrupted(PRIOR if th else ["configured otherwise", "configured"],
                                            kinds=errors, power=False), bound=1)]
    # single frames that get lost, on an adapter that stays
    out += [Scenario("lost-frame", interrupted(
        PRIOR if th else ["factory", "configured otherwise", "invalidated"], kinds=[
            "ok", "dropped", "answer dropped"], power=False), bound=2 if th else 1)]
    out += [Scenario("same-application", interrupted(
        PRIOR if th else ["factory", "configured otherwise", "uncompared settings"], kinds=[
            "ok", "silence after", "error", "lost before"], power=False, same=True), bound=1)]
    if th:
        out += [Scenario("firmware", any_firmware(interrupted(two)), bound=1)]
        out += [Scenario("two-cuts-%s" % p, interrupted([p]), bound=2) for p in PRIOR]
    else:
        out += [Scenario("two-cuts", interrupted(two, kinds=[
            "ok", "silence before", "silence after", "error"], power=False), bound=2)]
    return out


ASSUMPTIONS = [
    "each command takes effect completely or not at all (Z-Stack NV items are written atomically)",
    "the simulated adapter (mc/znp.py) keeps NV items, resets, clears and starts as Z-Stack does; "
    "the standard NV items exist, Z-Stack 3.x.0 has no SAPI, and the other families disclose the "
    "network key through SAPI only (as the driver has it)",
]

if __name__ == "__main__":
    import sys
    from mc.report import main
    sys.exit(main("C15", build, ASSUMPTIONS))
