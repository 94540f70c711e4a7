"""A closed world: one chooser, one loop, fake serial lines, one adapter, the code under test."""
import asyncio
import os
import sys

REPO = os.environ.get("MC_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

from mc import mt, serialfake  # noqa: E402
from mc.explore import Violation  # noqa: E402
from mc.loop import EnvLoop, Event  # noqa: E402
from mc.znp import Znp  # noqa: E402

import zigpy_cc  # noqa: E402

if os.path.realpath(os.path.dirname(zigpy_cc.__file__)) != os.path.realpath(
        os.path.join(REPO, "zigpy_cc")):
    sys.exit("zigpy_cc is not imported from %s: %s" % (REPO, zigpy_cc.__file__))

import serial  # noqa: E402
import zigpy.config  # noqa: E402
import zigpy.types  # noqa: E402

PATH = "/dev/null"


class World:
    def __init__(self, chooser, znp=None, horizon=2000.0, path=PATH, network=None):
        self.ch = chooser
        self.loop = EnvLoop(chooser, horizon=horizon)
        self.ports = serialfake.Ports(self)
        serialfake.install(self.ports)
        asyncio.set_event_loop(self.loop)
        self.line = self.ports.add(path)
        self.znp = znp
        self.line.on_write = self._host_wrote
        self.line.on_open = self._opened
        self.path = path
        self.network = network or {}
        self.deframers = {}
        self.raw = {}  # handle -> bytes written
        self.cmds = []  # every command the host sent, in order
        self.wire = []  # (handle, bytes) on their way to the host, in order
        self.short_writes = False
        self.blocked_writes = False
        self.deliver = "frame"  # granularity of deliveries
        self.fault = None  # callable(cmd, normal_answers) -> list of (delay, frame/callable)
        self.on_cmd = None
        self.max_open = 0
        self.loop.sources.append(self._deliveries)
        self.t0 = self.loop.time()
        self.failure = None  # raised by the harness while the code was writing

    # --- serial side -------------------------------------------------------------------
    @property
    def now(self):
        return self.loop.time() - self.t0

    def open_result(self, line):
        if line.open_error is not None:
            return line.open_error
        if not line.present:
            return serial.SerialException("could not open port %s" % line.path)
        return None

    def write_size(self, handle, data):
        if self.short_writes:
            opts = [len(data)] + sorted({1, len(data) // 2, len(data) - 1} - {len(data), 0})
            if self.blocked_writes:
                opts.append(-1)  # EAGAIN
            return self.ch.pick("write", opts, [0] + [1] * (len(opts) - 1))
        return len(data)

    def _opened(self, handle):
        self.deframers[handle] = mt.Deframer()
        self.raw[handle] = b""
        n = len(self.ports.open_handles())
        self.max_open = max(self.max_open, n)

    @property
    def handle(self):
        hs = self.ports.open_handles()
        return hs[-1] if hs else None

    def _host_wrote(self, handle, data):
        """what the simulated adapter or an oracle raises here must not reach the code"""
        try:
            self._wrote(handle, data)
        except Exception as e:
            if self.failure is None:
                self.failure = e
            self.loop._finish("failure")

    def _wrote(self, handle, data):
        self.raw[handle] += data
        for f in self.deframers[handle].push(data):
            cmd = mt.decode(self.now, f)
            self.cmds.append(cmd)
            if self.on_cmd is not None:
                self.on_cmd(handle, cmd)
            if self.znp is not None:
                if self.fault is not None:
                    answers = self.fault(handle, cmd)
                else:
                    answers = self.znp.command(cmd)
                self.answer(handle, answers)

    def answer(self, handle, answers):
        for delay, f in answers:
            if delay:
                self.loop.call_env(delay, self._emit, handle, f)
            else:
                self._emit(handle, f)

    def host_read(self, handle, data):
        pass

    def _emit(self, handle, f):
        if callable(f):
            f = f()
        if f and handle.is_open and handle.dead is None:
            self.wire.append((handle, f))

    def send(self, data, handle=None):
        """The adapter sends bytes now."""
        handle = handle or self.handle
        if handle is not None:
            self.wire.append((handle, data))

    def _deliver(self):
        h, data = self.wire.pop(0)
        if self.deliver == "all":
            while self.wire and self.wire[0][0] is h:
                data += self.wire.pop(0)[1]
        elif self.deliver == "choose" and self.wire and self.wire[0][0] is h:
            n = 1
            while n < len(self.wire) and self.wire[n][0] is h:
                n += 1
            k = self.ch.choose("coalesce", [0] + [1] * n, list(range(n + 1)))
            for _ in range(k):
                data += self.wire.pop(0)[1]
        h.feed(data)

    def _deliveries(self):
        while self.wire and (not self.wire[0][0].is_open or self.wire[0][0].dead is not None):
            self.wire.pop(0)
        if self.wire:
            return [Event("rx", self._deliver, idle=0)]
        return []

    # --- running -----------------------------------------------------------------------
    def config(self, **device):
        from zigpy_cc import config as c

        return {
            zigpy.config.CONF_DATABASE: None,
            c.CONF_DEVICE: {c.CONF_DEVICE_PATH: self.path, **device},
            zigpy.config.CONF_NWK: dict(self.network),
        }

    def app(self, **device):
        from zigpy_cc.zigbee.application import ControllerApplication

        return ControllerApplication(ControllerApplication.SCHEMA(self.config(**device)))

    def device_config(self, **device):
        from zigpy_cc import config as c

        return c.SCHEMA_DEVICE({c.CONF_DEVICE_PATH: self.path, **device})

    def run(self, coro=None, until_done=True):
        self.loop.resume()
        task = self.loop.run(coro, until_done)
        self._failed()
        return task

    def _failed(self):
        if self.failure is not None:
            raise self.failure

    def settle(self):
        """Run on until nothing is left to happen (all timers, up to the horizon)."""
        self.loop.resume()
        self.loop.run(None)
        self._failed()
        return self.loop.outcome

    def close(self):
        self.loop.dispose()

    def names(self, since=0):
        return ["%s.%s" % (c.subsys, c.name) for c in self.cmds[since:]]


def check(cond, msg, *args, key=None):
    if not cond:
        raise Violation(msg % args if args else msg, key=key)


def result_of(task):
    """('ok', value) / ('exc', type name, exception) / ('pending',)"""
    if not task.done():
        return ("pending",)
    if task.cancelled():
        return ("cancelled",)
    e = task.exception()
    if e is not None:
        return ("exc", type(e).__name__, e)
    return ("ok", task.result())
