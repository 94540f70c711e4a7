"""Virtual-time asyncio loop whose selector is the environment.

Every `select()` call is a point where the environment acts:

* ready callbacks pending  -> by default nothing happens and they run; the environment may
  inject one enabled "any time" action first (a deviation);
* nothing ready            -> by default the first enabled environment event happens (bytes
  arrive, ...); otherwise virtual time advances to the next timer (of the loop or of the
  environment);
* nothing ready, no timers, no events -> the execution is over (quiescent).

All other sources of nondeterminism are absent: no threads, no wall clock (time.time() and
time.monotonic() are virtual during an execution), no real I/O.
"""
import asyncio
import heapq
import itertools
import sys
import time
import logging

logging.disable(logging.CRITICAL)

HORIZON = 100000.0


real_time = time.time
_current = None


def _virtual(real):
    def now():
        return real() if _current is None else _current._now
    return now


for _name in ("time", "monotonic", "perf_counter"):
    setattr(time, _name, _virtual(getattr(time, _name)))


_real_sleep = time.sleep


def _sleep(delay):
    if _current is None:
        _real_sleep(delay)
    else:
        _current._now += delay


time.sleep = _sleep


class Divergence(Exception):
    pass


class Event:
    """An action of the environment.

    idle: cost when offered with nothing ready (None: not offered)
    busy: cost when offered while callbacks are ready (None: not offered)
    """

    __slots__ = ("label", "fire", "idle", "busy")

    def __init__(self, label, fire, idle=0, busy=None):
        self.label, self.fire, self.idle, self.busy = label, fire, idle, busy


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        return self.loop._env_select(timeout)

    def close(self):
        pass

    def get_map(self):
        return {}


class EnvLoop(asyncio.BaseEventLoop):
    def __init__(self, chooser, horizon=HORIZON, max_steps=200000):
        global _current
        self._now = 1000.0
        _current = self
        super().__init__()
        self._clock_resolution = 1e-9
        self._selector = _Selector(self)
        self.chooser = chooser
        self.horizon = self._now + horizon
        self.max_steps = max_steps
        self.steps = 0
        self.readers = {}
        self.writers = {}
        self.files = {}  # fd -> object with .readable() / .writable()
        self.sources = []  # callables returning lists of Event
        self.env_timers = []
        self._seq = itertools.count()
        self.errors = []  # exceptions that reached the loop from callbacks
        self.outcome = None
        self.tick_cost = 1  # cost of letting time pass while something could happen
        self.set_exception_handler(self._record_exception)

    # --- loop plumbing -----------------------------------------------------------------
    def time(self):
        return self._now

    def _write_to_self(self):
        pass

    def _process_events(self, handles):
        for h in handles:
            self._add_callback(h)

    def _add_reader(self, fd, callback, *args):
        self.readers[fd] = asyncio.Handle(callback, args, self, None)

    def add_reader(self, fd, callback, *args):
        self._add_reader(fd, callback, *args)

    def remove_reader(self, fd):
        h = self.readers.pop(fd, None)
        if h is not None:
            h.cancel()
            return True
        return False

    def add_writer(self, fd, callback, *args):
        self.writers[fd] = asyncio.Handle(callback, args, self, None)

    def remove_writer(self, fd):
        h = self.writers.pop(fd, None)
        if h is not None:
            h.cancel()
            return True
        return False

    def _record_exception(self, loop, context):
        msg = context.get("message", "")
        if "never retrieved" in msg or "destroyed" in msg:
            return  # depends on the garbage collector
        if msg.startswith("Fatal "):
            return  # the transport reporting that the port failed
        self.errors.append((self._now, msg, context.get("exception")))

    def call_env(self, delay, fn, *args):
        """A timer of the environment."""
        heapq.heappush(self.env_timers, (self._now + delay, next(self._seq), fn, args))

    # --- the environment ---------------------------------------------------------------
    def _io_handles(self):
        out = []
        fds = list(self.readers)
        fds += [fd for fd in self.writers if fd not in self.readers]
        if len(fds) > 1:
            fds.sort()
        for fd in fds:
            f = self.files.get(fd)
            if f is None:
                continue
            if fd in self.readers and f.readable():
                out.append(self.readers[fd])
            if fd in self.writers and f.writable():
                out.append(self.writers[fd])
        return out

    def _fire_due(self):
        fired = False
        while self.env_timers and self.env_timers[0][0] <= self._now + 1e-9:
            _, _, fn, args = heapq.heappop(self.env_timers)
            fn(*args)
            fired = True
        return fired

    def _finish(self, outcome):
        if self.outcome is None:
            self.outcome = outcome
        self.stop()
        return []

    def _env_select(self, timeout):
        self.steps += 1
        if self.outcome is not None:
            self.stop()
            return []
        if self.steps > self.max_steps:
            return self._finish("steps")
        io = self._io_handles()
        if timeout == 0 or io:
            # callbacks are about to run
            evs = [e for s in self.sources for e in s() if e.busy is not None]
            if evs:
                k = self.chooser.choose("busy", [0] + [e.busy for e in evs],
                                        ["run"] + [e.label for e in evs])
                if k:
                    evs[k - 1].fire()
                    io = self._io_handles()
            return io
        while True:
            evs = [e for s in self.sources for e in s() if e.idle is not None]
            when = self._now + timeout if timeout is not None else None
            if self.env_timers and (when is None or self.env_timers[0][0] <= when):
                when = self.env_timers[0][0]
            natural = any(e.idle == 0 for e in evs)
            opts = [(e.idle, e.label, e.fire) for e in evs]
            if when is not None:
                tick = (self.tick_cost if natural else 0, "tick", None)
                if natural:
                    if self.tick_cost is not None:
                        opts.append(tick)
                else:
                    opts.insert(0, tick)
            if natural:
                opts.sort(key=lambda o: o[0])  # stable: the default answer first
            if not opts or (not natural and when is None):
                # only deviations left (or nothing): ending here is the default
                opts.insert(0, (0, "end", None))
            k = self.chooser.choose("idle", [o[0] for o in opts], [o[1] for o in opts])
            cost, label, fire = opts[k]
            if label == "end" and fire is None:
                return self._finish("quiescent")
            if fire is None:
                if when > self.horizon:
                    self._now = self.horizon
                    return self._finish("horizon")
                self._now = max(self._now, when)
                self._fire_due()
                return self._io_handles()
            fire()
            io = self._io_handles()
            if io or self._ready:
                return io
            # the event changed nothing the loop could see: choose again
            if self.steps > self.max_steps:
                return self._finish("steps")
            self.steps += 1

    # --- running -----------------------------------------------------------------------
    def run(self, coro=None, until_done=False):
        """Run until quiescent / horizon (or until the main task is done)."""
        asyncio.set_event_loop(self)
        task = None
        if coro is not None:
            task = self.create_task(coro)
            if until_done:
                task.add_done_callback(lambda t: self._finish("done"))
        self.run_forever()
        return task

    def resume(self):
        self.outcome = None

    def dispose(self):
        global _current
        _current = None
        self._ready.clear()
        self._scheduled.clear()
        self.readers.clear()
        self.writers.clear()
        self.files.clear()
        self.sources.clear()
        self.env_timers.clear()
        asyncio.set_event_loop(None)
        self._closed = True
