"""Stateless exploration: enumerate all choice sequences within a deviation bound.

An execution is a function of its choice sequence.  The explorer replays a prefix, takes the
default (choice 0) afterwards, and then schedules every alternative at every later point whose
total deviation cost stays within the bound.  A replay that meets a different choice point than
the execution that scheduled it is a hard error (Divergence).
"""
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import signal
import sys
import traceback

from mc.globalstate import Snapshot
from mc.loop import Divergence, real_time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key  # what identifies a known finding


class Hang(KeyboardInterrupt):
    """the code under test does not get on (KeyboardInterrupt: nothing on the way catches it)"""


class Watchdog:
    """Interrupts an execution (or input) that takes more than a minute of CPU time."""

    PERIOD = 40

    def __init__(self):
        self.marker = self.seen = None  # what is being worked on: called for an opaque value
        self.strikes = 0

    def start(self):
        signal.signal(signal.SIGPROF, self._tick)
        signal.setitimer(signal.ITIMER_PROF, self.PERIOD, self.PERIOD)

    def stop(self):
        signal.setitimer(signal.ITIMER_PROF, 0)

    def _tick(self, *_):
        now = self.marker() if self.marker is not None else None
        self.strikes = self.strikes + 1 if now is not None and now == self.seen else 0
        self.seen = now
        if self.strikes:
            raise Hang()


_dog = Watchdog()


class Chooser:
    def __init__(self, prefix=(), sigs=()):
        self.prefix = prefix
        self.sigs = sigs
        self.choices = []
        self.points = []  # (costs, labels)
        self.trace = []

    def choose(self, kind, costs, labels):
        n = len(costs)
        if n == 1:
            return 0
        i = len(self.choices)
        sig = (kind, tuple(labels))
        if i < len(self.prefix):
            k = self.prefix[i]
            if k >= n or (i < len(self.sigs) and self.sigs[i] != hash(sig)):
                raise Divergence("point %d: %r does not offer the recorded choice %d"
                                 % (i, sig, k))
        else:
            k = 0
        self.choices.append(k)
        self.points.append((tuple(costs), tuple(labels), hash(sig)))
        return k

    def pick(self, kind, options, costs=None):
        """Choose one of `options`; cost 0 for all unless given."""
        return options[self.choose(kind, costs or [0] * len(options),
                                   [str(o) for o in options])]

    def script(self):
        return [(i, k, p[1][k]) for i, (k, p) in enumerate(zip(self.choices, self.points))
                if k]


class Stats:
    def __init__(self):
        self.executions = 0
        self.nodes = 0
        self.edges = 0
        self.outcomes = {}
        self.evals = 0
        self.distinct = 0
        self.samples = []
        self.capped = False
        self.findings = {}
        self.violations = []
        self.max_points = 0
        self.notes = {}

    def merge(self, o):
        self.executions += o.executions
        self.nodes += o.nodes
        self.edges += o.edges
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        self.evals += o.evals
        self.distinct += o.distinct
        for s in o.samples:
            if len(self.samples) < 8:
                self.samples.append(s)
        self.capped |= o.capped
        for k, v in o.findings.items():
            self.findings[k] = self.findings.get(k, 0) + v
        self.violations.extend(o.violations)
        self.max_points = max(self.max_points, o.max_points)
        for k, v in o.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v


class Known:
    """Decides whether a violation is a listed known finding."""

    def __init__(self, entries):
        self.entries = entries  # {key: text}

    def match(self, v):
        return v.key if v.key is not None and v.key in self.entries else None


def _one(scn, prefix, sigs, stats, known):
    ch = Chooser(prefix, sigs)
    verdict = None
    random.seed(1)
    if _state is not None:
        _state.restore()
    key = object()
    _dog.marker = lambda: key
    try:
        outcome = scn.fn(ch)
        outcome = "" if outcome is None else str(outcome)
    except Hang:
        outcome = "hangs"
        verdict = Violation("the code under test hangs\n%s" % traceback.format_exc())
    except Violation as v:
        key = known.match(v)
        outcome = "violation:" + v.message[:60]
        if key is not None:
            stats.findings[key] = stats.findings.get(key, 0) + 1
        else:
            verdict = v
    except (Divergence, KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        # the code under test blew up where the harness did not expect it
        outcome = "exception"
        verdict = Violation("unexpected %r\n%s" % (e, traceback.format_exc()))
    stats.executions += 1
    # nodes and edges of the execution tree this run adds: the choice that leaves the known
    # part of the tree and every choice point after it
    new = len(ch.points) - len(prefix) + 1
    stats.nodes += new
    stats.edges += new if prefix else new - 1
    stats.max_points = max(stats.max_points, len(ch.points))
    h = hashlib.sha1(outcome.encode()).hexdigest()[:12]
    stats.outcomes[h] = stats.outcomes.get(h, 0) + 1
    if verdict is not None:
        stats.violations.append({
            "scenario": scn.name, "choices": ch.choices, "script": ch.script(),
            "message": verdict.message})
    elif len(stats.samples) < 2:
        stats.samples.append({"scenario": scn.name, "script": ch.script(),
                              "points": len(ch.points), "outcome": outcome[:300]})
    return ch


def _children(ch, plen, used, bound):
    """Alternatives after the prefix of length plen, simplest first."""
    out = []
    cost = used
    sigs = tuple(p[2] for p in ch.points)
    for i in range(plen, len(ch.points)):
        costs = ch.points[i][0]
        for alt in range(1, len(costs)):
            c = cost + costs[alt]
            if c <= bound:
                out.append((tuple(ch.choices[:i]) + (alt,), sigs[:i + 1], c))
        cost += costs[ch.choices[i]]
    return out


class Scenario:
    """fn(chooser) runs one execution; raises Violation or returns its observable outcome."""

    def __init__(self, name, fn, bound=1, max_exec=None):
        self.name, self.fn, self.bound, self.max_exec = name, fn, bound, max_exec


class Enumeration:
    """fn(stats) enumerates a finite set of inputs itself; raises Violation on the first bad one."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


def _subtree(args):
    idx, prefix, sigs, used, deadline = args
    scn = _scenarios[idx]
    stats = Stats()
    _dog.start()
    try:
        if isinstance(scn, Enumeration):
            random.seed(1)
            _dog.marker = lambda: stats.evals
            try:
                scn.fn(stats)
            except Hang:
                stats.violations.append({
                    "scenario": scn.name, "choices": [], "script": [],
                    "message": "the code under test hangs\n%s" % traceback.format_exc()})
            except Violation as v:
                key = _known.match(v)
                if key is not None:
                    stats.findings[key] = stats.findings.get(key, 0) + 1
                else:
                    stats.violations.append({"scenario": scn.name, "choices": [],
                                             "script": [], "message": v.message})
            except (Divergence, KeyboardInterrupt, MemoryError):
                raise
            except Exception as e:
                stats.violations.append({
                    "scenario": scn.name, "choices": [], "script": [],
                    "message": "unexpected %r\n%s" % (e, traceback.format_exc())})
            return idx, stats, [], None
        if used is None:  # root: expand once and hand the children back
            ch = _one(scn, (), (), stats, _known)
            # own every source of nondeterminism - and prove it: same choices, same outcome
            again = Stats()
            ch2 = _one(scn, tuple(ch.choices), tuple(p[2] for p in ch.points), again, _known)
            if ch2.choices != ch.choices or again.outcomes != stats.outcomes:
                raise Divergence("scenario %s is not deterministic" % scn.name)
            kids = _children(ch, 0, 0, scn.bound)
            return idx, stats, kids, None
        stack = [(prefix, sigs, used)]
        while stack:
            if stats.violations or real_time() > deadline:
                stats.capped = not stats.violations
                break
            if scn.max_exec and stats.executions >= scn.max_exec:
                stats.capped = True
                break
            p, s, u = stack.pop()
            ch = _one(scn, p, s, stats, _known)
            kids = _children(ch, len(p), u, scn.bound)
            stack.extend(reversed(kids))
        return idx, stats, [], None
    except BaseException:
        return idx, stats, [], "%s prefix=%r\n%s" % (scn.name, prefix, traceback.format_exc())
    finally:
        _dog.stop()


_scenarios = []
_known = None
_state = None  # the global state of the code under test, put back before each execution


def run_all(scenarios, known, budget, workers=None, jit=True):
    """Explore all scenarios; returns (Stats, per-scenario Stats, errors)."""
    global _scenarios, _known, _state
    _scenarios, _known = scenarios, known
    _state = _state or Snapshot()
    workers = workers or int(os.environ.get("MC_WORKERS", "8"))
    deadline = real_time() + budget
    total, per, errors = Stats(), {}, []

    def take(res):
        idx, st, kids, err = res
        name = scenarios[idx].name
        if name not in per:
            per[name] = Stats()
        per[name].merge(st)
        total.merge(st)
        if err:
            errors.append(err)
        return idx, kids

    roots = [(i, (), (), None, deadline) for i in range(len(scenarios))]
    if workers <= 1:
        for r in roots:
            idx, kids = take(_subtree(r))
            for k in kids:
                if total.violations or errors:
                    break
                take(_subtree((idx,) + k + (deadline,)))
        return total, per, errors
    with Pool(workers, jit) as pool:
        work = []
        for res in pool.map(roots):
            idx, kids = take(res)
            work += [(idx,) + k + (deadline,) for k in kids]
            if total.violations:
                break
        if not total.violations:
            # biggest subtrees (fewest deviations used) first
            work.sort(key=lambda w: (w[3], len(w[1])))
            for res in pool.map(work):
                take(res)
                if total.violations:
                    break
        if pool.crashes:
            total.notes["worker crashes (redone without JIT)"] = pool.crashes
    return total, per, errors


class Pool:
    """Forked workers.  A worker killed by a crash of the interpreter (PyPy's JIT has bugs) has
    its item redone by a fresh worker with the JIT off."""

    def __init__(self, n, jit=True):
        self.crashes = 0
        self.workers = {}  # connection -> process
        for _ in range(n):
            self._spawn(jit)

    def _spawn(self, jit):
        parent, child = multiprocessing.Pipe()
        others = list(self.workers) + [parent]
        p = multiprocessing.get_context("fork").Process(target=_worker,
                                                        args=(child, others, jit))
        p.daemon = True
        p.start()
        child.close()
        self.workers[parent] = p
        return parent

    def map(self, items):
        """Yields results in order of completion."""
        todo = list(reversed(items))
        busy = {}

        def give(conn):
            if todo:
                item = todo.pop()
                busy[conn] = (item, 0)
                conn.send(item)

        for conn in list(self.workers):
            give(conn)
        while busy:
            for conn in multiprocessing.connection.wait(list(busy)):
                item, tries = busy.pop(conn)
                try:
                    res = conn.recv()
                except (EOFError, ConnectionError):
                    self.workers.pop(conn).join()
                    conn.close()
                    self.crashes += 1
                    conn = self._spawn(False)
                    if tries >= 2:
                        yield (item[0], Stats(), [], "worker crashed on %r" % (item[:2],))
                        give(conn)
                    else:
                        busy[conn] = (item, tries + 1)
                        conn.send(item)
                    continue
                yield res
                give(conn)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        for conn, p in self.workers.items():
            p.terminate()
        for conn, p in self.workers.items():
            p.join()
            conn.close()


def _worker(conn, others, jit):
    for c in others:
        c.close()
    if not jit:
        try:
            import pypyjit
            pypyjit.set_param("off")
        except ImportError:
            pass
    while True:
        try:
            item = conn.recv()
        except EOFError:
            return
        conn.send(_again(item[1:]) if item[0] == "again" else _subtree(item))


def _again(args):
    idx, choices = args
    _dog.start()
    _dog.marker = lambda: choices
    try:
        replay(_scenarios[idx], choices)
    except Hang:
        return True
    except Violation:
        return True
    except Divergence:
        return False
    except Exception:
        return True
    return False


def confirm(scenarios, violation):
    """Does a recorded violation show up again in a fresh process without JIT?"""
    idx = [s.name for s in scenarios].index(violation["scenario"])
    if isinstance(scenarios[idx], Enumeration):
        return True
    with Pool(1, False) as pool:
        conn = next(iter(pool.workers))
        conn.send(("again", idx, tuple(violation["choices"])))
        try:
            return conn.recv()
        except (EOFError, ConnectionError):
            return True


def replay(scenario, choices):
    """Run one recorded choice sequence in this process; raises what it raises."""
    (_state or Snapshot()).restore()
    ch = Chooser(tuple(choices))
    random.seed(1)
    return scenario.fn(ch)
