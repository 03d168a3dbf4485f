"""Deterministic simulator for cdmir: one seed, one execution.

The library is pure Python called by client code, so the parties of a simulated
run are *clients* (caller threads), the collaborators the library calls back
into (independence tests, score functions, iterators, random streams, numerical
kernels) and the process itself (interrupts, failed allocations).

* Clients are real threads, but only the one that holds the baton runs.  Every
  line executed inside the library (``sys.settrace``) is a possible preemption
  point, and the decision to switch comes from the run's seeded generator or,
  on replay, from the recorded list of switches.
* An interrupt or a failed allocation is an exception raised at a chosen line
  of the library (counted per operation), so a crash point is (operation, line
  count) and is exactly repeatable.
* A step budget (library lines executed) bounds liveness; no wall clock takes
  part in any verdict.
"""
import hashlib
import os
import random
import sys
import threading
from collections import Counter

REPO = os.environ.get('DST_REPO', '/repo')     # a scratch copy, when mutants are tried out
SCOPE = REPO + '/cdmir/'
TESTS = REPO + '/cdmir/tests/'

_real_lock = threading.Lock
_real_rlock = threading.RLock


class Violation(Exception):
    """The property does not hold; kind is stable, msg is the human account."""

    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind
        self.msg = msg


class StepBudget(BaseException):
    """Too many library lines executed: no progress within the bound."""


class InjectedFault(Exception):
    """A failure raised by a simulated collaborator."""


FAULT_TYPES = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}


def run_seed(base, prop, index):
    h = hashlib.sha256(f'{base}/{prop}/{index}'.encode()).digest()
    return int.from_bytes(h[:8], 'big')


def in_scope(code):
    f = code.co_filename
    return f.startswith(SCOPE) and not f.startswith(TESTS)


# ----------------------------------------------------------------- sim locks
class SimLock:
    """Lock handed to library code: a blocked client yields the baton."""

    def __init__(self, reentrant=False):
        self._owner = None
        self._n = 0
        self._re = reentrant

    def acquire(self, blocking=True, timeout=-1):
        sim = _current_sim()
        me = threading.get_ident()
        while self._owner is not None and not (self._re and self._owner == me):
            if not blocking or sim is None:
                if sim is None and blocking:
                    raise RuntimeError('simulated lock would block outside a simulation')
                return False
            sim.blocked()
        self._owner = me
        self._n += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def install_lock_seam():
    """threading.Lock()/RLock() called from library code give simulated locks."""
    def mk(re, real):
        def factory(*a, **k):
            if in_scope(sys._getframe(1).f_code):
                return SimLock(re)
            return real(*a, **k)
        return factory
    threading.Lock = mk(False, _real_lock)
    threading.RLock = mk(True, _real_rlock)


_tls = threading.local()


def _current_sim():
    return getattr(_tls, 'sim', None)


# ---------------------------------------------------------------- scheduling
class Decider:
    """Switch decisions: from a seeded generator, or from a recorded list."""

    def __init__(self, spec):
        self.spec = spec or {'mode': 'none'}
        self.mode = self.spec['mode']
        if self.mode == 'rand':
            self.rng = random.Random(self.spec['seed'])
            self.p = self.spec['p']
            self.p_op = self.spec.get('p_op', 0.5)
        elif self.mode == 'list':
            self.want = {int(s): int(t) for s, t in self.spec['switches']}
        self.log = []

    def at_point(self, step, cur, runnable, op_boundary):
        """Client to run next (may be cur)."""
        if self.mode == 'none' or len(runnable) < 2:
            return cur
        if self.mode == 'rand':
            p = self.p_op if op_boundary else self.p
            if self.rng.random() >= p:
                return cur
            t = self.rng.choice([r for r in runnable if r != cur])
        else:
            t = self.want.get(step, cur)
            if t not in runnable:
                return cur
        if t != cur:
            self.log.append((step, t))
        return t

    def forced(self, step, runnable):
        """Current client cannot continue: pick another."""
        if self.mode == 'rand':
            t = self.rng.choice(runnable)
        elif self.mode == 'list':
            t = self.want.get(step, runnable[0])
            if t not in runnable:
                t = runnable[0]
        else:
            t = runnable[0]
        self.log.append((step, t))
        return t


class _Client:
    def __init__(self, idx, fn):
        self.idx, self.fn = idx, fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.exc = None
        self.op_lines = 0
        self.fault_at = None
        self.fault_exc = None
        self.fired = False
        self.waiting = False


class Ctx:
    """One simulated run."""

    def __init__(self, budget=4_000_000, force_trace=False):
        self.faults = Counter()
        self.steps = 0
        self.budget = budget
        self.force_trace = force_trace
        self.h = hashlib.sha256()
        self.key = hashlib.sha256()
        self.nontrivial = False
        self.switches = 0
        self.sched_log = None
        self.info = Counter()
        self._cur = None
        self._clients = []
        self._main = threading.Semaphore(0)
        self.decider = Decider(None)

    # ---- bookkeeping
    def fault(self, kind, n=1):
        self.faults[kind] += n

    def event(self, *parts):
        self.h.update(repr(parts).encode())

    def ident(self, *parts):
        """Adds to what makes this run distinct from others."""
        b = repr(parts).encode()
        self.key.update(b)
        self.h.update(b)

    def violate(self, kind, msg):
        raise Violation(kind, msg)

    def check(self, cond, kind, msg):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    # ---- tracing
    def _gtrace(self, frame, event, arg):
        if event == 'call' and in_scope(frame.f_code):
            return self._ltrace
        return None

    def _ltrace(self, frame, event, arg):
        if event == 'line':
            self._line(frame)
        return self._ltrace

    def _line(self, frame):
        c = self._cur
        c.op_lines += 1
        self.steps += 1
        if self.steps > self.budget:
            raise StepBudget()
        if c.fault_at is not None and c.op_lines == c.fault_at:
            c.fault_at = None
            c.fired = True
            code = frame.f_code
            self.event('fault', c.idx, code.co_name)
            raise c.fault_exc()
        if len(self._clients) > 1:
            self._maybe_switch(False, frame)

    def _runnable(self):
        return [c.idx for c in self._clients if not c.done]

    def _maybe_switch(self, op_boundary, frame=None):
        c = self._cur
        t = self.decider.at_point(self.steps, c.idx, self._runnable(), op_boundary)
        if t != c.idx:
            self._switch(c, t, frame)

    def _switch(self, c, t, frame=None):
        self.switches += 1
        self.ident('sw', c.idx, t, frame.f_code.co_name if frame is not None else '-',
                   (frame.f_lineno - frame.f_code.co_firstlineno) if frame is not None else 0)
        nxt = self._clients[t]
        self._cur = nxt
        nxt.sem.release()
        c.sem.acquire()

    def blocked(self):
        """Called by a simulated lock: give the baton away or report deadlock."""
        c = self._cur
        self.steps += 1
        others = [r for r in self._runnable() if r != c.idx]
        if not others or self.steps > self.budget:
            raise StepBudget()
        self._switch(c, self.decider.forced(self.steps, others))

    def op_point(self):
        """Boundary between two operations of a client."""
        self.steps += 1
        if len(self._clients) > 1:
            self._maybe_switch(True)

    # ---- one operation of the current client
    def call(self, fn, fault=None, budget=None, traced=None):
        """Run fn; fault=(kind, at_line).  Returns ('ok', value) or ('exc', e)."""
        single = self._cur is None
        if single:
            self._cur = _Client(0, None)
            self._clients = [self._cur]
        c = self._cur
        c.op_lines = 0
        c.fired = False
        if fault is not None:
            kind, at = fault
            c.fault_at, c.fault_exc = int(at), FAULT_TYPES[kind]
        old_budget = self.budget
        if budget is not None:
            self.budget = self.steps + budget
        if traced is None:
            traced = fault is not None or budget is not None or self.force_trace
        traced = traced or len(self._clients) > 1 or self.force_trace
        try:
            if traced:
                sys.settrace(self._gtrace)
            try:
                return ('ok', fn())
            except Violation:
                raise
            except StepBudget:
                raise Violation('no-progress', f'no result within {budget or old_budget} library steps')
            except (Exception, KeyboardInterrupt) as e:
                return ('exc', e)
        finally:
            sys.settrace(None)
            if c.fired:
                self.faults[fault[0]] += 1
            c.fault_at = None
            self.budget = old_budget
            self.last_lines = c.op_lines
            self.last_fired = c.fired
            if single:
                self._cur = None
                self._clients = []

    def count_lines(self, fn):
        """Library lines fn executes (used to place a crash point)."""
        r = self.call(fn, traced=True)
        return self.last_lines, r

    # ---- several clients
    def run_clients(self, fns, sched):
        """fns: list of callables, each using self.call / self.op_point."""
        self.decider = Decider(sched)
        self._clients = [_Client(i, f) for i, f in enumerate(fns)]
        threads = []
        for c in self._clients:
            t = threading.Thread(target=self._client_main, args=(c,), daemon=True)
            t.start()
            threads.append(t)
        first = self.decider.forced(self.steps, self._runnable()) if len(fns) > 1 else 0
        self._cur = self._clients[first]
        self._cur.sem.release()
        self._main.acquire()
        if all(c.done for c in self._clients):
            for t in threads:
                t.join()
        clients, self._clients, self._cur = self._clients, [], None
        self.sched_log = (self.sched_log or []) + list(self.decider.log)
        bad = [c.exc for c in clients if c.exc is not None]
        for e in bad:
            if isinstance(e, Violation):
                raise e
        if bad:
            raise bad[0]

    def _client_main(self, c):
        _tls.sim = self
        c.sem.acquire()
        try:
            c.fn()
        except BaseException as e:      # noqa: reported by run_clients
            c.exc = e
        finally:
            sys.settrace(None)
            c.done = True
            left = self._runnable()
            if c.exc is not None or not left:
                # a violation ends the run; parked clients stay parked (daemons)
                self._main.release()
            else:
                t = self.decider.forced(self.steps, left)
                self._cur = self._clients[t]
                self._clients[t].sem.release()
