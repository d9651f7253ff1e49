"""Deterministic in-process simulator for caller threads of a Python library.

Caller threads are real threads of which exactly one runs at any time (baton passing).  The only preemption
and fault points are `sys.monitoring` events (LINE or INSTRUCTION) in code objects of the code under test, so
the simulator, and nothing else, decides who runs next and where a call is cut short.  Locks created by the
code under test are replaced by cooperative ones.  Every decision is taken from a schedule object: either a
seeded pseudo random one (which records what it did) or an explicit one (replay / minimisation).

Addressing: an event is named (thread, op index, k) with k the count of events since the op began.  That keeps
switch points and faults meaningful when other ops are removed during minimisation.
"""
import ast
import importlib.machinery
import os
import sys
import _thread
import threading

mon = sys.monitoring
TOOL = 4

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'pycomplex') + os.sep
EXCLUDE = (os.sep + 'test' + os.sep,)

_codes = {}          # id -> code object (module level code objects of the code under test, recursive)
_nofault = {}        # filename -> set of line numbers where no fault is raised (see nofault_lines)


# ----------------------------------------------------------------------------------------------------------
# which code is under test

def under_test(filename):
    if filename.startswith(PKG):
        return not any(e in filename for e in EXCLUDE)
    return os.path.basename(filename) == 'cached_property.py'


def _record(code):
    if id(code) in _codes:
        return
    _codes[id(code)] = code
    for c in code.co_consts:
        if hasattr(c, 'co_code'):
            _record(c)


_orig_get_code = importlib.machinery.SourceFileLoader.get_code


def _get_code(self, fullname):
    code = _orig_get_code(self, fullname)
    if code is not None and under_test(code.co_filename):
        for c in code.co_consts:            # not the module body itself: it runs under the import lock
            if hasattr(c, 'co_code'):
                _record(c)
        if code.co_filename not in _nofault:
            _nofault[code.co_filename] = nofault_lines(code.co_filename)
    return code


def nofault_lines(filename):
    """Lines on which Python itself cannot make cleanup safe against an exception raised at an arbitrary
    instant: with-statement headers (their exit code is attributed to that line), try headers, the statement
    just before a try/finally, and the bodies of finally blocks and __exit__ methods."""
    out = set()
    try:
        tree = ast.parse(open(filename).read())
    except Exception:
        return out

    def span(n):
        out.update(range(n.lineno, n.end_lineno + 1))
    for n in ast.walk(tree):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            out.update(range(n.lineno, n.body[0].lineno))
            if n.body[0].lineno == n.lineno:
                out.add(n.lineno)
        elif isinstance(n, ast.Try):
            out.add(n.lineno)
            for f in n.finalbody:
                span(f)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ('__exit__', '__del__', '__aexit__'):
            span(n)
        for field in ('body', 'orelse', 'finalbody'):
            body = getattr(n, field, None)
            if isinstance(body, list):
                for a, b in zip(body, body[1:]):
                    if isinstance(b, ast.Try) and b.finalbody:
                        span(a)
    return out


# ----------------------------------------------------------------------------------------------------------
# cooperative locks for locks created by the code under test

_real_Lock = _thread.allocate_lock
_real_RLock = threading.RLock


class SimLock(object):
    """Drop-in Lock/RLock; inside a simulation blocking means handing the baton to somebody else."""

    def __init__(self, reentrant):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while True:
            if self._owner is None or (self._reentrant and self._owner == me):
                self._owner = me
                self._count += 1
                return True
            if not blocking:
                return False
            sim = current_sim()
            t = sim.by_ident.get(me) if sim else None
            if t is None:
                raise Deadlock('lock would block outside of the simulation')
            if timeout is not None and timeout >= 0:
                # a timed wait: virtual time passes only when nobody else can run
                if not sim.block(t, self, timed=True):
                    return False
            else:
                sim.block(t, self)

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        if self._reentrant and self._owner != self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == self._me()

    def _release_save(self):
        s = (self._owner, self._count)
        self._owner, self._count = None, 0
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self._owner, self._count = s


def _wants_sim():
    f = sys._getframe(2)
    while f is not None and os.path.basename(f.f_code.co_filename) in ('threading.py', 'core.py', 'queue.py'):
        f = f.f_back
    return f is not None and (f.f_code.co_filename.startswith(PKG)
                              or os.path.basename(f.f_code.co_filename) == 'cached_property.py')


def install_seams():
    """To be called before the code under test is imported."""
    importlib.machinery.SourceFileLoader.get_code = _get_code
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-pycache'

    def Lock():
        return SimLock(False) if _wants_sim() else _real_Lock()

    def RLock():
        return SimLock(True) if _wants_sim() else _real_RLock()
    threading.Lock = Lock
    threading.RLock = RLock
    threading._allocate_lock = Lock     # used by Condition/Event/Semaphore internals
    threading._RLock_factory = RLock


# ----------------------------------------------------------------------------------------------------------

class Deadlock(BaseException):
    pass


class StepCap(BaseException):
    pass


class SimKilled(BaseException):
    """raised in parked threads when the simulation is torn down"""


class InjectedFault(object):
    """mixin marking exceptions raised by the simulator"""


class InjMemoryError(InjectedFault, MemoryError):
    pass


class InjKeyboardInterrupt(InjectedFault, KeyboardInterrupt):
    pass


class InjTimeout(InjectedFault, TimeoutError):
    pass


class InjFloatingPointError(InjectedFault, FloatingPointError):
    pass


class InjRuntimeError(InjectedFault, RuntimeError):
    pass


class InjValueError(InjectedFault, ValueError):
    pass


class InjZeroDivisionError(InjectedFault, ZeroDivisionError):
    pass


class InjIndexError(InjectedFault, IndexError):
    pass


class InjAbort(InjectedFault, BaseException):
    pass


def _linalg():
    import numpy as np

    class InjLinAlgError(InjectedFault, np.linalg.LinAlgError):
        pass
    return InjLinAlgError


FAULTS = {
    'memory': InjMemoryError,
    'interrupt': InjKeyboardInterrupt,
    'timeout': InjTimeout,
    'fperror': InjFloatingPointError,
    'runtime': InjRuntimeError,
    'abort': InjAbort,
    'value': InjValueError,
    'zerodivision': InjZeroDivisionError,
    'index': InjIndexError,
}


def fault_class(kind):
    if kind == 'linalg' and kind not in FAULTS:
        FAULTS[kind] = _linalg()
    return FAULTS[kind]


FAULT_KINDS = ['memory', 'interrupt', 'timeout', 'fperror', 'runtime', 'abort', 'linalg', 'value', 'zerodivision', 'index']


def carries_injection(exc):
    """is the injected exception this one, or in its cause/context chain"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        if isinstance(exc, InjectedFault):
            return True
        seen.add(id(exc))
        exc = exc.__cause__ or exc.__context__
    return False


# ----------------------------------------------------------------------------------------------------------
# schedules

class ReplaySchedule(object):
    """explicit list of switches [tid, op, k, target]; runs each thread to completion otherwise"""

    def __init__(self, switches, first=0):
        self.at = {(a, b, c): d for a, b, c, d in switches}
        self.first = first

    def start(self, tids):
        return self.first if self.first in tids else tids[0]

    def decide(self, t, others):
        return self.at.get((t.tid, t.op, t.k))

    def handover(self, t, others):
        d = self.at.get((t.tid, t.op, -1))
        if d is not None and d in others:
            return d
        return others[0]


class RandomSchedule(object):
    """walk: switch with probability p at each event.
    pct: random priorities, d change points.
    hold: now and then park the running thread for good at a random event, until the others are through."""

    def __init__(self, rng, policy, p, est):
        self.rng = rng
        self.policy = policy
        self.p = p
        self.held = set()
        self.prio = {}
        self.n = 0
        if policy == 'pct':
            self.points = set(rng.randrange(max(est, 1)) for _ in range(p))
        elif policy == 'hold':
            self.points = set(rng.randrange(max(est, 1)) for _ in range(p))
        else:
            self.next = self._gap()

    def _gap(self):
        # geometric gap
        u = self.rng.random()
        import math
        return 1 + int(math.log(max(u, 1e-12)) / math.log(1 - self.p))

    def start(self, tids):
        if self.policy == 'pct':
            for t in tids:
                self.prio[t] = self.rng.random() + 1
            return max(tids, key=lambda t: self.prio[t])
        return self.rng.choice(tids)

    def decide(self, t, others):
        self.n += 1
        if self.policy == 'walk':
            self.next -= 1
            if self.next > 0:
                return None
            self.next = self._gap()
            return self.rng.choice(others) if others else None
        if self.n in self.points:
            if self.policy == 'pct':
                self.prio[t.tid] = -self.n
                best = max(others + [t.tid], key=lambda i: self.prio[i])
                return best if best != t.tid else None
            self.held.add(t.tid)
            free = [o for o in others if o not in self.held]
            if free:
                return self.rng.choice(free)
        return None

    def handover(self, t, others):
        if self.policy == 'pct':
            return max(others, key=lambda i: self.prio[i])
        if self.policy == 'hold':
            free = [o for o in others if o not in self.held]
            if free:
                return self.rng.choice(free)
            self.held.clear()
        return self.rng.choice(others)


# ----------------------------------------------------------------------------------------------------------

class SimThread(object):
    def __init__(self, tid, body):
        self.tid = tid
        self.body = body
        self.op = -1
        self.k = 0
        self.fault = None        # (k, kind) armed for the current op
        self.fired = None
        self.quiet = True        # True while in harness code
        self.done = False
        self.blocked = None
        self.timedout = False
        self.gate = _real_Lock()
        self.gate.acquire()
        self.error = None


_current = None


def current_sim():
    return _current


class Sim(object):
    """one simulated execution"""

    def __init__(self, bodies, schedule, mode='line', cap=30000000, trace_locs=True):
        self.schedule = schedule
        self.mode = mode
        self.cap = cap
        self.steps = 0
        self.switches = []           # [tid, op, k, target]
        self.switch_locs = []        # (tid, file:line)
        self.threads = [SimThread(i, b) for i, b in enumerate(bodies)]
        self.by_ident = {}
        self.finished = _real_Lock()
        self.finished.acquire()
        self.killed = False
        self.dead = None
        self.fault_log = []
        self.probe = None

    # -- harness side API used by thread bodies
    def begin(self, t, op, fault=None):
        t.op = op
        t.k = 0
        t.fault = fault
        t.fired = None
        t.quiet = False

    def end(self, t):
        t.quiet = True
        t.fault = None

    # -- events
    def event(self, code, where):
        t = self.by_ident.get(_thread.get_ident())
        if t is None or t.quiet:
            return
        if self.killed:
            raise SimKilled()
        t.k += 1
        self.steps += 1
        if self.steps > self.cap:
            self.dead = 'stepcap'
            raise StepCap()
        f = t.fault
        if f is not None and t.k >= f[0]:
            line = where if self.mode == 'line' else line_of(code, where)
            if line not in _nofault.get(code.co_filename, ()):
                t.fault = None
                t.fired = f[1]
                self.fault_log.append((t.tid, t.op, t.k, f[1], '%s:%s' % (os.path.basename(code.co_filename), line)))
                raise fault_class(f[1])('injected')
        if len(self.threads) > 1:
            others = [o.tid for o in self.threads if not o.done and o.blocked is None and o is not t]
            if others:
                target = self.schedule.decide(t, others)
                if target is not None and target in others:
                    line = where if self.mode == 'line' else line_of(code, where)
                    self.switches.append([t.tid, t.op, t.k, target])
                    self.switch_locs.append((t.tid, os.path.basename(code.co_filename), line, target))
                    self._switch(t, target)

    def _switch(self, t, target):
        self.threads[target].gate.release()
        t.gate.acquire()
        if self.killed:
            raise SimKilled()

    def _wake_ready(self):
        for o in self.threads:
            if o.blocked is not None and not o.blocked.locked():
                o.blocked = None

    def block(self, t, lock, timed=False):
        """t cannot proceed; hand over. False: a timed wait timed out"""
        t.blocked = lock
        self._wake_ready()
        others = [o.tid for o in self.threads if not o.done and o.blocked is None and o is not t]
        if not others:
            if t.blocked is None:
                return True
            t.blocked = None
            if timed:
                return False
            self.dead = 'deadlock'
            raise Deadlock('no thread can make progress')
        target = self.schedule.handover(t, others)
        self.switches.append([t.tid, t.op, -1, target])
        self._switch(t, target)
        t.blocked = None
        return True

    def _main(self, t):
        t.gate.acquire()
        self.by_ident[_thread.get_ident()] = t
        try:
            if not self.killed:
                t.body(self, t)
        except SimKilled:
            pass
        except BaseException as e:      # harness error, or Deadlock/StepCap
            t.error = e
            import traceback
            t.tb = traceback.format_exc()
        t.quiet = True
        t.done = True
        self._wake_ready()
        if t.error is not None:
            self.killed = True
        others = [o.tid for o in self.threads if not o.done and o.blocked is None]
        if not others:
            rest = [o for o in self.threads if not o.done]
            if rest and not self.killed:
                self.dead = 'deadlock'
                self.killed = True
            if rest:
                others = [rest[0].tid]
        if others:
            target = self.schedule.handover(t, others) if not self.killed else others[0]
            self.switches.append([t.tid, t.op, -1, target])
            self.threads[target].gate.release()
        else:
            self.finished.release()

    def run(self):
        global _current
        _current = self
        start_monitoring(self)
        try:
            for t in self.threads:
                _thread.start_new_thread(self._main, (t,))
            first = self.schedule.start([t.tid for t in self.threads])
            self.first = first
            self.threads[first].gate.release()
            self.finished.acquire()
        finally:
            stop_monitoring()
            _current = None
        return self


_line_cache = {}


def line_of(code, offset):
    m = _line_cache.get(id(code))
    if m is None:
        m = {}
        for s, e, l in code.co_lines():
            for o in range(s, e, 2):
                m[o] = l
        _line_cache[id(code)] = m
    return m.get(offset)


_armed = None


def start_monitoring(sim):
    global _armed
    mon.use_tool_id(TOOL, 'verifsim')
    ev = mon.events.LINE if sim.mode == 'line' else mon.events.INSTRUCTION
    mon.register_callback(TOOL, ev, sim.event)
    for c in list(_codes.values()):
        mon.set_local_events(TOOL, c, ev)
    _armed = ev


def stop_monitoring():
    global _armed
    for c in list(_codes.values()):
        mon.set_local_events(TOOL, c, 0)
    mon.register_callback(TOOL, _armed, None)
    mon.free_tool_id(TOOL)
    _armed = None
