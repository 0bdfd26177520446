"""Deterministic scheduler for caller threads, simulated locks and aborts.

Real threads are parked on private locks and released one at a time.  The
choice of who runs is made here, at LINE events of the instrumented code
(everything under /repo/marsh and the types of the simulated user) and whenever
a thread blocks on a lock or ends.  Every choice made is recorded, keyed by
(thread, number of lines that thread had executed), so that a recorded run is
replayed from an explicit list.

Asynchronous aborts are raised at the points where CPython itself delivers
them: on entry of a function, on return from a C call and on backward jumps.
"""
import _thread
import ast
import bisect
import os
import random
import sys
import threading
import time
import types

REAL_LOCK = _thread.allocate_lock
REAL_SLEEP = time.sleep
REAL_MONOTONIC = time.monotonic
get_ident = _thread.get_ident

S = None  # the active scheduler, if any
CUR = None  # the running simulated thread, if any

mon = sys.monitoring
TOOL = 3
EV = mon.events


class SimDeadlock(BaseException):
    pass


class Killed(BaseException):
    """Raised in a simulated thread to end it when a run is over."""


# --------------------------------------------------------------------------
# instrumentation

INSTRUMENTED = {}  # code object -> event set
CLEANUP = {}  # filename -> sorted list of (first, last) lines of clean-up code
USER_PREFIX = '<user:'


def cleanup_ranges(filename, source):
    ranges = []
    try:
        tree = ast.parse(source)
    except SyntaxError:
        return ranges

    def span(nodes):
        return (min(n.lineno for n in nodes), max(n.end_lineno for n in nodes))

    for node in ast.walk(tree):
        if isinstance(node, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            if node.finalbody:
                ranges.append(span(node.finalbody))
            for h in node.handlers:
                ranges.append((h.lineno, h.end_lineno))
        elif isinstance(node, ast.FunctionDef) and node.name in ('__exit__', '__del__'):
            ranges.append((node.lineno, node.end_lineno))
    return ranges


def code_objects(code):
    yield code
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            yield from code_objects(const)


def instrument_code(code, events):
    for c in code_objects(code):
        if c not in INSTRUMENTED:
            mon.set_local_events(TOOL, c, events)
            INSTRUMENTED[c] = events


def instrument_package(prefix, events):
    """Instrument every function whose source is below prefix."""
    import gc
    codes = set()
    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType):
            code = obj.__code__
            if code.co_filename.startswith(prefix):
                codes.add(code)
    # functions can be hidden from the collector in nested constants
    for code in sorted(codes, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname)):
        instrument_code(code, events)
    for fname in {c.co_filename for c in codes}:
        if fname not in CLEANUP:
            try:
                CLEANUP[fname] = cleanup_ranges(fname, open(fname).read())
            except OSError:
                CLEANUP[fname] = []


def in_cleanup(frame):
    while frame is not None:
        ranges = CLEANUP.get(frame.f_code.co_filename)
        if ranges:
            line = frame.f_lineno
            if line is not None:
                for a, b in ranges:
                    if a <= line <= b:
                        return True
        name = frame.f_code.co_name
        if name == '__exit__' or name == '__del__':
            return True
        frame = frame.f_back
    return False


# --------------------------------------------------------------------------
# events


def on_line(code, line):
    t = CUR
    if t is None or get_ident() != t.ident:
        return
    t.n = n = t.n + 1
    if n >= t.stop:
        t.sched.slow(t, code, line)


def _abort_point(t, code, kind):
    t.p += 1
    if t.p >= t.abort_at:
        frame = sys._getframe(2)
        if in_cleanup(frame):
            return
        t.abort_at = INF
        t.fired = f'{os.path.basename(code.co_filename)}:{frame.f_lineno}:{kind}'
        raise t.abort_exc


def on_start(code, offset):
    t = CUR
    if t is None or get_ident() != t.ident or not t.counting:
        return
    if code.co_filename.startswith(USER_PREFIX):
        t.u += 1
        if t.u >= t.user_at:
            t.user_at = INF
            t.fired = f'user:{code.co_qualname}'
            raise t.abort_exc
    _abort_point(t, code, 'start')


def on_c_return(code, offset, func, arg):
    t = CUR
    if t is None or get_ident() != t.ident or not t.counting:
        return
    _abort_point(t, code, 'c_return')


def on_jump(code, offset, dest):
    if dest > offset:
        return
    t = CUR
    if t is None or get_ident() != t.ident or not t.counting:
        return
    _abort_point(t, code, 'jump')


INF = 1 << 60
LINES = EV.LINE
ABORTS = EV.PY_START | EV.CALL | EV.JUMP


def install(events):
    mon.use_tool_id(TOOL, 'marsh-sim')
    if events & EV.LINE:
        mon.register_callback(TOOL, EV.LINE, on_line)
    if events & EV.PY_START:
        mon.register_callback(TOOL, EV.PY_START, on_start)
    if events & EV.CALL:
        mon.register_callback(TOOL, EV.C_RETURN, on_c_return)
    if events & EV.JUMP:
        mon.register_callback(TOOL, EV.JUMP, on_jump)


# --------------------------------------------------------------------------
# locks


class SimLock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        return CUR if CUR is not None and get_ident() == CUR.ident else 'main'

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self.count and not (self.reentrant and self.owner is me):
            if not blocking or timeout == 0:
                return False
            if me == 'main':
                raise SimDeadlock('a lock that is held is acquired again')
            if not S.block(me, self, timed=timeout is not None and timeout > 0):
                return False
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if not self.count or (self.reentrant and self.owner is not self._me()):
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if not self.count:
            self.owner = None
            if S is not None:
                S.unlocked(self)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        return bool(self.count)

    # used by threading.Condition
    def _is_owned(self):
        return self.count and self.owner is self._me()

    def _release_save(self):
        state = self.count
        self.count = 1
        self.release()
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self.count = state

    def _at_fork_reinit(self):
        self.__init__()


class SimRLock(SimLock):
    reentrant = True


def patch_threading():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    _thread.allocate_lock = SimLock
    _thread.allocate = SimLock
    _thread.LockType  # left alone
    _thread.RLock = SimRLock

    def sleep(seconds):
        t = CUR
        if t is not None and get_ident() == t.ident:
            S.sim_time += max(0.0, seconds)
            S.yield_(t)
        # no real time passes in a simulation

    time.sleep = sleep


# --------------------------------------------------------------------------
# scheduler


class SimThread:
    def __init__(self, sched, idx, fn):
        self.sched = sched
        self.idx = idx
        self.fn = fn
        self.gate = REAL_LOCK()
        self.gate.acquire()
        self.ident = None
        self.n = 0  # lines executed
        self.stop = INF
        self.next_switch = INF
        self.next_probe = 0
        self.limit = INF
        self.since = 0
        self.state = 'ready'
        self.waiting = None
        self.timed = False
        self.nforced = 0
        self.killed = False
        self.on_user = None
        # aborts
        self.counting = False
        self.p = 0
        self.u = 0
        self.abort_at = INF
        self.user_at = INF
        self.abort_exc = None
        self.fired = None


class Scheduler:
    """Runs functions as simulated threads under a schedule.

    schedule: {'mode': 'rw', 'seed', 'p'} | {'mode': 'pct', 'seed', 'd', 'span'}
        | {'mode': 'hot', 'seed', 'mod', 'p'} | {'mode': 'serial', 'order'}
        | {'mode': 'explicit', 'switches': [[t, n, to]], 'forced': [[t, k, to]]}
    """

    def __init__(self, schedule, max_lines=6_000_000, probe=None, probe_every=0):
        self.mode = schedule['mode']
        self.schedule = schedule
        self.rng = random.Random(schedule.get('seed', 0))
        self.threads = []
        self.max_lines = max_lines
        self.probe = probe
        self.probe_every = probe_every
        self.switches = []
        self.forced = []
        self.trace = []
        self.clock = 0  # global event counter (for call/return stamps)
        self.sim_time = 0.0
        self.problem = None
        self.main_gate = REAL_LOCK()
        self.main_gate.acquire()
        self.main_waiting = False

    # -- setup
    def add(self, fn):
        t = SimThread(self, len(self.threads), fn)
        self.threads.append(t)
        return t

    def stamp(self):
        self.clock += 1
        return self.clock

    def run(self):
        global S, CUR
        if not self.threads:
            return
        S = self
        n = len(self.threads)
        if self.mode == 'pct':
            self.prio = list(range(n))
            self.rng.shuffle(self.prio)
            span = max(2, int(self.schedule['span']))
            self.changes = sorted(
                self.rng.randrange(1, span) for _ in range(self.schedule['d'])
            )
            self.total = 0
        if self.mode == 'explicit':
            self.by_thread = {}
            for t, k, to in self.schedule.get('switches', ()):
                self.by_thread.setdefault(t, {})[k] = to
            self.keys = {t: sorted(d) for t, d in self.by_thread.items()}
            self.forced_map = {(t, k): to for t, k, to in self.schedule.get('forced', ())}
        for t in self.threads:
            self.arm(t)
        for t in self.threads:
            _thread.start_new_thread(self.main_of, (t,))
            while t.ident is None:
                REAL_SLEEP(0)
        first = self.pick_forced(None, -1)
        CUR = first
        first.gate.release()
        self.main_gate.acquire()
        CUR = None
        S = None

    def main_of(self, t):
        t.ident = get_ident()
        t.gate.acquire()
        try:
            if not t.killed:
                t.fn(t)
        except Killed:
            pass
        except BaseException as err:  # a bug of the harness
            if self.problem is None:
                import traceback
                self.problem = ('harness', f'{err!r}\n{traceback.format_exc()}')
        t.state = 'done'
        self.unlocked(t)
        self.leave(t)

    def spawn(self, fn):
        """A thread that is started while the others run."""
        t = self.add(fn)
        if self.mode == 'pct':
            self.prio.append(self.rng.choice([min(self.prio) - 1, max(self.prio) + 1]))
        self.arm(t)
        _thread.start_new_thread(self.main_of, (t,))
        while t.ident is None:
            REAL_SLEEP(0)
        return t

    def join(self, t, other):
        while other.state != 'done':
            self.block(t, other)

    # -- choosing
    def runnable(self, but=None):
        return [t for t in self.threads if t.state == 'ready' and t is not but]

    def pick_forced(self, t, k):
        """Choose who runs next when the current thread can not go on."""
        ready = self.runnable(t)
        if not ready:
            return None
        ti = -1 if t is None else t.idx
        key = k if t is not None else 0
        if self.mode == 'explicit':
            to = self.forced_map.get((ti, key))
            choice = next((x for x in ready if x.idx == to), ready[0])
        elif self.mode == 'serial':
            order = self.schedule.get('order') or range(len(self.threads))
            choice = min(ready, key=lambda x: list(order).index(x.idx))
        elif self.mode == 'pct':
            choice = max(ready, key=lambda x: self.prio[x.idx])
        else:
            choice = ready[self.rng.randrange(len(ready))]
        self.forced.append([ti, key, choice.idx])
        return choice

    def arm(self, t):
        """Decide at which line of t the next decision is due."""
        if self.mode == 'rw':
            p = self.schedule['p']
            gap = 1
            while self.rng.random() > p and gap < 1_000_000:
                gap += 1
            t.next_switch = t.n + gap
        elif self.mode in ('hot', 'pct'):
            t.next_switch = t.n + 1
        elif self.mode == 'explicit':
            keys = self.keys.get(t.idx, ())
            i = bisect.bisect_right(keys, t.n)
            t.next_switch = keys[i] if i < len(keys) else INF
        else:
            t.next_switch = INF
        stop = min(t.next_switch, self.max_lines, t.limit)
        if self.probe_every:
            stop = min(stop, t.next_probe)
        t.stop = stop

    def limit(self, t, lines):
        """The call that starts now may execute so many lines."""
        t.since = t.n
        t.limit = t.n + lines
        t.stop = min(t.next_switch, self.max_lines, t.limit, t.stop if self.probe_every else INF)

    def slow(self, t, code, line):
        if t.killed:
            raise Killed
        if t.n >= self.max_lines or t.n >= t.limit:
            self.fail('no-progress', f'thread {t.idx} executed {t.n - t.since} lines '
                      f'({os.path.basename(code.co_filename)}:{line})')
            raise Killed
        if self.probe_every and self.probe is not None and t.n >= t.next_probe:
            t.next_probe = t.n + self.probe_every
            self.probe(t, code, line)
        if t.n < t.next_switch:
            self.arm(t)
            return
        to = None
        ready = self.runnable(t)
        if ready:
            if self.mode == 'rw':
                to = ready[self.rng.randrange(len(ready))]
            elif self.mode == 'hot':
                h = hash((code.co_firstlineno * 7919 + line) ^ self.schedule['salt'])
                if h % self.schedule['mod'] == 0 and self.rng.random() < self.schedule['p']:
                    to = ready[self.rng.randrange(len(ready))]
            elif self.mode == 'pct':
                self.total += 1
                if self.changes and self.total >= self.changes[0]:
                    self.changes.pop(0)
                    self.prio[t.idx] = min(self.prio) - 1
                best = max(ready + [t], key=lambda x: self.prio[x.idx])
                if best is not t:
                    to = best
            elif self.mode == 'explicit':
                want = self.by_thread.get(t.idx, {}).get(t.n)
                to = next((x for x in ready if x.idx == want), None)
        self.arm(t)
        if to is not None:
            self.switches.append([t.idx, t.n, to.idx])
            self.trace.append((t.idx, os.path.basename(code.co_filename), line, to.idx))
            self.switch(t, to)

    # -- switching
    def switch(self, t, to):
        global CUR
        CUR = to
        to.gate.release()
        t.gate.acquire()
        if t.killed:
            raise Killed

    def yield_(self, t):
        ready = self.runnable(t)
        if ready:
            t.nforced += 1
            to = self.pick_forced(t, t.nforced)
            self.switch(t, to)

    def block(self, t, lock, timed=False):
        """Park t until lock is released.  False if that can not happen."""
        if t.killed:
            raise Killed
        t.state = 'blocked'
        t.waiting = lock
        t.timed = timed
        t.nforced += 1
        self.trace.append((t.idx, 'block', 0, -1))
        to = self.pick_forced(t, t.nforced)
        if to is None:
            for x in self.threads:
                if x.state == 'blocked' and x.timed:
                    x.state = 'ready'
                    x.timed = False
                    x.waiting = 'timeout'
                    if x is t:
                        return False
                    to = x
                    break
        if to is None:
            self.fail('deadlock', 'every thread waits for a lock held by another: '
                      + ', '.join(f'thread {x.idx} {x.state}' for x in self.threads))
            raise Killed
        self.switch(t, to)
        ok = t.waiting != 'timeout'
        t.waiting = None
        return ok

    def unlocked(self, lock):
        for x in self.threads:
            if x.state == 'blocked' and x.waiting is lock:
                x.state = 'ready'
                x.waiting = None

    def fail(self, kind, text):
        if self.problem is None:
            self.problem = (kind, text)
        for x in self.threads:
            x.killed = True
            x.stop = 0
            if x.state == 'blocked':
                x.state = 'ready'

    def leave(self, t):
        global CUR
        t.nforced += 1
        to = self.pick_forced(t, t.nforced)
        if to is None:
            stuck = [x for x in self.threads if x.state == 'blocked']
            if stuck:
                self.fail('deadlock', f'thread {stuck[0].idx} waits for a lock that '
                          'is never released')
                to = self.pick_forced(t, t.nforced)
        if to is None:
            CUR = None
            self.main_gate.release()
        else:
            CUR = to
            to.gate.release()

    def explicit(self):
        return dict(mode='explicit', switches=self.switches, forced=self.forced)


class Solo:
    """Counts lines and abort points, and fires aborts, in the main thread."""

    def __init__(self, max_lines=3_000_000, probe=None, probe_every=0):
        self.t = SimThread(self, 0, None)
        self.t.ident = get_ident()
        self.probe = probe
        self.probe_every = probe_every
        self.max_lines = max_lines
        self.problem = None
        self.arm()

    def arm(self):
        stop = self.max_lines
        if self.probe_every:
            stop = min(stop, self.t.n + self.probe_every)
        self.t.stop = stop

    def limit(self, t, lines):
        pass

    def slow(self, t, code, line):
        if t.n >= self.max_lines:
            self.problem = ('no-progress', f'executed {t.n} lines')
            raise Killed
        if self.probe is not None:
            self.probe(t, code, line)
        self.arm()

    def __enter__(self):
        global CUR
        CUR = self.t
        return self.t

    def __exit__(self, *exc):
        global CUR
        CUR = None


class armed:
    """Arm an abort for the duration of one call of the running thread."""

    def __init__(self, t, abort):
        self.t = t
        self.abort = abort

    def __enter__(self):
        t = self.t
        t.p = t.u = 0
        t.fired = None
        t.abort_at = t.user_at = INF
        if self.abort:
            exc = EXCS[self.abort['exc']]
            t.abort_exc = exc('simulated abort')
            if self.abort['kind'] == 'user':
                t.user_at = self.abort['at']
            else:
                t.abort_at = self.abort['at']
        t.counting = True
        return t

    def __exit__(self, *exc):
        self.t.counting = False
        self.t.abort_at = self.t.user_at = INF


class Cancelled(BaseException):
    """Stands for any other asynchronous exception."""


EXCS = {
    'KeyboardInterrupt': KeyboardInterrupt,
    'Cancelled': Cancelled,
    'SystemExit': SystemExit,
    'RuntimeError': RuntimeError,
    'ValueError': ValueError,
    'TypeError': TypeError,
    'LookupError': LookupError,
}
