"""Worlds made of threads that perform operations on shared objects.

A spec is {'threads': [[step, ...], ...], 'schedule': ..., 'setup': ...}.
Every operation is recorded with the moments at which it started and ended;
the history is judged when the run is over.
"""
import collections
import os
import shutil

from . import conv, core, sched
from .core import digest

INF = 1 << 60


class Op:
    """One operation of the history."""

    __slots__ = ('t', 'i', 'step', 's', 'e', 'out', 'x')

    def __init__(self, t, i, step, s):
        self.t = t
        self.i = i
        self.step = step
        self.s = s
        self.e = INF
        self.out = None
        self.x = None

    def __repr__(self):
        return f'{self.step} by thread {self.t} [{self.s},{self.e}] -> {self.out}'


def random_schedule(rng, span):
    r = rng.random()
    seed = rng.getrandbits(40)
    if r < .40:
        return dict(mode='rw', seed=seed, p=rng.choice([.003, .01, .03, .1, .3]))
    if r < .75:
        return dict(mode='pct', seed=seed, d=rng.choice([1, 2, 3, 4, 6]), span=max(2, span))
    return dict(mode='hot', seed=seed, salt=rng.getrandbits(30), mod=rng.choice([3, 8, 20, 60]),
                p=rng.choice([.2, .5, .9]))


class OpsWorld(core.World):
    events = sched.LINES
    source = None  # user code, instrumented
    line_limit = 400_000

    def template(self):
        conv.template(self.events)
        self.marsh = conv.marsh

    def run(self, spec, oracle):
        return self.Run(self, spec, oracle).go()

    # -- minimisation
    def shrinks(self, spec):
        n = len(spec['threads'])
        for i in range(n):
            if n > 1:
                yield remap(spec, spec['threads'][:i] + spec['threads'][i + 1:], i)
        for i in range(n):
            for cand in core.drop_chunks(spec['threads'][i]):
                threads = list(spec['threads'])
                threads[i] = cand
                yield dict(spec, threads=threads)
        for cand in core.drop_chunks(spec.get('before') or []):
            yield dict(spec, before=cand)
        s = spec['schedule']
        if s['mode'] == 'explicit':
            for cand in core.drop_chunks(s['switches']):
                yield dict(spec, schedule=dict(s, switches=cand))
            for cand in core.drop_chunks(s.get('forced', [])):
                yield dict(spec, schedule=dict(s, forced=cand))


def remap(spec, threads, gone):
    s = spec['schedule']
    if s['mode'] == 'explicit':
        def m(i):
            return i - 1 if i > gone else i
        s = dict(
            s,
            switches=[[m(t), k, m(to)] for t, k, to in s['switches'] if gone not in (t, to)],
            forced=[[m(t), k, m(to)] for t, k, to in s['forced'] if gone not in (t, to)],
        )
    elif s['mode'] == 'serial':
        s = dict(mode='serial')
    return dict(spec, threads=threads, schedule=s)


class OpsRun:
    def __init__(self, world, spec, oracle):
        self.w = world
        self.spec = spec
        self.oracle = oracle
        self.viol = []
        self.stats = collections.Counter()
        self.probes = collections.Counter()
        self.hist = []
        self.stack = []  # per thread: operations under way
        self.concurrent = False

    def bad(self, cls, msg):
        if len(self.viol) < 20:
            self.viol.append({'class': cls, 'msg': str(msg)[:1500]})

    dir_ = None

    def scratch(self):
        """A directory of this run alone, removed after it."""
        if self.dir_ is None:
            path = os.path.join(os.environ['MARSH_SIM_SCRATCH'], 'run%08d' % os.getpid())
            shutil.rmtree(path, ignore_errors=True)
            os.mkdir(path)
            self.dir_ = path
        return self.dir_

    def setup(self):
        pass

    def do(self, t, step):
        """Perform one operation, return what it gave."""
        raise NotImplementedError

    def judge(self):
        """Look at the history."""

    def step(self, t, i, step):
        op = Op(t.idx, i, step, self.sched.stamp())
        self.hist.append(op)
        t.ops.append(op)
        self.stats[step['op']] += 1
        t.sched.limit(t, self.w.line_limit)
        try:
            op.out = self.do(t, step)
        finally:
            t.ops.pop()
            op.e = self.sched.stamp()
        return op

    def inner(self, t, steps):
        """Operations made by user code from within an operation."""
        for k, step in enumerate(steps):
            self.step(t, f'in{k}', step)

    def go(self):
        try:
            return self.go_()
        finally:
            if self.dir_ is not None:
                shutil.rmtree(self.dir_, ignore_errors=True)

    def go_(self):
        spec = self.spec
        self.mods = {}
        if self.w.source:
            self.mods['user'] = conv.load_universe('user', self.w.source, False)
        self.sched = s = sched.Scheduler(spec['schedule'])
        self.setup()
        before = spec.get('before', ())
        if before:
            with sched.Solo() as t:
                t.sched.stamp = s.stamp
                t.idx = -1
                t.ops = []
                for i, step in enumerate(before):
                    self.step(t, i, step)
        for steps in spec['threads']:
            def fn(t, steps=steps):
                for i, step in enumerate(steps):
                    self.step(t, i, step)
                    s.yield_(t)
            s.add(fn).ops = []
        s.run()
        if s.problem:
            if s.problem[0] == 'harness':
                raise core.HarnessError(s.problem[1])
            self.bad(*s.problem)
        else:
            self.judge()
        self.stats['switches'] += len(s.switches)
        self.stats['lines'] += sum(t.n for t in s.threads)
        hist = [[op.t, op.step, op.out] for op in self.hist]
        return core.result(
            viol=self.viol, digest_=digest([spec.get('setup'), s.trace, hist]),
            nontrivial=self.w.is_nontrivial(self, s), stats=self.stats, sim_s=s.sim_time,
            explicit=dict(schedule=s.explicit()), note=digest([s.trace, hist]),
            probes=self.probes)


OpsWorld.is_nontrivial = lambda self, run, s: len(run.hist) > 1


# --------------------------------------------------------------------------
# registers


def possible(writes, s, e, same=None):
    """Values a read in [s, e] may give, by regular semantics.

    writes: (start, end, value, sure) with the first one the initial value.
    A write that is sure and completed before the read started hides those that
    had ended before it started.
    """
    out = []
    for a, b, v, sure in writes:
        if a > e:
            continue
        if any(x[3] and x[0] > b and x[1] < s for x in writes):
            continue
        out.append(v)
    return out


def overlapping(hist, op):
    return any(o is not op and o.s < op.e and op.s < o.e for o in hist)
