"""Shared iterables: C15."""
from . import core, sched
from .ops import OpsRun, OpsWorld, random_schedule

SOURCE = '''
class Transient(Exception):
    pass

class Item:
    def __init__(self, n):
        self.n = n

def generator(enter, n, fails):
    for i in range(n):
        x = enter(i)
        yield x

class Source:
    """An iterator that can fail for once and goes on afterwards."""

    def __init__(self, enter, n, fails):
        self.enter = enter
        self.n = n
        self.i = 0
        self.fails = set(fails)

    def __iter__(self):
        return self

    def __next__(self):
        i = self.i
        if i in self.fails:
            self.fails.discard(i)
            raise Transient(i)
        if i >= self.n:
            raise StopIteration
        x = self.enter(i)
        self.i = i + 1
        return x
'''


class Iterables(OpsWorld):
    runs = {'quick': 40000, 'thorough': 800000}
    source = SOURCE
    real = ('marsh.utils.IterableFromIterator', 'real OS threads, released one at a time')
    stub = ('locks created by marsh (simulated)',)
    assumptions = ('threads are preempted between source lines of marsh and of the wrapped iterator',)
    rule = ('A case is 1-4 threads with several complete, partial, abandoned and interleaved '
            'iterations and truth tests over one iterable of 0-6 items. Non-trivial: at least two '
            'operations. Distinct by history and interleaving.')

    def gen(self, rng, index):
        nthreads = rng.choice([1, 1, 2, 2, 3, 4])
        n = rng.choice([0, 1, 1, 2, 3, 4, 6])
        setup = dict(n=n, kind=rng.choice(['generator', 'Source', 'list']),
                     fails=[])
        if setup['kind'] == 'Source' and rng.random() < .3:
            setup['fails'] = sorted(rng.sample(range(n + 1), rng.choice([1, min(2, n + 1)])))
        threads = []
        for t in range(nthreads):
            steps = []
            names = list(range(rng.choice([1, 1, 2, 3])))
            for _ in range(rng.choice([1, 2, 4, 8])):
                r = rng.random()
                k = rng.choice(names)
                if r < .15:
                    steps.append(dict(op='bool'))
                elif r < .3:
                    steps.append(dict(op='list'))
                elif r < .6:
                    steps.append(dict(op='next', k=k, m=rng.choice([1, 1, 1, 2, 3])))
                elif r < .8:
                    steps.append(dict(op='drain', k=k))
                elif r < .9:
                    steps.append(dict(op='new', k=k))
                else:
                    steps.append(dict(op='close', k=k))
            threads.append(steps)
        return dict(setup=setup, threads=threads,
                    schedule=random_schedule(rng, 12 * sum(map(len, threads))))


class IterablesRun(OpsRun):
    def setup(self):
        u = self.mods['user']
        s = self.spec['setup']
        self.u = u
        self.n = s['n']
        self.produced = []
        self.asked = 0
        self.items = [u.Item(i) for i in range(self.n)]
        if s['kind'] == 'list':
            src = iter(self.items)
        else:
            src = getattr(u, 'Source' if s['kind'] == 'Source' else 'generator')(
                self.enter, self.n, s['fails'])
        self.it = self.w.marsh.utils.IterableFromIterator(src)
        self.open = {}

    def enter(self, i):
        self.produced.append(i)
        if self.produced != list(range(len(self.produced))):
            self.bad('advanced', f'items were produced in the order {self.produced}')
        if len(self.produced) > self.asked:
            self.bad('advanced', f'item {i} was produced although only {self.asked} were asked for')
        return self.items[i]

    def ask(self, k):
        self.asked = max(self.asked, k)

    def take(self, state, m):
        """Advance an iteration by up to m items."""
        got = []
        while len(got) < m and not state['done']:
            self.ask(state['at'] + 1)
            try:
                x = next(state['it'])
            except StopIteration:
                state['done'] = True
                if state['at'] != self.n:
                    self.bad('incomplete', f'an iteration ended after {state["at"]} of '
                             f'{self.n} items')
                break
            except self.u.Transient:
                state['done'] = True
                got.append('failed')
                if not self.spec['setup']['fails']:
                    self.bad('raises', 'Transient')
                self.stats['fault:the iterator fails once'] += 1
                break
            if state['at'] >= self.n or x is not self.items[state['at']]:
                self.bad('items', f'item {getattr(x, "n", x)} came at index {state["at"]}')
                state['done'] = True
                break
            got.append(x.n)
            state['at'] += 1
        return got

    def do(self, t, step):
        try:
            return self.act(t, step)
        except sched.Killed:
            raise
        except Exception as err:
            self.bad('raises', f'{step} raised {type(err).__name__}: {err}')
            return ['error', type(err).__name__]

    def fresh(self):
        return dict(it=iter(self.it), at=0, done=False)

    def act(self, t, step):
        kind = step['op']
        if kind == 'bool':
            self.ask(1)
            try:
                got = bool(self.it)
            except self.u.Transient:
                self.stats['fault:the iterator fails once'] += 1
                return 'failed'
            if got != bool(self.n):
                self.bad('bool', f'the truth value is {got} with {self.n} items')
            return got
        if kind == 'list':
            return self.take(self.fresh(), 1 << 30)
        key = (t.idx, step['k'])
        if kind == 'new' or key not in self.open:
            self.open[key] = self.fresh()
        if kind == 'next':
            return self.take(self.open[key], step['m'])
        if kind == 'drain':
            return self.take(self.open[key], 1 << 30)
        if kind == 'close':
            self.open[key]['it'].close() if hasattr(self.open[key]['it'], 'close') else None
            del self.open[key]
            self.stats['fault:iteration abandoned'] += 1
        return None

    def judge(self):
        # nobody is in the way of a last complete iteration
        with sched.Solo(self.w.line_limit):
            got = []
            for _ in range(4):
                got = self.take(self.fresh(), 1 << 30)
                if 'failed' not in got:
                    break
        if got != list(range(self.n)):
            self.bad('incomplete', f'a last iteration yields {got} of {self.n} items')


Iterables.Run = IterablesRun
