"""Namespaces under schedules and histories: C05."""
import gc
import itertools

from . import sched
from .ops import OpsRun, OpsWorld, random_schedule

SOURCE = '''
import dataclasses, typing
from typing import Dict, List, Optional, Tuple
import marsh

class Failed(Exception):
    pass

class Meta(type):
    """Classes whose subclass test is code of the user."""
    def __subclasscheck__(cls, other):
        answer = type.__subclasscheck__(cls, other)
        return answer

def make_classes(same_name, meta, enter):
    """Two hierarchies: A > A1 > A3, A > A2 and B > B1, B > B2."""
    made = {}
    tree = [('A', None), ('A1', 'A'), ('A2', 'A'), ('A3', 'A1'),
            ('B', None), ('B1', 'B'), ('B2', 'B')]
    for ident, parent in tree:
        def post(self):
            enter(type(self).ident)
        bases = (made[parent],) if parent else ()
        name = ident[0] if same_name else ident
        ns = dict(__annotations__={'x': int}, x=0, ident=ident, __module__=__name__,
                  __qualname__=name, __post_init__=post)
        c = (Meta if meta else type)(name, bases, ns)
        made[ident] = dataclasses.dataclass(c)
    return made

def make_holder(T):
    return dataclasses.make_dataclass('Holder', [('a', T), ('b', List[T])])
'''

PARENT = {'A': None, 'A1': 'A', 'A2': 'A', 'A3': 'A1', 'B': None, 'B1': 'B', 'B2': 'B'}
CLASSES = list(PARENT)
# namespace -> base, names of components (those of different namespaces differ)
SLOTS = {'N0': ('A', ['p', 'q', 'r']), 'N1': ('B', ['s', 't']), 'N2': ('A', ['u', 'v']),
         'N3': ('A1', ['w'])}


def is_sub(c, base):
    while c:
        if c == base:
            return True
        c = PARENT[c]
    return False


class Namespaces(OpsWorld):
    runs = {'quick': 18000, 'thorough': 400000}
    source = SOURCE
    real = ('all of marsh', 'real OS threads, released one at a time')
    stub = ('locks created by marsh (simulated)',)
    assumptions = (
        'threads are preempted between source lines of marsh and of the registered classes',
        'namespaces that exist at the same time use different component names',
    )
    rule = ('A case is 1-3 threads with up to 24 operations on up to 4 namespaces over two class '
            'hierarchies: creation, deletion, registration (direct, by a decorator applied at once '
            'or later, through names and through kept or deleted namespaces), and lookups of every '
            'kind. Non-trivial: at least one change and one lookup. Distinct by history and '
            'interleaving.')

    def gen(self, rng, index):
        nthreads = rng.choice([1, 1, 2, 2, 2, 3])
        slots = rng.sample(list(SLOTS), rng.choice([1, 1, 2, 2, 3]))
        few = rng.random() < .6

        def ns():
            return rng.choice(slots)

        def comp(n):
            names = SLOTS[n][1]
            return names[0] if few and rng.random() < .7 else rng.choice(names)

        def cls(n, p=.06):
            if rng.random() < p:
                return rng.choice(CLASSES)
            return rng.choice([c for c in CLASSES if is_sub(c, SLOTS[n][0])])

        def via(n):
            return rng.choice(['name', 'name', 'handle', 'handle', 'oldest'])

        def change():
            n = ns()
            r = rng.random()
            if r < .2:
                return dict(op='new', n=n)
            if r < .3:
                return dict(op='del', n=n)
            s = dict(op='register', n=n, c=comp(n), T=cls(n), replace=rng.random() < .5,
                     how=rng.choice(['direct', 'direct', 'decorator', 'later']), via=via(n))
            return s

        def look():
            n = ns()
            r = rng.random()
            if r < .30:
                return dict(op='unmarshal', T=cls(n), c=rng.choice([comp(n), comp(n), None]),
                            form=rng.choice(['plain', 'plain', 'list', 'dict', 'holder', 'optional',
                                             'mixed']), c2=comp(ns()))
            if r < .48:
                return dict(op='marshal', T=cls(n), form=rng.choice(['plain', 'plain', 'list']),
                            back=rng.random() < .4)
            if r < .60:
                return dict(op='build', n=n, c=comp(n), via=via(n),
                            form=rng.choice(['element', 'kwargs', 'both']))
            if r < .68:
                return dict(op='item', n=n, c=comp(n), via=via(n))
            if r < .74:
                return dict(op='has', n=n, c=rng.choice([comp(n), None]), via=via(n))
            if r < .80:
                return dict(op='listing', n=rng.choice([n, None]), via=via(n))
            if r < .86:
                return dict(op='select', T=cls(n), c=comp(n))
            if r < .91:
                return dict(op='find', T=cls(n), via=rng.choice(['all', 'name', 'handle']), n=n)
            if r < .95:
                return dict(op='subs', T=cls(n))
            return dict(op='housekeeping', what=rng.choice(
                ['collect garbage', 'clear caches', 'clear caches in full', 'disable caches',
                 'enable caches', 'failing user code']))

        before = []
        for n in slots:
            if rng.random() < .7:
                before.append(dict(op='new', n=n))
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            before.append(change() if rng.random() < .5 else look())
        if rng.random() < .3:
            before = [look() for _ in range(rng.choice([1, 2]))] + before
        threads = []
        left = 9
        for _ in range(nthreads):
            steps = []
            for _ in range(rng.choice([1, 2, 3, 5, 8])):
                if rng.random() < .45 and left:
                    left -= 1
                    steps.append(change())
                else:
                    steps.append(look())
                    if rng.random() < .2:
                        steps.append(dict(steps[-1]))
            threads.append(steps)
        inner = {}
        if rng.random() < .2:
            inner = {rng.choice(CLASSES): [change() if rng.random() < .7 else look()]}
        return dict(setup=dict(same_name=rng.random() < .3, meta=rng.random() < .2, inner=inner),
                    threads=threads, before=before, schedule=random_schedule(rng, 500))

    def is_nontrivial(self, run, s):
        return bool(run.changes) and len(run.hist) > len(run.changes)


class NoNamespace(Exception):
    pass


class NamespacesRun(OpsRun):
    def setup(self):
        self.u = self.mods['user']
        self.m = self.w.marsh
        s = self.spec['setup']
        self.armed = {}
        self.inners = {k: list(v) for k, v in s['inner'].items()}
        self.failing = set()
        self.cls = self.u.make_classes(s['same_name'], s['meta'], self.enter)
        self.holder = {}
        self.made = []  # every namespace created, in the order the creations returned
        self.disabled = False

    def enter(self, ident):
        """An instance is being made."""
        t = sched.CUR
        steps = self.inners.pop(ident, None)
        if t in self.failing:
            self.failing.discard(t)
            self.stats['fault:user code fails'] += 1
            raise self.u.Failed(ident)
        if steps:
            self.stats['calls from user code'] += 1
            self.inner(t, steps)

    def get(self, t, step):
        """The namespace an operation is made on, as its number."""
        n = step['n']
        if step['via'] == 'name':
            op = self.step(t, 'get', dict(op='get', n=n))
            if op.out[0] != 'ns':
                raise NoNamespace
            return op.out[1]
        kept = [k for k, (name, _) in enumerate(self.made) if name == n]
        if not kept:
            raise NoNamespace
        return kept[0 if step['via'] == 'oldest' else -1]

    def ident(self, x):
        return getattr(type(x), 'ident', type(x).__name__)


    def do(self, t, step):
        op = t.ops[-1]
        try:
            return self.act(t, op, step)
        except sched.Killed:
            raise
        except NoNamespace:
            return ['skipped']
        except self.u.Failed:
            return ['failed']
        except Exception as err:
            e = err
            while e is not None:
                if isinstance(e, self.u.Failed):
                    return ['failed']
                e = e.__cause__ or e.__context__
            return ['error', type(err).__name__, str(err)[:200]]

    def act(self, t, op, step):
        m, u, kind = self.m, self.u, step['op']
        nss = m.namespaces
        if kind == 'new':
            x = nss.new(step['n'], self.cls[SLOTS[step['n']][0]])
            self.made.append((step['n'], x))
            return ['ns', len(self.made) - 1]
        if kind == 'del':
            del nss[step['n']]
            return ['done']
        if kind == 'get':
            x = nss[step['n']]
            for _ in range(200):
                for k, (_, y) in enumerate(self.made):
                    if x is y:
                        return ['ns', k]
                self.sched.yield_(t) if t.idx >= 0 and t.idx < 90 else None
            raise NoNamespace
        if kind == 'register':
            k = self.get(t, step)
            op.x = k
            x = self.made[k][1]
            c = self.cls[step['T']]
            kw = dict(name=step['c'], replace=step['replace'])
            if step['how'] == 'direct':
                got = x.register(c, **kw)
            else:
                deco = x.register(**kw)
                if step['how'] == 'later':
                    if t.idx >= 0:
                        for _ in range(3):
                            self.sched.yield_(t)
                got = deco(c)
            if got is not c:
                self.bad('returns', f'{step} returned {got!r}')
            return ['done']
        if kind == 'unmarshal':
            return self.unmarshal(t, op, step)
        if kind == 'marshal':
            x = self.fresh(step['T'])
            v = [x, self.fresh(step['T'])] if step['form'] == 'list' else x
            got = m.marshal(v)
            parts = got if step['form'] == 'list' else [got]
            names = []
            for p in parts:
                if dict(p, name=None) != {'x': 7, 'name': None}:
                    self.bad('marshal', f'{step} gives {got}')
                names.append(p.get('name'))
            if step['back'] and names[0] is not None:
                self.step(t, 'back', dict(op='unmarshal', T=step['T'], c=names[0], form='plain',
                                          x=7))
            return ['names', names]
        if kind == 'build':
            k = op.x = self.get(t, step)
            x = self.made[k][1]
            if step['form'] == 'element':
                v = x.build({'x': 5}, name=step['c'])
            elif step['form'] == 'kwargs':
                v = x.build(name=step['c'], x=5)
            else:
                v = x.build({'x': 4}, name=step['c'], x=5)
            if v.x != 5:
                self.bad('value', f'{step} gives x={v.x}')
            return ['class', self.ident(v)]
        if kind == 'item':
            k = op.x = self.get(t, step)
            s = self.made[k][1][step['c']]
            return ['class', getattr(s.value, 'ident', repr(s.value))]
        if kind == 'has':
            if step['c'] is None:
                return ['bool', step['n'] in nss]
            k = op.x = self.get(t, step)
            return ['bool', step['c'] in self.made[k][1]]
        if kind == 'listing':
            if step['n'] is None:
                return ['list', list(nss), len(nss)]
            k = op.x = self.get(t, dict(step, n=step['n']))
            x = self.made[k][1]
            return ['list', list(x), len(x)]
        if kind == 'select':
            s = m.schema.UnmarshalSchema(self.cls[step['T']]).select(step['c'])
            return ['class', getattr(s.value, 'ident', repr(s.value))]
        if kind == 'find':
            c = self.cls[step['T']]
            if step['via'] == 'all':
                return ['name', nss.find_class(c)]
            k = op.x = self.get(t, step)
            return ['name', self.made[k][1].find_class(c)]
        if kind == 'subs':
            got = [[name, space.name] for name, space in nss.find_subclasses(self.cls[step['T']])]
            return ['subs', got]
        if kind == 'housekeeping':
            what = step['what']
            if what == 'collect garbage':
                gc.collect()
            elif what == 'clear caches':
                m.schema.UnmarshalSchema.cache_clear()
                nss.cache_clear()
            elif what == 'clear caches in full':
                m.schema.caches.cache_clear()
                nss.cache_clear(full=True)
            elif what == 'disable caches':
                self.disabled = True
                m.schema.caches.cache_disable()
            elif what == 'enable caches':
                m.schema.caches.cache_enable()
            else:
                self.failing.add(t)
                return ['armed']
            self.stats['fault:' + what] += 1
            return ['done']
        raise AssertionError(kind)

    def fresh(self, ident):
        x = object.__new__(self.cls[ident])
        x.x = 7
        return x

    def unmarshal(self, t, op, step):
        T = self.cls[step['T']]
        n = step.get('x', 3)
        el = {'x': n}
        if step['c'] is not None:
            el['name'] = step['c']
        form = step['form']
        if form == 'plain':
            want, T, el = [step['c']], T, el
        elif form == 'optional':
            want, T = [step['c']], self.u.Optional[T]
        elif form == 'list':
            want, T, el = [step['c'], None], self.u.List[T], [el, {'x': n}]
        elif form == 'dict':
            want, T, el = [step['c']], self.u.Dict[str, T], {'k': el}
        elif form == 'mixed':
            want, T = [step['c'], step['c2']], self.u.Tuple[T, T]
            el = [el, {'x': n, 'name': step['c2']}]
        else:
            if step['T'] not in self.holder:
                self.holder[step['T']] = self.u.make_holder(T)
            want, T = [step['c'], step['c']], self.holder[step['T']]
            el = {'a': el, 'b': [el]}
        v = self.m.unmarshal(T, el)
        if form == 'holder':
            v = [v.a] + v.b
        elif form == 'dict':
            v = list(v.values())
        elif form in ('plain', 'optional'):
            v = [v]
        for x in v:
            if x.x != n:
                self.bad('value', f'{step} gives x={x.x}')
        return ['classes', [self.ident(x) for x in v], want]

    # -- oracle
    def states(self, order):
        """States after each prefix of the changes: (name -> namespace number,
        number -> {component: class}), or the change that does not fit."""
        live, comps = {}, {}
        out = [(live, comps)]
        for op in order:
            live, comps = dict(live), dict(comps)
            kind = op.step['op']
            if kind == 'new':
                if op.step['n'] in live:
                    return op, None
                live[op.step['n']] = op.out[1]
                comps[op.out[1]] = {}
            elif kind == 'del':
                if op.step['n'] not in live:
                    return op, None
                del live[op.step['n']]
            else:
                have = comps.get(op.x)
                if have is None or (op.step['c'] in have and not op.step['replace']):
                    return op, None
                comps[op.x] = {**have, op.step['c']: op.step['T']}
            out.append((live, comps))
        return None, out

    def orders(self):
        def extend(done, left):
            if not left:
                yield list(done)
                return
            for r in left:
                if not any(o.e < r.s for o in left if o is not r):
                    yield from extend(done + [r], [o for o in left if o is not r])

        return extend([], self.changes)

    @staticmethod
    def entries(state):
        """component name -> class, over the namespaces that exist."""
        live, comps = state
        out = {}
        for k in live.values():
            out.update(comps[k])
        return out

    def fits(self, op, window):
        """Could this outcome be seen, each entry as it is at some moment?"""
        step, out = op.step, op.out
        kind = step['op']
        if out[0] in ('skipped', 'failed', 'armed'):
            return True
        if kind == 'housekeeping':
            return out == ['done']
        err = out[1] if out[0] == 'error' else None
        live = [w[0] for w in window]
        if kind == 'get':
            if out[0] == 'ns':
                return any(x.get(step['n']) == out[1] for x in live)
            return err == 'KeyError' and any(step['n'] not in x for x in live)
        if kind == 'new':  # failed
            return err == 'MarshError' and any(step['n'] in x for x in live)
        if kind == 'del':
            return err == 'KeyError' and any(step['n'] not in x for x in live)
        if op.x is not None:
            here = [w[1][op.x] for w in window if op.x in w[1]]
        if kind == 'register':
            c = step['c']
            if err == 'ValueError':
                return not is_sub(step['T'], SLOTS[step['n']][0])
            return err == 'MarshError' and not step['replace'] and any(c in x for x in here)
        if kind in ('build', 'item'):
            if out[0] == 'class':
                return any(x.get(step['c']) == out[1] for x in here)
            return err == {'build': 'UnmarshalError', 'item': 'KeyError'}[kind] and any(
                step['c'] not in x for x in here)
        if kind == 'has':
            if step['c'] is None:
                return out[0] == 'bool' and any((step['n'] in x) == out[1] for x in live)
            return out[0] == 'bool' and any((step['c'] in x) == out[1] for x in here)
        if kind == 'listing':
            if out[0] != 'list':
                return False
            views = live if step['n'] is None else here
            names = set().union(*views)
            return len(set(out[1])) == len(out[1]) and set(out[1]) <= names and all(
                any((c in x) == (c in out[1]) for x in views) for c in names) and any(
                len(x) == out[2] for x in views)
        all_ = [self.entries(w) for w in window]
        if kind == 'find':
            views = all_ if step['via'] == 'all' else here
            if out[0] != 'name':
                return False
            if out[1] is None:
                return all(any(x.get(c) != step['T'] for x in views)
                           for c in set().union(*views))
            return any(x.get(out[1]) == step['T'] for x in views)
        if kind == 'marshal':
            if out[0] != 'names':
                return False
            for name in out[1]:
                if name is None:
                    ok = all(any(x.get(c) != step['T'] for x in all_)
                             for c in set().union(*all_))
                else:
                    ok = any(x.get(name) == step['T'] for x in all_)
                if not ok:
                    return False
            return True
        if kind == 'subs':
            if out[0] != 'subs':
                return False
            names = [x[0] for x in out[1]]
            return len(set(names)) == len(names) and all(
                x[0] in SLOTS[x[1]][1] for x in out[1]) and all(
                any((c in x and is_sub(x[c], step['T'])) == (c in names) for x in all_)
                for c in set(names).union(*all_))
        T = step['T']
        # is the type one of a namespace at all?
        inside = [any(is_sub(T, SLOTS[n][0]) for n in x) for x in live]

        def seen(c):
            """What may be seen in place of c: classes, None for an error."""
            if c is None:
                return {T}
            got = set()
            if not all(inside):
                got.add(None)
            if any(inside):
                for x in all_:
                    y = x.get(c)
                    got.add(y if y and is_sub(y, T) else None)
            return got

        if kind == 'select':
            if out[0] == 'class':
                return out[1] in seen(step['c'])
            return err == 'PathError' and None in seen(step['c'])
        if kind == 'unmarshal':
            if out[0] == 'classes':
                return len(out[1]) == len(out[2]) and all(
                    a in seen(c) for a, c in zip(out[1], out[2]))
            want = [step['c']] + ([step['c2']] if step['form'] == 'mixed' else [])
            return err == 'UnmarshalError' and any(None in seen(c) for c in want)
        raise AssertionError(kind)

    def judge_order(self, order):
        bad, states = self.states(order)
        if bad is not None:
            return bad
        pos = {op.s: i for i, op in enumerate(order)}
        for op in self.hist:
            if op.s in pos:
                continue
            lo = max([pos[r.s] + 1 for r in order if r.e < op.s], default=0)
            hi = min([pos[r.s] for r in order if r.s > op.e], default=len(order))
            if not self.fits(op, states[lo:hi + 1]):
                return op
        return None

    def look_again(self):
        """Nobody else is running: everything is looked at once more."""
        self.failing.clear()
        self.inners.clear()
        steps = []
        for n, (base, names) in SLOTS.items():
            steps.append(dict(op='has', n=n, c=None))
            steps.append(dict(op='listing', n=n, via='handle'))
            for c in names:
                steps.append(dict(op='unmarshal', T=base, c=c, form='plain'))
                steps.append(dict(op='item', n=n, c=c, via='handle'))
        for T in CLASSES:
            steps.append(dict(op='marshal', T=T, form='plain', back=True))
        steps.append(dict(op='subs', T='A'))
        steps.append(dict(op='listing', n=None))
        with sched.Solo(self.w.line_limit) as t:
            t.sched.stamp = self.sched.stamp
            t.idx = 99
            t.ops = []
            for i, step in enumerate(steps):
                self.step(t, i, step)

    def judge(self):
        self.changes = ()
        if self.disabled:
            self.m.schema.caches.cache_enable()
        self.look_again()
        self.changes = [op for op in self.hist if op.step['op'] in ('new', 'del', 'register')
                        and op.out[0] in ('done', 'ns')]
        worst = None
        k = 0
        for k, order in enumerate(itertools.islice(self.orders(), 400)):
            bad = self.judge_order(order)
            if bad is None:
                self.probes['orders of changes tried'] += k + 1
                return
            if worst is None or bad.s > worst.s:
                worst = bad
        if k >= 399:
            self.probes['too many orders to judge'] += 1
            return
        self.bad('history', f'{worst} does not fit; changes: {self.changes}')


Namespaces.Run = NamespacesRun
