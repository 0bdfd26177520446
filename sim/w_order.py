"""Priority orders, singletons, type caches and pools under schedules: C20."""
import gc
import itertools

from . import core, sched
from .ops import OpsRun, OpsWorld, random_schedule

SOURCE = '''
import typing
import marsh

class Boom(Exception):
    pass

class Stop(BaseException):
    pass

class V:
    """Equal to its copies; every look at it can fail."""

    def __init__(self, n, copy, look):
        self.n = n
        self.copy = copy
        self.look = look

    def __hash__(self):
        self.look('hash')
        h = self.n + 1000
        return h

    def __eq__(self, other):
        if type(other) is not V:
            return NotImplemented
        self.look('eq')
        same = self.n == other.n
        return same

    def __str__(self):
        self.look('str')
        s = 'V%d' % self.n
        return s

def singletons(enter):
    class A(metaclass=marsh.utils.SingletonMeta):
        def __init__(self, *args, **kwargs):
            self.args = None
            enter(type(self), self)
            self.args = (args, tuple(kwargs.items()))
            self.ready = True

    class B(A):
        pass

    class C(metaclass=marsh.utils.SingletonMeta):
        def __init__(self, *args, **kwargs):
            self.args = (args, tuple(kwargs.items()))
            enter(type(self), self)
            self.ready = True

    class Meta(marsh.utils.SingletonMeta):
        pass

    class D(metaclass=Meta):
        def __init__(self, *args, **kwargs):
            self.args = (args, tuple(kwargs.items()))
            enter(type(self), self)
            self.ready = True

    return A, B, C, D

def make_type(name):
    return type(name, (), {})

def plain(x):
    y = x
    return y
'''

SLICES = [[None, None, None], [None, 1, None], [1, None, None], [None, None, 2], [None, None, -1],
          [-2, None, None], [0, 0, None], [1, 3, None], [5, 9, None]]
SKIP = ['int', 'str']
OTHER = ['int', 'typing.List[int]', 'list[int]', 'typing.Optional[int]', 'str']


class Orders(OpsWorld):
    runs = {'quick': 24000, 'thorough': 400000}
    source = SOURCE
    real = ('marsh.utils.PriorityOrder, SingletonMeta, WeakTypeCache, CachePool',
            'real OS threads, released one at a time')
    stub = ('locks created by marsh (simulated)',)
    assumptions = (
        'threads are preempted between source lines of marsh and of the user code that values and '
        'singletons are made of',
        'the order is judged when the stated priorities and relations allow only one',
    )
    rule = ('A case is 1-3 threads making up to 24 operations on one shared object: a priority '
            'order (adding, replacing, deleting by index and slice, reloading, reading, held '
            'iterations, values whose hash, comparison or text fails), classes of one instance '
            '(failing, nested, derived), a cache of types or a pool of caches. Non-trivial: at '
            'least two operations. Distinct by history and interleaving.')

    def gen(self, rng, index):
        kind = rng.choice(['order'] * 6 + ['single', 'single', 'types', 'pool'])
        nthreads = rng.choice([1, 1, 2, 2, 3])
        setup = dict(kind=kind)
        make = getattr(self, 'gen_' + kind)(rng, setup, nthreads)
        most = [1, 2, 3, 4] if nthreads > 1 else [3, 6, 12, 24]
        if kind != 'order':
            most = [2, 4, 8]
        threads = [[make(t) for _ in range(rng.choice(most))] for t in range(nthreads)]
        before = [make(-1) for _ in range(rng.choice([0, 0, 2, 4]))]
        return dict(setup=setup, threads=threads, before=before,
                    schedule=random_schedule(rng, 40 * sum(map(len, threads))))

    def gen_order(self, rng, setup, nthreads):
        n = rng.choice([1, 2, 3, 4, 5, 6])
        values = setup['values'] = rng.choice(['str', 'int', 'V', 'V', 'type', 'twin'])
        rank = list(range(n))
        rng.shuffle(rank)
        prios = rng.choice([[0], [0], [0, 0, 1, -1], [0, 1, 2, 3, 4, 5, 6, 7], [-3, 10]])
        prel = rng.choice([0, .2, .5]) if rng.random() < .6 else 0
        faults = values == 'V' and rng.random() < .4
        fixed = None
        if prel and rng.random() < .6:
            # numbers that agree with the relations
            fixed = prios = [10 - rank[i] for i in range(n)]
        writes = rng.choice([.4, .6, .8])

        def make(t):
            r = rng.random()
            if r < writes:
                r = rng.random()
                if r < .7:
                    v = rng.randrange(n)
                    s = dict(op='add', v=v, prio=fixed[v] if fixed else rng.choice(prios),
                             replace=rng.random() < .4)
                    if rng.random() < .3:
                        s['decorator'] = True
                    if values == 'V' and rng.random() < .5:
                        s['copy'] = rng.randrange(3)
                    if rng.random() < .4:
                        s['form'] = rng.randrange(6)
                    for k in range(n):
                        if k != v and rng.random() < prel:
                            s.setdefault('lower' if rank[k] > rank[v] else 'higher', []).append(k)
                    if rng.random() < .03:
                        s['both'] = rng.randrange(n)
                elif r < .85:
                    s = dict(op='del', i=rng.choice([0, 0, 1, -1, -1, 2, 5]))
                elif r < .93:
                    s = dict(op='del', sl=rng.choice(SLICES))
                else:
                    s = dict(op='reload')
                if faults and not {'lower', 'higher', 'both'} & set(s) and rng.random() < .5:
                    s['boom'] = rng.choice([1, 1, 2, 3, 5, 9])
                    if rng.random() < .4:
                        s['stop'] = True
                return s
            r = rng.random()
            if r < .4:
                return dict(op='list')
            if r < .5:
                return dict(op='get', i=rng.choice([0, 0, 1, -1, 3]))
            if r < .6:
                return dict(op='slice', sl=rng.choice(SLICES), drop=rng.random() < .5)
            if r < .65:
                return dict(op='len')
            if r < .72:
                return dict(op='in', v=rng.randrange(n))
            if r < .95 or nthreads > 1:
                k = rng.randrange(2)
                return dict(op='next', k=k, m=rng.choice([1, 1, 2, 9]))
            return dict(op=rng.choice(['reversed', 'index', 'count']), v=rng.randrange(n))

        return make

    def gen_single(self, rng, setup, nthreads):
        setup['fails'] = [rng.choice([0, 0, 0, 1, 2]) for _ in range(4)]
        setup['inner'] = [None] * 4
        if rng.random() < .5:
            # the constructor of one class asks for another
            order = list(range(4))
            rng.shuffle(order)
            for a, b in zip(order, order[1:]):
                if rng.random() < .6:
                    setup['inner'][a] = b

        def make(t):
            s = dict(op='make', c=rng.randrange(4))
            if rng.random() < .5:
                s['a'] = rng.randrange(5)
            if rng.random() < .15:
                s['stop'] = True
            return s

        return make

    def gen_types(self, rng, setup, nthreads):
        n = setup['n'] = rng.choice([1, 2, 3, 5])

        def make(t):
            r = rng.random()
            if r < .5:
                return dict(op='add', v=rng.randrange(n))
            if r < .58:
                return dict(op='other', v=rng.choice(OTHER))
            if r < .8:
                return dict(op='list')
            if r < .9:
                return dict(op='in', v=rng.randrange(n))
            if r < .93:
                return dict(op='clear')
            if nthreads > 1:
                return dict(op='list')
            return dict(op=rng.choice(['drop', 'drop', 'len']), v=rng.randrange(n))

        return make

    def gen_pool(self, rng, setup, nthreads):
        names = ['a', 'b', 'c', 'd', 'e']

        def make(t):
            r = rng.random()
            if r < .35:
                return dict(op='new', v=rng.choice(names), kind=rng.choice(['fn', 'fn2', 'value']))
            if r < .5:
                return dict(op='use', v=rng.choice(names), a=rng.randrange(3))
            if r < .6:
                return dict(op=rng.choice(['disable', 'enable', 'clear']))
            if r < .7:
                return dict(op='get', v=rng.choice(names))
            return dict(op='info')

        return make


class OrdersRun(OpsRun):
    def setup(self):
        self.u = self.mods['user']
        self.kind = self.spec['setup']['kind']
        self.single = len(self.spec['threads']) == 1
        utils = self.utils = self.w.marsh.utils
        self.helper = getattr(self, 'setup_' + self.kind)
        self.helper(utils)

    def do(self, t, step):
        try:
            return getattr(self, 'do_' + self.kind)(t, t.ops[-1], step)
        except sched.Killed:
            raise
        except Exception as err:
            self.bad('raises', f'{step} raised {type(err).__name__}: {err}')
            return ['error', type(err).__name__]

    def judge(self):
        with sched.Solo(self.w.line_limit) as t:
            t.sched.stamp = self.sched.stamp
            t.idx = 99
            t.ops = []
            getattr(self, 'last_' + self.kind)(t)
        getattr(self, 'judge_' + self.kind)()

    # -- priority orders
    def setup_order(self, utils):
        self.order = utils.PriorityOrder()
        self.open = {}
        self.objs = {}
        for n in (0, 1, 2, 3, 4, 5, 77):
            for copy in range(3):
                self.value(n, copy)

    def value(self, n, copy=0):
        kind = self.spec['setup']['values']
        key = (n, copy)
        if key not in self.objs:
            if kind == 'V':
                self.objs[key] = self.u.V(n, copy, self.look)
            elif kind == 'str':
                self.objs[key] = chr(97 + n) * n
            elif kind == 'int':
                self.objs[key] = n
            else:
                # classes of one name as well
                self.objs[key] = self.u.make_type('T' if kind == 'twin' else f'T{n}')
        return self.objs[key]

    def label(self, v):
        """[n, copy] of a value, without a look at it."""
        for key, x in self.objs.items():
            if x is v:
                return list(key)
        if type(v) in (int, str):
            for key, x in self.objs.items():
                if type(x) is type(v) and x == v:
                    return list(key)
        return ['?', repr(type(v))]

    def look(self, what):
        op = sched.CUR.ops[-1] if sched.CUR is not None and sched.CUR.ops else None
        if op is None or 'boom' not in op.step:
            return
        op.x['looks'] += 1
        if op.x['looks'] == op.step['boom'] and op.x['armed']:
            self.stats['fault:' + what + ' of a value raises'] += 1
            op.x['fired'] = True
            raise (self.u.Stop if op.step.get('stop') else self.u.Boom)()

    def do_order(self, t, op, step):
        u = self.u
        kind = step['op']
        order = self.order
        op.x = dict(looks=0, armed=False, fired=False)
        try:
            if kind == 'add':
                kw = dict(priority=step['prio'])
                if step['replace']:
                    kw['replace'] = True
                for k in ('lower', 'higher'):
                    rel = list(step.get(k, ()))
                    if 'both' in step:
                        rel.append(step['both'])
                    if rel:
                        rel = [self.value(i) for i in rel]
                        form = step.get('form', 0)
                        if form == 4 or self.spec['setup']['values'] == 'int':
                            rel = [hash(x) for x in rel]
                        if len(rel) == 1 and form in (0, 4):
                            rel = rel[0]
                        elif form == 1:
                            rel = tuple(rel)
                        elif form == 2:
                            rel = dict.fromkeys(rel)
                        elif form == 3:
                            rel = iter(rel)
                        kw[k + '_priority'] = rel
                v = self.value(step['v'], step.get('copy', 0))
                op.x['armed'] = True
                got = order.add(**kw)(v) if step.get('decorator') else order.add(v, **kw)
                op.x['armed'] = False
                if got is not v:
                    return ['odd', repr(got)]
                return ['done']
            op.x['armed'] = True
            if kind == 'del':
                del order[slice(*step['sl']) if 'sl' in step else step['i']]
                return ['done']
            if kind == 'reload':
                order.reload()
                return ['done']
            if kind == 'list':
                return ['list', [self.label(v) for v in order]]
            if kind == 'get':
                return ['list', [self.label(order[step['i']])]]
            if kind == 'slice':
                part = order[slice(*step['sl'])]
                got = ['list', [self.label(v) for v in part]]
                if step['drop']:
                    # the part is another order
                    part.add(self.value(77))
                    del part[:]
                    if len(part):
                        return ['odd', len(part)]
                return got
            if kind == 'len':
                return ['len', len(order)]
            if kind == 'in':
                return ['in', self.value(step['v']) in order]
            if kind == 'next':
                key = (t.idx, step['k'])
                if key not in self.open:
                    self.open[key] = dict(it=iter(order), got=[], op=op, first=None)
                st = self.open[key]
                for _ in range(step['m']):
                    try:
                        v = next(st['it'])
                    except StopIteration:
                        st['first'] = st['first'] or op
                        del self.open[key]
                        op.x['whole'] = st
                        break
                    finally:
                        st['first'] = st['first'] or op
                    st['got'].append(self.label(v))
                return ['next', list(st['got'])]
            if kind == 'reversed':
                return ['list', [self.label(v) for v in reversed(order)]]
            if kind == 'index':
                return ['index', order.index(self.value(step['v']))]
            if kind == 'count':
                return ['index', order.count(self.value(step['v']))]
        except sched.Killed:
            raise
        except (u.Boom, u.Stop):
            return ['failed']
        except Exception as err:
            return ['error', type(err).__name__]
        raise AssertionError(kind)

    def last_order(self, t):
        self.step(t, 0, dict(op='list'))
        self.step(t, 1, dict(op='len'))
        self.step(t, 2, dict(op='reload'))
        self.step(t, 3, dict(op='list'))
        for key in sorted(self.open):
            st = self.open.pop(key)
            st['got'] += [self.label(v) for v in st['it']]
            op = st['first'] or st['op']
            if not op.x.get('whole'):
                op.x['whole'] = st

    @staticmethod
    def comes_before(a, b):
        if b['v'] in a['lower'] or a['v'] in b['higher']:
            return True
        if a['v'] in b['lower'] or b['v'] in a['higher']:
            return False
        if a['prio'] != b['prio']:
            return a['prio'] > b['prio']
        return a['seq'] > b['seq']

    def apply(self, state, clear, op, seq):
        """State, outcome after a write (all outcomes are possible if not clear)."""
        step = op.step
        if op.out == ['failed']:
            return state, clear, ['failed']
        if step['op'] == 'add':
            s = dict(v=step['v'], copy=step.get('copy', 0), prio=step['prio'], seq=seq,
                     lower=step.get('lower', ()), higher=step.get('higher', ()))
            if 'both' in step:
                return state, clear, ['error', 'ValueError']
            old = [x for x in state if x['v'] == s['v']]
            if old and not step['replace']:
                return state, clear, ['error', 'ValueError']
            items = [x for x in state if x['v'] != s['v']] + [s]
            wins = [sum(self.comes_before(a, b) for b in items if b is not a) for a in items]
            if sorted(wins) != list(range(len(items))):
                return state, False, None
            ranked = [x for _, x in sorted(zip(wins, items), key=lambda p: -p[0])]
            return ranked, clear, ['done']
        if step['op'] == 'del':
            new = list(state)
            try:
                del new[slice(*step['sl']) if 'sl' in step else step['i']]
            except IndexError:
                return state, clear, ['error', 'IndexError']
            return new, clear, ['done']
        return state, clear, ['done']

    def read(self, state, op):
        step = op.step
        kind = step['op']
        labels = [[x['v'], x['copy']] for x in state]
        if kind == 'list':
            return ['list', labels]
        if kind == 'get':
            try:
                return ['list', [labels[step['i']]]]
            except IndexError:
                return ['error', 'IndexError']
        if kind == 'slice':
            return ['list', labels[slice(*step['sl'])]]
        if kind == 'len':
            return ['len', len(labels)]
        where = [x['v'] for x in state]
        if kind == 'in':
            return ['in', step['v'] in where]
        if kind == 'reversed':
            return ['list', labels[::-1]]
        if kind == 'index':
            return ['index', where.index(step['v'])] if step['v'] in where else \
                ['error', 'ValueError']
        return ['index', where.count(step['v'])]

    def judge_order(self):
        writes = [op for op in self.hist if op.step['op'] in ('add', 'del', 'reload')]
        # those that fail change nothing
        real = [op for op in writes if op.out == ['done']]
        for op in writes:
            if op.out == ['failed'] and not op.x['fired']:
                self.bad('raises', f'{op}')
        worst = None
        k = 0
        for k, order in enumerate(itertools.islice(orders(real), 400)):
            bad = self.judge_one(order, writes)
            if bad is None:
                self.probes['orders of changes tried'] += k + 1
                return
            if worst is None or bad[0].s > worst[0].s:
                worst = bad
        if k >= 399:
            self.probes['too many orders to judge'] += 1
            return
        self.bad('order', f'{worst[0]}: {worst[1]}; changes: {real}')

    def judge_one(self, order, writes):
        states = [([], True)]
        for seq, op in enumerate(order):
            state, clear = states[-1]
            state, clear, out = self.apply(state, clear, op, seq)
            states.append((state, clear))
            if clear and out != op.out:
                return op, f'expected {out}'
            if not clear:
                self.probes['orders with a cycle'] += 1
        pos = {op.s: i for i, op in enumerate(order)}

        def window(s, e):
            lo = max([pos[r.s] + 1 for r in order if r.e < s], default=0)
            hi = min([pos[r.s] for r in order if r.s > e], default=len(order))
            return states[lo:hi + 1]

        for op in self.hist:
            if op in writes:
                if op.out in (['done'], ['failed']):
                    continue
                seen = window(op.s, op.e)
                ok = any(not clear or self.apply(state, clear, op, 1 << 40)[2] in (op.out, None)
                         for state, clear in seen)
                if not ok:
                    return op, 'expected another outcome'
                continue
            if op.step['op'] == 'next':
                st = op.x.get('whole')
                if st is None:
                    continue
                seen = window(st['op'].s, st['first'].e)
                if not any(not clear or st['got'] == [[x['v'], x['copy']] for x in state]
                           for state, clear in seen):
                    return op, f'an iteration gave {st["got"]}, expected one of ' + repr(
                        [[[x['v'], x['copy']] for x in state] for state, clear in seen])
                continue
            seen = window(op.s, op.e)
            if not any(not clear or self.fits(op, state) for state, clear in seen):
                return op, 'expected one of ' + repr([self.read(s, op) for s, c in seen])
        return None

    def fits(self, op, state):
        if op.out == ['failed']:
            return op.x['fired']
        return op.out == self.read(state, op)

    # -- singletons
    def setup_single(self, utils):
        self.classes = self.u.singletons(self.enter)
        self.failed = [0] * 4
        self.made = [[] for _ in range(4)]
        self.got = [[] for _ in range(4)]

    def enter(self, cls, obj):
        c = self.classes.index(cls)
        op = sched.CUR.ops[-1]
        op.x.append(c)
        inner = self.spec['setup']['inner'][c]
        if inner is not None:
            other = self.classes[inner]()
            if not isinstance(other, self.classes[inner]):
                self.bad('single', f'a call of class {inner} gave {other!r}')
            self.got[inner].append(other)
        if self.failed[c] < self.spec['setup']['fails'][c]:
            self.failed[c] += 1
            self.stats['fault:constructor raises'] += 1
            raise (self.u.Stop if op.step.get('stop') else self.u.Boom)(c)
        self.made[c].append(obj)

    def do_single(self, t, op, step):
        op.x = []
        c = step['c']
        before = list(self.failed)
        try:
            args = (step['a'],) if 'a' in step else ()
            got = self.classes[c](*args)
        except sched.Killed:
            raise
        except (self.u.Boom, self.u.Stop) as err:
            if not op.x:
                self.bad('single', f'{step}: raises the error of another call')
            op.x = None
            return ['failed', err.args[0]]
        op.x = None
        self.got[c].append(got)
        if type(got) is not self.classes[c]:
            self.bad('single', f'{step} gave a {type(got).__name__}')
        elif not getattr(got, 'ready', False):
            self.bad('single', f'{step} gave an instance that is being made')
        return ['done', repr(getattr(got, 'args', None))]

    def last_single(self, t):
        for c in range(4):
            for k in range(20):
                if self.step(t, f'{c}.{k}', dict(op='make', c=c)).out[0] == 'done':
                    break
            else:
                self.bad('single', f'class {c} cannot be made any more')

    def judge_single(self):
        for c in range(4):
            if len(self.made[c]) != 1:
                self.bad('single', f'class {c} was made {len(self.made[c])} times')
            if len({id(x) for x in self.got[c]}) != 1:
                self.bad('single', f'class {c} has several instances')
            done = [op for op in self.hist if op.step['c'] == c and op.out[0] == 'done']
            if len({op.out[1] for op in done}) > 1:
                self.bad('single', f'class {c}: {done}')
            fails = sum(op.out == ['failed', c] for op in self.hist)
            if fails > self.failed[c] + sum(self.failed):
                self.bad('single', f'class {c} failed {fails} times')

    # -- types
    def setup_types(self, utils):
        self.cache = utils.WeakTypeCache(skip_types=[int, str])
        self.types = [self.u.make_type(f'T{i}') for i in range(self.spec['setup']['n'])]

    def do_types(self, t, op, step):
        kind = step['op']
        if kind == 'add':
            self.cache.add(self.types[step['v']])
        elif kind == 'other':
            self.cache.add(eval(step['v'], self.u.__dict__))
        elif kind == 'clear':
            self.cache.clear()
        elif kind == 'in':
            return self.types[step['v']] in self.cache
        elif kind == 'len':
            return len(self.cache)
        elif kind == 'list':
            return [self.types.index(x) if x in self.types else repr(x) for x in self.cache]
        elif kind == 'drop':
            self.types[step['v']] = self.u.make_type(f'T{step["v"]}')
            gc.collect()
        return None

    def last_types(self, t):
        self.step(t, 0, dict(op='list'))

    def judge_types(self):
        writes = [op for op in self.hist if op.step['op'] in ('add', 'clear', 'drop')]
        for op in self.hist:
            if op.step['op'] == 'list':
                if len(set(op.out)) != len(op.out) or any(isinstance(x, str) for x in op.out):
                    self.bad('types', f'{op}')
                    continue
                seen = op.out
            elif op.step['op'] == 'in':
                seen = [op.step['v']] if op.out else []
            elif op.step['op'] == 'len':
                seen = None
            else:
                continue
            past = [w for w in writes if w.s < op.e]
            last = {}
            for v in range(self.spec['setup']['n']):
                mine = [w for w in past if w.step['op'] == 'clear' or w.step['v'] == v]
                if op.step['op'] == 'in' and v != op.step['v']:
                    continue
                if any(w.e > op.s for w in mine):
                    continue  # in the making
                top = [w for w in mine if not any(x.s > w.e for x in mine)]
                there = {w.step['op'] == 'add' for w in top} or {False}
                if there == {True}:
                    last[v] = top
                    if seen is not None and v not in seen:
                        self.bad('types', f'{op}: {v} is missing, added by {top}')
                elif there == {False} and seen is not None and v in seen:
                    self.bad('types', f'{op}: {v} is not there')
            if seen is None:
                if op.out != len(last):
                    self.bad('types', f'{op}: expected {sorted(last)}')
                continue
            at = {v: i for i, v in enumerate(seen)}
            for a in last:
                for b in last:
                    if a in at and b in at and min(w.s for w in last[a]) > \
                            max(w.e for w in last[b]) and at[a] > at[b]:
                        self.bad('types', f'{op}: {a} was added after {b}')

    # -- pools
    def setup_pool(self, utils):
        self.pool = utils.CachePool()

    def do_pool(self, t, op, step):
        kind = step['op']
        pool = self.pool
        if kind == 'new':
            if step['kind'] == 'fn':
                op.x = pool.new_callable_cache(self.u.plain, name=step['v'])
            elif step['kind'] == 'fn2':
                op.x = pool.new_callable_cache(name=step['v'], maxsize=2)(self.u.plain)
            else:
                op.x = pool.new_value_cache(step['v'])
            return None
        if kind in ('get', 'use'):
            try:
                op.x = pool[step['v']]
            except KeyError:
                return 'missing'
            if kind == 'use':
                if hasattr(op.x, '__setitem__'):
                    op.x[step['a']] = 1
                elif op.x(step['a']) != step['a']:
                    self.bad('pool', f'{op}')
            return None
        if kind == 'info':
            op.x = pool.cache_info()
            return sorted(op.x)
        getattr(pool, 'cache_' + kind)()
        return None

    def last_pool(self, t):
        self.step(t, 0, dict(op='info'))
        self.step(t, 1, dict(op='clear'))
        empty = self.step(t, 2, dict(op='info'))
        for name, info in empty.x.items():
            if info.currsize:
                self.bad('pool', f'{name} is not empty after it was cleared: {info}')
        if sorted(self.pool) != empty.out or len(self.pool) != len(empty.out):
            self.bad('pool', f'{sorted(self.pool)}, expected {empty.out}')

    def judge_pool(self):
        news = [op for op in self.hist if op.step['op'] == 'new']
        for op in self.hist:
            kind = op.step['op']
            if kind == 'info':
                must = {w.step['v'] for w in news if w.e < op.s}
                may = {w.step['v'] for w in news if w.s < op.e}
                if not must <= set(op.out) <= may:
                    self.bad('pool', f'{op}: expected {sorted(must)} to {sorted(may)}')
            elif kind in ('get', 'use'):
                mine = [w for w in news if w.step['v'] == op.step['v'] and w.s < op.e]
                if op.out == 'missing':
                    if any(w.e < op.s for w in mine):
                        self.bad('pool', f'{op}: was added before')
                    continue
                top = [w.x for w in mine if not any(x.s > w.e and x.e < op.s for x in mine)]
                if not any(op.x is x for x in top):
                    self.bad('pool', f'{op}: another cache')


def orders(writes):
    """Orders of the writes that respect which ended before which."""
    def extend(done, left):
        if not left:
            yield list(done)
            return
        for r in left:
            if not any(o.e < r.s for o in left if o is not r):
                yield from extend(done + [r], [o for o in left if o is not r])

    return extend([], writes)


Orders.Run = OrdersRun
