"""Registration of schemas under schedules and histories: C04."""
import itertools
import os

from . import core, sched
from .ops import Op, OpsRun, OpsWorld, random_schedule

SOURCE = '''
import dataclasses, typing
from typing import Dict, List, Optional, Tuple
import marsh

class P0:
    def __init__(self, x: int = 0):
        self.x = x

class P1:
    def __init__(self, x: int = 0):
        self.x = x

class P2(P0):
    pass

@dataclasses.dataclass
class D:
    a: P0
    b: P1

@dataclasses.dataclass
class E:
    d: D
    c: List[P2]

class Tag:
    def __init__(self, path, T):
        self.path = path
        self.T = T

def make_schema(name, classes):
    class S(marsh.schema.UnmarshalSchema):
        @classmethod
        def match(cls, value):
            found = value in classes
            return found
        def unmarshal(self, element):
            tag = Tag(name, self.value)
            return tag
    S.__name__ = S.__qualname__ = name
    return S

def make_wrapper(name, classes):
    class W(marsh.schema.core.unmarshal.WrapperUnmarshalSchema):
        @classmethod
        def match(cls, value):
            found = value in classes
            return found
        def unmarshal(self, element):
            inner = self.schema.unmarshal(element)
            if not isinstance(inner, Tag):
                inner = Tag('B', type(inner))
            return Tag(name + '>' + inner.path, inner.T)
    W.__name__ = W.__qualname__ = name
    return W

def make_marshal(name, classes):
    class M(marsh.schema.MarshalSchema):
        @classmethod
        def match(cls, value):
            found = type(value) in classes
            return found
        def marshal(self):
            return name
    M.__name__ = M.__qualname__ = name
    return M

def make_config(name, exts, log):
    class C(marsh.config.ConfigSchema):
        @classmethod
        def match(cls, value):
            ext = marsh.config.get_ext(value)
            return ext in exts
        def load(self):
            return {'tag': name}
        def dump(self, element):
            log(name)
    C.__name__ = C.__qualname__ = name
    return C
'''

P = ['P0', 'P1', 'P2']
EXT = ['.x0', '.x1', '.json']
# type -> element, parts
TYPES = {
    'P0': ("{'x': 1}", ['P0']),
    'P1': ("{'x': 1}", ['P1']),
    'P2': ("{'x': 1}", ['P2']),
    'List[P0]': ("[{'x': 1}, {'x': 2}]", ['P0', 'P0']),
    'Dict[str, P1]': ("{'k': {'x': 1}}", ['P1']),
    'Tuple[P0, P1]': ("[{'x': 1}, {'x': 2}]", ['P0', 'P1']),
    'D': ("{'a': {'x': 1}, 'b': {'x': 2}}", ['P0', 'P1']),
    'E': ("{'d': {'a': {}, 'b': {}}, 'c': [{}]}", ['P0', 'P1', 'P2']),
    'Dict[str, D]': ("{'k': {'a': {}, 'b': {}}}", ['P0', 'P1']),
    'List[List[P2]]': ('[[{}]]', ['P2']),
}
VALUES = {
    'P0()': ['P0'], 'P1()': ['P1'], 'P2()': ['P2'], '[P0(), P1()]': ['P0', 'P1'],
    "{'a': P2()}": ['P2'], 'D(P0(), P1())': ['P0', 'P1'], '[[P0()], (P0(),)]': ['P0', 'P0'],
}
FILES = {'f.x0': '.x0', 'g.x1': '.x1', 'h.json': '.json', 'f': '.x0', 'g': '.x1', 'h': '.json'}


class Registry(OpsWorld):
    runs = {'quick': 18000, 'thorough': 150000}
    source = SOURCE
    real = ('marsh (every module, unmodified)', 'real OS threads, released one at a time',
            'config files in a scratch directory')
    stub = ('locks created by marsh (simulated)',)
    assumptions = (
        'threads are preempted between source lines of marsh and of the registered schemas',
        'the order is judged when the stated priorities and relations allow only one',
    )
    rule = ('A case is 1-3 threads registering up to 10 unmarshal, marshal and config schemas '
            '(priorities, relations, replace, decorators) while converting values of plain and '
            'composite types and loading and writing files. Non-trivial: at least one '
            'registration and one use. Distinct by history and interleaving.')

    def gen(self, rng, index):
        family = rng.choice(['unmarshal', 'unmarshal', 'unmarshal', 'marshal', 'config'])
        nthreads = rng.choice([1, 2, 2, 2, 3])
        nschemas = rng.choice([1, 2, 3, 4])
        schemas = []
        for i in range(nschemas):
            if family == 'unmarshal':
                schemas.append(dict(id=f'{rng.choice("SSSW")}{i}',
                                    on=sorted(rng.sample(P, rng.choice([1, 1, 2, 3])))))
            elif family == 'marshal':
                schemas.append(dict(id=f'M{i}', on=sorted(rng.sample(P, rng.choice([1, 2, 3])))))
            else:
                schemas.append(dict(id=f'C{i}', on=sorted(rng.sample(EXT, rng.choice([1, 1, 2, 3])))))
        rank = list(range(nschemas))
        rng.shuffle(rank)
        prios = rng.choice([[0], [0], [0, 0, 1, 5, -1], [0, 1, 2, 3]])
        prel = rng.choice([0, .3, .6]) if prios == [0] or rng.random() < .3 else 0

        def use():
            if family == 'unmarshal':
                return dict(op='unmarshal', v=rng.choice(types))
            if family == 'marshal':
                return dict(op='marshal', v=rng.choice(types))
            r = rng.random()
            if r < .25:
                return dict(op='write', v=rng.choice([f for f in types if '.' in f] or ['f.x0']))
            return dict(op='load', v=rng.choice(types))

        pool = list({'unmarshal': TYPES, 'marshal': VALUES, 'config': FILES}[family])
        types = rng.sample(pool, rng.choice([1, 2, 3, 4]))

        def reg(i):
            s = dict(op='register', s=i, prio=rng.choice(prios), replace=rng.random() < .4,
                     how=rng.choice(['function', 'decorator', 'registry', 'registry decorator']))
            if rng.random() < .5:
                s['form'] = rng.randrange(4)
            others = [k for k in range(nschemas) if k != i]
            for k in others:
                if rng.random() < prel:
                    s.setdefault('lower' if rank[k] > rank[i] else 'higher', []).append(k)
            return s

        threads = [[] for _ in range(nthreads)]
        todo = [reg(i) for i in range(nschemas)]
        while rng.random() < .5 and len(todo) < 9:
            todo.append(reg(rng.randrange(nschemas)))
        rng.shuffle(todo)
        before = [use() for _ in range(rng.choice([0, 1, 1, 3]))]
        while todo and rng.random() < .35:
            before += [todo.pop()] + [use() for _ in range(rng.choice([0, 1]))]
        some = rng.randrange(nthreads)
        for s in todo:
            t = some if rng.random() < .5 else rng.randrange(nthreads)
            threads[t].append(s)
        for t in threads:
            for _ in range(rng.choice([1, 1, 2, 3])):
                x = use() if rng.random() < .9 else dict(op='list')
                t.insert(rng.randint(0, len(t)), x)
        return dict(setup=dict(family=family, schemas=schemas), threads=threads, before=before,
                    schedule=random_schedule(rng, 600))

    def is_nontrivial(self, run, s):
        return run.stats['register'] > 0 and len(run.hist) > run.stats['register']


class RegistryRun(OpsRun):
    def setup(self):
        u = self.u = self.mods['user']
        m = self.m = self.w.marsh
        self.family = self.spec['setup']['family']
        self.cls = []
        self.ids = []
        for s in self.spec['setup']['schemas']:
            kind = s['id'][0]
            if kind == 'C':
                c = u.make_config(s['id'], s['on'], self.wrote)
            else:
                make = {'S': u.make_schema, 'W': u.make_wrapper, 'M': u.make_marshal}[kind]
                c = make(s['id'], [getattr(u, x) for x in s['on']])
            sched.instrument_code(c.match.__func__.__code__, sched.LINES)
            self.cls.append(c)
            self.ids.append(s['id'])
        self.base = {'unmarshal': m.schema.UnmarshalSchema, 'marshal': m.schema.MarshalSchema,
                     'config': m.config.ConfigSchema}[self.family]
        if self.family == 'config':
            self.dir = self.scratch()
            for f in ('f.x0', 'g.x1', 'h.json'):
                with open(os.path.join(self.dir, f), 'w') as fp:
                    fp.write('{"tag": "B"}')

    def wrote(self, name):
        sched.CUR.ops[-1].x = name

    def do(self, t, step):
        op = t.ops[-1]
        kind = step['op']
        u, m = self.u, self.m
        try:
            if kind == 'register':
                c = self.cls[step['s']]
                kw = dict(priority=step['prio'], replace=step['replace'])
                for k in ('lower', 'higher'):
                    if k in step:
                        rel = [self.cls[i] for i in step[k]]
                        form = step.get('form', 0)
                        kw[k + '_priority'] = rel[0] if len(rel) == 1 and form < 3 else \
                            [rel, tuple(rel), set(rel), iter(rel)][form]
                how = step['how']
                if how == 'function':
                    m.schema.register(c, **kw)
                elif how == 'decorator':
                    m.schema.register(**kw)(c)
                elif how == 'registry':
                    self.base.registry.register(c, **kw)
                else:
                    self.base.registry.register(**kw)(c)
                return ['done']
            if kind == 'list':
                return ['list', [self.ids[self.cls.index(c)] for c in self.base.registry
                                 if c in self.cls]]
            if kind == 'unmarshal':
                el, parts = TYPES[step['v']]
                value = m.unmarshal(eval(step['v'], u.__dict__), eval(el))
                return ['parts', self.parts(value)]
            if kind == 'marshal':
                return ['parts', self.flat(m.marshal(eval(step['v'], u.__dict__)))]
            if kind == 'load':
                value = m.config.load(step['v'], root=self.dir)
                return ['parts', [value['tag']]]
            if kind == 'write':
                path = os.path.join(self.dir, f'w{t.idx}_{step["v"]}')
                op.x = 'B'
                m.config.write({'tag': 'B'}, path)
                return ['parts', [op.x]]
        except sched.Killed:
            raise
        except Exception as err:
            return ['error', type(err).__name__, str(err)[:300]]
        raise AssertionError(kind)

    def parts(self, v):
        u = self.u
        if isinstance(v, u.Tag):
            return [v.path]
        if isinstance(v, (u.P0, u.P1)):
            return ['B']
        if isinstance(v, u.D):
            return self.parts(v.a) + self.parts(v.b)
        if isinstance(v, u.E):
            return self.parts(v.d) + self.parts(v.c)
        if isinstance(v, dict):
            v = list(v.values())
        return [x for y in v for x in self.parts(y)]

    def flat(self, v):
        if isinstance(v, str):
            return [v]
        if isinstance(v, dict):
            v = list(v.values())
        return [x for y in v for x in self.flat(y)]

    # -- oracle
    def before(self, a, b):
        """Does registration a come before registration b (a, b: (seq, op))?"""
        (ia, oa), (ib, ob) = a, b
        sa, sb = oa.step, ob.step
        if sb['s'] in sa.get('lower', ()) or sa['s'] in sb.get('higher', ()):
            return True
        if sa['s'] in sb.get('lower', ()) or sb['s'] in sa.get('higher', ()):
            return False
        if sa['prio'] != sb['prio']:
            return sa['prio'] > sb['prio']
        return ia > ib

    def states(self, order):
        """Registered schemas in order after each prefix; None where the rules
        do not decide."""
        regs = {}  # schema -> (seq, op)
        # the schemas of marsh itself; those of config files have priority 0
        for i, prio in enumerate([0] if self.family == 'config' else [-10, 0, 5, 10]):
            regs[-1 - i] = (-1, Op(-2, 0, dict(op='register', s=-1, prio=prio), -2))
        out = [(list(x[1] for x in regs.values()), True)]
        outcomes = {}
        clear = True
        for seq, op in enumerate(order):
            s = op.step['s']
            fresh = s not in regs or op.step['replace']
            outcomes[op.s] = 'done' if fresh else 'ValueError'
            regs[s] = (seq, op)
            items = list(regs.values())
            wins = [sum(self.before(a, b) for b in items if b is not a) for a in items]
            if sorted(wins) != list(range(len(items))):
                clear = False  # a cycle, and what follows may depend on how it was broken
            ranked = [x for _, x in sorted(zip(wins, items), key=lambda p: -p[0])]
            out.append(([x[1] for x in ranked], clear))
        return out, outcomes

    def name(self, op):
        return self.ids[op.step['s']] if op.step['s'] >= 0 else 'B'

    def mine(self, ranked):
        return [self.name(op) for op in ranked if op.step['s'] >= 0]

    def winner(self, state, part):
        """Set of what part may be converted to in this state."""
        ranked, clear = state
        on = self.spec['setup']['schemas']
        cands = [op for op in ranked if (
            part == '.json' if op.step['s'] < 0 else part in on[op.step['s']]['on'])]
        base = {'unmarshal': 'B', 'marshal': 'ERR', 'config': 'B' if part == '.json' else 'ERR'}[
            self.family]
        names = [self.name(op) for op in cands]
        if not clear:
            return None, set(names) | {base}
        path = []
        for name in names:
            path.append(name)
            if name[0] != 'W':
                return '>'.join(path), None
        path.append(base)
        if base == 'ERR':
            return 'ERR', None
        return '>'.join(path), None

    def fits(self, got, state, part):
        exact, some = self.winner(state, part)
        if exact is not None:
            return got == exact
        if got == 'ERR':
            return 'ERR' in some
        return all(x in some for x in got.split('>')) and \
            len(set(got.split('>'))) == len(got.split('>'))

    def judge_order(self, order):
        """First operation that does not fit this order of registrations."""
        states, outcomes = self.states(order)
        pos = {op.s: i for i, op in enumerate(order)}
        for op in self.hist:
            kind = op.step['op']
            if kind == 'register':
                if op.out[0] == 'done':
                    if outcomes[op.s] != 'done':
                        return op, 'expected ValueError'
                elif op.step['replace'] or not any(
                        r.s < op.e and r.step['s'] == op.step['s'] for r in self.regs):
                    return op, 'expected to succeed'
                continue
            lo = max([pos[r.s] + 1 for r in self.regs if r.e < op.s], default=0)
            hi = min([pos[r.s] for r in self.regs if r.s > op.e], default=len(order))
            window = states[lo:hi + 1]
            if kind == 'list':
                if op.out[0] != 'list':
                    return op, 'expected a list'
                ok = any(sorted(op.out[1]) == sorted(self.mine(ranked))
                         and (not clear
                              or op.out[1] == self.mine(ranked))
                         for ranked, clear in window)
                if not ok:
                    return op, 'expected one of ' + repr(
                        [self.mine(r) for r, c in window])
                continue
            if kind == 'unmarshal':
                want = TYPES[op.step['v']][1]
            elif kind == 'marshal':
                want = VALUES[op.step['v']]
            else:
                want = [FILES[op.step['v']]]
            if op.out[0] == 'error':
                ok = any(self.fits('ERR', st, p) for st in window for p in want) and \
                    op.out[1] in ('MarshalError', 'ConfigFileError', 'UnmarshalError')
            else:
                ok = len(op.out[1]) == len(want) and all(
                    any(self.fits(got, st, p) for st in window)
                    for got, p in zip(op.out[1], want))
            if not ok:
                return op, 'expected of ' + '; '.join(
                    f'{p}: {[self.winner(st, p) for st in window]}' for p in want)
        return None

    def orders(self):
        """Orders of the registrations that respect which ended before which."""
        regs = self.regs

        def extend(done, left):
            if not left:
                yield list(done)
                return
            for r in left:
                if not any(o.e < r.s for o in left if o is not r):
                    yield from extend(done + [r], [o for o in left if o is not r])

        return extend([], regs)

    def probe_all(self):
        """Nobody else is running: every type is looked at once more."""
        uses = {'unmarshal': [dict(op='unmarshal', v=x) for x in ('P0', 'P1', 'P2', 'E')],
                'marshal': [dict(op='marshal', v=x) for x in ('P0()', 'P1()', 'P2()')],
                'config': [dict(op='load', v=x) for x in ('f.x0', 'g.x1', 'h.json', 'g')]}
        with sched.Solo(self.w.line_limit) as t:
            t.sched.stamp = self.sched.stamp
            t.idx = 99
            t.ops = []
            for i, step in enumerate(uses[self.family] + [dict(op='list')]):
                self.step(t, i, step)

    def judge(self):
        self.probe_all()
        # those that fail change nothing
        self.regs = [op for op in self.hist
                     if op.step['op'] == 'register' and op.out[0] == 'done']
        for op in self.hist:
            if op.out[0] == 'error' and op.out[1] not in (
                    'ValueError', 'MarshalError', 'UnmarshalError', 'ConfigFileError'):
                self.bad('raises', f'{op}')
                return
        worst = None
        for k, order in enumerate(itertools.islice(self.orders(), 300)):
            bad = self.judge_order(order)
            if bad is None:
                self.probes['orders of registrations tried'] += k + 1
                return
            if worst is None or bad[0].s > worst[0].s:
                worst = bad
        if k >= 299:
            self.probes['too many orders to judge'] += 1
            return
        self.bad('order', f'{worst[0]}: {worst[1]}; registrations: {self.regs}')


Registry.Run = RegistryRun
