"""The same program in processes that differ in what should not matter: C16.

Several processes are started with hash seeds, memory layouts, clocks and
listing orders of their own. Each gets the same program; what they give is
compared in full, order and texts included.
"""
import collections
import copy
import json
import os
import random
import re
import sys

from . import clock, conv, core, hand, ops, sched, univ, w_entry, w_fs, w_ns, w_reg
from .core import digest
from .describe import describe, error

POOL = {'quick': 60, 'thorough': 900}
VARIANTS = {'quick': 5, 'thorough': 8}
EPOCHS = [0, 86_399_999_999_999, 951_782_400_000_000_000, 1_600_000_000_123_456_789,
          1_735_689_599_999_999_999, 4_102_444_800_000_000_000, 1_709_164_800_500_000_000,
          1_300_000_000_000_000_000]


def plain(v):
    """As JSON, which is how it travels."""
    return json.loads(json.dumps(v, default=lambda x: describe(x)))


class Reproducible(core.World):
    clock = True
    runs = {'quick': 4000, 'thorough': 200000}
    rule = ('A case is a program (conversions over random and hand-written types, element and parser '
            'calls, entry points with their help, config writes, loads, lookups and views of '
            'directories, histories of registrations and namespaces) executed by processes with '
            'different hash seeds, memory layouts, clocks and listing orders. Non-trivial: at least '
            'one outcome. Distinct by program and outcomes.')
    real = ('all of marsh', 'the dependencies', 'one Python process for each hash seed and memory '
            'layout', 'files in a scratch directory')
    stub = ('the real-time clock', 'directory listing orders')
    assumptions = ('programs contain no sets and no relative date texts',)

    def __init__(self):
        super().__init__()
        self.inner = {}
        for name, (world, run) in INNER.items():
            w = self.inner[name] = world()
            w.id = 'C16'

    def template(self):
        conv.template()
        self.marsh = conv.marsh
        for w in self.inner.values():
            w.marsh = conv.marsh

    def variants(self, spec=None):
        if spec is not None:
            return spec['variants']
        rng = core.rng_for(core.SEED, 'C16', 'variants')
        out = [dict(hash=0, pad=0, time=EPOCHS[3], order=0)]
        while len(out) < VARIANTS[core.TIER]:
            out.append(dict(hash=rng.randrange(1, 1 << 32), pad=rng.randrange(1, 1 << 30),
                            time=EPOCHS[len(out) % len(EPOCHS)] + rng.randrange(10 ** 12),
                            order=rng.getrandbits(30)))
        return out

    # -- programs
    def gen(self, rng, index):
        r = rng.random()
        kind = next(k for k, p in KINDS if r < p)
        spec = dict(kind=kind, variants=self.variants(), use=list(range(VARIANTS[core.TIER])))
        spec.update(getattr(self, 'gen_' + kind)(rng))
        return spec

    def universe(self, i):
        rng = random.Random(core.derive(core.SEED, 'C16', 'universe', i))
        u = univ.random_universe(rng.getrandbits(60), f'u{i}', 24, plain=rng.random() < .2,
                                 refs=rng.random() < .3, sets=False)
        return f'u{i}', u.source, u.calls

    def gen_conv(self, rng):
        universes, calls = {}, []
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < .35:
                name = rng.choice(['hand_types', 'hand_names', 'hand_more', 'hand_more'])
                src, cs = (MORE, more_calls()) if name == 'hand_more' else hand.universes()[name]
            else:
                name, src, cs = self.universe(rng.randrange(POOL[core.TIER]))
            universes[name] = src
            calls += rng.sample(cs, min(len(cs), rng.choice([3, 6, 12])))
        rng.shuffle(calls)
        spec = dict(universes=universes)
        # texts of random universes may be taken for relative dates
        still = any(n[0] == 'u' and re.search(r'datetime\.(datetime|date|time)\b', src)
                    for n, src in [*universes.items(), *((c['u'], c['t']) for c in calls)])
        # without those that take too long
        calls = [c for c in calls if not conv.alone(self, spec, c)['problem']]
        return dict(universes=universes, still=still, steps=[dict(call=c) for c in calls])

    def gen_elements(self, rng):
        return dict(steps=[gen_element_step(rng) for _ in range(rng.choice([2, 5, 10]))])

    def gen_inner(self, rng, name):
        spec = self.inner[name].gen(rng, 0)
        return dict(inner=spec)

    def gen_entry(self, rng):
        out = self.gen_inner(rng, 'entry')
        out['inner']['plan'] = {'p': {}}
        for s in out['inner']['steps']:
            if s.get('output') is None or '%' in s['output']:
                s.pop('output', None)
            s.pop('inside', None)
            if rng.random() < .45:
                s['extra'] = rng.choice([
                    ['--help'], ['--help'], ['-h', 'a'], ['-h', 'd.e'], ['-h', 'zz.'], ['-h', 'd'],
                    ['-h', 'e'], ['-h', 'k'], ['-h', 'b.c'], ['--nonsense'], ['aa=1', 'bb=2'],
                    ['zz=1', 'yy=2', 'xx=3'], ['-h', 'aa'], ['-h', 'n.m'], ['=@'], ['a=@nope']])
            if rng.random() < .3:
                s['config_out'] = rng.choice(['-', 'o.json', 'o.yaml', None])
        return out

    def gen_write(self, rng):
        return self.calm(self.gen_inner(rng, 'write'))

    def gen_load(self, rng):
        return self.calm(self.gen_inner(rng, 'load'))

    def gen_find(self, rng):
        return self.calm(self.gen_inner(rng, 'find'))

    def gen_names(self, rng):
        return self.serial(rng, self.gen_inner(rng, 'names'))

    def gen_registry(self, rng):
        return self.serial(rng, self.gen_inner(rng, 'registry'))

    @staticmethod
    def calm(out):
        out['inner']['plan'] = {'p': {}}
        return out

    @staticmethod
    def serial(rng, out):
        inner = out['inner']
        steps = [s for t in inner['threads'] for s in t]
        inner['threads'] = [steps]
        inner['schedule'] = dict(mode='serial')
        return out

    def shrinks(self, spec):
        use = spec['use']
        if len(use) > 2:
            for a in use:
                for b in use:
                    if a < b:
                        yield dict(spec, use=[a, b])
        if 'inner' in spec:
            for cand in self.inner[spec['kind']].shrinks(spec['inner']):
                yield dict(spec, inner=cand)
        else:
            for cand in core.drop_chunks(spec['steps']):
                if cand:
                    yield dict(spec, steps=cand)
            used = {s['call']['u'] for s in spec['steps'] if 'call' in s}
            if spec.get('universes') and set(spec['universes']) - used:
                yield dict(spec, universes={k: v for k, v in spec['universes'].items() if k in used})

    # -- comparison
    def execute(self, spec):
        got = []
        for i in spec['use']:
            kind, value = core.Zygote.variants[i].call('run', [spec, spec['variants'][i]], self.timeout)
            if kind != 'ok':
                raise core.HarnessError(f'run {kind} in {spec["variants"][i]}:\n{value}')
            got.append(value)
        first = got[0]
        viol = []
        for i, other in zip(spec['use'][1:], got[1:]):
            for k, (a, b) in enumerate(zip(first['outs'], other['outs'])):
                if a != b:
                    viol.append({'class': 'differs', 'msg': self.difference(spec, k, a, b, i)})
                    break
            else:
                if len(first['outs']) != len(other['outs']):
                    viol.append({'class': 'differs', 'msg': f'{spec["kind"]}: {len(first["outs"])} and '
                                 f'{len(other["outs"])} outcomes'})
            if viol:
                break
        stats = collections.Counter(first['stats'])
        stats['programs: ' + spec['kind']] += 1
        stats['outcomes compared'] += len(first['outs']) * (len(got) - 1)
        stats['fault:another hash seed and memory layout'] += len(got) - 1
        stats['fault:another clock'] += len(got) - 1
        if spec['kind'] in ('find', 'load', 'entry'):
            stats['fault:another listing order'] += len(got) - 1
        program = {k: v for k, v in spec.items() if k not in ('variants', 'use')}
        return core.result(
            viol=viol, digest_=digest([program, first['outs']]), nontrivial=bool(first['outs']),
            stats=stats, note=digest(program), sim_s=0.0)

    def difference(self, spec, k, a, b, i):
        ta, tb = json.dumps(a, ensure_ascii=False), json.dumps(b, ensure_ascii=False)
        at = next((n for n, (x, y) in enumerate(zip(ta, tb)) if x != y), min(len(ta), len(tb)))
        lo = max(0, at - 200)
        v = spec['variants']
        what = spec['steps'][k] if 'steps' in spec and k < len(spec['steps']) else spec['kind']
        return (f'outcome {k} of {what}: with {v[spec["use"][0]]} ...{ta[lo:at + 200]}... but with '
                f'{v[i]} ...{tb[lo:at + 200]}...')

    # -- in the processes
    def run(self, spec, variant):
        rng = random.Random(variant['pad'])
        # objects made from here on are in other places as well
        garbage = [bytearray(rng.randrange(16, 1500)) for _ in range(variant['pad'] % 97)]
        clock.set_clock([EPOCHS[3] if spec.get('still') else variant['time']], 0)
        try:
            outs, stats = getattr(self, 'run_' + spec['kind'], self.run_inner)(spec, variant)
        finally:
            clock.off()
        del garbage
        return dict(outs=plain(outs), stats=dict(stats))

    def run_conv(self, spec, variant):
        mods = conv.load_universes(spec['universes'])
        outs = []
        for s in spec['steps']:
            p = conv.Prepared(s['call'], mods)
            p.build()
            outs.append(conv.perform(p))
        return outs, collections.Counter(calls=len(outs))

    def run_elements(self, spec, variant):
        outs = [element_step(self.marsh, s) for s in spec['steps']]
        return outs, collections.Counter(calls=len(outs))

    def run_inner(self, spec, variant):
        inner = copy.deepcopy(spec['inner'])
        name = spec['kind']
        w = self.inner[name]
        if 'plan' in inner:
            inner['plan'] = dict(inner['plan'], order=variant['order'])
            if 'explicit' not in inner['plan']:
                inner['plan']['seed'] = 0
        for s in inner.get('steps', ()):
            if 'clock' in s:
                s['clock'] = [variant['time']]
        if hasattr(w, 'source') and name in ('names', 'registry'):
            run = INNER[name][1](w, inner, None)
            run.go()
            outs = [[op.step, describe(op.out)] for op in run.hist]
            if run.dir_:
                outs = json.loads(json.dumps(plain(outs)).replace(run.dir_, '<dir>'))
        else:
            run = INNER[name][1](w, inner)
            run.outs = []
            run.go()
            outs = json.loads(json.dumps(plain(run.outs)).replace(run.root, '<root>'))
        return outs, collections.Counter(run.stats)


# --------------------------------------------------------------------------
# inner programs


class Recorded:
    """A run that only records what it gives."""

    def call(self, i, fn, calm=False):
        out = super().call(i, fn, calm)
        self.outs.append(describe([out]))
        return out

    def bad(self, cls, msg):
        pass

    def finish(self):
        if hasattr(self, 'console'):
            sys.stdout.flush()
            self.outs.append(repr(self.clean(self.console.getvalue().decode('utf-8', 'replace'))))
        super().finish()
        for at, dirs, names in os.walk(self.root):
            dirs.sort()
            for n in sorted(names):
                path = os.path.join(at, n)
                with open(path, 'rb') as fp:
                    self.outs.append([os.path.relpath(path, self.root),
                                      repr(self.clean(fp.read().decode('utf-8', 'replace')))])


class WriteRun(Recorded, w_fs.WriteRun):
    pass


class LoadRun(Recorded, w_fs.LoadRun):
    pass


class FindRun(Recorded, w_fs.DiscoveryRun):
    pass


class EntryRun(Recorded, w_entry.EntryRun):
    def perform(self, i, s, calm=False):
        out, text = super().perform(i, s, calm)
        self.outs.append([text, [[n, describe(a), self.clean(d)] for n, a, d in self.calls],
                          error(self.error) if self.error is not None else None])
        return out, text

    def step(self, i, s):
        self.s = s
        self.perform(i, s)


INNER = {
    'write': (w_fs.Write, WriteRun),
    'load': (w_fs.Load, LoadRun),
    'find': (w_fs.Discovery, FindRun),
    'entry': (w_entry.EntryCalls, EntryRun),
    'names': (w_ns.Namespaces, w_ns.NamespacesRun),
    'registry': (w_reg.Registry, w_reg.RegistryRun),
}

KINDS = [('conv', .30), ('elements', .45), ('entry', .63), ('write', .70), ('load', .78),
         ('find', .86), ('names', .93), ('registry', 1.1)]


# --------------------------------------------------------------------------
# elements

KEYS = ['a', 'b', 'c', 'd', 'alpha', 'beta', 'gamma', 'x', 'y', 'zeta', 'name', 'value', '_meta_']


def gen_element(rng, depth=3):
    r = rng.random()
    if depth and r < .55:
        return {k: gen_element(rng, depth - 1) for k in rng.sample(KEYS, rng.choice([1, 2, 4, 7]))}
    if depth and r < .7:
        return [gen_element(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))]
    return rng.choice([1, 2.5, True, None, 'w', 'two words', '${a}', '${b}', '${alpha.x}', '1', ''])


def gen_path(rng):
    return '.'.join(rng.choice(KEYS + ['0', '1', '-1']) for _ in range(rng.choice([1, 1, 2, 3])))


def gen_text(rng, depth=2):
    r = rng.random()
    if depth and r < .4:
        return '{' + ', '.join(f'{k}: {gen_text(rng, depth - 1)}'
                               for k in rng.sample(KEYS, rng.choice([0, 1, 3, 6]))) + '}'
    if depth and r < .6:
        return '[' + ', '.join(gen_text(rng, depth - 1) for _ in range(rng.choice([0, 1, 3]))) + ']'
    return rng.choice(['1', 'x', '"a b"', 'null', 'true', '-2.5', '', '[', '}', '${a}', "'"])


def gen_element_step(rng):
    op = rng.choice(['merge', 'merge', 'merge', 'override', 'override', 'remove', 'select', 'resolve',
                     'standardize', 'parse', 'write', 'closest', 'unmarshal'])
    s = dict(op=op, v=gen_element(rng, 3))
    if op == 'merge':
        s['more'] = [gen_element(rng, 3) for _ in range(rng.choice([1, 1, 2, 3]))]
        s['cat'] = rng.random() < .5
        if rng.random() < .5:
            s['v'] = {k: gen_element(rng, 2) for k in rng.sample(KEYS, 6)}
            s['more'][0] = {k: gen_element(rng, 2) for k in rng.sample(KEYS, 6)}
    elif op == 'override':
        s.update(path=gen_path(rng), x=gen_element(rng, 2), combine=rng.random() < .5)
    elif op in ('remove', 'select'):
        s['path'] = gen_path(rng)
    elif op == 'parse':
        s['text'] = gen_path(rng) + rng.choice(['=', '=', '+=', '@', '=@', '']) + gen_text(rng)
    elif op == 'closest':
        s['v'] = rng.choice(['ab', 'alpa', 'bet', 'gama', 'zzz', 'x', 'nam', 'valeu'])
        s['names'] = rng.sample(KEYS + ['abc', 'abd', 'aba', 'bad', 'names', 'values'], 8)
    elif op == 'unmarshal':
        s['T'] = rng.choice(['Dict[str, int]', 'Dict[str, Dict[str, str]]', 'Any', 'List[int]',
                             'Union[Dict[str, int], List[str]]', 'Dict[str, Union[int, str]]'])
    return s


def element_step(m, s):
    import typing
    v, op = s['v'], s['op']
    e = m.element
    try:
        if op == 'merge':
            out = e.merge(v, *s['more'], concatenate=s['cat'])
        elif op == 'override':
            out = e.override(v, s['x'], s['path'], s['combine'])
        elif op == 'remove':
            out = e.remove(v, s['path'])
        elif op == 'select':
            out = e.select(v, s['path'])
        elif op == 'resolve':
            out = e.resolve(v)
        elif op == 'standardize':
            out = [e.standardize(v), m.marshal(v), e.has_missing(v)]
        elif op == 'parse':
            out = m.parse.override(s['text'])
        elif op == 'write':
            out = [w_fs.json.dumps(v), m.marshal(collections.UserDict(v) if isinstance(v, dict) else v)]
        elif op == 'closest':
            out = [m.utils.get_closest(v, s['names']), m.utils.get_closest_error_message(v, s['names'])]
        else:
            out = m.unmarshal(eval(s['T'], vars(typing).copy()), v)
        return ['value', describe(out)]
    except Exception as err:
        return error(err)


# --------------------------------------------------------------------------
# types with much in them whose order shows

MORE = univ.PRELUDE + '''
from typing_extensions import Required, NotRequired


class Wide(TypedDict, total=False):
    """Wide.

    Attributes:
        alpha: The first.
        omega: The last.
    """
    alpha: int
    beta: str
    gamma: float
    delta: List[int]
    epsilon: bool
    zeta: Dict[str, int]
    omega: Any


class Half_(TypedDict):
    one: int
    two: str
    three: NotRequired[int]
    four: NotRequired[str]
    five: float


class Wider(Wide):
    more: int
    less: str
    evenmore: float


class Need(TypedDict):
    north: int
    east: int
    south: int
    west: int
    up: int


class First(Protocol):
    def first(self) -> int: ...


class Second(Protocol):
    def second(self) -> int: ...


@dataclasses.dataclass
class One:
    a: int = 1

    def first(self) -> int:
        return 1


@dataclasses.dataclass
class Two:
    b: str = ''

    def first(self) -> int:
        return 2

    def second(self) -> int:
        return 2


class Three:
    def __init__(self, c: float = .5):
        self.c = c

    def first(self) -> int:
        return 3


class Four(Two):
    pass


@runtime_checkable
class RFirst(Protocol):
    def first(self) -> int: ...


class Hue(enum.Enum):
    RED = 1
    ORANGE = 2
    YELLOW = 'y'
    GREEN = 'g'
    BLUE = None
    INDIGO = 3.5


class Base_:
    pass


_b = marsh.namespaces.new(__name__ + '_b', Base_)
_c = marsh.namespaces.new(__name__ + '_c', Base_)


@_b.register(name='one')
class B1(Base_):
    def __init__(self, x: int):
        self.x = x


@_b.register(name='two')
class B2(B1):
    pass


@_c.register(name='three')
class B3(Base_):
    def __init__(self, y: int, x: int = 2):
        self.y = y
        self.x = x


@_c.register(name='four')
class B4(B3):
    pass


@_b.register(name='five')
class B5(B3):
    pass


def many(alpha: int, beta: str, gamma: float, delta: List[int], epsilon: bool = True, *rest: int,
         zeta: Optional[Wide] = None, eta: int, theta: Hue = Hue.RED, **others: Union[int, str]):
    """Many.

    Arguments:
        alpha: The first.
        eta: Not the last.
    """
    return [alpha, beta, gamma, delta, epsilon, rest, zeta, eta, theta, others]


class Slots:
    __slots__ = ('a', 'b', 'c', 'd')

    def __init__(self, a: int = 1, b: int = 2, c: int = 3, d: int = 4):
        self.a, self.b, self.c, self.d = a, b, c, d
'''


def more_calls():
    u = 'hand_more'
    t = [
        ('unmarshal', 'Wide', "{'omega': 1, 'alpha': 2, 'zeta': {'q': 1, 'p': 2}, 'beta': 'x'}"),
        ('unmarshal', 'Wide', "{'omeg': 1, 'alhpa': 2, 'zeat': 3}"),
        ('unmarshal', 'Wide', "{'alpha': 'x', 'beta': 1, 'gamma': 'y', 'delta': 'z', 'epsilon': 'w'}"),
        ('unmarshal', 'Wide', "[1, 'x', 2.5, [3], True]"),
        ('unmarshal', 'Need', "{}"),
        ('unmarshal', 'Need', "{'up': 1}"),
        ('unmarshal', 'Need', "{'west': 1, 'up': 2, 'east': 3, 'south': 4, 'north': 5}"),
        ('unmarshal', 'Need', "{'west': 'a', 'up': 'b', 'east': 'c', 'south': 'd', 'north': 'e'}"),
        ('unmarshal', 'Need', "{'west': 1, 'up': 2, 'east': 3, 'south': 4, 'north': 5, 'a': 1, 'b': 2}"),
        ('unmarshal', 'Half_', "{'one': 1}"), ('unmarshal', 'Half_', "{'five': 1, 'two': 'x', 'one': 1, 'four': 'f'}"),
        ('unmarshal', 'Wider', "{'less': 'x', 'omega': 1, 'evenmore': 2, 'alpha': 4, 'more': 5}"),
        ('unmarshal', 'Wider', "{}"), ('doc', 'Wider', '2'), ('help', 'Wider', '2'), ('str', 'Wider'),
        ('doc', 'Wide', '3'), ('doc', 'Need', '2'), ('doc', 'Half_', '2'), ('help', 'Half_', '2'),
        ('help', 'Need', '2'), ('help', 'Wide', '3'), ('str', 'Wide'), ('str', 'Half_'),
        ('select', 'Wide', "'omega'"), ('select', 'Wide', "'omegq'"), ('select', 'Need', "'nort'"),
        ('unmarshal', 'First', "{}"), ('unmarshal', 'First', "{'b': 'x'}"), ('unmarshal', 'First', "{'c': 2}"),
        ('unmarshal', 'First', "{'a': 'x'}"), ('unmarshal', 'First', "[1, 2, 3]"),
        ('unmarshal', 'Second', "{'b': 'q'}"), ('unmarshal', 'Second', "3"),
        ('unmarshal', 'RFirst', "{}"), ('unmarshal', 'RFirst', "'x'"), ('unmarshal', 'RFirst', "{'zz': 1}"),
        ('doc', 'First', '3'), ('doc', 'RFirst', '2'), ('help', 'First', '2'), ('str', 'First'),
        ('unmarshal', 'Union[First, int]', "'q'"), ('unmarshal', 'List[First]', "[{'a': 1}, {'b': 2}, {'c': 3}]"),
        ('unmarshal', 'Type[First]', "'One'"),
        ('unmarshal', 'Hue', "'PURPLE'"), ('unmarshal', 'Hue', "'ORANG'"), ('unmarshal', 'Hue', "5"),
        ('doc', 'Hue', '1'), ('help', 'Hue', '1'), ('str', 'Hue'),
        ('unmarshal', 'Base_', "{'name': 'on'}"), ('unmarshal', 'Base_', "{'name': 'five', 'y': 1}"),
        ('unmarshal', 'Base_', "{'x': 1}"), ('unmarshal', 'Base_', "{'name': 'one'}"),
        ('unmarshal', 'Base_', "{'y': 1}"), ('unmarshal', 'B3', "{'y': 1}"), ('unmarshal', 'B1', "{'name': 'three'}"),
        ('doc', 'Base_', '2'), ('help', 'Base_', '3'), ('str', 'Base_'), ('doc', 'B3', '2'), ('str', 'B3'),
        ('marshal', 'None', "[B1(1), B2(2), B3(3), B4(4), B5(5)]"),
        ('select', 'Base_', "'five.y'"), ('select', 'Base_', "'fve'"),
        ('unmarshal_args', 'many', "{}"), ('unmarshal_args', 'many', "{'alpha': 1, 'q': 2, 'r': 3, 'eta': 4}"),
        ('unmarshal_args', 'many', "{'theta': 'RED', 'zz': 1, 'yy': 2, 'eta': 1, 'delta': [], 'gamma': 1, 'beta': 'x', 'alpha': 2, 'aa': 'k'}"),
        ('unmarshal_args', 'many', "[1, 'x', 2, [3], False, 4, 5]"),
        ('doc', 'many', '3'), ('help', 'many', '3'), ('str', 'many'), ('select', 'many', "'zeta.omeg'"),
        ('unmarshal', 'Literal["a", 1, None, True, "b", 2]', "'c'"),
        ('unmarshal', 'Union[int, List[str], Dict[str, int], None]', "{'a': 'x'}"),
        ('unmarshal', 'Union[Wide, Need, Half_]', "{'one': 1, 'alpha': 2}"),
        ('doc', 'Union[Wide, Need, Half_]', '2'), ('help', 'Union[Wide, Need, Half_]', '2'),
        ('str', 'Union[Wide, Need, Half_]'),
        ('marshal', 'None', "Slots(4, 3, 2, 1)"), ('marshal', 'None', "{'b': 1, 'a': {'d': Two(), 'c': One()}}"),
        ('rst', 'marsh.schema.UnmarshalSchema'), ('rst', 'marsh.schema.MarshalSchema'),
        ('fn', 'lambda: [type(x).__name__ if not isinstance(x, type) else x.__name__ for x in marsh.schema.UnmarshalSchema.registry]'),
        ('fn', 'lambda: [x.__name__ for x in marsh.schema.MarshalSchema.registry]'),
        ('fn', 'lambda: [x.__name__ for x in marsh.config.ConfigSchema.registry]'),
        ('fn', 'lambda: [list(_b), list(_c), list(marsh.namespaces)]'),
        ('fn', "lambda: marsh.element.merge({'q': 1, 'w': {'e': 1, 'r': 2}, 't': 3}, {'y': 1, 'w': {'u': 1}, 'i': 2, 'o': 3})"),
    ]
    return [univ_call(x, u) for x in t]


def univ_call(x, u):
    return dict(op=x[0], t=x[1], a=list(x[2:]), u=u)
