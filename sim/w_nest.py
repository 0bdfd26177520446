"""User code that uses marsh while it is called by marsh: C19."""
import random

from . import conv, core, hand, sched
from .w_conv import ASSUME, Conv, Run, random_schedule

INSIDE = ['clear all', 'clear schemas', 'clear registry', 'clear namespaces', 'clear one cache',
          'collect garbage', 'cache info']


# user code that marsh calls while it builds schemas; what it builds then is a part of them
BUILD = ('match', 'init of schema', '__hash__', '__eq__', '__instancecheck__', '__subclasscheck__')


def user_code(name):
    """Start of a function of the simulated user."""
    t = sched.CUR
    if t is None or sched.get_ident() != t.ident or not t.counting:
        return
    t.u += 1
    if t.on_user is not None:
        t.on_user(t, name in BUILD)


class Nested(Conv):
    runs = {'quick': 4000, 'thorough': 100000}
    use_data = 0
    rule = ('A case is 1-3 threads that make 1-4 conversions each, during which user code (constructors, '
            'annotations, default factories, custom schemas, containers, properties) makes further '
            'conversions, itself or in threads that it starts and waits for, clears caches or collects '
            'garbage. Non-trivial: at least one conversion made by user code. Distinct by calls, '
            'places and interleaving.')
    assumptions = ASSUME

    def template(self):
        conv.HOOK = user_code
        super().template()

    def pick_universe(self, rng):
        if rng.random() < .4:
            name = 'hand_hooks'
            src, calls = hooks()
            self._sources[name] = src
            return name, src, calls
        return super().pick_universe(rng)

    def gen(self, rng, index):
        spec = dict(universes={}, before=[], threads=[])
        us = [self.pick_universe(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
        if any(name == 'hand_hooks' for name, _, _ in us):  # its schemas would be listed by calls on others
            us = [x for x in us if x[0] == 'hand_hooks'][:1]
        for name, src, calls in us:
            spec['universes'][name] = src
        pool = []
        for _, _, calls in us:
            calls = [c for c in calls if c['op'] != 'fn'] or calls
            pool += self.some_calls(rng, calls, rng.randint(3, 7))
        some = [c for c in pool if self.alone_of(c)['u']] or pool
        spec['threads'] = [
            [self.step_of(rng, some, pool) for _ in range(rng.choice([1, 1, 2, 4]))]
            for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if rng.random() < .3:
            spec['before'] = [dict(call=c) for c in self.some_calls(rng, us[0][2], rng.randint(1, 3))]
        span = self.lines_of(spec, [s['call'] for s in self.steps_of(spec) if 'call' in s])
        spec['schedule'] = random_schedule(rng, span)
        return spec

    def step_of(self, rng, some, pool, depth=0):
        call = rng.choice(some)
        step = dict(call=call)
        u = self.alone_of(call)['u']
        if u:
            at = sorted(rng.sample(range(1, u + 1), min(u, rng.choice([1, 1, 1, 2, 3]))))
            step['inner'] = [
                [k, rng.choice(['call', 'call', 'thread']), self.inner_of(rng, call, some, pool, depth)]
                for k in at]
        return step

    def inner_of(self, rng, call, some, pool, depth):
        out = []
        for _ in range(rng.choice([1, 1, 2])):
            r = rng.random()
            if r < .15:
                out.append(dict(h=rng.choice(INSIDE), x=rng.randrange(1000)))
            elif r < .3 and depth < 2:
                out.append(self.step_of(rng, some, pool, depth + 1))
            elif r < .5:
                out.append(dict(call=call))  # the same once more
            else:
                out.append(dict(call=rng.choice(pool)))
        return out

    def steps_of(self, spec):
        def walk(steps):
            for step in steps:
                yield step
                for _, _, inner in step.get('inner', ()):
                    yield from walk(inner)
        yield from walk(spec.get('before', ()))
        for steps in spec['threads']:
            yield from walk(steps)

    def run(self, spec, oracle):
        return NestedRun(self, spec, oracle).go()

    def is_nontrivial(self, run, s):
        return any(k.startswith('fault:used') for k in run.stats)

    def shrinks(self, spec):
        yield from super().shrinks(spec)
        for i, steps in enumerate(spec['threads']):
            for cand in simpler(steps):
                threads = list(spec['threads'])
                threads[i] = cand
                yield dict(spec, threads=threads)


def simpler(steps):
    """The same steps with fewer steps inside of one of them."""
    for i, step in enumerate(steps):
        inner = step.get('inner') or []
        for cand in core.drop_chunks(inner):
            yield steps[:i] + [dict(step, inner=cand)] + steps[i + 1:]
        for j, (at, how, sub) in enumerate(inner):
            if how == 'thread':
                yield steps[:i] + [dict(step, inner=inner[:j] + [[at, 'call', sub]] + inner[j + 1:])] + steps[i + 1:]
            for cand in list(core.drop_chunks(sub)) + list(simpler(sub)):
                if cand:
                    yield (steps[:i] + [dict(step, inner=inner[:j] + [[at, how, cand]] + inner[j + 1:])]
                           + steps[i + 1:])


class NestedRun(Run):
    def step(self, t, i, step):
        if 'h' in step:
            return super().step(t, i, step)
        saved = (getattr(t, 'on_user', None), t.u, t.counting, t.label)
        inner = {at: (how, steps) for at, how, steps in step.get('inner', ())}

        def on_user(t, build):
            if t.u in inner:
                how, steps = inner[t.u]
                if build:
                    how = 'thread'
                self.within(t, f'{i}.{t.u}', how, steps)

        t.on_user = on_user if inner else None
        t.u = 0
        try:
            super().step(t, i, step)
        finally:
            t.on_user, t.u, t.counting, t.label = saved

    def before_call(self, t, p):
        t.counting = True

    def after_call(self, t, p, step, out, value):
        t.counting = False

    def within(self, t, where, how, steps):
        self.stats['fault:used within user code, ' + (
            'by itself' if how == 'call' else 'by a thread it waits for')] += 1
        left = t.limit - t.n
        saved = t.on_user, t.u, t.label
        try:
            if how == 'call' or t.idx < 0:
                for k, step in enumerate(steps):
                    self.step(t, f'{where}.{k}', step)
            else:
                def fn(other):
                    for k, step in enumerate(steps):
                        self.step(other, f'{where}.{k}', step)

                other = self.sched.spawn(fn)
                other.label = None
                self.sched.join(t, other)
        finally:
            t.on_user, t.u, t.label = saved
            t.counting = True
            t.sched.limit(t, max(left, 1000))


# --------------------------------------------------------------------------

HOOKS = hand.PRELUDE + '''
import collections, collections.abc
import marsh.schema.argument


class Loud(marsh.annotation.Annotation):
    def __init__(self, add=0):
        self.add = add

    def __call__(self, value):
        return value + self.add

    def __eq__(self, other):
        return isinstance(other, Loud) and self.add == other.add

    def __hash__(self):
        return hash(('loud', self.add))


class Early(marsh.annotation.PreAnnotation):
    def __call__(self, element):
        return element

    def __eq__(self, other):
        return isinstance(other, Early)

    def __hash__(self):
        return 7


class Meta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, x):
        return type.__subclasscheck__(cls, x)

    def __hash__(cls):
        return type.__hash__(cls)

    def __eq__(cls, other):
        return cls is other


class Node(metaclass=Meta):
    def __init__(self, a: Annotated[int, Loud(1)], b: 'Optional[Node]' = None, *more: 'Leaf'):
        self.a, self.b, self.more = a, b, more


def make_list():
    return [1]


@dataclasses.dataclass
class Leaf:
    """A leaf.

    Attributes:
        x: The x.
    """
    x: Annotated[int, Early(), Loud(2)] = 1
    y: List[int] = dataclasses.field(default_factory=make_list)
    z: 'Dict[str, Leaf]' = dataclasses.field(default_factory=lambda: {})

    def __post_init__(self):
        self.y = list(self.y)

    def __repr__(self):
        return f'Leaf({self.x})'


class Special:
    def __init__(self, n, of):
        self.n, self.of = n, of


@marsh.schema.register
class SpecialSchema(marsh.schema.UnmarshalSchema[Special]):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.leaf = marsh.schema.UnmarshalSchema(Leaf)

    @classmethod
    def match(cls, value):
        return isinstance(value, type) and issubclass(value, Special)

    @staticmethod
    def doc_static_type():
        return 'special'

    @staticmethod
    def doc_static_description():
        return 'Something special.'

    def doc_field_type(self):
        return f'special {self.leaf.doc_field_type()}'

    def doc_description(self):
        return 'Special.'

    def unmarshal(self, element):
        if element is marsh.MISSING:
            if self.has_default():
                return self.get_default()
            raise marsh.errors.MissingValueError(type=self.value)
        if marsh.utils.is_mapping(element):
            return self.value(1, self.leaf.unmarshal(element))
        return self.value(marsh.unmarshal(int, element), marsh.unmarshal(Leaf, {'x': element}))


class Very(Special):
    def __init__(self, n, of):
        super().__init__(n, of)
        self.very = True


@marsh.schema.register
class SpecialMarshal(marsh.schema.MarshalSchema):
    @classmethod
    def match(cls, value):
        return isinstance(value, Special)

    def marshal(self):
        return {'n': self.value.n, 'of': marsh.marshal(self.value.of)}


class Items(collections.abc.Sequence):
    def __init__(self, items=(1, 2)):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __iter__(self):
        return iter(self.items)


class Table(collections.abc.Mapping):
    def __init__(self, items=()):
        self.d = dict(items)

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        return iter(self.d)

    def __getitem__(self, k):
        return self.d[k]

    def keys(self):
        return list(self.d)


class OwnList(List[Annotated[int, Loud(3)]]):
    def __init__(self, *a):
        super().__init__(*a)
        self.n = len(self)


class OwnDict(Dict[str, Node]):
    def __init__(self, *a):
        super().__init__(*a)


class Pair(NamedTuple):
    a: Node
    b: Leaf


class Typed(TypedDict, total=False):
    a: Leaf
    b: Special


class Base(metaclass=Meta):
    def __init__(self, k: int = 0):
        self.k = k


class Impl(Base):
    def __init__(self, k: int = 0, leaf: Optional[Leaf] = None, very: Optional[Very] = None):
        self.k, self.leaf, self.very = k, leaf, very


class Other(Impl):
    def __init__(self, q: Node):
        self.q = q


_hooked = marsh.namespaces.new(__name__ + '_hooked', Base)
_hooked.register(Impl, name='impl')
_hooked.register(Other, name='other')


class Color(enum.Enum):
    RED = 1
    BLUE = 'b'

    @classmethod
    def _missing_(cls, value):
        return cls.RED if value == 'r' else None


def func(a: Node, b: Leaf = None, *c: Special, d: Annotated[str, Early()] = 'd', **e: OwnList):
    return [a, b, c, d, e]


class Deep:
    def __init__(self, base: Base, pairs: 'List[Pair]' = (), f: 'Optional[Deep]' = None,
                 color: Color = Color.RED):
        self.base, self.pairs, self.f, self.color = base, pairs, f, color


class Proto(Protocol):
    n: int

    def size(self) -> int: ...
'''


def hooks():
    if not CACHE:
        CACHE.append((HOOKS, hook_calls()))
    return CACHE[0]


CACHE = []


def hook_calls():
    data = {
        'Node': ['{"a": 1}', '{"a": 1, "b": {"a": 2, "b": {"a": 3}}}', '[1, {"a": 2}, {"x": 5}, {}]', '{"a": "q"}',
                 '{}', '[1, [2, [3]]]'],
        'Leaf': ['{}', '{"x": 4, "z": {"k": {"y": [2]}}}', '{"z": {"a": {"z": {"b": {}}}}}', '{"w": 1}',
                 '{"z": {"a": {"z": {"b": {"x": "q"}}}}}', '[1, [2]]'],
        'Special': ['5', '{"x": 1}', '"q"', '{"q": 1}'],
        'Very': ['5', '{"z": {"p": {}}}', '[]'],
        'List[Special]': ['[1, {"x": 2}, {}]', '5'],
        'Dict[str, Special]': ['{"a": 1, "b": {"x": 2}}', '{"a": "z"}'],
        'Items': ['[1, 2]', '{}', '{"items": [1]}'],
        'Table': ['{}', '{"items": []}'],
        'Sequence[Annotated[int, Loud(5)]]': ['[1, 2]', 'Items([1, 2, 3])', '[1, "z"]'],
        'Mapping[str, Leaf]': ['{"a": {}}', 'Table({"a": {"x": 2}, "b": Table({"x": 3})})'],
        'OwnList': ['[1, 2, 3]', '["z"]', '[]'],
        'OwnDict': ['{"a": {"a": 1}}', '{"a": {"a": 1, "b": {"a": 2}}, "b": [3]}'],
        'Pair': ['{"a": {"a": 1}, "b": {}}', '[[1], [2]]', '[[1], [2], 3]'],
        'Typed': ['{"a": {"x": 1}}', '{"b": 1}', '{"b": {"q": 1}}', '{}'],
        'Base': ['{"name": "impl", "k": 3}', '{"name": "impl", "leaf": {}, "very": 3}', '{"name": "other", "q": [1]}',
                 '{"k": 4}', '{"name": "zz"}'],
        'Impl': ['{"k": 3, "leaf": {"x": 1}}', '{"name": "other", "q": {"a": 1}}', '{"leaf": 5}'],
        'Deep': ['{"base": {"name": "impl", "leaf": {}}, "f": {"base": {}, "pairs": [[[1], [2]]]}}',
                 '{"base": {"name": "other", "q": [1]}, "color": "r"}', '{"base": {}, "pairs": [[[1], ["z"]]]}'],
        'Color': ['"r"', '"RED"', '"zz"', '"b"'],
        'Union[Node, Leaf, Special, int]': ['5', '{"x": 1}', '{"a": 1}', '[1]', '"q"'],
        'Union[List[Leaf], Dict[str, Very]]': ['[{}, {"x": 2}]', '{"a": 1}', '5'],
        'Optional[Base]': ['None', '{"name": "impl"}', '5'],
        'Tuple[Leaf, Annotated[Node, Early()], Special]': ['[{}, [1], 1]', '[{}, {}, 1]'],
        'DefaultDict[str, Leaf]': ['{"a": {}}', '{"a": 5}'],
        'Set[Annotated[int, Loud(6)]]': ['[1, 2]'],
        'Literal[1, "b"]': ['1', '"b"', '"c"'],
        'Annotated[List[Annotated[int, Loud(7)]], Early(), marsh.annotation.Populated]': ['[1]', '[]'],
        'func': ['{"a": [1]}', '{"a": {"a": 1}, "b": {}, "d": 5, "z": [1, 2]}', '[[1], {}, 1, {"x": 2}]'],
    }
    calls = []

    def add(op, t, *a):
        calls.append(dict(op=op, u='hand_hooks', t=t, a=list(a)))

    for t, els in data.items():
        for e in els:
            add('unmarshal', t, e)
            add('s_unmarshal', t, e)
        add('cast', t, els[0])
        add('str', t)
        add('doc', t, '3')
        add('help', t, '2')
        add('touch', t, els[0])
    for t in ('func', 'Node', 'Deep', 'Impl'):
        for e in data[t]:
            add('unmarshal_args', t, e)
            add('cast_args', t, e)
    for v in ('Leaf(1)', 'Special(1, Leaf())', '[Very(2, Leaf(z={"a": Leaf()}))]', 'Items()', 'Table({"a": Items()})',
              'Table({"a": Leaf(), "b": Special(1, Color.RED)})', 'Pair(Special(1, 2), Leaf())',
              '{"a": (OwnList([1]), Color.BLUE)}', 'Items([Table({"a": Items([Leaf()])}), Special(1, 2)])',
              'object()', '[Leaf(), Node(1)]'):
        add('marshal', 'int', v)
    for t, d in (('Leaf', 'Leaf(5)'), ('Special', 'Special(1, 2)'), ('Base', 'Impl()'), ('int', '5'),
                 ('Annotated[int, Loud(8)]', '1'), ('List[Leaf]', '[Leaf()]')):
        add('default', t, d)
    return calls
