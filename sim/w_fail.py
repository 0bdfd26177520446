"""Where failures are reported: C18.

Generated types and elements in which every part is known to a model; one part
fails (user code raises, or the element is damaged there) and the error has to
say so.
"""
import copy
import threading

from . import core, sched
from .ops import OpsRun, OpsWorld, random_schedule

PRELUDE = '''
import abc, collections.abc, dataclasses, datetime, enum, logging
from typing import *
import marsh
import marsh.schema.argument

CALL = None  # set by the simulator


def ids(v, depth=0):
    """The numbers of the element that ended up in a value."""
    if isinstance(v, (bool, logging.Logger, enum.Enum)) or depth > 60:
        return frozenset()
    if isinstance(v, int):
        return frozenset([v] if v >= 1000 else [])
    if isinstance(v, (list, tuple, collections.deque)):
        out = [ids(x, depth + 1) for x in v]
        if hasattr(v, '_own'):
            out.append(v._own)
    elif isinstance(v, collections.abc.Mapping):
        out = [ids(x, depth + 1) for x in v.values()]
    elif hasattr(v, '_own'):
        return v._own
    elif hasattr(v, '__dict__'):
        out = [ids(x, depth + 1) for x in vars(v).values()]
    else:
        out = []
    return frozenset().union(*out)


class Color(enum.Enum):
    red = 1
    blue = 'b'


def hook(tag, value):
    CALL(tag, ids(value))


class Post(marsh.annotation.Annotation):
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, value):
        hook(self.tag, value)
        return value

    def __eq__(self, other):
        return isinstance(other, Post) and self.tag == other.tag

    def __hash__(self):
        return hash(self.tag)


class Pre(marsh.annotation.PreAnnotation):
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, element):
        hook(self.tag, element)
        return element

    def __eq__(self, other):
        return isinstance(other, Pre) and self.tag == other.tag

    def __hash__(self):
        return hash(self.tag)


class Raw:
    tag = None

    def __init__(self, n):
        self.n = n


@marsh.schema.register(priority=50)
class RawSchema(marsh.schema.UnmarshalSchema):
    @classmethod
    def match(cls, value):
        return isinstance(value, type) and issubclass(value, Raw)

    @staticmethod
    def doc_static_type():
        return 'raw'

    def unmarshal(self, element):
        if element is marsh.MISSING:
            if self.has_default():
                return self.get_default()
            raise marsh.errors.MissingValueError(type=self.value)
        if not isinstance(element, int):
            raise marsh.errors.UnmarshalError('not a number', element=element)
        hook(self.value.tag, element)
        return self.value(element)


class Custom:
    pass


@marsh.schema.register(priority=50)
class CustomSchema(marsh.schema.MarshalSchema):
    @classmethod
    def match(cls, value):
        return isinstance(value, Custom)

    def marshal(self):
        hook('custom', ())
        return 5


class Lazy(collections.abc.Sequence):
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if isinstance(i, int) and 0 <= i < len(self.items):
            hook('item', ())
        return self.items[i]


class Table(collections.abc.Mapping):
    def __init__(self, items):
        self.items_ = items

    def __len__(self):
        return len(self.items_)

    def __iter__(self):
        return iter(self.items_)

    def __getitem__(self, k):
        hook('value', ())
        return self.items_[k]


class Computed:
    def __get__(self, obj, owner=None):
        if obj is None:
            return None
        hook('property', ())
        return obj.__dict__['_v']

    def __set__(self, obj, value):
        obj.__dict__['_v'] = value


@dataclasses.dataclass
class Part:
    v: Any = Computed()
    w: Any = 5


def value(e):
    kind, x = e
    if kind == 'plain':
        return x
    if kind == 'list':
        return [value(y) for y in x]
    if kind == 'dict':
        return {k: value(y) for k, y in x}
    if kind == 'lazy':
        return Lazy([value(y) for y in x])
    if kind == 'table':
        return Table({k: value(y) for k, y in x})
    if kind == 'part':
        return Part(value(x))
    return Custom()

'''


class MyError(Exception):
    pass


class Stop(BaseException):
    pass


# --------------------------------------------------------------------------
# types


# type: (elements, damaged elements and where in them, whether it is required)
OTHER = {
    'bytes': (['aGk=', 'AAAA'], [[1], {'q': 1}], True),
    'complex': ([1.5, [1, 2], {'real': 1.0}], ['x', {'q': 1}, [1, 2, 3]], True),
    'datetime.datetime': (['2020-01-02T03:04:05', 0, [2020, 1, 2], {'year': 2020, 'month': 1, 'day': 2}],
                          [{'q': 1}, [1], [2020, 1, 99], 1e20], True),
    'datetime.date': (['2020-01-02', 86400.5, [2020, 1, 2]], [{'q': 1}, [1], -1e20], True),
    'datetime.time': (['03:04:05', [3, 4]], [{'q': 1}, [99]], True),
    'Color': (['red', 'blue', 1, 'b'], ['zz', 5, [1], {'q': 1}], True),
    'slice': (['1:2', [1, 2], {'start': 1}, '::-1'], ['1:q', [1, 2, 3, 4]], False),
    'logging.Logger': (['marsh_sim', {'name': 'marsh_sim_2'}], [[1], {'q': 1}, {'level': 'zz'}], False),
    'bool': (['yes', True, 'off', 0], ['zz', 5, [1]], True),
    'float': ([1.5, 2, '1e3'], ['zz', [1], {'q': 1}], True),
    'str': (['text', '', 5], [[1], {'q': 1}], True),
    'None': ([None], [5, 'x', [1]], False),
    'Any': ([1, 'a', [1], {'a': 1}], [], True),
    'object': ([[], {}], [5, [1], {'q': 1}], False),
    'Set[int]': ([[1, 2], []], [5, 'a', {'q': 1}], False),
    'Dict[int, str]': ([{'1': 'a'}, {}], [5, [5]], False),
}


class TypeGen:
    """Types as source text along with nodes that describe them."""

    def __init__(self, rng):
        self.rng = rng
        self.out = []
        self.n = 0
        self.shared = []

    def tag(self, prefix):
        self.n += 1
        return f'{prefix}{self.n}'

    def emit(self, text):
        self.out.append(text)

    def type(self, depth):
        """Returns (text, node)."""
        rng = self.rng
        r = rng.random()
        if self.shared and r < .12:
            return rng.choice(self.shared)
        if depth <= 0:
            kinds = ['int', 'int', 'post', 'pre', 'raw', 'bare', 'lit', 'other', 'other', 'other']
        else:
            kinds = ['int', 'raw', 'post', 'pre', 'list', 'list', 'tuple', 'fixed', 'dict', 'dict', 'opt',
                     'ownlist', 'owndict', 'struct', 'struct', 'struct', 'struct', 'struct', 'ns', 'lit',
                     'defdict', 'other', 'other']
        k = rng.choice(kinds)
        text, node = getattr(self, 'k_' + k)(depth)
        if node.get('tag') and rng.random() < .3:
            self.shared.append((text, node))
        return text, node

    def k_int(self, depth):
        return 'int', dict(k='int')

    def k_other(self, depth):
        t = self.rng.choice(sorted(OTHER))
        return t, dict(k='other', t=t)

    def k_bare(self, depth):
        return self.k_struct(1)

    def k_lit(self, depth):
        vals = self.rng.choice([[1, 2], ['a', 'b'], ['x'], [3], ['a', 1]])
        return f'Literal[{", ".join(map(repr, vals))}]', dict(k='lit', vals=vals)

    def k_post(self, depth):
        t, node = self.type(depth - 1) if self.rng.random() < .5 and depth > 0 else self.k_int(0)
        return self.annotated(t, node, 'post', 'Post')

    def k_pre(self, depth):
        t, node = self.type(depth - 1) if self.rng.random() < .5 and depth > 0 else self.k_int(0)
        return self.annotated(t, node, 'pre', 'Pre')

    def annotated(self, t, node, k, cls):
        tag = self.tag(k)
        if self.rng.random() < .6:
            return f'Annotated[{t}, {cls}("{tag}")]', dict(k=k, tag=tag, of=node)
        # given as a class, which marsh calls to make an instance
        init = self.tag('new')
        self.emit(f'class {tag}({cls}):\n    def __init__(self):\n'
                  f'        self.tag = "{tag}"\n        hook("{init}", ())\n')
        return f'Annotated[{t}, {tag}]', dict(k=k, tag=tag, of=node, init=init)

    def k_raw(self, depth):
        tag = self.tag('Raw')
        self.emit(f'class {tag}(Raw):\n    tag = "{tag}"\n')
        return tag, dict(k='raw', tag=tag)

    def k_list(self, depth):
        t, node = self.type(depth - 1)
        return self.rng.choice(['List', 'Sequence']) + f'[{t}]', dict(k='list', of=node)

    def k_tuple(self, depth):
        t, node = self.type(depth - 1)
        return f'Tuple[{t}, ...]', dict(k='list', of=node)

    def k_fixed(self, depth):
        items = [self.type(depth - 1) for _ in range(self.rng.choice([1, 2, 3]))]
        return (f'Tuple[{", ".join(t for t, _ in items)}]',
                dict(k='fixed', items=[n for _, n in items]))

    def k_dict(self, depth):
        t, node = self.type(depth - 1)
        return self.rng.choice(['Dict', 'Mapping']) + f'[str, {t}]', dict(k='dict', of=node)

    def k_defdict(self, depth):
        t, node = self.type(depth - 1)
        return f'DefaultDict[str, {t}]', dict(k='dict', of=node)

    def k_opt(self, depth):
        t, node = self.type(depth - 1)
        if node['k'] == 'opt' or t.startswith('Optional'):
            return t, node
        return f'Optional[{t}]', dict(k='opt', of=node)

    def k_ownlist(self, depth):
        t, node = self.type(depth - 1)
        tag = self.tag('Own')
        self.emit(f'class {tag}(List[{t}]):\n    def __init__(self, *a):\n'
                  f'        super().__init__(*a)\n        hook("{tag}", list(self))\n')
        return tag, dict(k='list', tag=tag, of=node)

    def k_owndict(self, depth):
        t, node = self.type(depth - 1)
        tag = self.tag('Own')
        self.emit(f'class {tag}(Dict[str, {t}]):\n    def __init__(self, *a):\n'
                  f'        super().__init__(*a)\n        hook("{tag}", dict(self))\n')
        return tag, dict(k='dict', tag=tag, of=node)

    def k_ns(self, depth):
        base = self.tag('Ns')
        node = dict(k='ns', impls={})
        self.emit(f'class {base}(abc.ABC):\n    @abc.abstractmethod\n    def what(self): ...\n'
                  f'ns_{base} = marsh.namespaces.new("ns_{base}", {base})\n')
        for i in range(self.rng.choice([1, 2])):
            t, impl = self.k_struct(depth, style='class', base=base)
            self.emit(f'ns_{base}.register({t}, name="n{i}")\n')
            node['impls'][f'n{i}'] = impl
        return base, node

    def k_struct(self, depth, style=None, base=None, root=False):
        rng = self.rng
        style = style or rng.choice(['dataclass', 'dataclass', 'class', 'class', 'named', 'typed']
                                    + (['function'] if root else []))
        tag = self.tag({'dataclass': 'Data', 'class': 'Class', 'named': 'Named', 'typed': 'Typed',
                        'function': 'func'}[style])
        names = rng.sample(['a', 'b', 'c', 'val', 'item', 'x_y', 'rest_', 'keys'], rng.choice([1, 1, 2, 3]))
        fields = []
        recursive = style in ('dataclass', 'class') and not base and rng.random() < .2
        for n in names:
            t, node = self.type(depth - 1)
            fields.append(dict(n=n, t=t, node=node, kind='pk', default=None))
        if style == 'dataclass' and rng.random() < .4:
            for f in fields[rng.randrange(len(fields)):]:
                f['default'] = rng.choice(['value', 'factory'])
        elif style in ('class', 'function', 'named') and rng.random() < .3:
            for f in fields[rng.randrange(len(fields)):]:
                f['default'] = 'value'
        elif style == 'typed' and rng.random() < .4:
            for f in fields:
                f['default'] = 'absent'
        if style in ('class', 'function') and rng.random() < .35:
            if rng.random() < .6:
                t, node = self.type(depth - 1)
                fields.append(dict(n='more', t=t, node=node, kind='args', default=None))
            if rng.random() < .4:
                t, node = self.type(depth - 1)
                fields.append(dict(n='kwonly', t=t, node=node, kind='kw',
                                   default='value' if any(f['kind'] == 'args' for f in fields)
                                   else None))
            if rng.random() < .5:
                t, node = self.type(depth - 1)
                fields.append(dict(n='extra', t=t, node=node, kind='kwargs', default=None))
        if recursive:
            fields.append(dict(n='again', t=f"Optional['{tag}']", node=dict(k='opt', of=dict(k='self')),
                               kind='pk' if not any(f['kind'] != 'pk' for f in fields) else 'kw',
                               default='none'))
            if any(f['kind'] == 'kwargs' for f in fields):  # has to come last
                i = next(i for i, f in enumerate(fields) if f['kind'] == 'kwargs')
                fields.append(fields.pop(i))
        for f in fields:
            if f['n'] != 'again' and rng.random() < .15:
                f['t'] = repr(f['t'])  # written as text
        node = dict(k='struct', style=style, tag=tag, hooked=style in ('dataclass', 'class', 'function'),
                    fields=[{k: v for k, v in f.items() if k != 't'} for f in fields])
        self.define(style, tag, fields, base)
        return tag, node

    def define(self, style, tag, fields, base):
        lines = []
        for f in fields:
            if f['default'] == 'factory':
                lines.append(f'def make_{tag}_{f["n"]}():\n    hook("{tag}.{f["n"]}", ())\n'
                             f'    return None\n')
        default = {None: '', 'value': ' = 7', 'none': ' = None'}
        if style == 'dataclass':
            lines.append(f'@dataclasses.dataclass\nclass {tag}:\n')
            for f in fields:
                d = default.get(f['default'], f' = dataclasses.field(default_factory=make_{tag}_{f["n"]})')
                lines.append(f'    {f["n"]}: {f["t"]}{d}\n')
            lines.append(f'    def __post_init__(self):\n        hook("{tag}", vars(self))\n')
        elif style in ('class', 'function'):
            params = []
            star = False
            for f in fields:
                d = default[f['default']]
                if f['kind'] == 'args':
                    params.append(f'*{f["n"]}: {f["t"]}')
                    star = True
                elif f['kind'] == 'kwargs':
                    params.append(f'**{f["n"]}: {f["t"]}')
                else:
                    if f['kind'] == 'kw' and not star:
                        params.append('*')
                        star = True
                    params.append(f'{f["n"]}: {f["t"]}{d}')
            if style == 'class':
                lines.append(f'class {tag}{"(" + base + ")" if base else ""}:\n'
                             f'    def __init__(self, {", ".join(params)}):\n'
                             f'        args = dict(locals())\n        del args["self"]\n'
                             f'        args.pop("__class__", None)\n'
                             f'        self._own = ids(args)\n        hook("{tag}", args)\n'
                             f'    def what(self): pass\n')
            else:
                lines.append(f'def {tag}({", ".join(params)}):\n    args = dict(locals())\n'
                             f'    hook("{tag}", args)\n    return args\n')
        elif style == 'named':
            lines.append(f'class {tag}(NamedTuple):\n')
            lines += [f'    {f["n"]}: {f["t"]}{default[f["default"]]}\n' for f in fields]
        else:
            total = ', total=False' if any(f['default'] for f in fields) else ''
            lines.append(f'class {tag}(TypedDict{total}):\n')
            lines += [f'    {f["n"]}: {f["t"]}\n' for f in fields]
        self.emit(''.join(lines))


KEYS = ['k', 'key', 'two words', 'dash-ed', 'ünï', '0', '12', 'a.b', 'x."y"', "it's", 'back\\slash', '.dot',
        'end.', '*', 'name']


# --------------------------------------------------------------------------
# elements


class ElementGen:
    def __init__(self, rng):
        self.rng = rng
        self.n = 1000

    def make(self, node, depth=0, cls=None):
        rng = self.rng
        k = node['k']
        if k in ('int', 'raw'):
            self.n += 1
            return self.n
        if k == 'lit':
            return rng.choice(node['vals'])
        if k == 'other':
            return copy.deepcopy(rng.choice(OTHER[node['t']][0]))
        if k in ('post', 'pre', 'opt'):
            return self.make(node['of'], depth, cls)
        if k == 'self':
            return self.make(cls, depth + 1, cls)
        if k == 'list':
            out = [self.make(node['of'], depth, cls) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            if len(out) > 1 and rng.random() < .25:
                # equal items are items of their own all the same
                out[-1] = copy.deepcopy(out[0])
            return out
        if k == 'fixed':
            return [self.make(n, depth, cls) for n in node['items']]
        if k == 'dict':
            keys = rng.sample(KEYS, rng.choice([0, 1, 1, 2, 3]))
            return {key: self.make(node['of'], depth, cls) for key in keys}
        if k == 'ns':
            name = rng.choice(sorted(node['impls']))
            e = self.make(node['impls'][name], depth, cls)
            if isinstance(e, list):  # the name can only be given in a mapping
                e = self.struct(node['impls'][name], depth, form='map')
            return {'name': name, **e}
        return self.struct(node, depth)

    def struct(self, node, depth, form=None):
        rng = self.rng
        fields = node['fields']
        form = form or rng.choice(['map', 'map', 'map', 'seq'])
        if form == 'seq' and any(f['kind'] == 'kw' and f['default'] is None for f in fields):
            form = 'map'
        out = []
        for f in fields:
            if f['kind'] == 'args':
                if form == 'seq' and all(g['n'] in dict(out) for g in fields if g['kind'] == 'pk'):
                    out += [(i, self.make(f['node'], depth, node)) for i in range(rng.choice([0, 1, 2]))]
                continue
            if f['kind'] == 'kwargs':
                if form == 'map':
                    keys = [k for k in rng.sample(KEYS, rng.choice([0, 1, 2])) if k != 'name']
                    out += [(k, self.make(f['node'], depth, node)) for k in keys]
                continue
            if f['kind'] == 'kw' and form == 'seq':
                continue
            if f['default'] is not None:
                absent = rng.random() < (.5 if f['default'] != 'none' else .4 + .3 * depth)
                if form == 'seq' and (absent or any(g['n'] not in dict(out) for g in fields[:fields.index(f)]
                                                    if g['kind'] == 'pk')):
                    continue
                if absent:
                    continue
            out.append((f['n'], self.make(f['node'], depth, node)))
        if form == 'seq':
            return [x for _, x in out]
        if rng.random() < .3:
            rng.shuffle(out)
        return dict(out)


# --------------------------------------------------------------------------
# model


class Point:
    """Something that happens while an element is unmarshaled."""

    sure = True

    def __init__(self, tag, ids, paths, where):
        self.tag = tag
        self.ids = ids
        self.paths = paths  # acceptable paths, tuples of fields
        self.where = where  # keys from the root of the element


def ext(paths, *fields):
    return [p + f for p in paths for f in fields]


def in_turn(wheres):
    """Whether these differ in one index only."""
    if len(set(map(len, wheres))) > 1:
        return False
    parts = [set(p) for p in zip(*wheres)]
    return [all(isinstance(x, int) for x in p) for p in parts if len(p) > 1] == [True]


class Model:
    """Walks a type and an element."""

    def __init__(self, node, element):
        self.root = element
        self.points = []  # user code
        self.parts = []   # (node, element, paths, where)
        self.missing = []  # (paths of a field that can be left out with an error, where, key)
        self.walk(node, element, [()], (), None)

    def point(self, tag, ids, paths, where):
        self.points.append(Point(tag, ids, paths, where))

    def walk(self, node, e, paths, where, cls):
        k = node['k']
        if k == 'self':
            return self.walk(cls, e, paths, where, cls)
        if k == 'opt':
            return self.walk(node['of'], e, paths, where, cls)
        if node.get('init'):
            self.point(node['init'], frozenset(), paths, where)
        if k == 'pre':
            self.point(node['tag'], numbers(e), paths, where)
            return self.walk(node['of'], e, paths, where, cls)
        if k == 'post':
            ids = self.walk(node['of'], e, paths, where, cls)
            self.point(node['tag'], ids, paths, where)
            return ids
        self.parts.append((node, e, paths, where))
        if k == 'int':
            return frozenset([e])
        if k in ('lit', 'other'):
            return frozenset()
        if k == 'raw':
            self.point(node['tag'], frozenset([e]), paths, where)
            return frozenset([e])
        if k in ('list', 'fixed'):
            subs = [self.walk(node['of'] if k == 'list' else node['items'][i], x,
                              ext(paths, (str(i),)), where + (i,), cls) for i, x in enumerate(e)]
        elif k == 'dict':
            subs = [self.walk(node['of'], x, ext(paths, (key,)), where + (key,), cls)
                    for key, x in e.items()]
        elif k == 'ns':
            self.parts.pop()
            impl = node['impls'][e['name']]
            self.parts.append((node, e, paths, where))
            return self.walk(impl, {key: x for key, x in e.items() if key != 'name'}, paths, where, impl)
        else:
            return self.struct(node, e, paths, where)
        ids = frozenset().union(*subs)
        if node.get('tag'):
            self.point(node['tag'], ids, paths, where)
        return ids

    def default(self, owner, f, node, paths, where):
        """A field is left out; annotations apply to defaults as well."""
        if node['k'] in ('pre', 'post'):
            if node.get('init'):
                self.point(node['init'], frozenset(), paths, where)
            if node['k'] == 'pre':
                self.point(node['tag'], frozenset(), paths, where)
            self.default(owner, f, node['of'], paths, where)
            if node['k'] == 'post':
                self.point(node['tag'], frozenset(), paths, where)
        elif f['default'] == 'factory':
            self.point(f'{owner["tag"]}.{f["n"]}', frozenset(), paths, where)
            # None needs no factory
            self.points[-1].sure = (node['k'], node.get('t')) != ('other', 'None')

    def struct(self, node, e, paths, where):
        seq = list(e) if isinstance(e, list) else None
        left = {} if seq is not None else dict(e)
        n = 0
        subs = []
        for f in node['fields']:
            if f['kind'] == 'kwargs':
                for key in list(left):
                    subs.append(self.walk(f['node'], left.pop(key),
                                          ext(paths, (f['n'], key), (key,)), where + (key,), node))
            elif f['kind'] == 'args':
                for i, x in enumerate(seq[n:] if seq else ()):
                    subs.append(self.walk(f['node'], x, ext(paths, (f['n'], str(i)), (str(n + i),)),
                                          where + (n + i,), node))
                n = len(seq) if seq else 0
            elif seq is not None and n < len(seq):
                subs.append(self.walk(f['node'], seq[n], ext(paths, (f['n'],), (str(n),)),
                                      where + (n,), node))
                n += 1
            elif f['n'] in left:
                if f['default'] is None and hard(f['node']) and seq is None:
                    self.missing.append((ext(paths, (f['n'],)), where, f['n']))
                subs.append(self.walk(f['node'], left.pop(f['n']), ext(paths, (f['n'],)),
                                      where + (f['n'],), node))
            elif f['default'] not in (None, 'absent'):
                self.default(node, f, f['node'], ext(paths, (f['n'],)), where)
        ids = frozenset().union(*subs)
        if node['hooked']:
            self.point(node['tag'], ids, paths, where)
        return ids


def hard(node):
    """Whether leaving out a part of this type is an error at the part itself."""
    if node['k'] == 'other':
        return OTHER[node['t']][2]
    return node['k'] in ('int', 'raw') or node['k'] == 'post' and hard(node['of'])


def numbers(e):
    if isinstance(e, bool):
        return frozenset()
    if isinstance(e, int):
        return frozenset([e] if e >= 1000 else [])
    if isinstance(e, list):
        return frozenset().union(*map(numbers, e))
    if isinstance(e, dict):
        return frozenset().union(*map(numbers, e.values()))
    return frozenset()


def get(e, where):
    for k in where:
        e = e[k]
    return e


def put(e, where, value):
    if not where:
        return value
    get(e, where[:-1])[where[-1]] = value
    return e


def damages(model):
    """Ways to break the element: (kind, where, value, paths)."""
    out = []
    for node, e, paths, where in model.parts:
        k = node['k']
        if k in ('int', 'raw'):
            for v in ('not a number', [1], {'q': 1}):
                out.append(('wrong value', where, v, paths))
        elif k == 'lit':
            for v in (5, 'zz', [1]):
                out.append(('wrong value', where, v, paths))
        elif k == 'other':
            for v in OTHER[node['t']][1]:
                out.append(('wrong value', where, copy.deepcopy(v), paths))
        elif k == 'list':
            for v in (5, {'q': 5}, 'text'):
                out.append(('wrong kind', where, v, paths))
        elif k == 'fixed':
            out.append(('wrong kind', where, 5, paths))
            out.append(('too many', where, list(e) + [5], paths))
        elif k == 'dict':
            for v in (5, [5], 'text'):
                out.append(('wrong kind', where, v, paths))
        elif k == 'ns':
            out.append(('unknown name', where, dict(e, name='n9'), ext(paths, ('name',))))
            out.append(('unknown name', where, dict(e, name=5), ext(paths, ('name',))))
        else:
            e = get(model.root, where)  # with the name, where there is one
            out.append(('wrong kind', where, 5, paths))
            out.append(('wrong kind', where, 'text', paths))
            kinds = {f['kind'] for f in node['fields']}
            if isinstance(e, dict) and 'kwargs' not in kinds:
                out.append(('unknown key', where, dict(e, zz=5), paths))
                out.append(('unknown key', where, {**e, 5: 5}, paths))
            if isinstance(e, list) and 'args' not in kinds:
                n = sum(f['kind'] in ('pk', 'kw') for f in node['fields'])
                out.append(('too many', where, e + [5] * (n + 1 - len(e)), None))
    for paths, where, key in model.missing:
        out.append(('left out', where, key, paths))
    return out


EXC = ['ValueError', 'KeyError', 'TypeError', 'AttributeError', 'StopIteration', 'IndexError', 'MyError',
       'MemoryError', 'RecursionError', 'OSError', 'AssertionError', 'NotImplementedError',
       'marsh', 'marsh', 'marsh path', 'marsh path', 'marsh missing', 'path error',
       'KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'Stop']
INNER = ('in', 'x.y')


def make_exc(kind, errors):
    if kind == 'marsh':
        return errors.UnmarshalError('from user code'), ()
    if kind == 'marsh missing':
        return errors.MissingValueError('from user code'), ()
    if kind == 'path error':
        return errors.PathError('from user code'), ()
    if kind == 'marsh path':
        return errors.UnmarshalError('from user code', path='in.x\\.y'), INNER
    if kind == 'MyError':
        return MyError('from user code'), ()
    if kind == 'Stop':
        return Stop(), ()
    return {**vars(__import__('builtins'))}[kind]('from user code'), ()


def escape(field):
    return ''.join('\\' + c if c in '.\\"\'' else c for c in field)


def split(path):
    """Fields of a path, by the documented syntax."""
    out, cur, quote, esc = [], '', None, False
    for c in path:
        if esc:
            cur += c
            esc = False
        elif c == '\\':
            esc = True
        elif quote:
            if c == quote:
                quote = None
            else:
                cur += c
        elif c in '"\'':
            quote = c
        elif c == '.':
            if cur:
                out.append(cur)
            cur = ''
        else:
            cur += c
    if cur:
        out.append(cur)
    return tuple(out)


# --------------------------------------------------------------------------


class Failures(OpsWorld):
    runs = {'quick': 10000, 'thorough': 200000}
    line_limit = 2_000_000
    real = ('marsh.unmarshal, cast, unmarshal_args and the schemas below them',
            'real OS threads, released one at a time')
    stub = ('locks created by marsh (simulated)',)
    assumptions = ('threads are preempted between source lines of marsh and of user code',
                   'one part of a call fails; unions other than optional are not in the types')
    rule = ('A case is 1-3 threads that make 1-6 calls each on generated nested types, with at most '
            'one failing part per call: user code that raises or a damaged element. Non-trivial: '
            'at least one failing part. Distinct by types, calls and interleaving.')

    def gen(self, rng, index):
        tg = TypeGen(rng)
        roots = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < .7:
                t, node = tg.k_struct(rng.choice([1, 2, 3]), root=True)
            else:
                t, node = tg.type(rng.choice([2, 3]))
            roots.append((t, node))
        bad = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            t, where = self.bad_type(rng, tg)
            bad.append(dict(t=t, where=where))
        types = [t for t, _ in roots]
        nodes = [n for _, n in roots]
        nthreads = rng.choice([1, 1, 1, 2, 2, 3])
        threads = []
        for _ in range(nthreads):
            steps = []
            for _ in range(rng.choice([1, 2, 3, 4, 6])):
                if steps and rng.random() < .2:
                    steps.append(copy.deepcopy(rng.choice(steps)))
                    continue
                i = rng.randrange(len(roots))
                r = rng.random()
                if r < .7:
                    step = self.step_of(rng, i, nodes[i])
                elif r < .8:
                    step = self.element_step(rng, nodes[i])
                elif r < .87:
                    step = self.pick_step(rng, i, nodes[i])
                elif r < .94 or not bad:
                    step = self.marshal_step(rng)
                else:
                    step = dict(op='build', b=rng.randrange(len(bad)), how=rng.choice(
                        ['unmarshal', 'doc', 'help', 'str']), fault=dict(kind='no such type'))
                if step:
                    steps.append(step)
            threads.append(steps)
        return dict(source='\n'.join(tg.out), types=types, nodes=nodes, bad=bad, threads=threads,
                    schedule=random_schedule(rng, 400 * sum(map(len, threads))))

    def bad_type(self, rng, tg):
        """A type with a field that can not be unmarshaled."""
        t, where = rng.choice(['5', "'Nowhere'"]), []
        for k in range(rng.choice([1, 2, 3])):
            style = rng.choice(['dataclass', 'class', 'named', 'typed'])
            if t == "'Nowhere'" and not k:
                style = 'dataclass'
            tag = tg.tag('Bad')
            fields = []
            n = rng.choice(['x', 'y', 'field'])
            for f in rng.sample(['a', 'b'], rng.choice([0, 0, 1])) + [n]:
                fields.append(dict(n=f, t=t if f == n else 'int', kind='pk', default=None))
            tg.define(style, tag, fields, None)
            where.insert(0, n)
            t = tag if rng.random() < .7 else f'Optional[{tag}]'
        return tag, where

    def element_step(self, rng, node):
        e = ElementGen(rng).make(node)
        op = rng.choice(['select', 'remove', 'override'])
        spots = []

        def walk(x, where, text):
            if isinstance(x, dict):
                if op != 'override':
                    spots.append((text, rng.choice([['zz'], ['zz', 'q'], ['a b']])))
                for k, y in x.items():
                    walk(y, where + (k,), text + (k,))
            elif isinstance(x, list):
                n = len(x)
                spots.append((text, [rng.choice([str(n + (op == 'override')), 'zz', str(-n - 1), '1.5'])]
                              + rng.choice([[], ['q']])))
                for i, y in enumerate(x):
                    walk(y, where + (i,), text + (str(i if rng.random() < .8 else i - n),))
            elif where:
                spots.append((text, rng.choice([['zz'], ['0'], ['q', '1']])))

        walk(e, (), ())
        if not spots:
            return None
        good, more = rng.choice(spots)
        return dict(op=op, e=freeze(e), path='.'.join(escape(f) for f in good + tuple(more)),
                    fault=dict(kind='path to nowhere', paths=[list(good)]))

    def pick_step(self, rng, i, node):
        where, cls = [], None
        more = ['zz']
        while True:
            if node['k'] == 'self':
                node = cls
            if node['k'] == 'struct':
                cls = node
                if rng.random() < .25:
                    break
                f = rng.choice(node['fields'])
                where.append(f['n'])
                node = f['node']
            elif 'of' in node:
                node = node['of']
            else:
                break
        return dict(op='pick', r=i, path='.'.join(where + more),
                    fault=dict(kind='path to nowhere', paths=[where]))

    def marshal_step(self, rng):
        n = 0

        def make(depth):
            nonlocal n
            k = rng.choice(['plain', 'custom', 'part'] if depth <= 0 else
                           ['list', 'dict', 'lazy', 'table', 'part', 'part'])
            if k == 'plain':
                return [k, rng.choice([1, 'a', None, .5])]
            if k == 'custom':
                n += 1
                return [k, 0]
            if k == 'part':
                n += 1
                return [k, make(depth - 1) if depth > 0 else ['plain', 1]]
            m = rng.choice([0, 1, 2])
            if k in ('lazy', 'table'):
                n += m
            if k in ('list', 'lazy'):
                return [k, [make(depth - 1) for _ in range(m)]]
            return [k, [[key, make(depth - 1)] for key in rng.sample(['a', 'b', 'c d', 'e.f'], m)]]

        v = make(rng.choice([1, 2, 3]))
        fault = None
        if n and rng.random() < .8:
            fault = dict(kind='raise', at=rng.randrange(n), exc=rng.choice(
                [x for x in EXC if x not in ('IndexError', 'StopIteration')]))
        return dict(op='marshal', e=v, fault=fault)

    def step_of(self, rng, i, node):
        e = ElementGen(rng).make(node)
        how = 'unmarshal'
        if node['k'] == 'struct' and node['style'] in ('function', 'class') and rng.random() < .3:
            how = rng.choice(['args', 'cast_args'])
        elif rng.random() < .3:
            how = rng.choice(['cast', 'schema'])
        step = dict(op=how, r=i, fault=None)
        model = Model(node, e)
        points = model.points
        if how in ('args', 'cast_args'):
            points = [p for p in points if p.where or p is not points[-1]]
        r = rng.random()
        if r < .5 and points:
            step['fault'] = dict(kind='raise', at=rng.randrange(len(points)), exc=rng.choice(EXC))
        elif r < .92:
            d = damages(model)
            if d:
                kind, where, value, paths = rng.choice(d)
                step['fault'] = dict(kind=kind, paths=paths and [list(p) for p in paths])
                e = copy.deepcopy(e)
                if kind == 'left out':
                    del get(e, where)[value]
                else:
                    e = put(e, where, value)
        step['e'] = freeze(e)
        return step


def freeze(e):
    """Elements as JSON: mappings are lists of pairs, as keys can be numbers."""
    if isinstance(e, dict):
        return {'m': [[k, freeze(v)] for k, v in e.items()]}
    if isinstance(e, list):
        return {'s': [freeze(v) for v in e]}
    return {'v': e}


def thaw(e):
    if 'm' in e:
        return {k: thaw(v) for k, v in e['m']}
    if 's' in e:
        return [thaw(v) for v in e['s']]
    return e['v']


class FailuresRun(OpsRun):
    def setup(self):
        from . import conv
        self.u = conv.load_universe('user', PRELUDE + self.spec['source'])
        self.u.CALL = self.enter
        self.types = [getattr(self.u, t, None) or eval(t, self.u.__dict__) for t in self.spec['types']]
        self.local = threading.local()
        self.errors = self.w.marsh.errors

    def enter(self, tag, ids):
        c = getattr(self.local, 'call', None)
        if c is None:
            return
        n = c['n']
        c['n'] += 1
        c['seen'].append((tag, ids))
        if c['failed'] is not None:
            c['after'].append((tag, ids))
        elif c['at'] == n:
            c['failed'] = (tag, ids)
            c['exc'], c['inner'] = make_exc(c['kind'], self.errors)
            raise c['exc']

    def perform(self, step, e):
        m = self.w.marsh
        op = step['op']
        if op == 'marshal':
            return m.marshal(e)
        if op == 'select':
            return m.element.select(e, step['path'])
        if op == 'remove':
            return m.element.remove(e, step['path'])
        if op == 'override':
            return m.element.override(e, 5, step['path'])
        if op == 'build':
            T = getattr(self.u, self.spec['bad'][step['b']]['t'])
            if step['how'] == 'help':
                return m.doc.terminal.format_unmarshal_help(T, width=60, depth=2)
            if step['how'] == 'unmarshal':
                x = 1
                for f in reversed(self.spec['bad'][step['b']]['where']):
                    x = {'a': 1, 'b': 1, f: x}
                return m.unmarshal(T, x)
            schema = m.schema.UnmarshalSchema(T)
            return schema.doc(5) if step['how'] == 'doc' else str(schema)
        T = self.types[step['r']]
        if op == 'pick':
            return m.schema.UnmarshalSchema(T).select(step['path'])
        if op == 'unmarshal':
            return m.unmarshal(T, e)
        if op == 'schema':
            return m.schema.UnmarshalSchema(T).unmarshal(e)
        if op == 'cast':
            return m.cast(T, e)
        if op == 'args':
            return m.unmarshal_args(T, e)
        return m.cast_args(T, e)

    def do(self, t, step):
        e = self.element(step)
        fault = step['fault'] or {}
        call = dict(n=0, at=fault.get('at', -1), kind=fault.get('exc'), failed=None, after=[], exc=None,
                    inner=(), seen=[])
        self.local.call = call
        err = None
        try:
            self.perform(step, e)
        except sched.Killed:
            raise
        except BaseException as x:
            err = x
        finally:
            self.local.call = None
        if not fault:
            if err is not None:
                self.bad('raises', f'{self.text(step)} raised {describe(err)} although nothing fails')
            else:
                self.judge_calls(step, e, call)
            return ['ok', call['n']]
        self.stats['fault:' + (fault['kind'] if fault['kind'] != 'raise' else 'raises ' + fault['exc'])] += 1
        if fault['kind'] == 'raise':
            self.judge_raise(step, e, call, err)
        else:
            self.judge_damage(step, fault, err)
        return [type(err).__name__, str(getattr(err, 'path', ''))]

    def element(self, step):
        if step['op'] == 'marshal':
            return self.u.value(step['e'])
        return thaw(step['e']) if 'e' in step else None

    def text(self, step):
        if step['op'] == 'marshal':
            return f'marshal({step["e"]})'
        if step['op'] == 'build':
            return f'{step["how"]}({self.spec["bad"][step["b"]]["t"]})'
        if 'r' not in step:
            return f'{step["op"]}({thaw(step["e"])!r}, {step["path"]!r})'
        return (f'{step["op"]}({self.spec["types"][step["r"]]}, '
                f'{step["path"] if "path" in step else thaw(step["e"])!r})')

    def judge_damage(self, step, fault, err):
        what = f'{self.text(step)} with the fault "{fault["kind"]}"'
        if err is None:
            self.bad('accepted', f'{what} does not fail')
        elif not isinstance(err, self.errors.MarshError):
            self.bad('error', f'{what} raised {describe(err)}')
        elif fault['kind'] == 'path to nowhere' and not isinstance(err, self.errors.PathError):
            self.bad('error', f'{what} raised {describe(err)}, not a PathError')
        elif step['op'] == 'build':
            self.check_path(what, err, [tuple(self.spec['bad'][step['b']]['where'])])
        elif fault['paths'] is not None:
            self.check_path(what, err, [tuple(p) for p in fault['paths']])

    def judge_calls(self, step, e, call):
        """All that the type names has to be called, or it can not fail."""
        if step['op'] not in ('unmarshal', 'schema', 'cast', 'args', 'cast_args'):
            return
        points = Model(self.spec['nodes'][step['r']], e).points
        if step['op'] in ('args', 'cast_args') and points and not points[-1].where:
            points = points[:-1]  # not constructed
        seen = set(call['seen'])
        for p in points:
            if p.sure and (p.tag, p.ids) not in seen:
                self.bad('not called', f'{self.text(step)} returned, but {p.tag} of {sorted(p.ids)} '
                         'was not called')
                return

    def judge_raise(self, step, e, call, err):
        if call['failed'] is None:
            # the code that was to fail was not called
            if err is not None:
                self.bad('raises', f'{self.text(step)} raised {describe(err)} although nothing failed')
            else:
                self.judge_calls(step, e, call)
            return
        tag, ids = call['failed']
        exc = call['exc']
        what = f'{self.text(step)} with {describe(exc)} raised in {tag} of {sorted(ids)}'
        if step['op'] == 'marshal':
            model, found = None, []
        else:
            model = Model(self.spec['nodes'][step['r']], e)
            found = [p for p in model.points if p.tag == tag and p.ids == ids]
        if model and not found:
            raise core.HarnessError(f'not in the model: {what}')
        if len(found) > 1 and ids and in_turn([f.where for f in found]):
            # equal items of a sequence, taken in turn
            n = call['seen'][:call['at']].count((tag, ids))
            found = found[n:n + 1] or found
        if err is None:
            self.bad('swallowed', f'{what} returned')
            return
        if err is not exc and isinstance(exc, self.errors.MarshError) and '.' not in tag:  # not a default factory
            self.bad('replaced', f'{what} raised {describe(err)}')
            return
        if err is not exc:
            chain, x = [], err
            while x is not None and len(chain) < 50:
                chain.append(x)
                x = x.__cause__
            if not isinstance(exc, Exception) or not isinstance(err, Exception):
                self.bad('interrupt', f'{what} raised {describe(err)}')
                return
            if not isinstance(err, self.errors.MarshError) or not any(x is exc for x in chain):
                self.bad('cause', f'{what} raised {describe(err)} with no cause {describe(exc)}')
                return
        if isinstance(err, self.errors.MarshError) and model:
            inner = call['inner'] if err is exc else ()
            self.check_path(what, err, [p + inner for f in found for p in f.paths])
        if len(found) == 1:
            where = found[0].where
            for tag2, ids2 in call['after']:
                for p in model.points:
                    if p.tag == tag2 and p.ids == ids2 and ids and ids < ids2 and (
                            p.where == where[:len(p.where)]):
                        self.bad('constructed', f'{what}, and {tag2} was called afterwards')
                        return

    def check_path(self, what, err, paths):
        got = split(err.path)
        if not isinstance(err.path, str) or got not in paths:
            self.bad('path', f'{what} raised {describe(err)} with the path {err.path!r}, '
                     f'not that of {list(paths[0])}')


def describe(err):
    return f'{type(err).__name__}({str(err.args)[:80]})'


Failures.Run = FailuresRun
Failures.is_nontrivial = lambda self, run, s: any(x['fault'] for t in run.spec['threads'] for x in t)
