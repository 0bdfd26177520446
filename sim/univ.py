"""Random and hand-written universes of user types, with calls over them.

A universe is the source of a Python module.  Types are described by small
trees, so that matching inputs can be generated without using marsh.
"""
import collections.abc
import random

NAMES = ['Node', 'Leaf', 'Item', 'Pair', 'Opts', 'Tree', 'Rec', 'Conf']
FIELDS = ['a', 'b', 'c', 'd', 'e', 'left', 'items', 'opt', 'val', 'name']
PRIMS = ['int', 'float', 'str', 'bool']

PRELUDE = '''\
import collections, dataclasses, datetime, enum, functools, logging, numbers
from typing import *
import typing
import marsh

_LOG = []


def _made(name, value):
    _LOG.append((name, value))
    return value


class Half(marsh.annotation.Annotation):
    def __call__(self, value):
        if value % 2:
            raise ValueError('odd value')
        return value // 2


class Upper(marsh.annotation.PreAnnotation):
    def __call__(self, element):
        return str(element).upper()


'''


# --------------------------------------------------------------------------
# type trees -> expressions


def expr(t, quote=None, names={}):
    """The annotation of a type tree. quote: names written as forward refs."""
    k = t[0]
    if k in ('int', 'float', 'str', 'bool', 'bytes', 'complex', 'slice', 'None'):
        return k
    if k == 'any':
        return 'Any'
    if k == 'datetime':
        return f'datetime.{t[1]}'
    if k == 'logger':
        return 'logging.Logger'
    if k == 'cls':
        name = names.get(t[1], t[1])
        return repr(name) if quote and t[1] in quote else name
    if k == 'lit':
        return f'Literal[{", ".join(map(repr, t[1]))}]'
    if k == 'list_' and names:
        quote = None  # builtins do not turn texts into references
    sub = [expr(x, quote, names) for x in t[1:] if isinstance(x, (list, tuple))]
    if k == 'list':
        return f'List[{sub[0]}]'
    if k == 'list_':
        return f'list[{sub[0]}]'
    if k == 'seq':
        return f'Sequence[{sub[0]}]'
    if k == 'set':
        return f'Set[{sub[0]}]'
    if k == 'vtuple':
        return f'Tuple[{sub[0]}, ...]'
    if k == 'tuple':
        return f'Tuple[{", ".join(sub)}]'
    if k == 'dict':
        return f'Dict[str, {sub[0]}]'
    if k == 'map':
        return f'Mapping[str, {sub[0]}]'
    if k == 'ddict':
        return f'DefaultDict[str, {sub[0]}]'
    if k == 'opt':
        return f'Optional[{sub[0]}]'
    if k == 'union':
        return f'Union[{", ".join(sub)}]'
    if k == 'ann':
        return f'Annotated[{sub[0]}, {t[1]}]'
    raise AssertionError(t)


class Universe:
    def __init__(self, name, source, classes, calls):
        self.name = name
        self.source = source
        self.classes = classes  # name -> dict(kind, fields)
        self.calls = calls


class Gen:
    def __init__(self, rng, name, plain=False, refs=False, sets=True, checked=False):
        self.rng = rng
        self.checked = checked  # calls come with what is expected of the result
        self.name = name
        self.plain = plain  # no unions, annotations or other loose types
        self.sets = sets
        self.refs = refs  # focus on references between classes
        self.classes = {}
        self.order = []
        self.lines = []

    # -- types
    def tree(self, depth=2, classes=(), hashable=False):
        rng = self.rng
        r = rng.random()
        if hashable:
            return [rng.choice(PRIMS)]
        if depth <= 0 or r < .25:
            x = rng.random()
            if classes and x < (.7 if self.refs else .3):
                return ['cls', rng.choice(classes)]
            if x < .8 or self.plain:
                return [rng.choice(PRIMS)]
            return rng.choice([
                ['any'], ['bytes'], ['complex'], ['slice'], ['None'],
                ['datetime', rng.choice(['datetime', 'date', 'time'])],
                ['lit', rng.choice([[1, 2], ['x', 'y'], ['x', 1, True], [0, 'x'], ['only'],
                                    [1, True], [False, 0]])],
                ['ann', rng.choice(['Half()', 'Half', 'marsh.annotation.Positive',
                                    'marsh.annotation.Unsigned']), ['int']],
                ['ann', 'Upper()', ['str']],
                ['ann', 'marsh.annotation.Populated', ['list', ['int']]],
            ])
        if classes and r < (.6 if self.refs else .42):
            return ['cls', rng.choice(classes)]
        kinds = ['list', 'list_', 'seq', 'vtuple', 'tuple', 'dict', 'map', 'opt', 'opt']
        if not self.plain:
            kinds += ['union', 'union', 'set', 'ddict', 'ddict']
        if not self.sets and 'set' in kinds:
            kinds.remove('set')
        k = rng.choice(kinds)
        if k == 'set':
            return ['set', self.tree(0, (), hashable=True)]
        if k == 'tuple':
            return ['tuple'] + [self.tree(depth - 1, classes) for _ in range(rng.randint(1, 3))]
        if k == 'union':
            alts = [self.tree(depth - 1, classes) for _ in range(rng.randint(2, 3))]
            return ['union'] + alts
        return [k, self.tree(depth - 1, classes)]

    def wrap_ref(self, name):
        """A reference that can end, as a field of a recursive class."""
        rng = self.rng
        ref = ['cls', name]
        kinds = ['opt', 'opt', 'list', 'dict', 'seq', 'optlist', 'vtuple']
        if not self.plain:
            kinds += ['union', 'unionl', 'listopt']
        k = rng.choice(kinds)
        if k == 'optlist':
            return ['opt', ['list', ref]]
        if k == 'listopt':
            return ['list', ['opt', ref]]
        if k == 'union':
            return ['union', ref, ['None']]
        if k == 'unionl':
            return ['union', ['int'], ['list', ref]]
        return [k, ref]

    def default(self, t):
        """(source of an immutable default) or None."""
        rng = self.rng
        k = t[0]
        if k == 'int':
            return rng.choice(['0', '1', '7', '-3'])
        if k == 'float':
            return rng.choice(['0.0', '1.0', '2.5'])
        if k == 'bool':
            return rng.choice(['False', 'True'])
        if k == 'str':
            return rng.choice(["''", "'x'", "'0'"])
        if k == 'any':
            return rng.choice(['0', 'False', '0.0', "''", '1', 'True', 'None', '()'])
        if k in ('opt', 'None'):
            return 'None'
        if k == 'vtuple':
            return '()'
        if k == 'union':
            return self.default(t[1])
        if k == 'lit':
            return repr(t[1][0])
        return None

    def factory(self, t, cname, fname):
        """(source line(s) of a factory, its name) or None."""
        k = t[0]
        if k in ('list', 'list_', 'seq'):
            body = '[]' if self.rng.random() < .5 or t[1][0] != 'int' else '[1, 2]'
        elif k in ('dict', 'map'):
            body = '{}'
        elif k == 'set':
            body = 'set()'
        elif k == 'cls' and self.all_default(t[1]):
            body = f'{t[1]}()'
        elif k == 'opt':
            return self.factory(t[1], cname, fname)
        else:
            return None
        f = f'_fac_{cname}_{fname}'
        return f"def {f}():\n    value = {body}\n    return _made('{cname}.{fname}', value)\n", f

    def all_default(self, cname):
        c = self.classes.get(cname)
        return bool(c) and c['kind'] in ('dataclass', 'plain') and not c['future'] and all(
            f[2] is not None for f in c['fields'])

    # -- classes
    def make(self, like=None):
        rng = self.rng
        n = 2 if like else rng.randint(2, 4)
        names = rng.sample(like or NAMES, n)
        future = rng.random() < .2
        head = 'from __future__ import annotations\n' if future else ''
        self.lines = [head + PRELUDE]
        others = []
        if self.checked and not like:
            if rng.random() < .5:
                others += self.make_inner(names)
            if rng.random() < .35 and not future:
                others += self.make_local(names, others)
        for i, name in enumerate(names):
            kinds = ['dataclass'] * (9 if self.checked else 5) + ['namedtuple', 'typeddict', 'plain', 'plain']
            if not self.plain and not self.refs:
                kinds += ['enum']
            kind = rng.choice(kinds)
            earlier = others + names[:i]
            later = names[i + 1:]
            self.make_class(name, kind, earlier, later, future)
        if self.checked and not like:
            self.make_heirs(names)
            self.make_callables()
        if not self.refs:
            self.make_function('fun', names, future)
        return self

    def twin(self, name):
        """A class of the other module that refers to one of this name there."""
        if '_in.' + name in self.classes:
            for other, c in self.classes.items():
                if (c['kind'] == 'dataclass' and other != '_in.' + name
                        and f"'_in.{name}'" in repr(c['fields'])):
                    return other

    def make_inner(self, names):
        """Another module, with classes of the same names."""
        rng = self.rng
        inner = Gen(rng, self.name, plain=self.plain, refs=self.refs, sets=self.sets,
                    checked=True).make(names)
        src = ''.join(inner.lines)
        self.lines.append(
            "import sys, types\n_in = types.ModuleType(__name__ + '_in')\n"
            f"sys.modules[_in.__name__] = _in\nexec(compile({src!r}, _in.__name__, 'exec', "
            "dont_inherit=True), _in.__dict__)\n\n\n")

        def renamed(t):
            if t[0] == 'lit':
                return t
            if t[0] == 'cls':
                return ['cls', '_in.' + t[1]]
            return [t[0]] + [renamed(x) if isinstance(x, list) else x for x in t[1:]]
        out = []
        for name, c in inner.classes.items():
            if c['kind'] != 'function':
                self.classes['_in.' + name] = dict(
                    c, fields=[[f, renamed(t), d, fac] for f, t, d, fac in c['fields']])
                if 'made' in c:
                    self.classes['_in.' + name]['made'] = '_in.' + c['made']
                out.append('_in.' + name)
        return out

    def make_heirs(self, names):
        """Classes that inherit from those of the other module."""
        rng = self.rng
        for name, c in list(self.classes.items()):
            if (name[:4] != '_in.' or c['kind'] not in ('dataclass', 'plain', 'namedtuple')
                    or 'made' in c or rng.random() < .5):
                continue
            heir = 'H_' + name[4:]
            fields = list(c['fields'])
            src = f'class {heir}({name}):\n'
            if c['kind'] == 'dataclass' and rng.random() < .8:
                src = '@dataclasses.dataclass\n' + src
                if rng.random() < .6:  # along with references of this module
                    target = rng.choice([n for n in names if self.classes[n]['kind'] != 'function'])
                    t = rng.choice([['opt', ['cls', target]], ['opt', ['list', ['cls', target]]]])
                    ann = expr(t, {target} if rng.random() < .7 else None)
                    src += f'    own: {ann} = None\n'
                    fields.append(['own', t, 'None', False])
            self.lines.append(src + '    pass\n\n\n')
            self.classes[heir] = dict(c, fields=fields)

    def make_callables(self):
        """Other callables that make objects of the classes."""
        rng = self.rng
        for name, c in list(self.classes.items()):
            # not the initializers that dataclasses make for what they inherit
            # or is not a field, these have lost where it was written
            lost = c['kind'] == 'dataclass' and (c.get('initvars') or name[:2] == 'H_')
            if c['kind'] in ('dataclass', 'plain') and not lost and rng.random() < .2:
                called = f'functools.partial({name})'
                if rng.random() < .2:
                    called = f'functools.partial({called})'
                title = 'P_' + name.replace('.', '_')
                self.lines.append(f'{title} = {called}\n\n\n')
                self.classes[title] = dict(c, made=c.get('made', name))

    def make_local(self, names, earlier):
        """A class made by a function, maybe named like one of another module."""
        name = self.rng.choice([x for x in NAMES if x not in names])
        local = 'L_' + name
        before = len(self.lines)
        self.make_class(local, 'dataclass', earlier, [], False, called=name)
        src = ''.join(self.lines[before:])
        body = ''.join('    ' + line if line.strip() else line for line in src.splitlines(True))
        self.lines[before:] = [f'def _make():\n{body.rstrip()}\n    return {name}\n\n\n'
                               f'{local} = _make()\n\n\n']
        return [local]

    def make_class(self, name, kind, earlier, later, future, called=None):
        rng = self.rng
        usable = [c for c in earlier]
        title = called or name
        shown = {name: title} if self.checked else {}
        if kind == 'enum':
            vals = rng.choice([['1', '2', '3'], ["'x'", "'y'"], ["'1'", '2']])
            members = ['RED', 'GREEN', 'BLUE'][:len(vals)]
            self.lines.append(f'class {name}(enum.Enum):\n' + ''.join(
                f'    {m} = {v}\n' for m, v in zip(members, vals)) + '\n\n')
            self.classes[name] = dict(kind='enum', members=list(zip(members, vals)),
                                      fields=[], future=False)
            return
        nf = rng.randint(1, 4)
        fnames = rng.sample(FIELDS, nf)
        required, optional = [], []
        for f in fnames:
            selfref = rng.random() < (.55 if self.refs else .25)
            quote = None
            if selfref:
                target = rng.choice([name] + later * (1 + self.checked))
                t = self.wrap_ref(target)
                quote = {name, *later}
            elif called is None and (twin := self.twin(name)) and rng.random() < .4:
                t = rng.choice([['cls', twin], ['opt', ['cls', twin]], ['list', ['cls', twin]],
                                ['dict', ['cls', twin]]])
            else:
                t = self.tree(2, usable)
                quote = {c for c in usable if rng.random() < .2 and c[:4] != '_in.'}
            d, fac = None, None
            if rng.random() < .55 or (selfref and t[0] == 'opt'):
                if kind in ('dataclass',) and rng.random() < .5:
                    fac = self.factory(t, name, f)
                if fac is None:
                    d = self.default(t)
            whole = not called and rng.random() < .25  # the whole annotation as a string
            if whole and not future:
                ann = repr(expr(t, None, shown))
            else:
                ann = expr(t, None if future else quote, shown)
            entry = [f, t, fac[1] + '()' if fac else d, ann, fac]
            (optional if entry[2] is not None else required).append(entry)
        total = True
        if kind == 'typeddict':
            optional, required = [], required + optional
            for e in required:
                e[2] = e[4] = None
            total = rng.random() < .6
        fields = required + optional
        for e in fields:
            if e[4]:
                self.lines.append(e[4][0] + '\n\n')
        doc = f'    """A {title} of {self.name}."""\n' if rng.random() < .5 else ''
        instance = None
        if kind == 'dataclass':
            src = f'@dataclasses.dataclass\nclass {title}:\n{doc}'
            taken = []
            for f, t, d, ann, fac in fields:
                if self.checked and not called and not fac and rng.random() < .12:
                    taken.append(f)  # given to __post_init__ only
                    if ann[0] in '\'"' and rng.random() < .5 or future:
                        ann = f'dataclasses.InitVar[{ann}]'
                    elif ann[0] in '\'"':
                        ann = repr(f'dataclasses.InitVar[{ann[1:-1]}]')
                    else:
                        ann = f'dataclasses.InitVar[{ann}]'
                if fac:
                    src += f'    {f}: {ann} = dataclasses.field(default_factory={fac[1]})\n'
                elif d is not None:
                    src += f'    {f}: {ann} = {d}\n'
                else:
                    src += f'    {f}: {ann}\n'
            if taken:
                src += f'\n    def __post_init__(self, {", ".join(taken)}):\n' + ''.join(
                    f'        self.{f} = {f}\n' for f in taken)
            elif rng.random() < .3:
                src += '\n    def __post_init__(self):\n        self._sim_post = 1\n'
        elif kind == 'namedtuple':
            src = f'class {title}(NamedTuple):\n{doc}'
            for f, t, d, ann, fac in fields:
                src += f'    {f}: {ann}' + (f' = {d}\n' if d is not None else '\n')
        elif kind == 'typeddict':
            src = f'class {title}(TypedDict' + ('' if total else ', total=False') + f'):\n{doc}'
            for f, t, d, ann, fac in fields:
                src += f'    {f}: {ann}\n'
        else:
            args = ''.join(
                f', {f}: {ann}' + (f' = {d}' if d is not None else '')
                for f, t, d, ann, fac in fields)
            var = rng.random()
            extra = ', **kw: int' if var < .2 else ', *rest: int' if var < .3 else ''
            src = f'class {title}:\n{doc}    def __init__(self{args}{extra}):\n'
            style = rng.random() if self.checked else 1
            if style < .2:
                src = src.replace('__init__(self', '__new__(cls')
                src += '        self = super().__new__(cls)\n'
            elif style < .35 and not called:
                src = src.replace('__init__(self', '__call__(_')
                src += f'        self = {title}()\n'
            for f, *_ in fields:
                src += f'        self.{f} = {f}\n'
            if extra:
                v = extra.split('*')[-1].split(':')[0]
                src += f'        self.{v} = {v}\n'
            if style < .35:
                src += '        return self\n'
            if style >= .2 and style < .35 and not called:
                src += f'\n\nI_{name} = {title}()\n'
                instance = dict(made=name)
        self.lines.append(src + '\n\n')
        made = dict(
            kind=kind, total=total, future=future,
            fields=[[f, t, d, bool(fac)] for f, t, d, ann, fac in fields])
        if kind == 'dataclass' and taken:
            made['initvars'] = True
        if instance:
            self.classes['I_' + name] = dict(made, **instance)
            made['fields'] = []
        self.classes[name] = made

    def make_function(self, name, classes, future):
        rng = self.rng
        usable = [c for c in classes if self.classes[c]['kind'] != 'enum' or True]
        fields = []
        nf = rng.randint(1, 3)
        for f in rng.sample(FIELDS, nf):
            t = self.tree(2, usable)
            d = self.default(t) if rng.random() < .4 else None
            fields.append([f, t, d, False])
        fields.sort(key=lambda e: e[2] is not None)
        args = ', '.join(f'{f}: {expr(t)}' + (f' = {d}' if d is not None else '')
                         for f, t, d, _ in fields)
        self.lines.append(f'def {name}({args}):\n    return [{", ".join(f[0] for f in fields)}]\n\n\n')
        self.classes[name] = dict(kind='function', fields=fields, future=future)

    # -- inputs
    def element(self, t, depth=0, seq=True):
        """A matching input element (as a Python value)."""
        rng = self.rng
        k = t[0]
        if k == 'int':
            return rng.choice([0, 1, 2, 5, -4, '3', 10 ** 12])
        if k == 'float':
            return rng.choice([0.0, 1.5, -2, '2.25', 3])
        if k == 'str':
            return rng.choice(['', 'x', 'abc', 'true', 1, 'é'])
        if k == 'bool':
            return rng.choice([True, False, 'yes', 'false', 0, 1])
        if k == 'None':
            return None
        if k == 'any':
            return rng.choice([0, 'x', None, [1, [2, {'k': 3}]], {'a': {'b': [1]}}, True])
        if k == 'bytes':
            return rng.choice(['aGVq', 'AAEC', ''])
        if k == 'complex':
            return rng.choice([1.5, [1.0, 2.0], {'real': 1.0, 'imag': -1.0}])
        if k == 'slice':
            return rng.choice(['1:2', '::2', ':', [1, 5], {'start': 1, 'stop': 4}])
        if k == 'datetime':
            if t[1] == 'time':
                return rng.choice([{'hour': 4, 'minute': 2}, [3, 15]])
            if t[1] == 'date':
                return rng.choice([{'year': 2020, 'month': 2, 'day': 29}, [2021, 3, 4]])
            return rng.choice([1600000000, '1500000000.5', {'year': 2020, 'month': 2, 'day': 29},
                               [2021, 3, 4, 5]])
        if k == 'lit':
            x = rng.choice(t[1])
            if rng.random() < .4:  # written in another way
                x = rng.choice([str(x), str(x).lower(), {True: 'yes', False: 'no'}.get(x, x), x])
            return x
        if k == 'ann':
            if 'Half' in t[1]:
                return rng.choice([2, 4, '8'])
            if 'Populated' in t[1]:
                return [1, 2]
            if 'Upper' in t[1]:
                return 'abc'
            return rng.choice([1, 2, 3])
        if k in ('list', 'list_', 'seq', 'set', 'vtuple'):
            n = rng.choice([0, 1, 2, 2]) if depth < 5 else 0
            return [self.element(t[1], depth + 1) for _ in range(n)]
        if k == 'tuple':
            return [self.element(x, depth + 1) for x in t[1:]]
        if k in ('dict', 'map', 'ddict'):
            n = rng.choice([0, 1, 2]) if depth < 5 else 0
            return {key: self.element(t[1], depth + 1) for key in rng.sample(['k1', 'k2', 'k3'], n)}
        if k == 'opt':
            if depth > 4 or rng.random() < .35:
                return None
            return self.element(t[1], depth + 1)
        if k == 'union':
            alts = t[1:]
            if depth > 4:
                alts = [a for a in alts if a[0] in PRIMS + ['None']] or alts
            return self.element(rng.choice(alts), depth + 1)
        if k == 'cls':
            return self.class_element(t[1], depth + 1)
        raise AssertionError(t)

    def class_element(self, name, depth=0):
        rng = self.rng
        c = self.classes[name]
        if c['kind'] == 'enum':
            m, v = rng.choice(c['members'])
            return rng.choice([m, eval(v)])
        out = {}
        for f, t, d, fac in c['fields']:
            if d is not None and rng.random() < .5:
                continue
            if c['kind'] == 'typeddict' and not c.get('total', True) and rng.random() < .4:
                continue
            out[f] = self.element(t, depth + 1)
        full = len(out) == len(c['fields'])
        if full and c['kind'] not in ('typeddict',) and rng.random() < .15:
            return list(out.values())
        return out

    def corrupt(self, el):
        """An input element made wrong somewhere."""
        rng = self.rng
        if isinstance(el, dict) and el:
            el = dict(el)
            r = rng.random()
            key = rng.choice(list(el))
            if r < .3:
                del el[key]
            elif r < .5:
                el['nope'] = 1
            else:
                el[key] = self.corrupt(el[key])
            return el
        if isinstance(el, list) and el:
            el = list(el)
            i = rng.randrange(len(el))
            if rng.random() < .3:
                del el[i]
            else:
                el[i] = self.corrupt(el[i])
            return el
        return rng.choice(['not it', [[]], {'zz': 1}, None, -1.5, '???'])

    def value(self, t, depth=0):
        """Source of an expression for a Python value of the type."""
        rng = self.rng
        k = t[0]
        if k == 'int':
            return rng.choice(['0', '1', '-7', '12'])
        if k == 'float':
            return rng.choice(['0.5', '1.0', '-2.0'])
        if k == 'str':
            return rng.choice(["'x'", "''", "'abc'"])
        if k == 'bool':
            return rng.choice(['True', 'False'])
        if k == 'None':
            return 'None'
        if k == 'any':
            return rng.choice(['1', "'x'", '[1, [2]]', "{'k': 1}", 'None'])
        if k == 'bytes':
            return "b'ab'"
        if k == 'complex':
            return rng.choice(['(1+2j)', '(3+0j)'])
        if k == 'slice':
            return 'slice(1, 2)'
        if k == 'datetime':
            return {'datetime': 'datetime.datetime(2020, 1, 2, 3, 4)',
                    'date': 'datetime.date(2020, 1, 2)',
                    'time': 'datetime.time(3, 4)'}[t[1]]
        if k == 'lit':
            return repr(rng.choice(t[1]))
        if k == 'ann':
            return {'int': '2', 'str': "'x'", 'list': '[1]'}[t[2][0]]
        n = rng.choice([0, 1, 2]) if depth < 4 else 0
        if k in ('list', 'list_', 'seq'):
            return '[' + ', '.join(self.value(t[1], depth + 1) for _ in range(n)) + ']'
        if k == 'vtuple':
            return '(' + ''.join(self.value(t[1], depth + 1) + ', ' for _ in range(n)) + ')'
        if k == 'set':
            return '{' + self.value(t[1], depth + 1) + '}'
        if k == 'tuple':
            return '(' + ''.join(self.value(x, depth + 1) + ', ' for x in t[1:]) + ')'
        if k in ('dict', 'map', 'ddict'):
            body = '{' + ', '.join(f"'k{i}': " + self.value(t[1], depth + 1) for i in range(n)) + '}'
            return f'collections.defaultdict(int, {body})' if k == 'ddict' else body
        if k == 'opt':
            return 'None' if depth > 3 or rng.random() < .4 else self.value(t[1], depth + 1)
        if k == 'union':
            alts = t[1:]
            if depth > 3:
                alts = [a for a in alts if a[0] in PRIMS + ['None']] or alts
            return self.value(rng.choice(alts), depth + 1)
        if k == 'cls':
            c = self.classes[t[1]]
            if c['kind'] == 'enum':
                return f"{t[1]}.{c['members'][0][0]}"
            args = ', '.join(
                f'{f}={self.value(ft, depth + 1)}' for f, ft, d, fac in c['fields']
                if d is None or rng.random() < .6)
            return f'{t[1]}({args})'
        raise AssertionError(t)

    def marshalable(self, name, seen=()):
        if name in seen:
            return True
        c = self.classes[name]
        if c['kind'] == 'plain':
            return False

        def ok(t):
            if t[0] == 'cls':
                return self.marshalable(t[1], seen + (name,))
            return all(ok(x) for x in t[1:] if isinstance(x, list) and t[0] != 'lit')

        return all(ok(f[1]) for f in c['fields'])

    # -- calls
    def expected(self, t):
        return {'tree': t} if self.checked else {}

    def call(self, ops=None):
        rng = self.rng
        names = [n for n, c in self.classes.items() if c['kind'] != 'function']
        op = rng.choice(ops or (
            ['unmarshal'] * 8 + ['cast', 'marshal', 'marshal', 'str', 'doc', 'help', 'select',
                                 'default', 'unmarshal_args', 'cast_args', 'unmarshal_kw']))
        if op in ('unmarshal_args', 'cast_args'):
            funs = [n for n, c in self.classes.items() if c['kind'] in ('function', 'dataclass', 'plain')]
            if not funs:
                op = 'unmarshal'
            else:
                f = rng.choice(funs)
                if op == 'unmarshal_args':
                    el = self.class_element(f)
                    if rng.random() < .2:
                        el = self.corrupt(el)
                    return dict(u=self.name, op=op, t=f, a=[repr(el)])
                el = self.class_element(f)
                return dict(u=self.name, op=op, t=f, a=[repr(el)])
        if op in ('marshal', 'cast', 'cast_args'):
            names = [n for n in names if self.marshalable(n)] or names
        base = ['cls', rng.choice(names)]
        r = rng.random()
        if r < .55:
            t = base
        elif r < .8 or self.refs:
            t = rng.choice([['list', base], ['list_', base], ['opt', base], ['dict', base],
                            ['map', base], ['vtuple', base], ['tuple', base, ['int']]]
                           + ([] if self.plain else [['union', base, ['int']],
                                                     ['union', ['int'], base],
                                                     ['ddict', base],
                                                     ['union', ['str'], base]]))
        else:
            t = self.tree(2, names)
        e = expr(t)
        if op in ('str', 'doc', 'help'):
            return dict(u=self.name, op=op, t=e, a=[str(rng.randint(0, 3))])
        if op == 'select':
            c = self.classes[base[1]]
            path = rng.choice([f[0] for f in c['fields']] or ['x'])
            if rng.random() < .3:
                path += '.' + rng.choice(FIELDS)
            return dict(u=self.name, op=op, t=base[1], a=[repr(path)])
        if op == 'default':
            dt = rng.choice([['int'], ['bool'], ['float'], ['any'], ['opt', base], ['any']])
            return dict(u=self.name, op=op, t=expr(dt),
                        a=[rng.choice(['0', 'False', '0.0', '1', 'True', "''", 'None', '()'])])
        if op in ('marshal',):
            return dict(u=self.name, op=op, t='None', a=[self.value(t)])
        if op == 'cast':
            return dict(u=self.name, op=op, t=e, a=[self.value(t)], **self.expected(t))
        el = self.element(t)
        if op == 'unmarshal_kw':
            if t[0] == 'cls' and isinstance(el, dict) and el and self.classes[t[1]]['kind'] != 'enum':
                keys = [k for k in el]
                kw = {k: el.pop(k) for k in keys[:1]}
                return dict(u=self.name, op=op, t=e, a=[repr(el), repr(kw)])
            op = 'unmarshal'
        if rng.random() < .25:
            el = self.corrupt(el)
        elif self.checked and op == 'unmarshal':
            return dict(u=self.name, op=op, t=e, a=[repr(el)], **self.expected(t))
        if op == 'unmarshal' and 'DefaultDict' in e and rng.random() < .5:
            op = 'touch'
        return dict(u=self.name, op=op, t=e, a=[repr(el)])


def random_universe(seed, name, ncalls=24, plain=False, refs=False, ops=None, sets=True,
                    checked=False):
    g = Gen(random.Random(seed), name, plain=plain, refs=refs, sets=sets, checked=checked).make()
    calls = [g.call(ops) for _ in range(ncalls)]
    if checked:
        g.lines.append(f'_CLASSES = {g.classes!r}\n')
    return Universe(name, ''.join(g.lines), g.classes, calls)


TYPES = dict(int=int, float=float, str=str, bool=bool, list=(list, tuple), list_=(list, tuple),
             seq=(list, tuple), vtuple=tuple, tuple=tuple, dict=dict, map=collections.abc.Mapping)
NO_ELEMENT = object()


def misfit(value, t, el, mod, where='result'):
    """What of a result is not as the type and the element say, or None.

    Only for types made with plain=True. el: NO_ELEMENT if there is none.
    """
    k = t[0]
    if k == 'opt':
        if value is None:
            return None if el is None or el is NO_ELEMENT else f'{where} is None'
        if el is None:
            return f'{where} is {value!r} for None'
        return misfit(value, t[1], el, mod, where)
    if k == 'cls':
        return class_misfit(value, t[1], el, mod, where)
    if not isinstance(value, TYPES[k]):
        return f'{where} is {value!r}, not {expr(t)}'
    if k in PRIMS:
        return None
    if k in ('dict', 'map'):
        if el is not NO_ELEMENT and list(value) != list(el):
            return f'{where} has the keys {list(value)}'
        subs = [(value[x], t[1], NO_ELEMENT if el is NO_ELEMENT else el[x], f'{where}[{x!r}]') for x in value]
    else:
        if el is not NO_ELEMENT and len(el) != len(value) or k == 'tuple' and len(value) != len(t) - 1:
            return f'{where} has {len(value)} items'
        subs = [(x, t[i + 1] if k == 'tuple' else t[1], NO_ELEMENT if el is NO_ELEMENT else el[i],
                 f'{where}[{i}]') for i, x in enumerate(value)]
    return next(filter(None, (misfit(x, u, e, mod, w) for x, u, e, w in subs)), None)


def class_misfit(value, name, el, mod, where):
    c = mod._CLASSES[name]
    if c['kind'] == 'typeddict':
        if type(value) is not dict:
            return f'{where} is {value!r}, not a dict'
        got = value
    else:
        cls = mod
        for part in c.get('made', name).split('.'):
            cls = getattr(cls, part)
        if type(value) is not cls:
            return f'{where} is of type {type(value)!r}, not the {cls!r} meant'
        got = {f[0]: getattr(value, f[0], NO_ELEMENT) for f in c['fields']}
    if isinstance(el, (list, tuple)):
        el = dict(zip([f[0] for f in c['fields']], el))
    for f, t, default, made in c['fields']:
        if f not in got or got[f] is NO_ELEMENT:
            if c['kind'] == 'typeddict' and (el is NO_ELEMENT or f not in el):
                continue
            return f'{where}.{f} is not there'
        given = el is not NO_ELEMENT and f in el
        if el is not NO_ELEMENT and not given:
            if c['kind'] == 'typeddict':
                return f'{where}.{f} comes from nowhere'
            continue
        bad = misfit(got[f], t, el[f] if given else NO_ELEMENT, mod, f'{where}.{f}')
        if bad:
            return bad
    return None
