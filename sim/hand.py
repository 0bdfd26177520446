"""Hand-written universes: the parts of the API random universes do not reach."""
import random

from .univ import PRELUDE

TYPES = PRELUDE + '''
import omegaconf
from marsh.parse import override as parse_override

class Twice(marsh.annotation.Annotation):
    def __call__(self, value):
        return value + value


_T = TypeVar('_T')
_B = TypeVar('_B', bound='Base')
_C = TypeVar('_C', int, str)


@dataclasses.dataclass
class Base:
    """The base.

    Attributes:
        x: The x of it.
    """
    x: int = 1
    y: 'Optional[Base]' = None


@dataclasses.dataclass
class Child(Base):
    z: List['Child'] = dataclasses.field(default_factory=list)


@dataclasses.dataclass
class Deep:
    a: Optional['Deep'] = None
    b: Tuple['Deep', ...] = ()
    c: Dict[str, 'Deep'] = dataclasses.field(default_factory=dict)
    d: 'Union[int, List[Deep], None]' = None
    e: Optional[Base] = None


class Ping:
    def __init__(self, pong: Optional['Pong'] = None, *rest: int, k: float = 0.0, **kw: 'Base'):
        self.pong, self.rest, self.k, self.kw = pong, rest, k, kw


class Pong:
    def __init__(self, ping: Optional[Ping] = None):
        self.ping = ping


class Color(enum.Enum):
    RED = 1
    GREEN = 'g'
    BLUE = None


class Point(NamedTuple):
    x: float
    y: float = 0.0
    tags: Tuple[str, ...] = ()


class TD(TypedDict, total=False):
    """A typed dict."""
    a: int
    b: 'List[TD]'


class Bag:
    """Duck-typed mapping."""

    def __init__(self, value):
        self.d = dict(value)

    def __getitem__(self, key: str) -> int:
        return self.d[key]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def keys(self):
        return self.d.keys()

    def values(self):
        return self.d.values()

    def items(self):
        return self.d.items()

    def __contains__(self, key):
        return key in self.d

    def get(self, key, default=None):
        return self.d.get(key, default)


class Row:
    """Duck-typed sequence."""

    def __init__(self, value):
        self.l = list(value)

    def __getitem__(self, index) -> float:
        return self.l[index]

    def __iter__(self):
        return iter(self.l)

    def __len__(self):
        return len(self.l)

    def __contains__(self, x):
        return x in self.l

    def __reversed__(self):
        return reversed(self.l)

    def index(self, *args):
        return self.l.index(*args)

    def count(self, x):
        return self.l.count(x)


class Loose:
    def __iter__(self):
        return iter([1, 'x', None])


@runtime_checkable
class Closeable(Protocol):
    def close(self) -> None: ...


@runtime_checkable
class Lenny(Protocol):
    def __len__(self) -> int: ...


def fn(a: int, /, b: Base, *args: 'Child', c: Literal['x', 1, True] = 'x',
       d: DefaultDict[str, List[int]] = None, **kw: Union[int, str]) -> None:
    """A function."""
    return [a, b, args, c, d, kw]


part = functools.partial(fn, 3, c=1)


def ann(a: Annotated[int, Half()], b: Annotated[List[int], marsh.annotation.Populated] = (),
        c: 'Annotated[str, Upper()]' = 'q'):
    return [a, b, c]


def log(l: logging.Logger, t: datetime.date = datetime.date(2020, 1, 2)):
    return [l, t]


def merged(a, b, concatenate=False):
    return marsh.element.merge(a, b, concatenate=concatenate)


def parsed(*strings):
    element = {}
    for s in strings:
        element = parse_override(s).apply(element) if hasattr(
            parse_override(s), 'apply') else parse_override(s)
    return element


def paths(p, f):
    return [list(marsh.path.split(p)), marsh.path.append(p, f), marsh.path.prepend(p, f),
            marsh.path.head(p), marsh.path.tail(p), marsh.path.escape_field(f)]


def conf(d):
    return omegaconf.OmegaConf.create(d)


class Moody:
    def __init__(self, x: int = 4):
        self.x = x


class Many:
    def __init__(self, items: Annotated[List[int], Twice()] = (1, 2)):
        self.items = items


@dataclasses.dataclass
class Moods:
    by_name: DefaultDict[str, Union[Moody, int, str]]
    lists: 'Optional[DefaultDict[str, Optional[Many]]]' = None


class Scale(enum.Enum):
    SMALL = 1
    ONE = True
    TEXT = '1'
    MANY = 'small'


@dataclasses.dataclass
class Choice:
    lit: Literal[1, True, 'yes', 0, False] = 1
    either: Union[bool, int, float, str] = 0
    other: Union[str, bool, int] = ''
    scale: Optional[Scale] = None
    all: Sequence[Union[Literal['1', 1], 'Choice', Scale, List[bool]]] = ()


Alias = Dict[str, Optional[Base]]
'''


def c(op, t, *a, u):
    return dict(u=u, op=op, t=t, a=list(a))


VALUES = [1, True, 'true', 'yes', 0, False, 'no', '1', 1.0, '1.0', 'x', None, 'small', 'SMALL', 'ONE']
CHOICES = ([{f: v} for f in ('lit', 'either', 'other', 'scale') for v in VALUES[:9]] +
           [{'all': [VALUES[i], VALUES[-i]]} for i in range(1, 9)] +
           [{'all': [{'lit': v, 'scale': w}]} for v, w in zip(VALUES, VALUES[::-1])])


def types_calls(u):
    specs = [
        ('unmarshal', 'Base', "{'x': '3', 'y': {'x': 2}}"),
        ('unmarshal', 'Base', "{'x': 'no'}"),
        ('unmarshal', 'Child', "{'z': [{'x': 1, 'z': [{}]}], 'y': {'y': {'x': 9}}}"),
        ('unmarshal', 'Child', "{'z': [{'x': 1, 'z': [{'z': 4}]}]}"),
        ('unmarshal', 'Deep', "{'a': {'a': {'b': [{}, {'c': {'k': {'d': 4}}}]}}, 'd': [{'d': 1}]}"),
        ('unmarshal', 'Deep', "{'a': {'a': {'b': [{}, {'c': {'k': {'d': 'zz'}}}]}}}"),
        ('unmarshal', 'Deep', "{'c': {'k': {'e': {'y': {'x': 'bad'}}}}}"),
        ('s_unmarshal', 'Deep', "{'a': {'a': {'b': [{}, {'c': {'k': {'d': 4}}}]}}, 'd': [{'d': 1}]}"),
        ('s_unmarshal', 'Deep', "{'c': {'k': {'e': {'y': {'x': 'bad'}}}}}"),
        ('s_unmarshal', 'Optional[Deep]', "{'b': [{'e': {'x': 2}}]}"),
        ('s_unmarshal', 'Optional[Deep]', "None"),
        ('s_doc', 'Deep', '3'),
        ('s_str', 'Optional[Deep]'),
        ('s_unmarshal', 'List[Annotated[Deep, marsh.annotation.Annotation]]', "[{'a': {}}]"),
        ('s_unmarshal', 'List[Annotated[Deep, marsh.annotation.Annotation]]', "[{'q': {}}]"),
        ('unmarshal', 'Ping', "{'pong': {'ping': {'pong': {}}}, 'k': 2, 'zz': {'x': 3}}"),
        ('unmarshal', 'Ping', "[{'ping': {'pong': None}}, 3, 4]"),
        ('unmarshal', 'Pong', "{'ping': {'pong': {'ping': {'pong': {'pung': 1}}}}}"),
        ('unmarshal', 'Color', "'GREEN'"),
        ('unmarshal', 'Color', "1"),
        ('unmarshal', 'Color', "'nope'"),
        ('unmarshal', 'Optional[Color]', "None"),
        ('unmarshal', 'Point', "{'x': 1, 'tags': ['a', 'b']}"),
        ('unmarshal', 'Point', "[1, 2, ['q']]"),
        ('unmarshal', 'Point', "[1, 2, ['q'], 4]"),
        ('unmarshal', 'TD', "{'b': [{'a': 1}, {'b': [{}]}]}"),
        ('unmarshal', 'TD', "{'b': [{'a': 1}, {'b': [{'z': 1}]}]}"),
        ('unmarshal', 'Bag', "{'a': 1, 'b': '2'}"),
        ('unmarshal', 'Row', "[1, '2.5']"),
        ('unmarshal', 'Closeable', "1"),
        ('unmarshal', 'Lenny', "'abc'"),
        ('unmarshal', 'Lenny', "[1, 2]"),
        ('unmarshal', 'SupportsFloat', "'1.5'"),
        ('unmarshal', 'SupportsInt', "'7'"),
        ('unmarshal', 'numbers.Number', "3"),
        ('unmarshal', '_B', "{'x': 4}"),
        ('unmarshal', '_C', "'abc'"),
        ('unmarshal', 'List[_C]', "[1, 'abc']"),
        ('unmarshal', '_T', "4"),
        ('unmarshal', 'object', "{}"),
        ('unmarshal', 'Alias', "{'a': {'x': 1}, 'b': None}"),
        ('unmarshal', 'List[Union[int, str]]', "[1, '1', 'x', 2.5]"),
        ('unmarshal', 'List[Union[str, int]]', "[1, '1', 'x', 2.5]"),
        ('unmarshal', 'Union[int, str]', "1"),
        ('unmarshal', 'Union[str, int]', "1"),
        ('unmarshal', 'Union[bool, int]', "1"),
        ('unmarshal', 'Union[int, bool]', "1"),
        ('unmarshal', 'Literal[1, True]', "True"),
        ('unmarshal', 'Literal[True, 1]', "1"),
        ('unmarshal', 'Literal[0]', "False"),
        ('unmarshal', 'Literal[False]', "0"),
        ('unmarshal', 'DefaultDict[str, Base]', "{'a': {'x': 5}}"),
        ('unmarshal', 'DefaultDict[str, List[int]]', "{'a': [1]}"),
        ('unmarshal', 'DefaultDict[str, Dict[str, Color]]', "{}"),
        ('touch', 'DefaultDict[str, Union[Moody, int, str]]', "{'a': {'x': 4}}"),
        ('touch', 'List[DefaultDict[str, Union[Annotated[int, Half()], str]]]', "[{}, {'a': 4}]"),
        ('touch', 'DefaultDict[str, Union[Many, List[int]]]', "{'a': [3]}"),
        ('touch', 'DefaultDict[str, DefaultDict[str, Moody]]', "{'q': {}}"),
        ('touch', 'Moods', "{'by_name': {}, 'lists': {}}"),
        ('touch', 'List[Moods]', "[{'by_name': {}}, {'by_name': {'k': 'x'}, 'lists': {}}]"),
        *(('unmarshal', 'Choice', repr(el)) for el in CHOICES),
        ('unmarshal', 'Annotated[int, Half()]', "6"),
        ('unmarshal', 'Annotated[int, Half()]', "7"),
        ('unmarshal', 'Annotated[int, Half, marsh.annotation.Positive]', "6"),
        ('unmarshal', 'List[Annotated[int, Half]]', "[6, 8, 9]"),
        ('unmarshal', 'Annotated[List[int], marsh.annotation.Populated]', "[]"),
        ('unmarshal', 'bytes', "'AAEC'"),
        ('unmarshal', 'complex', "[1, 2]"),
        ('unmarshal', 'datetime.datetime', "1600000000"),
        ('unmarshal', 'datetime.date', "{'year': 2020, 'month': 2, 'day': 30}"),
        ('unmarshal', 'slice', "'1:2:3'"),
        ('unmarshal', 'logging.Logger', "'simx'"),
        ('unmarshal', 'functools.partial(fn, 1)', "{'b': {'x': 1}}"),
        ('unmarshal', 'part', "{'b': {'x': 1}, 'zz': 'q'}"),
        ('unmarshal_args', 'fn', "{'a': 1, 'b': {}, 'c': True, 'zz': 1}"),
        ('unmarshal_args', 'fn', "[1, {'x': 2}, {'z': [{}]}, {'z': 3}]"),
        ('unmarshal_args', 'ann', "{'a': 4, 'b': [1], 'c': 'abc'}"),
        ('unmarshal_args', 'ann', "{'a': 5}"),
        ('unmarshal_args', 'log', "{'l': {'name': 'sim.x'}}"),
        ('cast_args', 'fn', "{'a': 1, 'b': Base(4)}"),
        ('unmarshal_kw', 'Base', "{'x': 3}", "{'y': Base(5)}"),
        ('unmarshal_kw', 'Base', "marsh.MISSING", "{'x': 5}"),
        ('cast', 'Child', "Base(3, Base(4))"),
        ('cast', 'Dict[str, int]', "Point(1, 2)"),
        ('cast', 'Row', "(1, 2)"),
        ('marshal', 'None', "Deep(a=Deep(c={'k': Deep()}), e=Child(z=[Child()]))"),
        ('marshal', 'None', "[Color.RED, Color.BLUE, Point(1.0), Bag({'a': 1}), Row([1.0])]"),
        ('marshal', 'None', "Loose()"),
        ('marshal', 'None', "{'s': slice(1, 2), 'c': 1+2j, 'b': b'x', 'd': datetime.date(2020, 1, 2)}"),
        ('marshal', 'None', "conf({'a': '${b}', 'b': [1, 2]})"),
        ('marshal', 'None', "[object()]"),
        ('marshal', 'None', "logging.getLogger('simq')"),
        ('str', 'Deep'), ('str', 'fn'), ('str', 'Union[int, List[Base], None]'), ('str', 'Color'),
        ('str', 'Literal[1, "x"]'), ('str', 'DefaultDict[str, List[int]]'),
        ('doc', 'Deep', '4'), ('doc', 'Child', '2'), ('doc', 'fn', '3'), ('doc', 'Point', '1'),
        ('doc', 'TD', '2'), ('doc', 'Union[Base, Child]', '2'), ('doc', 'ann', '2'),
        ('help', 'Deep', '2'), ('help', 'fn', '3'), ('help', 'Ping', '2'), ('help', 'Color', '1'),
        ('rst', 'marsh.schema.UnmarshalSchema'), ('rst', 'marsh.schema.MarshalSchema'),
        ('select', 'Deep', "'a.b'"), ('select', 'Deep', "'e.y.x'"), ('select', 'Deep', "'e.q'"),
        ('select', 'fn', "'b.x'"), ('select', 'fn', "'args.z'"),
        ('default', 'int', '0'), ('default', 'int', 'False'), ('default', 'bool', '0'),
        ('default', 'bool', 'False'), ('default', 'float', '0.0'), ('default', 'float', '0'),
        ('default', 'Any', '()'), ('default', 'Any', '1'), ('default', 'Any', 'True'),
        ('default', 'Optional[Base]', 'None'), ('default', 'Color', 'Color.RED'),
        ('fn', 'merged', "{'a': {'b': [1]}, 'c': 1}", "{'a': {'b': [2], 'd': {}}}"),
        ('fn', 'merged', "{'a': {'b': [1]}, 'c': 1}", "{'a': {'b': [2], 'd': {}}}", 'True'),
        ('fn', 'marsh.element.override', "{'a': [1, {'b': 2}]}", "5", "'a.1.b'"),
        ('fn', 'marsh.element.override', "{'a': [1, {'b': [2]}]}", "[5]", "'a.1.b'", 'True'),
        ('fn', 'marsh.element.override', "{'a': [1]}", "5", "'a.4'"),
        ('fn', 'marsh.element.remove', "{'a': [1, {'b': 2}]}", "'a.1.b'"),
        ('fn', 'marsh.element.remove', "{'a': [1, {'b': 2}]}", "'a.1.c'"),
        ('fn', 'marsh.element.select', "{'a': [1, {'b': 2}]}", "'a.1.b'"),
        ('fn', 'marsh.element.select', "{'a': [1, {'b': 2}]}", "'a.7'"),
        ('fn', 'marsh.element.standardize', "{1: (Row([1]), {'x': Bag({'q': 1})})}"),
        ('fn', 'marsh.element.has_missing', "{'a': [1, marsh.MISSING]}"),
        ('fn', 'marsh.element.resolve', "{'a': '${b.0}', 'b': [1, 2], 'c': {'d': '${a}'}}"),
        ('fn', 'marsh.element.resolve', "{'a': '${nope}'}"),
        ('fn', 'paths', "'a.b\\\\.c'", "'d.e'"),
        ('fn', 'paths', "''", "'x'"),
        ('fn', 'parse_override', "'a.b={c: [1, \"x y\", null], d: true}'"),
        ('fn', 'parse_override', "'a+=[1, 2]'"),
        ('fn', 'parse_override', "'~a.b'"),
        ('fn', 'parse_override', "'a=[1, {b: 2]'"),
        ('fn', 'parse_override', "'=='"),
        ('fn', 'marsh.parse.element', "'{a: [1, 2.5, \"x\"], b: {c: }}'"),
        ('fn', 'marsh.parse.element', "'[1, [2, [3, {x: y}]]]'"),
        ('fn', 'marsh.utils.get_closest', "'abx'", "['abc', 'abd', 'zzz']"),
    ]
    return [c(s[0], s[1], *s[2:], u=u) for s in specs]


MISC = PRELUDE + '''
import abc, decimal, fractions, pathlib, uuid
from typing_extensions import NotRequired, Required

_T = TypeVar('_T')
_K = TypeVar('_K')
Id = NewType('Id', int)
Ids = NewType('Ids', List[int])


class Box(Generic[_T]):
    def __init__(self, item: _T, more: Optional[List[_T]] = None):
        self.item, self.more = item, more


@dataclasses.dataclass
class Pair(Generic[_K, _T]):
    \"\"\"Two of them.

    Args:
        key: The key of it.
        value: The value of it,
            on two lines.
    \"\"\"
    key: _K
    value: _T
    kin: 'Optional[Pair[_K, _T]]' = None


class IntBox(Box[int]):
    pass


class Size(enum.IntEnum):
    S = 1
    SMALL = 1
    M = 2


class Mode(enum.Flag):
    R = 1
    W = 2


class Word(str, enum.Enum):
    A = 'a'
    B = 'A'


Old = collections.namedtuple('Old', 'p q', defaults=[7])


class Movie(TypedDict):
    title: str
    year: NotRequired[int]


class Sequel(Movie, total=False):
    of: Required[Movie]
    cast: List[str]


@dataclasses.dataclass(frozen=True)
class Frozen:
    a: int
    b: Tuple[int, ...] = ()


@dataclasses.dataclass
class Wide:
    \"\"\"With every kind of field.

    Attributes:
        a: First.
        total: Not given.
    \"\"\"
    kind: ClassVar[str] = 'wide'
    a: int = 1
    b: dataclasses.InitVar[Optional[int]] = None
    total: int = dataclasses.field(init=False, default=0)
    c: Any = dataclasses.field(default=None, repr=False)
    d: List['Frozen'] = dataclasses.field(default_factory=list)

    def __post_init__(self, b):
        self.total = self.a + (b or 0)


@dataclasses.dataclass
class Named:
    x: int
    y: 'Named.Inner'
    z: int = dataclasses.field(default=3, kw_only=True)

    @dataclasses.dataclass
    class Inner:
        up: Optional['Named'] = None


@dataclasses.dataclass
class Narrow(Wide):
    a: Literal[1, 2] = 2
    e: Tuple[()] = ()


class Made:
    \"\"\"A class.

    :param int a: The a.
    :param b: The b.
    \"\"\"

    def __init__(self, a, b: 'float' = 2, *, c: Optional['Made'] = None):
        self.a, self.b, self.c = a, b, c

    @classmethod
    def parse(cls, a: int, /, *more: Frozen) -> 'Made':
        return cls(a, len(more))

    @staticmethod
    def stat(x: Size = Size.M, *, y: Mapping[str, 'Size'] = {}):
        return [x, dict(y)]

    def method(self, x: 'Optional[Made]' = None):
        return [self.a, x]


class Abstract(abc.ABC):
    @abc.abstractmethod
    def f(self): ...


class Concrete(Abstract):
    def __init__(self, x: int = 1):
        self.x = x

    def f(self):
        return 1


class New:
    def __new__(cls, x: int, y: str = 'q'):
        self = object.__new__(cls)
        self.x, self.y = x, y
        return self


class Slots:
    __slots__ = ('x',)

    def __init__(self, x: Optional['Slots'] = None):
        self.x = x


class Meta(type):
    def __call__(cls, *args, **kwargs):
        self = super().__call__(*args, **kwargs)
        self.meta = True
        return self


class WithMeta(metaclass=Meta):
    def __init__(self, x: List[int]):
        self.x = x


class Called(type):
    def __call__(cls, x: 'int', y: 'Optional[Later]' = None, z: Optional['Later'] = None):
        self = super().__call__()
        self.x, self.y, self.z = x, y, z
        return self


class CalledToo(metaclass=Called):
    pass


class NewText:
    def __new__(cls, x: 'int', y: 'Optional[NewText]' = None, z: Optional['Later'] = None):
        self = object.__new__(cls)
        self.x, self.y, self.z = x, y, z
        return self


class Caller:
    def __init__(self, a: int = 1):
        self.a = a

    def __call__(self, x: 'int', y: 'List[Later]' = (), z: Optional['Caller'] = None):
        return [self.a, x, y, z]


@dataclasses.dataclass
class Taken:
    x: dataclasses.InitVar['Later']
    y: List['Later']
    z: 'dataclasses.InitVar[Optional[Taken]]' = None

    def __post_init__(self, x, z):
        self.x, self.z = x, z


@dataclasses.dataclass
class Later:
    n: 'Annotated[int, Half()]' = 0


class NamedHalf(NamedTuple):
    n: Annotated[int, Half]
    m: 'Annotated[List[int], marsh.annotation.Populated]' = (1,)


class TypedHalf(TypedDict, total=False):
    n: Required[Annotated[int, Half]]
    m: Annotated[List[int], marsh.annotation.Populated]


def texts(a: 'Annotated[int, Half()]', b: 'Later' = None, *c: 'Later', d: Optional['Later'] = None, **e: 'int'):
    return [a, b, c, d, e]


part_texts = functools.partial(texts)
part_later = functools.partial(texts, 3, d=4)
part_part = functools.partial(functools.partial(NewText), z=None)
caller = Caller(4)
part_caller = functools.partial(caller)


class Ints(List[int]):
    pass


class Table(Dict[str, 'Frozen']):
    pass


class Stack(collections.UserList):
    pass


def ints(*a: int, **k: Id):
    return [a, k]


def deep(a: Dict[str, Dict[str, Tuple[Frozen, ...]]], b: Sequence[Sequence[Box[int]]] = ()):
    return [a, b]


def described(text, note):
    @dataclasses.dataclass
    class Told:
        a: int = 1

    class Plain:
        def __init__(self, a: int, b: Optional[str] = None):
            self.__dict__.update(a=a, b=b)

    for cls in (Told, Plain):
        cls.__doc__ = f'{text}.' + chr(10) * 2 + 'Arguments:' + chr(10) + f'    a: {note}.' + chr(10)
    return [Told, Plain]


told_one, plain_one = described('One', 'first')
told_two, plain_two = described('Two', 'second')
told_three, plain_three = described('Three', '')


made = Made(9)
half = functools.partial(Made, b=4)


def both_ways(value):
    return [marsh.marshal(value), marsh.cast(Any, value)]
'''

FROZEN = ["{'a': 1}", "{'a': '2', 'b': [3, '4', 3]}", "{'a': 1, 'b': [1, 'x']}", "[5, [6]]"]


def misc_calls(u):
    specs = [
        *(('unmarshal', t, el) for t in ('Frozen', 'List[Frozen]', 'Optional[Frozen]')
          for el in FROZEN + ['[{"a": 1}, {"a": 2, "b": [1]}]']),
        *(('unmarshal', f'Box[{t}]', "{'item': '1', 'more': ['2', 3]}")
          for t in ('int', 'str', 'Box[int]', 'bool', 'Id', 'List[int]')),
        ('unmarshal', 'Box[Box[int]]', "{'item': {'item': 3}, 'more': [{'item': 'x'}]}"),
        ('unmarshal', 'Box[Box[int]]', "{'item': {'item': 3}, 'more': [{'item': '4'}]}"),
        ('unmarshal', 'Box', "{'item': '1', 'more': ['2', 3]}"),
        ('unmarshal', 'IntBox', "{'item': '1', 'more': ['2', 3]}"),
        ('unmarshal', 'Pair[str, int]', "{'key': 1, 'value': '2', 'kin': {'key': 3, 'value': 4}}"),
        ('unmarshal', 'Pair[int, str]', "{'key': 1, 'value': '2', 'kin': {'key': 3, 'value': 4}}"),
        ('unmarshal', 'Pair[int, Frozen]', "{'key': 1, 'value': {'a': 'x'}}"),
        ('unmarshal', 'Id', "'4'"), ('unmarshal', 'Ids', "[1, '2']"), ('unmarshal', 'List[Id]', "['x']"),
        ('unmarshal', 'Size', "'SMALL'"), ('unmarshal', 'Size', '1'), ('unmarshal', 'Size', "'S'"),
        ('unmarshal', 'Size', "'L'"), ('unmarshal', 'Dict[str, Size]', "{'a': 2, 'b': 'M'}"),
        ('unmarshal', 'Mode', "'R'"), ('unmarshal', 'Mode', '3'), ('unmarshal', 'Word', "'A'"),
        ('unmarshal', 'Word', "'a'"), ('unmarshal', 'Union[Size, Word]', "'A'"),
        ('unmarshal', 'Union[Word, Size]', "1"), ('unmarshal', 'Union[int, Size]', "'M'"),
        ('unmarshal', 'Old', "{'p': 1}"), ('unmarshal', 'Old', "[1, {'x': 2}]"),
        ('unmarshal', 'Movie', "{'title': 'x'}"), ('unmarshal', 'Movie', "{'year': 3}"),
        ('unmarshal', 'Movie', "{'title': 'x', 'yaer': 3}"),
        ('unmarshal', 'Sequel', "{'title': 'x', 'of': {'title': 'y', 'year': 4}, 'cast': ['a']}"),
        ('unmarshal', 'Sequel', "{'title': 'x', 'cast': 4}"),
        ('unmarshal', 'Wide', "{'a': 2, 'b': 3, 'c': {'x': [1]}, 'd': [{'a': 1}]}"),
        ('unmarshal', 'Wide', "{'total': 3}"), ('unmarshal', 'Wide', "[1, 2]"),
        ('unmarshal', 'Narrow', "{'a': 3}"), ('unmarshal', 'Narrow', "{'e': [], 'b': 4}"),
        ('unmarshal', 'Narrow', "{'e': [1]}"),
        ('unmarshal', 'Named', "{'x': 1, 'y': {'up': {'x': 2, 'y': {}, 'z': 4}}}"),
        ('unmarshal', 'Named', "{'x': 1, 'y': {'up': {'x': 2, 'y': {'down': 1}}}}"),
        ('unmarshal', 'Made', "{'a': [1], 'b': '3', 'c': {'a': None}}"),
        ('unmarshal', 'Made', "{'b': 1}"), ('unmarshal', 'Made', "[1, 'x']"),
        ('unmarshal', 'half', "{'a': 1}"), ('unmarshal', 'half', "{'a': 1, 'b': 7, 'c': {'a': 1}}"),
        ('unmarshal_args', 'Made.parse', "[1, {'a': 2}]"), ('unmarshal_args', 'Made.stat', "{'x': 'S'}"),
        ('unmarshal_args', 'Made.stat', "{'y': {'k': 1}}"), ('unmarshal_args', 'Made.parse', "{'a': 3}"),
        ('unmarshal_args', 'made.method', "{'x': {'a': 3}}"),
        ('unmarshal_args', 'ints', "['1', 2]"), ('unmarshal_args', 'ints', "{'x': '1', 'y': 2}"),
        ('unmarshal_args', 'ints', "{'x': 'z'}"), ('unmarshal_args', 'ints', "[1, 'z']"),
        ('unmarshal_args', 'deep', "{'a': {'k': {'l': [{'a': 1}, {'a': 2}]}}, 'b': [[{'item': 3}]]}"),
        ('unmarshal_args', 'deep', "{'a': {'k': {'l': [{'a': 1}, {'a': []}]}}}"),
        ('unmarshal_args', 'deep', "{'a': {}, 'b': [[{'item': 3}], [{'item': 'w'}]]}"),
        ('cast_args', 'deep', "{'a': {'k': {'l': (Frozen(1), Frozen(2))}}}"),
        ('unmarshal', 'Abstract', "{}"), ('unmarshal', 'Concrete', "{'x': '3'}"),
        ('unmarshal', 'New', "{'x': 1}"), ('unmarshal', 'Slots', "{'x': {'x': {}}}"),
        ('unmarshal', 'Slots', "{'x': {'x': {'y': 1}}}"), ('unmarshal', 'WithMeta', "{'x': [1, '2']}"),
        *(('unmarshal', t, el) for t in ('CalledToo', 'NewText', 'caller', 'part_caller', 'part_part')
          for el in ("{'x': '1'}", "{'x': 'q'}", "{'x': 1, 'z': {}}", "{'x': 1, 'y': {'x': '2'}}",
                     "{'x': 1, 'y': {'n': '2'}}", "{'x': 1, 'y': [{'n': '2'}, {'n': 3}]}",
                     "{'x': 2, 'z': {'a': 3, 'n': 2}}", "{'x': 2, 'z': {'n': 8}}", "{'x': 2, 'z': {'a': '8'}}")),
        *(('unmarshal', t, el) for t in ('texts', 'part_texts', 'part_later')
          for el in ("{'a': '2'}", "{'a': 3}", "['4', {'n': 2}, {'n': 4}, {}]", "{'a': 2, 'b': {'n': '4'}}",
                     "{'a': 2, 'd': {'n': '4'}, 'q': '3'}", "{'b': {}}", "{'b': {'n': 1}}", "[]",
                     "{'q': 'z'}", "{'b': {'n': 4}, 'd': {'n': 6}}")),
        *(('unmarshal', 'Taken', el) for el in (
            "{'x': {}, 'y': []}", "[{'n': '2'}, [{'n': 4}]]", "{'x': {'n': 1}, 'y': []}",
            "{'x': {}, 'y': [], 'z': {'x': {'n': 6}, 'y': []}}", "{'y': []}")),
        *(('unmarshal', t, el) for t in ('NamedHalf', 'TypedHalf', 'List[TypedHalf]', 'Optional[NamedHalf]')
          for el in ("{'n': 2}", "{'n': 3}", "{'n': '4', 'm': ['1']}", "{'n': 2, 'm': []}", "[8]", "[8, [9]]",
                     "[{'n': 2}, {'n': 4, 'm': [2]}]", "{'m': [1]}")),
        ('unmarshal', 'Ints', "['1', 2]"), ('unmarshal', 'Table', "{'k': {'a': 1}}"),
        ('unmarshal', 'Stack', "['1', 2]"), ('unmarshal', 'FrozenSet[str]', "['1']"),
        ('unmarshal', 'AbstractSet[int]', "[2, 2]"), ('unmarshal', 'collections.deque', "[1]"),
        ('unmarshal', 'Deque[int]', "['1', 2]"), ('unmarshal', 'typing.OrderedDict[str, int]', "{'b': '1', 'a': 2}"),
        ('unmarshal', 'typing.Counter[str]', "{'b': '1', 'a': 2}"), ('unmarshal', 'Iterable[int]', "[1, '2']"),
        ('unmarshal', 'Collection[int]', "[1, '2']"), ('unmarshal', 'Iterator[int]', "[1]"),
        ('unmarshal', 'MutableSequence[int]', "[1]"), ('unmarshal', 'MutableMapping[str, int]', "{'a': '1'}"),
        ('unmarshal', 'Dict[int, str]', "{'1': 2, '3': 'x'}"), ('unmarshal', 'Dict[Size, int]', "{'S': 2}"),
        ('unmarshal', 'dict', "{'a': [1]}"), ('unmarshal', 'list', "[{'a': 1}]"), ('unmarshal', 'tuple', "[1, [2]]"),
        ('unmarshal', 'set', "[1, 2]"), ('unmarshal', 'Tuple[()]', "[]"), ('unmarshal', 'Tuple[()]', "[1]"),
        ('unmarshal', 'Tuple[int, Tuple[str, ...], Frozen]', "['1', [2, 3], {'a': 4}]"),
        ('unmarshal', 'Tuple[int, Tuple[str, ...], Frozen]', "['1', [2, 3], {'a': 'q'}]"),
        ('unmarshal', 'int | str', "'1'"), ('unmarshal', 'list[int | None]', "[1, None, 'null']"),
        ('unmarshal', 'Union[Frozen, Old, int]', "{'p': 1}"), ('unmarshal', 'Union[Frozen, Old, int]', "'w'"),
        ('unmarshal', 'Union[Made, Frozen]', "{'a': 1}"), ('unmarshal', 'Union[Frozen, Made]', "{'a': 1}"),
        ('unmarshal', 'LiteralString', "'x'"), ('unmarshal', 'AnyStr', "'x'"), ('unmarshal', 'None', "'null'"),
        ('unmarshal', 'pathlib.PurePosixPath', "['a', 'b']"), ('unmarshal', 'decimal.Decimal', "{'value': '1.5'}"),
        ('unmarshal', 'fractions.Fraction', "[1, 3]"), ('unmarshal', 'Type[int]', "'int'"),
        ('unmarshal', 'Callable[[int], int]', "'x'"), ('unmarshal', 'datetime.timedelta', "{'days': 2}"),
        ('unmarshal', 'Final[int]', "1"), ('unmarshal', 'Annotated[Annotated[int, Half()], Half()]', "8"),
        ('unmarshal', 'Annotated[Annotated[int, Half()], Half()]', "6"),
        ('unmarshal', 'Annotated[Optional[Size], Upper()]', "'m'"),
        ('unmarshal_kw', 'Wide', "{'a': 3}", "{'d': [Frozen(2)], 'b': 4}"),
        ('unmarshal_kw', 'Box[int]', "{'item': 3}", "{'more': [4]}"),
        ('cast', 'Frozen', "Old(1, [2])"), ('cast', 'Dict[str, Any]', "Wide(3, 4)"),
        ('cast', 'Pair[str, str]', "Pair(1, 2, Pair(3, 4))"), ('cast', 'Old', "Frozen(1)"),
        ('cast', 'Movie', "{'title': Word.A, 'year': Size.M}"), ('cast', 'List[str]', "(Size.S, Word.B)"),
        ('marshal', 'None', "[Size.S, Word.B, Old(1), Frozen(1, frozenset([2]))]"),
        ('marshal', 'None', "Wide(1, 2, c=Frozen(1))"), ('marshal', 'None', "Pair(1, Pair(2, 3))"),
        ('marshal', 'None', "Named(1, Named.Inner(Named(2, Named.Inner())))"),
        ('marshal', 'None', "Made(1)"), ('marshal', 'None', "Mode.R | Mode.W"), ('marshal', 'None', "Slots()"),
        ('marshal', 'None', "[decimal.Decimal(1)]"), ('marshal', 'None', "{1: 2, None: 3, Size.S: 4}"),
        ('marshal', 'None', "Stack([1, (2, {3: 4})])"), ('marshal', 'None', "collections.Counter('abca')"),
        ('fn', 'both_ways', "Frozen(1)"), ('fn', 'both_ways', "[Old(1, Size.M), Word.A]"),
        *((op, t, n) for t in ('Frozen', 'Box[int]', 'Box[Box[int]]', 'Pair[str, int]', 'Wide', 'Narrow',
                               'Named', 'Made', 'Sequel', 'half', 'Union[Size, Word]', 'New', 'Slots',
                               'Tuple[int, Tuple[str, ...], Frozen]', 'Old', 'Table', 'deep')
          for op, n in (('doc', '3'), ('help', '2'))),
        *(('str', t) for t in ('Frozen', 'Box[int]', 'Pair[str, int]', 'Narrow', 'Id', 'Size', 'Word', 'Old',
                               'FrozenSet[str]', 'Tuple[()]', 'Ints', 'Table', 'Annotated[int, Half()]')),
        *((op, f'{t}_{n}', '2') for t in ('told', 'plain') for n in ('one', 'two', 'three') for op in ('doc', 'help')),
        *(('doc', t, '3') for t in ('List[told_one]', 'Box[plain_two]', 'Union[told_one, plain_two]')),
        ('select', 'Wide', "'d.a'"), ('select', 'Named', "'y.up.z'"), ('select', 'Box[Box[int]]', "'item.item'"),
        ('select', 'Pair[str, int]', "'kin.kin.value'"), ('select', 'Pair[str, int]', "'kin.kin.vlaue'"),
        ('default', 'Size', 'Size.S'), ('default', 'int', 'Size.S'), ('default', 'Any', 'Size.S'),
        ('default', 'Any', 'True'), ('default', 'Frozen', 'Frozen(1)'), ('default', 'FrozenSet[int]', 'frozenset({1})'),
    ]
    return [c(s[0], s[1], *s[2:], u=u) for s in specs]


NAMES = PRELUDE + '''
@dataclasses.dataclass
class Shape:
    """Some shape."""
    size: int = 1


class Part:
    pass


_space = marsh.namespaces.new(__name__ + '_space', Shape)
_other = marsh.namespaces.new(__name__ + '_other', Part)


@_space.register(name='square')
@dataclasses.dataclass
class Square(Shape):
    """A square."""
    inner: Optional['Shape'] = None


@_space.register(name='ring')
@dataclasses.dataclass
class Circle(Shape):
    parts: List[Shape] = dataclasses.field(default_factory=list)


@_space.register(name='disc')
@dataclasses.dataclass
class Disc(Circle):
    hole: Optional['Disc'] = None


@_other.register(name='blob')
@dataclasses.dataclass
class Blob(Part):
    shape: Shape
    more: Dict[str, Shape] = dataclasses.field(default_factory=dict)
    kin: Tuple[Part, ...] = ()


@dataclasses.dataclass
class Holder:
    a: Shape
    b: Optional[Square] = None
    c: Tuple[Blob, ...] = ()


def draw(s: Shape, *others: Shape):
    return [s, others]
'''


def names_calls(u):
    specs = [
        ('unmarshal', 'Shape', "{'name': 'square', 'size': 3, 'inner': {'name': 'ring', 'parts': [{}]}}"),
        ('unmarshal', 'Shape', "{'name': 'square', 'inner': {'name': 'ring', 'parts': [{'name': 'no'}]}}"),
        ('unmarshal', 'Shape', "{'size': 2}"),
        ('unmarshal', 'Square', "{'name': 'square', 'size': 'x'}"),
        ('unmarshal', 'Square', "{'size': 4}"),
        ('unmarshal', 'Holder', "{'a': {'name': 'ring'}, 'b': {'inner': {}}, 'c': [{'shape': {'name': 'ring'}, 'more': {'k': {'name': 'square'}}}]}"),
        ('unmarshal', 'Holder', "{'a': {'name': 'rong'}}"),
        ('unmarshal', 'List[Shape]', "[{'name': 'ring'}, {}, {'name': 'square', 'size': 9}]"),
        ('s_unmarshal', 'Holder', "{'a': {'name': 'ring', 'size': 4}}"),
        ('s_unmarshal', 'Holder', "{'a': {'name': 'square', 'sise': 4}}"),
        ('unmarshal_args', 'draw', "[{'name': 'ring'}, {'name': 'square'}, {'size': 2}]"),
        ('marshal', 'None', "Holder(Circle(3, [Square(inner=Shape(2))]), None, (Blob(Square()),))"),
        ('marshal', 'None', "[Shape(), Square(2), Circle(4), Blob(Circle())]"),
        ('cast', 'Holder', "Holder(Circle(3, [Square(inner=Shape(2))]), Square(7))"),
        ('cast', 'Dict[str, Any]', "Circle(3)"),
        ('str', 'Shape'), ('str', 'Square'), ('str', 'Holder'),
        ('doc', 'Shape', '2'), ('doc', 'Holder', '3'), ('doc', 'Blob', '1'),
        ('help', 'Holder', '3'), ('help', 'Shape', '1'),
        ('select', 'Holder', "'a.ring.parts'"), ('select', 'Holder', "'a.nope'"),
        ('select', 'Shape', "'square.inner'"),
        ('fn', "lambda: sorted(_space)", ), ('fn', "lambda: str(_space['ring'])", ),
        ('fn', "lambda: _space.build({'size': 2}, name='disc')", ),
        ('fn', "lambda: _space.build(name='disc', parts=[Square(3)], hole=Disc(7))", ),
        ('fn', "lambda: _space.build([1], 2, name='square')", ),
        ('fn', "lambda: _space.build(name='dusc')", ),
        ('fn', "lambda: _other.build(name='blob', shape=Disc(), kin=[Blob(Shape())])", ),
        ('unmarshal', 'Part', "{'name': 'blob', 'shape': {'name': 'disc', 'hole': {'hole': {'size': 4}}}, 'kin': [{'name': 'blob', 'shape': {}}]}"),
        ('unmarshal', 'Circle', "{'name': 'disc', 'hole': {'name': 'disc', 'parts': [{'name': 'square'}]}}"),
        ('unmarshal', 'Circle', "{'name': 'square'}"),
        ('doc', 'Part', '2'), ('str', 'Part'), ('str', 'Circle'),
    ]
    return [c(s[0], s[1], *s[2:], u=u) for s in specs]


DATA = PRELUDE + '''
import itertools, os, types
import omegaconf
from marsh.parse import override as parse_override


class Sub(dict):
    """A mapping that is a dict."""


class Own(collections.abc.Mapping):
    def __init__(self, *args, **kwargs):
        self.d = dict(*args, **kwargs)

    def __getitem__(self, key):
        return self.d[key]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class OwnSeq(collections.abc.Sequence):
    def __init__(self, items=()):
        self.l = list(items)

    def __getitem__(self, i):
        return self.l[i]

    def __len__(self):
        return len(self.l)


@dataclasses.dataclass
class Cell:
    x: int = 0
    next: Optional['Cell'] = None
    rest: List['Cell'] = dataclasses.field(default_factory=list)


class Base:
    pass


_built = marsh.namespaces.new(__name__ + '_built', Base)


@_built.register(name='one')
@dataclasses.dataclass
class One(Base):
    a: Any = 1
    b: List[Any] = dataclasses.field(default_factory=list)
    cell: Optional[Cell] = None


@_built.register(name='two')
class Two(Base):
    def __init__(self, a: int, *rest: Any, k: Any = None, **kw: Any):
        self.a, self.rest, self.k, self.kw = a, rest, k, kw


def three(a: int, b: Any = 0, *rest: Any, k: Any = None, **kw: Any):
    return [a, b, rest, k, kw]


def conf(d):
    return omegaconf.OmegaConf.create(d)


def merge_c(a, *rest):
    return marsh.element.merge(a, *rest, concatenate=True)


def steps(element, path):
    return [list(x) for x in marsh.element.iterative_select(element, path)]


def as_lists(element):
    return marsh.element.standardize(element, mapping_type=collections.OrderedDict,
                                     sequence_type=list)


def apply_set(element, value, path, combine):
    return marsh.parse.SetValue(path=path, value=value, combine=combine).apply(element)


def apply_delete(element, path):
    return marsh.parse.DeleteValue(path=path).apply(element)


def apply_all(element, texts):
    for text in texts:
        element = parse_override(text).apply(element)
    return element


def dumps(element, ext, *again):
    return marsh.config.ConfigSchema('f' + ext).dumps(element)


def loads(text, ext):
    return marsh.config.ConfigSchema('f' + ext).loads(text)


_count = itertools.count()


def written(element, ext):
    path = f'{os.environ["MARSH_SIM_SCRATCH"]}/w{os.getpid()}_{next(_count)}{ext}'
    try:
        marsh.config.write(element, path)
        with open(path) as file:
            return file.read()
    finally:
        if os.path.exists(path):
            os.remove(path)


def arguments(element, args, kwargs):
    schema = marsh.schema.argument.ArgumentsUnmarshalSchema(three)
    return list(schema.unmarshal(element, default_args=args, default_kwargs=kwargs))


def arguments_doc(args, kwargs):
    schema = marsh.schema.argument.ArgumentsUnmarshalSchema(three)
    return schema.doc(2, default_args=args, default_kwargs=kwargs)


def built(element, args, kwargs):
    return _built.build(element, *args, **kwargs)


def closest(value, candidates):
    return marsh.utils.get_closest_error_message(value, candidates, key='key')


def both_ways(value):
    return marsh.unmarshal(Any, marsh.marshal(value))


def fail(T, element):
    marsh.testing.unmarshal_fails(T, element)


def meta(config):
    return marsh.config.drop_meta(config)


def join(fields):
    path = marsh.path.join_fields(fields)
    return [path, list(marsh.path.split(path))]


def pretty(T, element):
    try:
        return marsh.unmarshal(T, element)
    except marsh.errors.UnmarshalError as err:
        return [err.pretty(), str(err), err.path]


def printed_doc(T):
    doc = marsh.schema.UnmarshalSchema(T).doc(3)
    return [marsh.doc.terminal.format_unmarshal_fields(doc, width=50, depth=2),
            marsh.doc.terminal.format_unmarshal_help(doc, width=70, depth=3, prefix_path='p.q')]
'''

KEYS = ['a', 'b', 'c', 'x.y', '_meta_', 'name', '1', '']


class Data:
    """Random elements, and calls of the functions that work on elements."""

    def __init__(self, seed):
        self.rng = random.Random(seed)

    def el(self, depth=3):
        rng = self.rng
        r = rng.random()
        if depth <= 0 or r < .22:
            return rng.choice([0, 1, 2.5, 'x', '', None, True, 'y z', '${a}', '-'])
        if r < .62:
            return {rng.choice(KEYS): self.el(depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))}
        return [self.el(depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))]

    def box(self, depth=3):
        el = self.el(depth)
        while not isinstance(el, (dict, list)) or not el:
            el = self.el(depth)
        return el

    def src(self, el):
        """Source of an element, in containers of any kind."""
        rng = self.rng
        if isinstance(el, dict):
            body = '{' + ', '.join(f'{k!r}: {self.src(v)}' for k, v in el.items()) + '}'
            return rng.choice([
                '{}', '{}', '{}', '{}', 'collections.OrderedDict({})', 'Sub({})', 'Own({})',
                'collections.UserDict({})', 'types.MappingProxyType({})',
                'collections.defaultdict(list, {})', 'collections.ChainMap({})',
            ]).replace('{}', body)
        if isinstance(el, list):
            body = '[' + ', '.join(self.src(v) for v in el) + ']'
            return rng.choice([
                '{}', '{}', '{}', '{}', 'tuple({})', 'OwnSeq({})', 'collections.UserList({})',
                'collections.deque({})',
            ]).replace('{}', body)
        return repr(el)

    def path(self, el):
        """A path into an element, or nearly."""
        rng = self.rng
        out = []
        while isinstance(el, (dict, list)) and el and (not out or rng.random() < .7):
            if isinstance(el, dict):
                k = rng.choice(list(el))
                out.append(k.replace('.', '\\\\.') if '.' in k else k)
                el = el[k]
            else:
                i = rng.randrange(len(el))
                out.append(str(rng.choice([i, i, i - len(el)])))
                el = el[i]
        if rng.random() < .3:
            out.append(rng.choice(['q', '0', '7', 'a']))
        return '.'.join(out)

    def lit(self, el):
        """An element in the syntax of overrides."""
        if isinstance(el, dict):
            return '{' + ', '.join(f'{k!r}: {self.lit(v)}' for k, v in el.items()) + '}'
        if isinstance(el, list):
            return '[' + ', '.join(map(self.lit, el)) + ']'
        if el is None or isinstance(el, bool):
            return {None: 'null', True: 'true', False: 'false'}[el]
        return repr(el)

    def vary(self, el):
        """An element alike, so that merging has something to do."""
        rng = self.rng
        if isinstance(el, dict):
            out = {k: self.vary(v) for k, v in el.items() if rng.random() < .7}
            if rng.random() < .5:
                out[rng.choice(KEYS)] = self.el(1)
            return out
        if isinstance(el, list) and rng.random() < .7:
            return [self.vary(v) for v in el] + [self.el(1)]
        return self.el(1) if rng.random() < .5 else el

    def call(self, u):
        rng = self.rng
        k = rng.choice(['merge', 'merge', 'merge', 'override', 'override', 'override', 'remove',
                        'remove', 'select', 'steps', 'standardize', 'resolve', 'missing',
                        'set', 'delete', 'all', 'dumps', 'loads', 'written', 'arguments',
                        'arguments', 'arguments_doc', 'built', 'built', 'closest', 'both',
                        'meta', 'join', 'any', 'any', 'marshal', 'cast', 'pretty', 'cell',
                        'kw', 'elements', 'printed_doc'])
        el = self.box()
        e = self.src(el)
        path = self.path(el)

        def fn(name, *a):
            return c('fn', name, *a, u=u)

        if k == 'merge':
            more = [self.src(self.vary(el)) for _ in range(rng.choice([1, 1, 2]))]
            return fn(rng.choice(['marsh.element.merge', 'merge_c']), e, *more)
        if k == 'override':
            return fn('marsh.element.override', e, self.src(self.el(2)), repr(path),
                      repr(rng.random() < .5))
        if k == 'remove':
            return fn('marsh.element.remove', e, repr(path))
        if k == 'select':
            return fn('marsh.element.select', e, repr(path))
        if k == 'steps':
            return fn('steps', e, repr(path))
        if k == 'standardize':
            return fn(rng.choice(['marsh.element.standardize', 'as_lists']), e)
        if k == 'resolve':
            return fn('marsh.element.resolve', e)
        if k == 'missing':
            return fn('marsh.element.has_missing', e)
        if k == 'set':
            return fn('apply_set', e, self.src(self.el(2)), repr(path), repr(rng.random() < .6))
        if k == 'delete':
            return fn('apply_delete', e, repr(path))
        if k == 'all':
            texts = []
            for _ in range(rng.randint(1, 4)):
                p = self.path(el)
                texts.append(rng.choice(['~' + p, p + '=' + self.lit(self.el(1)),
                                         p + '+=' + self.lit(self.box(2))]))
            return fn('apply_all', e, repr(texts))
        if k == 'dumps':
            return fn('dumps', self.src(el) if rng.random() < .5 else repr(el),
                      repr(rng.choice(['.json', '.yaml', '.yml'])))
        if k == 'loads':
            return fn('loads', repr(rng.choice([
                '{"a": [1, {"b": null}]}', 'a: [1, {b: x}]\n', '[1, 2', '- 1\n- {c: d}\n'])),
                repr(rng.choice(['.json', '.yaml'])))
        if k == 'written':
            return fn('written', repr(el), repr(rng.choice(['.json', '.yaml'])))
        if k == 'arguments':
            given = [self.el(1) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            kw = {x: self.el(1) for x in rng.sample(['a', 'b', 'k', 'zz'], rng.choice([0, 1, 2]))}
            elem = rng.choice([
                {x: rng.choice([1, '2', [3]]) for x in rng.sample(['a', 'b', 'k', 'q'],
                                                                rng.choice([0, 1, 2, 3]))},
                [rng.choice([1, 2, '3', 'x', [4]]) for _ in range(rng.choice([0, 1, 2, 4]))]])
            return fn('arguments', self.src(elem), '[' + ', '.join(map(self.src, given)) + ']',
                      '{' + ', '.join(f'{x!r}: {self.src(v)}' for x, v in kw.items()) + '}')
        if k == 'arguments_doc':
            given = [self.el(1) for _ in range(rng.choice([0, 1, 2]))]
            return fn('arguments_doc', repr(given), self.src({'k': self.el(1), 'zz': 2}))
        if k == 'built':
            name = rng.choice(['one', 'two', 'two', 'one', 'twoo'])
            elem = rng.choice([
                {'a': rng.choice([1, 'x', [1]]), 'b': [self.el(1)]},
                {'a': 2, 'q': self.el(2)}, {}, [3, self.el(1)], [4, self.el(1), self.el(1)],
                {'cell': {'next': {'rest': [{'x': 2}]}}}])
            if rng.random() < .3 and isinstance(elem, dict):
                return c('unmarshal', 'Base', self.src({'name': name, **elem}), u=u)
            kw = {'name': name}
            if rng.random() < .4:
                kw[rng.choice(['k', 'b', 'zz'])] = self.el(1)
            return fn('built', self.src(elem), rng.choice(['[]', '[]', '[5]', '[5, [6]]']),
                      self.src(kw))
        if k == 'closest':
            return fn('closest', repr(rng.choice(['ab', 'nam', 'xx'])), repr(rng.sample(KEYS, 4)))
        if k == 'both':
            return fn('both_ways', e)
        if k == 'meta':
            return fn('meta', self.src(rng.choice([{'_meta_': self.el(1), 'a': self.el(2)}, el])))
        if k == 'join':
            return fn('join', repr([rng.choice(KEYS + ['a.b', 'c\\d']) for _ in
                                    range(rng.randint(0, 4))]))
        if k == 'any':
            return c('unmarshal', rng.choice(['Any', 'Dict[str, Any]', 'Sequence[Any]',
                                              'List[Dict[str, Any]]', 'Union[List[Any], '
                                              'Dict[str, Any], None]']), e, u=u)
        if k == 'marshal':
            return c('marshal', 'None', e, u=u)
        if k == 'cast':
            return c('cast', rng.choice(['Any', 'Mapping[str, Any]', 'List[Any]']), e, u=u)
        if k == 'pretty':
            return fn('pretty', rng.choice(['Cell', 'List[Cell]', 'Dict[str, List[int]]']), e)
        if k == 'cell':
            elem = rng.choice([{'x': '4', 'next': {'rest': [{'x': 1}, {'next': {}}]}},
                               {'rest': [{'rest': [{'rest': [{'x': 'no'}]}]}]},
                               [1, [2, None, [[3], {'x': 4}]]], {'next': [5, {'x': 6}]}])
            return c(rng.choice(['unmarshal', 's_unmarshal']), 'Cell', self.src(elem), u=u)
        if k == 'kw':
            kw = {x: self.el(1) for x in rng.sample(['b', 'k', 'zz'], rng.choice([1, 2]))}
            return c('unmarshal_args', 'three', self.src({'a': 1, 'q': self.el(1)}),
                     *[self.src(self.el(1)) for _ in range(rng.choice([0, 0, 1]))], u=u)
        if k == 'elements':
            return fn('marsh.parse.element', repr(self.lit(el)))
        if k == 'printed_doc':
            return fn('printed_doc', rng.choice(['Cell', 'One', 'three']))
        raise AssertionError(k)


def data(seed, n=30):
    d = Data(seed)
    return 'hand_data', DATA, [d.call('hand_data') for _ in range(n)]


def universes():
    """name -> (source, calls)"""
    return {
        'hand_types': (TYPES, types_calls('hand_types')),
        'hand_misc': (MISC, misc_calls('hand_misc')),
        'hand_names': (NAMES, names_calls('hand_names')),
    }
