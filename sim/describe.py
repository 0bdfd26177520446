"""Canonical descriptions of values and errors, comparable across processes."""
import collections
import collections.abc
import dataclasses
import datetime
import enum
import logging
import re
import types

ADDR = re.compile(r'0x[0-9a-f]+')


def scrub(text):
    return ADDR.sub('0x', text)


def tname(v):
    t = type(v)
    return t.__qualname__ if t.__module__ == 'builtins' else f'{t.__module__}.{t.__qualname__}'


def describe(v, depth=0, seen=(), touch=False):
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes)) and type(v) in (
        bool, int, float, complex, str, bytes,
    ):
        return f'{type(v).__name__}:{v!r}' if not isinstance(v, str) else f'str:{scrub(v)!r}'
    if id(v) in seen or depth > 40:
        return '<cycle>'
    seen = seen + (id(v),)

    def sub(x):
        return describe(x, depth + 1, seen, touch)

    t = tname(v)
    if isinstance(v, enum.Enum):
        return f'{t}.{v.name}'
    if isinstance(v, (datetime.date, datetime.time, datetime.timedelta, slice, range)):
        return f'{t}:{v!r}'
    if isinstance(v, logging.Logger):
        return f'logger:{v.name}'
    if isinstance(v, type):
        return f'type:{v.__module__}.{v.__qualname__}'
    if isinstance(v, (int, float, str, bytes, complex)):
        base = next(b for b in (int, float, str, bytes, complex) if isinstance(v, b))
        return [t, repr(base(v)), sub(dict(getattr(v, '__dict__', {})))]
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        return [t, [[f, sub(x)] for f, x in zip(v._fields, v)]]
    if isinstance(v, (list, tuple, collections.deque)):
        return [t, [sub(x) for x in v]]
    if isinstance(v, (set, frozenset)):
        return [t, sorted((sub(x) for x in v), key=repr)]
    if dataclasses.is_dataclass(v):
        return [t, [[f.name, sub(getattr(v, f.name, '<unset>'))] for f in dataclasses.fields(v)]]
    if isinstance(v, collections.defaultdict):
        items = [[sub(k), sub(x)] for k, x in v.items()]
        extra = []
        if touch and v.default_factory is not None:
            try:
                extra = [sub(v.default_factory())]
            except Exception as err:
                extra = [error(err)]
        return [t, items, extra]
    if isinstance(v, (dict, types.MappingProxyType, collections.abc.Mapping)):
        try:
            return [t, [[sub(k), sub(v[k])] for k in v]]
        except Exception as err:
            return [t, error(err)]
    if isinstance(v, BaseException):
        return error(v)
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, types.MethodType)):
        return f'function:{getattr(v, "__module__", "")}.{getattr(v, "__qualname__", "")}'
    if isinstance(v, collections.abc.Sequence):
        return [t, [sub(x) for x in v]]
    if hasattr(v, '__dict__'):
        return [t, [[k, sub(x)] for k, x in sorted(vars(v).items())
                    if not k.startswith('_sim_')]]
    return [t, scrub(repr(v))]


def error(err):
    return ['error', type(err).__name__, scrub(str(err)), str(getattr(err, 'path', ''))]


def containers(v, out=None, seen=None, depth=0):
    """Every mutable object reachable in a value: list of (object, mutate)."""
    if out is None:
        out, seen = [], set()
    if id(v) in seen or depth > 40:
        return out
    seen.add(id(v))
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes, type, enum.Enum,
                                   datetime.date, datetime.time, slice,
                                   logging.Logger, types.FunctionType)):
        return out
    if isinstance(v, (list, collections.deque)):
        for x in list(v):
            containers(x, out, seen, depth + 1)
        out.append((v, lambda: v.append('MUTATED')))
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            containers(x, out, seen, depth + 1)
    elif isinstance(v, set):
        out.append((v, lambda: v.add('MUTATED')))
    elif isinstance(v, dict):
        for x in list(v.values()):
            containers(x, out, seen, depth + 1)
        out.append((v, lambda: v.__setitem__('MUTATED', 'MUTATED')))
        if isinstance(v, collections.defaultdict) and v.default_factory is not None:
            try:  # what it holds for a missing key
                containers(v.default_factory(), out, seen, depth + 1)
            except Exception:
                pass
    elif isinstance(v, types.MappingProxyType):
        for x in list(v.values()):
            containers(x, out, seen, depth + 1)
    elif (hasattr(v, '__dict__') and not isinstance(v, types.ModuleType)
          and type(v).__module__ != 'dataclasses'):  # its marker for default factories
        for x in list(vars(v).values()):
            containers(x, out, seen, depth + 1)

        def mutate():
            for k in list(vars(v)):
                try:
                    setattr(v, k, 'MUTATED')
                except Exception:
                    pass
        out.append((v, mutate))
    return out
