"""Entry points under I/O faults, clocks and every way of ending: C12, C13."""
import copy
import datetime
import io
import json
import os
import random
import sys

import yaml

from . import clock, conv, core, disk, sched
from .w_fs import FsRun, FsWorld, Raises, encode, ref_merge, ref_resolve, same

SOURCE = '''
import dataclasses
from typing import Any, Dict, List, Optional, Tuple, Union

enter = None
trouble = {}

class Boom(Exception):
    pass

@dataclasses.dataclass
class E:
    z: int
    w: Optional[str] = None
    def __post_init__(self):
        how = trouble.pop('construct', None)
        if how is not None:
            raise how

@dataclasses.dataclass
class D:
    x: int
    y: str = 'd'
    e: Optional[E] = None
    l: List[int] = dataclasses.field(default_factory=list)

def f_plain(a: int, b: str = 'x', *, c: Optional[List[int]] = None):
    """Does something.

    Arguments:
        a: A number.
    """
    return enter('f_plain', [a, b, c])

def f_data(d: D, m: Optional[Dict[str, int]] = None, n: Union[int, List[D], None] = None):
    return enter('f_data', [d, m, n])

def f_cfg(cfg):
    return enter('f_cfg', [cfg])

def f_star(*args: int, **kwargs: str):
    return enter('f_star', [args, kwargs])

def f_none():
    return enter('f_none', [])

def f_mixed(a: int, b: List[D], *rest: int, k: float = 1.5):
    return enter('f_mixed', [a, b, rest, k])

def f_pos(a: int, /, b: str = 'x', *rest: int, **kwargs: int):
    return enter('f_pos', [a, b, rest, kwargs])

def f_any(o: Any = None, p: Tuple[str, ...] = ()):
    return enter('f_any', [o, p])
'''

FNS = {
    'f_plain': None, 'f_data': None, 'f_star': None, 'f_none': None, 'f_mixed': None, 'f_any': None,
    'f_pos': None,
    'f_cfg': 'D', 'f_cfg2': 'Dict[str, D]', 'f_cfg3': 'List[int]',
}
STRINGS = ['x', 'yy', 'a b', '3', 'true', 'é', 'a,b', "it's", '', 'null', '-', 'x: y', '{', '\\']
SIMPLE = ['x', 'yy', 'name']


# --------------------------------------------------------------------------
# what is typed on the command line


def render(v, rng=None):
    if v is None:
        return 'null'
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, str):
        if v in SIMPLE:
            return v
        return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
    if isinstance(v, list):
        return '[' + ', '.join(render(x) for x in v) + ']'
    return '{' + ', '.join(f'{k}: {render(x)}' for k, x in v.items()) + '}'


def token(o):
    path = '.'.join(o['path'])
    if o['op'] == 'del':
        return '~' + path
    plus = '+' if o['combine'] else ''
    if o['op'] == 'set':
        return f'{path}{plus}={render(o["v"])}'
    return f'{path}{plus}@{",".join(o["names"])}'


# --------------------------------------------------------------------------
# the reference


MISSING = object()


class Undecided(Exception):
    pass


def is_index(field, n, append):
    try:
        i = int(field)
    except ValueError:
        raise Raises
    if i < 0:
        i += n
    if not 0 <= i < n + append:
        raise Raises
    return i


def ref_override(el, path, v, combine):
    if not path:
        if combine:
            if isinstance(el, dict) and isinstance(v, dict):
                return {**el, **v}
            if isinstance(el, list) and isinstance(v, list):
                return el + v
            if el is not MISSING:
                raise Undecided
        return v
    if el is MISSING:
        el = {}
    if isinstance(el, dict):
        return {**el, path[0]: ref_override(el.get(path[0], MISSING), path[1:], v, combine)}
    if isinstance(el, list):
        i = is_index(path[0], len(el), 1)
        el = list(el)
        if i == len(el):
            el.append(MISSING)
        el[i] = ref_override(el[i], path[1:], v, combine)
        return el
    raise Raises


def ref_remove(el, path):
    if isinstance(el, dict):
        if path[0] not in el:
            raise Raises
        el = dict(el)
        key = path[0]
    elif isinstance(el, list):
        el = list(el)
        key = is_index(path[0], len(el), 0)
    else:
        raise Raises
    if len(path) == 1:
        del el[key]
    else:
        el[key] = ref_remove(el[key], path[1:])
    return el


def ref_config(overrides, read):
    el = MISSING
    for o in overrides:
        if o['op'] == 'set':
            el = ref_override(el, o['path'], o['v'], o['combine'])
        elif o['op'] == 'config':
            vs = [read(n) for n in o['names']]
            v = vs[0]
            for x in vs[1:]:
                v = ref_merge(v, x, True)
            if isinstance(v, (dict, list)):
                v = ref_resolve(v, v)
            el = ref_override(el, o['path'], v, o['combine'])
        else:
            if not o['path']:
                raise Raises
            el = ref_remove(el, o['path'])
    if isinstance(el, (dict, list)):
        el = ref_resolve(el, el)
    if isinstance(el, dict):
        el = {k: v for k, v in el.items() if k != '_meta_'}
    return el


PARAMS = {
    # name: [name, type, has a default]
    'f_plain': [['a', 'int', 0], ['b', 'str', 1], ['c', ('Union', ('List', 'int'), 'None'), 1]],
    'f_data': [['d', 'D', 0], ['m', ('Union', ('Dict', 'int'), 'None'), 1],
               ['n', ('Union', 'int', ('List', 'D'), 'None'), 1]],
    'f_star': [['*args', 'int', 1], ['**kwargs', 'str', 1]],
    'f_none': [],
    'f_mixed': [['a', 'int', 0], ['b', ('List', 'D'), 0], ['*rest', 'int', 1], ['k', 'float', 1]],
    'f_any': [['o', 'any', 1], ['p', ('List', 'str', tuple), 1]],
    'f_pos': [['a', 'int', 0], ['b', 'str', 1], ['*rest', 'int', 1], ['**kwargs', 'int', 1]],
    'D': [['x', 'int', 0], ['y', 'str', 1], ['e', ('Union', 'E', 'None'), 1],
          ['l', ('List', 'int'), 1]],
    'E': [['z', 'int', 0], ['w', ('Union', 'str', 'None'), 1]],
}
KEYWORD_ONLY = {('f_plain', 'c'), ('f_mixed', 'k')}
CONFIGS = {'D': 'D', 'Dict[str, D]': ('Dict', 'D'), 'List[int]': ('List', 'int')}


def ref_value(u, t, el):
    """What an element of exactly the right form is turned into.

    Raises Raises if it can not be, Undecided where a conversion is involved.
    """
    if t == 'int':
        if type(el) is int:
            return el
        if el is None or isinstance(el, (dict, list)):
            raise Raises
        raise Undecided
    if t == 'float':
        if type(el) is float:
            return el
        raise Undecided
    if t == 'str':
        if type(el) is str:
            return el
        raise Undecided
    if t == 'any':
        if el is None or type(el) in (int, float, bool, str):
            return el
        raise Undecided
    if t == 'None':
        if el is None:
            return None
        if type(el) is str:
            raise Undecided
        raise Raises
    if t in ('D', 'E'):
        if not isinstance(el, dict):
            if isinstance(el, list):
                raise Undecided
            raise Raises
        args, kwargs = ref_args(u, t, el, (), {})
        return getattr(u, t)(*args, **kwargs)
    if t[0] == 'List':
        if not isinstance(el, list):
            if isinstance(el, str):
                raise Undecided
            raise Raises
        return (t[2:] or (list,))[0](ref_value(u, t[1], x) for x in el)
    if t[0] == 'Dict':
        if not isinstance(el, dict):
            raise Raises if el is None or type(el) is int else Undecided
        return {k: ref_value(u, t[1], x) for k, x in el.items()}
    found = []
    for x in t[1:]:
        try:
            found.append(ref_value(u, x, el))
        except Raises:
            pass
    if not found:
        raise Raises
    if len(found) > 1:
        raise Undecided
    return found[0]


def ref_args(u, name, el, args, kwargs):
    """The arguments for a function, where those given in code are defaults."""
    params = PARAMS[name]
    if not isinstance(el, (dict, list)):
        raise Raises
    if isinstance(el, dict) and any(not k.isidentifier() for k in el):
        raise Undecided
    names = [p for p, _, _ in params if not p.startswith('*')]
    if set(names[:len(args)]) & set(kwargs):
        # the same argument twice
        raise Undecided
    var = any(p.startswith('*') and not p.startswith('**') for p, _, _ in params)
    items = list(el) if isinstance(el, list) else []
    el = dict(el) if isinstance(el, dict) else {}
    args, kwargs = list(args), dict(kwargs)
    out, kw = [], {}
    for p, t, default in params:
        if p.startswith('**'):
            kw.update(kwargs)
            kw.update({k: ref_value(u, t, v) for k, v in el.items()})
            el, kwargs = {}, {}
        elif p.startswith('*'):
            out += [ref_value(u, t, x) for x in items] + args
            items, args, var = [], [], False
        else:
            given = args.pop(0) if args else kwargs.pop(p, MISSING)
            if items:
                if (name, p) in KEYWORD_ONLY:
                    raise Undecided
                given = ref_value(u, t, items.pop(0))
            elif p in el:
                given = ref_value(u, t, el.pop(p))
            if given is not MISSING:
                kw[p] = given
            elif not default:
                if t[0] in ('List', 'Dict'):
                    raise Undecided
                raise Raises
            if var:
                # all of these have to be known by their position
                if p not in kw:
                    raise Undecided
                out.append(kw.pop(p))
    if el or items:
        raise Raises
    if args or kwargs:
        # more than it takes
        raise Undecided
    return out, kw


# --------------------------------------------------------------------------
# generation


def good_d(rng):
    d = {'x': rng.randrange(9)}
    if rng.random() < .4:
        d['y'] = rng.choice(STRINGS)
    if rng.random() < .4:
        d['e'] = {'z': rng.randrange(9)} if rng.random() < .8 else None
    if rng.random() < .4:
        d['l'] = [rng.randrange(9) for _ in range(rng.choice([0, 1, 3]))]
    return d


def good(rng, fn, depth=0):
    """A valid element for each of the arguments."""
    r = rng.random
    if fn in ('f_plain', 'f_data', 'f_mixed') and depth == 0 and r() < .2:
        # by position
        v = good(rng, fn, 1)
        seq = []
        for p, t, default in PARAMS[fn]:
            if p in v:
                seq.append(v[p])
            else:
                break
        if fn == 'f_mixed':
            seq = seq[:2] + [rng.randrange(9) for _ in range(rng.randrange(3))]
        elif r() < .1:
            seq += [None, 1]
        return seq
    if fn == 'f_plain':
        v = {'a': rng.randrange(9)}
        if r() < .6:
            v['b'] = rng.choice(STRINGS)
        if r() < .5:
            v['c'] = [1, 2][:rng.randrange(3)] if r() < .8 else None
    elif fn == 'f_data':
        v = {'d': good_d(rng)}
        if r() < .5:
            v['m'] = {k: rng.randrange(9) for k in rng.sample('pqr', rng.randrange(4))}
        if r() < .4:
            v['n'] = rng.choice([3, None, [good_d(rng)]])
    elif fn == 'f_star':
        if r() < .5:
            return [rng.randrange(9) for _ in range(rng.randrange(4))]
        v = {k: rng.choice(STRINGS) for k in rng.sample('pqr', rng.randrange(4))}
    elif fn == 'f_none':
        v = {}
    elif fn == 'f_mixed':
        v = {'a': rng.randrange(9), 'b': [good_d(rng) for _ in range(rng.randrange(3))]}
        if r() < .4:
            v['k'] = rng.choice([2.5, 0.25])
    elif fn == 'f_any':
        v = {}
        if r() < .7:
            v['o'] = rng.choice([None, 1, 'x', [1, 'é', None], {'q': {'r': [2.5]}}, True])
        if r() < .5:
            v['p'] = [rng.choice(STRINGS) for _ in range(rng.randrange(3))]
    elif fn == 'f_pos':
        if r() < .6:
            return ([rng.randrange(9)] + [rng.choice(STRINGS)][:rng.randrange(2)] * 1
                    + [rng.randrange(9) for _ in range(rng.randrange(3))])
        v = {'a': rng.randrange(9)}
        if r() < .5:
            v['b'] = rng.choice(STRINGS)
        v.update({k: rng.randrange(9) for k in rng.sample('pqr', rng.randrange(3))})
    elif fn == 'f_cfg':
        v = good_d(rng)
    elif fn == 'f_cfg2':
        v = {k: good_d(rng) for k in rng.sample('pq', rng.randrange(3))}
    else:
        v = [rng.randrange(9) for _ in range(rng.randrange(4))]
    return v


def leaves(v, path=()):
    """Paths to all parts, shortest first."""
    out = [path]
    if isinstance(v, dict):
        for k, x in v.items():
            out += leaves(x, path + (k,))
    elif isinstance(v, list):
        for k, x in enumerate(v):
            out += leaves(x, path + (str(k),))
    return out


def at(v, path):
    for k in path:
        v = v[k] if isinstance(v, dict) else v[int(k)]
    return v


def gen_overrides(rng, fn, files):
    """Overrides that give a valid config most of the time; files is filled."""
    want = good(rng, fn)
    out = []
    how = rng.random()
    if how < .15:
        out.append(dict(op='set', path=[], v=want, combine=rng.random() < .2))
    elif how < .5:
        names = write_files(rng, files, want)
        out.append(dict(op='config', path=[], names=names, combine=rng.random() < .2))
    elif isinstance(want, dict):
        for k, v in want.items():
            r = rng.random()
            if r < .2:
                out.append(dict(op='config', path=[k], names=write_files(rng, files, v),
                                combine=False))
            elif r < .5 and isinstance(v, dict) and v:
                for k2, v2 in v.items():
                    out.append(dict(op='set', path=[k, k2], v=v2, combine=rng.random() < .1))
            else:
                out.append(dict(op='set', path=[k], v=v, combine=rng.random() < .05))
    else:
        for i, v in enumerate(want):
            out.append(dict(op='set', path=[], v=[v], combine=i > 0))
    # then some changes
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        paths = leaves(want) if isinstance(want, (dict, list)) else [()]
        p = list(rng.choice(paths))
        r = rng.random()
        if r < .35:
            other = good(rng, fn)
            ps = leaves(other)
            p = list(rng.choice(ps))
            out.append(dict(op='set', path=p, v=at(other, p), combine=rng.random() < .25))
        elif r < .5:
            other = good(rng, fn)
            ps = leaves(other)
            p = list(rng.choice(ps))
            out.append(dict(op='config', path=p, names=write_files(rng, files, at(other, p)),
                            combine=rng.random() < .3))
        elif r < .65 and p:
            x = {'op': 'del', 'path': p}
            out.append(x)
            if rng.random() < .4:
                out.append(dict(op='set', path=p, v=at(want, p), combine=False))
        elif r < .7 and [o for o in out if o['op'] == 'config' and not o['path']]:
            # metadata of a file
            ints = [q for q in paths if isinstance(at(want, q), int)]
            if ints:
                out.append(dict(op='set', path=list(rng.choice(ints)), v='${_meta_.f}',
                                combine=False))
        elif r < .8:
            # a value that comes from the metadata
            key = rng.choice(['u', 'v'])
            ints = [q for q in paths if isinstance(at(want, q), int)]
            if ints:
                q = list(rng.choice(ints))
                out.append(dict(op='set', path=['_meta_', key], v=rng.randrange(9), combine=False))
                out.append(dict(op='set', path=q, v='${_meta_.%s}' % key, combine=False))
        elif r < .88:
            out.append(dict(op='set', path=p + [rng.choice(['zz', '0', '-1', '7', 'x'] if p else ['zz', '0', 'x'])],
                            v=rng.choice([1, 'x', [], {}]), combine=rng.random() < .3))
        elif r < .93:
            out.append(dict(op='del', path=p + ['zz']))
        else:
            out.append(dict(op='set', path=p, v=rng.choice(['bad', None, [None], {'q': 1}, 1.25]),
                            combine=rng.random() < .3))
    if isinstance(want, list) and any('_meta_' in o['path'] for o in out):
        out = [o for o in out if '_meta_' not in o['path']]
    if rng.random() < .08:
        rng.shuffle(out)
    return out


def write_files(rng, files, v):
    """Names of new configs that give v when they are loaded together."""
    n = len(files)
    d = rng.choice(['', '', 'sub/'])
    parts = [v]
    if isinstance(v, dict) and v and rng.random() < .35:
        keys = list(v)
        k = rng.randrange(len(keys) + 1)
        parts = [{x: v[x] for x in keys[:k]}, {x: v[x] for x in keys[k:]}]
        if rng.random() < .4 and keys[k:]:
            parts[0][keys[k]] = 'overridden'
    elif isinstance(v, list) and v and rng.random() < .35:
        k = rng.randrange(len(v) + 1)
        parts = [v[:k], v[k:]]
    if isinstance(parts[0], dict) and rng.random() < .3:
        ints = [k for k, x in parts[0].items() if type(x) is int]
        if ints:
            k = rng.choice(ints)
            parts[0] = {**parts[0], k: '${_meta_.f}', '_meta_': {'f': parts[0][k]}}
    names = []
    for i, p in enumerate(parts):
        ext = rng.choice(['.json', '.yaml', '.yml'])
        name = f'{d}c{n}_{i}'
        files[name + ext] = dict(v=p, style=rng.randrange(4))
        names.append(name + (ext if rng.random() < .7 else ''))
    if rng.random() < .02:
        names.append('missing')
    return names


FAULTS12 = ['short read', 'read error', 'open fails', 'interrupt in read', 'close fails',
            'list fails', 'short write', 'disk full', 'write error', 'interrupt in write']
FAULTS13 = ['mkdir fails', 'chdir fails', 'getcwd fails', 'mkdir fails', 'chdir fails',
            'another process', 'another process', 'read error', 'open fails', 'write error',
            'disk full']
OUTPUTS = ['out', 'jobs/%Y%m%dT%H%M%S.%fZ', 'a/b/c', '%Y/%m/%d', '%H-%M-%S', '%j/%U/%a', '100%%',
           '%y%b', '<root>/abs/%Y-%m-%d_%H.%M', '../%d', '.', './x', 'is_file', 'is_file/x', '%Z%z',
           'é %A', '%p%I', 'there', 'there/%S', '%f', 'a b', '%Y%m%dT%H']
ENDS = ['return', 'return', 'return', 'Exception', 'MarshError', 'UnmarshalError', 'OSError',
        'SystemExit', 'SystemExit 3', 'KeyboardInterrupt', 'GeneratorExit', 'BaseException']
AWAY = {'chdir': 'other', 'chdir up': ''}
INSTANTS = [0, 951782399, 951782400, 978307199, 978307200, 1078012800, 1456703999, 1582934400,
            1709164800, 1711846799, 1711846800, 1699163999, 1730595600, 1735689599, 1735689600,
            2147483647, 2147483648, 4102444799, 1e9, 1.7e9, 1763575200, 253402300799]


def gen_clock(rng):
    base = int(rng.choice(INSTANTS)) if rng.random() < .6 else rng.randrange(0, 4 * 10 ** 9)
    t = base * 10 ** 9 + rng.choice([0, 0, 999999000, 1000, 500000000, 123456000, 999000])
    script = [t]
    for _ in range(rng.choice([0, 0, 2, 5])):
        r = rng.random()
        if r < .5:
            t += rng.choice([1000, 10 ** 6, 10 ** 9, 60 * 10 ** 9])
        else:
            t = max(0, t + rng.choice([-1, 1]) * rng.choice([3600, 86400, 31 * 86400, 366 * 86400])
                    * 10 ** 9)
        t = min(t, 253402300799 * 10 ** 9)
        script.append(t)
    return script


class EntryWorld(FsWorld):
    clock = True
    emphasis = None

    def gen(self, rng, index):
        files = {}
        steps = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            steps.append(self.gen_step(rng, files))
        plan = self.plan(rng, self.faults)
        return dict(files=files, steps=steps, cwd=rng.choice(['', 'here', 'here']), plan=plan)

    def gen_step(self, rng, files):
        e = self.emphasis
        fn = rng.choice(list(FNS))
        s = dict(op='run', fn=fn, clock=gen_clock(rng), zone=rng.choice(clock.ZONES + [None]))
        s['overrides'] = gen_overrides(rng, fn, files)
        r = rng.random()
        if r < .15:
            s['config_dir'] = rng.choice(['<cwd>', '.', '<cwd>/sub', 'sub'])
        if rng.random() < (.25 if e == 'calls' else .85):
            s['output'] = rng.choice(OUTPUTS)
            if rng.random() < .15:
                s['output'] = None  # the default
        if rng.random() < (.4 if e == 'calls' else .2):
            s['config_out'] = rng.choice(['o.json', 'o.yaml', 'sub/o.yml', '-', 'o.json', 'o.yaml',
                                          '<root>/full.json', 'nodir/o.json', 'o.txt', None])
        s['end'] = rng.choice(ENDS) if rng.random() < (.3 if e == 'calls' else .7) else 'return'
        if rng.random() < .1:
            s['construct'] = rng.choice(ENDS[3:])
        if rng.random() < (.05 if e == 'calls' else .25):
            s['inside'] = rng.choice(['chdir', 'remove', 'nested', 'chdir up'])
        r = rng.random()
        if r < .12:
            s['pass'] = [rng.choice([[], [4], [0], [None]]),
                         rng.choice([{}, {'b': 'pass'}, {'k': 0.5}, {'b': ''}, {'k': 0}, {'b': None, 'k': False},
                                     {'a': 0}])]
        if rng.random() < .1:
            s['full'] = True
        s['reuse'] = rng.random() < .4
        if rng.random() < .1:
            s['logging'] = True
        if rng.random() < .04:
            s['extra'] = rng.choice([['--nonsense'], ['noassignment'], ['a=[1'], ['~'], ['=@'],
                                     ['--help'], ['-h', 'a'], ['-h', 'd.e'], ['-h', 'zz.'],
                                     ['--help=x'], ['--config-dir']])
        return s

    def shrinks(self, spec):
        yield from super().shrinks(spec)
        for i, s in enumerate(spec['steps']):
            def with_(**kw):
                return dict(spec, steps=spec['steps'][:i] + [dict(s, **kw)] + spec['steps'][i + 1:])
            for cand in core.drop_chunks(s['overrides']):
                yield with_(overrides=cand)
            for k in ('config_dir', 'output', 'config_out', 'construct', 'inside', 'pass', 'logging',
                      'extra', 'full'):
                if k in s:
                    yield dict(spec, steps=spec['steps'][:i]
                               + [{x: y for x, y in s.items() if x != k}] + spec['steps'][i + 1:])
            if s['end'] != 'return':
                yield with_(end='return')
            if len(s['clock']) > 1:
                yield with_(clock=s['clock'][:1])
            for cand in core.drop_chunks(list(s.get('config_out') or '') and []):
                yield with_(config_out=cand)
        used = {n for s in spec['steps'] for o in s['overrides'] for n in o.get('names', ())}
        need = {f for f in spec['files'] if f in used or os.path.splitext(f)[0] in used}
        if len(need) < len(spec['files']):
            yield dict(spec, files={k: spec['files'][k] for k in need})


class EntryRun(FsRun):
    def setup(self):
        for d in ('here', 'here/sub', 'here/there', 'here/there/sub', 'sub', 'there', 'there/sub', 'other'):
            os.mkdir(d)
        self.cwd = os.path.join(self.root, self.spec['cwd']).rstrip('/')
        os.chdir(self.cwd)
        disk.put('is_file', 'x')
        for f, c in self.spec['files'].items():
            disk.put(f, encode(f, c))
            # a decoy
            os.makedirs(os.path.dirname(os.path.join('there', f)), exist_ok=True)
            disk.put(os.path.join('there', f), encode(f, dict(v={'decoy': 1}, style=0)))
            if 'sub/' not in f:
                disk.put(os.path.join('sub', f), encode(f, c))
        self.u = conv.load_universe('user', SOURCE, False)
        self.u.enter = self.enter
        self.points = {}
        self.calls = []
        self.tz = os.environ.get('TZ')
        self.act_rng = random.Random(json.dumps(self.spec['plan'].get('seed', 0)))

        self.d.spare = self.spare
        self.home = disk.R['stat'](self.cwd)

    def spare(self, kind, path):
        """The change back must work."""
        if kind != 'chdir':
            return False
        try:
            return os.path.samestat(disk.R['stat'](path), self.home)
        except OSError:
            return False

    def act(self):
        """Another process is about in the directories."""
        d = self.d
        kind, path = d.at
        if self.stage != 'before' or not isinstance(path, str):
            return False
        path = os.path.join(disk.R['getcwd'](), path)
        if not path.startswith(self.root + '/') or self.cwd.startswith(path):
            return False
        if kind == 'mkdir':
            try:
                disk.R['mkdir'](path)
            except OSError:
                return False
            return True
        if kind == 'chdir':
            try:
                disk.R['rmdir'](path)
            except OSError:
                return False
            self.removed = True
            return True
        return False

    # -- the function of the user
    def enter(self, name, args):
        d = self.d
        if self.recording is not None:
            self.recording.append([name, args])
            return None
        with disk.Disk.paused(d):
            now = disk.R['getcwd']()
            self.calls.append([name, copy.deepcopy(args), now])
            # nothing fails from here on, as far as the system is concerned
            d.calm = True
            self.stage = 'inside'
            s = self.s
            inside = s.get('inside')
            if inside in AWAY:
                disk.R['chdir'](os.path.join(self.root, AWAY[inside]))
            elif inside == 'remove' and now != self.cwd and not self.cwd.startswith(now):
                disk.shutil.rmtree(now, ignore_errors=True)
            elif inside == 'nested' and not self.nesting:
                self.nested()
        self.stage = 'after'
        if len(self.calls) > 1 and not self.nesting:
            return None
        how = 'return' if self.nesting else s['end']
        if how == 'return':
            self.returned = object()
            return self.returned
        self.raised = self.exception(how)
        raise self.raised

    def exception(self, how):
        m = self.m
        return {
            'Exception': lambda: self.u.Boom('x'),
            'MarshError': lambda: m.errors.MarshError('by the function'),
            'UnmarshalError': lambda: m.errors.UnmarshalError('by the function', path='a'),
            'OSError': lambda: OSError(5, 'by the function'),
            'SystemExit': lambda: SystemExit(0),
            'SystemExit 3': lambda: SystemExit(3),
            'KeyboardInterrupt': KeyboardInterrupt,
            'GeneratorExit': GeneratorExit,
            'BaseException': lambda: BaseException('x'),
        }[how]()

    def nested(self):
        """Another entry point is run by the function."""
        here = disk.R['getcwd']()
        self.nesting = True
        calls, self.calls = self.calls, []
        argv, sys.argv = sys.argv, ['inner', '--output=inner']
        try:
            self.m.main(self.u.f_none)()
            if len(self.calls) != 1 or self.calls[0][2] != os.path.join(here, 'inner'):
                self.bad('nested', f'an entry point within another: {self.calls}')
        except Exception as err:
            self.bad('nested', f'an entry point within another: {type(err).__name__}: {err}')
        finally:
            self.calls = calls
            self.nesting = False
            sys.argv = argv
        if disk.R['getcwd']() != here:
            self.bad('nested', 'the inner entry point did not restore the directory')

    recording = None
    nesting = False

    def raw(self, s):
        name = 'f_cfg' if s['fn'].startswith('f_cfg') else s['fn']
        return getattr(self.u, name)

    def point(self, s):
        """The entry point."""
        key = (s['fn'], bool(s.get('logging')))
        if s['reuse'] and key in self.points:
            return self.points[key]
        kw = {}
        if FNS[s['fn']]:
            kw['config'] = eval(FNS[s['fn']], self.u.__dict__)
        if s.get('logging'):
            kw['setup_logging'] = True
        p = self.points[key] = self.m.main(self.raw(s), **kw)
        return p

    def expand(self, text):
        return text.replace('<root>', self.root).replace('<cwd>', self.cwd)

    def argv(self, s):
        out = [token(o) for o in s['overrides']] + s.get('extra', [])
        if 'config_dir' in s:
            out.insert(0, '--config-dir=' + self.expand(s['config_dir']))
        if 'output' in s:
            out.append('--output' if s['output'] is None else '--output=' + self.expand(s['output']))
        if 'config_out' in s:
            out.append('--config-out' if s['config_out'] is None
                       else '--config-out=' + self.expand(s['config_out']))
        if s.get('logging'):
            out.insert(0, '--logging-level=ERROR')
        return ['prog'] + out

    def read(self, s):
        base = self.expand(s.get('config_dir', ''))
        base = os.path.normpath(os.path.join(self.cwd, base))

        def read(name):
            rel = os.path.relpath(os.path.join(base, name), self.cwd)
            here = rel if 'sub/' in name or not rel.startswith('sub/') else rel[4:]
            for f, c in self.spec['files'].items():
                if here in (f, os.path.splitext(f)[0]):
                    # in sub there is a copy of what is not in sub
                    if rel.startswith('sub/sub/'):
                        raise Raises
                    return c['v']
            raise Raises
        return read

    def expected(self, s, config):
        """What the function should be called with."""
        m = self.m
        args, kwargs = s.get('pass', ((), {}))
        self.recording = []
        try:
            try:
                if self.direct(s):
                    raise Undecided
                if FNS[s['fn']]:
                    got = [ref_value(self.u, CONFIGS[FNS[s['fn']]], config)], {}
                elif config is m.MISSING:
                    got = ref_args(self.u, s['fn'], {}, args, kwargs)
                else:
                    got = ref_args(self.u, s['fn'], config, args, kwargs)
                self.stats['arguments decided'] += 1
                self.raw(s)(*got[0], **got[1])
                return self.recording[0]
            except Raises:
                self.stats['arguments decided'] += 1
                return ['error', 'by the reference']
            except Undecided:
                pass
            if FNS[s['fn']]:
                if args or kwargs:
                    self.raw(s)(*args, **kwargs)
                else:
                    v = m.unmarshal(eval(FNS[s['fn']], self.u.__dict__), config)
                    self.raw(s)(v)
            else:
                got = m.schema.argument.ArgumentsUnmarshalSchema(self.raw(s)).unmarshal(
                    config, default_args=args, default_kwargs=kwargs)
                self.raw(s)(*got.args, **got.kwargs)
            return self.recording[0]
        except Exception as err:
            return ['error', type(err).__name__, str(err)]
        finally:
            self.recording = None

    def step(self, i, s):
        self.s = s
        out, text = self.perform(i, s)
        if self.viol:
            return
        checked = self.judge(i, s, out, text)
        # the file written, used as the only config of another run
        if self.viol or not checked or not s.get('config_out') or s['config_out'] == '-':
            return
        if not self.calls or s.get('inside') == 'remove':
            return
        where = os.path.join(self.calls[0][2], self.expand(s['config_out']))
        first = self.calls[0][:2]
        again = dict(op='run', fn=s['fn'], overrides=[dict(op='config', path=[], names=[where],
                                                           combine=False)],
                     clock=s['clock'], zone=s['zone'], end='return', reuse=False)
        if 'pass' in s:
            again['pass'] = s['pass']
        self.s = again
        out, text = self.perform(i, again, calm=True)
        self.stats['runs with the config written'] += 1
        if self.viol:
            return
        if not self.calls or not equal(loose(self.calls[0][:2]), loose(first)):
            self.bad('config-out', f'{self.argv(s)[1:]}: called with {first}, and with the config '
                     f'that was written {self.calls or text or out}')

    def perform(self, i, s, calm=False):
        m, d = self.m, self.d
        self.calls = []
        self.stage = 'before'
        self.removed = False
        self.returned = self.raised = None
        self.now = None
        point = self.point(s)
        args, kwargs = s.get('pass', ((), {}))
        self.u.trouble.clear()
        if s.get('construct'):
            self.u.trouble['construct'] = self.exception(s['construct'])
        self.trouble = self.u.trouble.get('construct')
        argv, stdout, stderr = sys.argv, sys.stdout, sys.stderr
        sys.argv = self.argv(s)
        text = io.StringIO()
        sys.stdout = sys.stderr = text
        self.error = None

        def run():
            try:
                return point(*args, **kwargs)
            except BaseException as err:
                self.error = err
                raise

        clock.set_zone(s['zone'])
        clock.set_clock(s['clock'])
        if s.get('full'):
            os.environ['MARSH_FULL_ERROR'] = '1'
        try:
            out = self.call(i, run, calm)
            self.times = clock.readings()
        finally:
            clock.off()
            os.environ.pop('MARSH_FULL_ERROR', None)
            clock.set_zone(self.tz)
            sys.argv, sys.stdout, sys.stderr = argv, stdout, stderr
            self.u.trouble.clear()
        text = self.clean(text.getvalue())
        if out[0] == 'ok':
            out[1] = 'the result' if out[1] is self.returned else repr(type(out[1]))
        now = disk.R['getcwd']()
        back = [self.cwd]
        if self.calls and s.get('inside') in AWAY and ('output' not in s or self.direct(s)):
            # the function left it, and nobody said it has to be restored
            back.append(os.path.join(self.root, AWAY[s['inside']]).rstrip('/'))
        if now not in back:
            self.bad('directory', f'{self.show(s)}: the working directory is {now} after '
                     f'{out[:2]} (function called: {bool(self.calls)})')
        disk.R['chdir'](self.cwd)
        self.hist.append([out[:2], [[n, repr(a)] for n, a, _ in self.calls], d.now[:], text[:3000]])
        return out, text

    def show(self, s):
        extra = {k: s[k] for k in ('fn', 'end', 'construct', 'inside', 'pass', 'clock', 'zone')
                 if k in s}
        return self.clean(f'{self.argv(s)[1:]} {extra} with {self.d.now}')

    def judge(self, i, s, out, text):
        d = self.d
        if self.calls:
            self.stats['fault:the function raises ' + s['end']] += self.raised is not None
        self.stats['function called' if self.calls else 'function not called'] += 1
        if self.trouble is not None and self.error is self.trouble:
            self.stats['fault:the constructor raises'] += 1
        if len(self.times) > 1 and any(b < a for a, b in zip(self.times, self.times[1:])):
            self.stats['fault:clock goes back'] += 1
        if 'inside' in s and self.calls:
            self.stats['fault:within the function: ' + s['inside']] += 1
        if self.times:
            self.sim_s += (max(s['clock']) - min(s['clock'])) / 1e9
        what = self.show(s)
        gone = f'{out}; printed {text[-300:]!r}'
        if out[0] == 'no end':
            self.bad('no end', what)
            return
        if len(self.calls) > 1:
            self.bad('twice', f'{what}: the function was called {len(self.calls)} times')
            return
        # how it ended
        if self.calls:
            if self.raised is not None:
                if self.error is not self.raised:
                    self.bad('result', f'{what}: the function raised {self.raised!r}, '
                             f'the call ended with {gone}')
            elif out[1] != 'the result':
                self.bad('result', f'{what}: the function returned, the call ended with {gone}')
        elif out[0] == 'ok':
            self.bad('not called', f'{what}: returned without calling the function')
        elif self.error is self.trouble and self.trouble is not None:
            pass
        elif isinstance(self.error, SystemExit) and self.error.code in (0, None) \
                and not any('-h' in x for x in s.get('extra', ())):
            self.bad('status', f'{what}: the function was not called but the status is 0: {gone}')
        hard = d.hard()
        if self.direct(s):
            # called directly
            want = self.expected(s, None)
            if want[0] == 'error':
                if self.calls:
                    self.bad('called', f'{what}: called with {self.calls[0][:2]} though {want}')
            elif not self.calls:
                self.bad('not called', f'{what}: {gone}')
            elif not equal(self.calls[0][:2], want):
                self.bad('arguments', f'{what}: called with {self.calls[0][:2]}')
            elif self.calls[0][2] != self.cwd:
                self.bad('directory', f'{what}: called in {self.calls[0][2]}')
            return
        if hard and self.calls:
            self.bad('called', f'{what}: the function was called all the same')
            return
        # where it ran
        if self.calls:
            self.judge_where(s, what)
        # with what
        want = None
        try:
            if s.get('extra'):
                raise Raises
            config = ref_config(s['overrides'], self.read(s))
            if config is MISSING:
                config = self.m.MISSING
        except Raises:
            want = ['error']
        except Undecided:
            return
        if want is None:
            if self.trouble is not None and not self.calls:
                # the first E made raises, and what happens then depends on what it is
                return
            if s.get('config_out', '') not in ('', '-', None) and self.cannot_write(s):
                want = ['error', 'config-out']
            elif s.get('output') and s['output'].startswith('is_file'):
                want = ['error', 'output']
            else:
                want = self.expected(s, config)
        if want[0] == 'error':
            if self.calls:
                self.bad('called', f'{what}: called with {self.calls[0][:2]} though {want}')
            return
        if not self.calls:
            if not hard and not self.removed:
                self.bad('not called', f'{what}: {gone}; expected {want}')
            return
        if not equal(self.calls[0][:2], want):
            self.bad('arguments', f'{what}: called with {self.calls[0][:2]}, expected {want}')
            return
        if s.get('config_out', '') in ('-', None):
            try:
                back = yaml.safe_load(text)
            except Exception as err:
                back = err
            if not same(back, config):
                self.bad('config-out', f'{what}: printed {text!r} for {config}')
        return True

    @staticmethod
    def direct(s):
        return FNS[s['fn']] and s.get('pass') and any(s['pass'])

    def cannot_write(self, s):
        return s['config_out'] in ('nodir/o.json', 'o.txt') or (
            s['config_out'].startswith('sub/') and 'output' in s
            and s['output'] not in ('.', 'there'))

    def judge_where(self, s, what):
        now = self.calls[0][2]
        if 'output' not in s:
            want = [self.cwd]
        else:
            fmt = 'jobs/%Y%m%dT%H%M%S.%fZ' if s['output'] is None else self.expand(s['output'])
            want = []
            if '%' not in fmt:
                want.append(os.path.normpath(os.path.join(self.cwd, fmt)))
            for ns in self.times:
                t = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + \
                    datetime.timedelta(microseconds=ns // 1000)
                want.append(os.path.normpath(os.path.join(self.cwd, t.strftime(fmt))))
        if now not in want:
            self.bad('where', f'{what}: the function ran in {self.clean(now)}, expected '
                     f'{self.clean(want[:3])}')


def equal(a, b):
    return type(a) is type(b) and repr(a) == repr(b) if isinstance(a, float) else \
        a == b and repr(a) == repr(b)


def loose(v):
    """Without the order of keys."""
    if isinstance(v, dict):
        return {k: loose(v[k]) for k in sorted(v)}
    if type(v) in (list, tuple):
        return type(v)(loose(x) for x in v)
    return v


class EntryCalls(EntryWorld):
    emphasis = 'calls'
    faults = FAULTS12
    rule = ('A case is 1-3 runs of entry points over 9 kinds of functions and config classes, with '
            'generated overrides (set, combine, config file, remove at any depth, interpolations), '
            'config files, options, passed-through arguments and failing functions, under read and '
            'write faults. Non-trivial: at least one system call. Distinct by command lines, calls '
            'and faults.')
    assumptions = ('combining values of different kinds is not decided (documentation and code '
                   'differ)', 'no escaped interpolations')
    Run = EntryRun


class EntryCwd(EntryWorld):
    emphasis = 'cwd'
    faults = FAULTS13
    rule = ('A case is 1-3 runs of entry points with --output (22 forms), under 13 time zones, '
            'clocks with jumps, directory and file faults, other processes creating and removing '
            'directories, and 12 ways for the function to end. Non-trivial: at least one system '
            'call. Distinct by command lines, calls and faults.')
    assumptions = ('the final change back does not fail', 'the caller\'s directory still exists')
    Run = EntryRun
