"""Caches under schedules and histories: C14."""
import gc
import random
import weakref

from . import core, sched
from .ops import INF, Op, OpsRun, OpsWorld, possible, random_schedule

SOURCE = '''
class L:
    """Value equality, not hashable."""
    def __init__(self, v):
        self.v = v
    __hash__ = None
    def __eq__(self, other):
        if type(other) is not L:
            return NotImplemented
        return self.v == other.v
    def __repr__(self):
        return f'L({self.v!r})'

class O:
    pass

class V:
    def __init__(self, v=1):
        self.v = v
    def __hash__(self):
        return hash(self.v)
    def __eq__(self, other):
        if type(other) is not V:
            return NotImplemented
        return self.v == other.v

class U:
    def __eq__(self, other):
        return self is other
    __hash__ = None

class N:
    __slots__ = ('v',)

class Res:
    def __init__(self, inv):
        self.inv = inv

def make(enter):
    def f(*args, **kwargs):
        inv = enter(args, kwargs)
        x = inv
        r = Res(x)
        y = r
        return y
    return f

def make_method(enter):
    def m(self, *args, **kwargs):
        inv = enter(args, kwargs, self)
        x = inv
        r = Res(x)
        y = r
        return y
    return m
'''

# Not a place to switch threads: how often a dict compares keys whose hashes
# collide depends on the addresses of other keys.
ATOMIC = '''
class K:
    """Value equality, all hashes collide."""
    def __init__(self, v):
        self.v = v
    def __hash__(self):
        h = 7
        return h
    def __eq__(self, other):
        if type(other) is not K:
            return NotImplemented
        same = self.v == other.v
        return same
    def __repr__(self):
        return f'K({self.v!r})'
'''

ERRORS = {'v!': ValueError, 't!': TypeError, 'k!': KeyError}
ARGS = ['0', '1', 'True', '1.0', '2', '-1', '-2', "'a'", "'b'", 'None', '()', '(1,)', '(1.0,)',
        'K(1)', 'K(1)', 'K(2)', 'int', 'str', 'frozenset({1})', '[1]', '[1]', '[2]', '{}', 'L(1)',
        "'v!'", "'t!'", "'k!'", 'K(3)']
KEYS = ['0', '1', 'True', '1.0', '2', "'a'", 'None', '()', '(1,)', '(1.0,)', 'K(1)', 'K(2)', 'K(3)',
        'int', 'str', 'bool', '[1]', '[1.0]', '[2]', '{}', "{'a': 1}", 'L(1)', 'L(2)', '[]', '-1',
        '-2', 'UserList([1])']


class Caches(OpsWorld):
    runs = {'quick': 45000, 'thorough': 800000}
    source = SOURCE
    real = ('marsh.utils.cache, CachePool, ValueCache, SafeDict', 'functools.lru_cache, weakref',
            'real OS threads, released one at a time')
    stub = ('locks created by marsh (simulated)',)
    assumptions = (
        'threads are preempted between source lines of marsh and of the user code that keys and '
        'functions are made of; the C code of lru_cache is preempted only where it calls that code',
    )
    rule = ('A case is 1-3 threads making up to 30 operations on 1-3 caches (function caches of '
            'every binding, size, typed and safe setting; value caches; SafeDict): calls, nested '
            'calls and clears from within the cached function, clears, disables, enables, '
            'get/set/delete, dropping objects. Non-trivial: at least two operations. Distinct by '
            'history and interleaving.')

    def gen(self, rng, index):
        caches = []
        flavour = rng.choice(['fn'] * 5 + ['value', 'value', 'value', 'mixed', 'dict', 'dict'])
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            kind = 'fn' if flavour == 'fn' else 'value' if flavour == 'value' else \
                'dict' if flavour == 'dict' else rng.choice(['fn', 'value'])
            if kind == 'fn':
                caches.append(dict(
                    kind=kind, maxsize=rng.choice([None, None, None, 1, 2, 3, 0]),
                    typed=rng.random() < .3, safe=rng.random() < .75,
                    binding=rng.choice([None, 'weak', 'ignore']), pool=rng.random() < .5))
            else:
                caches.append(dict(kind=kind, typed=rng.random() < .4, pool=kind == 'value' and rng.random() < .4))
        nthreads = 1 if flavour == 'dict' else rng.choice([1, 1, 2, 2, 2, 3])
        keys = rng.sample(ARGS if flavour == 'fn' else KEYS, rng.choice([1, 2, 3, 6]))
        objs = [rng.choice(['O', 'O', 'V', 'V', 'U', 'N']) for _ in range(rng.choice([1, 2, 3]))]
        pc = rng.choice([0, .05, .15, .3])

        def call(depth=0):
            c = rng.randrange(len(caches))
            cc = caches[c]
            if rng.random() < pc:
                op = rng.choice(['clear', 'clear', 'disable', 'enable', 'enable', 'info', 'drop',
                                 'pool clear', 'pool disable', 'pool enable'])
                if nthreads > 1 and op == 'info' and cc['kind'] != 'fn':
                    op = 'clear'
                if op == 'drop':
                    return dict(op=op, o=rng.randrange(len(objs)))
                if cc['kind'] == 'dict' and not op.startswith('pool'):
                    return dict(op='clear', c=c)
                return dict(op=op) if op.startswith('pool') else dict(op=op, c=c)
            if cc['kind'] == 'fn':
                s = dict(op='call', c=c, a=[rng.choice(keys) for _ in range(rng.choice([0, 1, 1, 2]))])
                if rng.random() < .25:
                    s['k'] = {k: rng.choice(keys) for k in
                              rng.sample(['p', 'q'], rng.choice([1, 2]))}
                if cc['binding']:
                    s['o'] = rng.randrange(len(objs))
                if depth < 2 and rng.random() < .12:
                    s['in'] = [call(depth + 1) for _ in range(rng.choice([1, 2]))]
                return s
            k = rng.choice(keys)
            r = rng.random()
            if r < .42:
                return dict(op='set', c=c, k=k)
            if r < .84:
                return dict(op='get', c=c, k=k)
            if r < .94 or nthreads > 1:
                return dict(op='del', c=c, k=k)
            return dict(op='list', c=c)

        if flavour in ('value', 'dict', 'mixed'):
            keys = [k for k in keys if '!' not in k and 'frozenset' not in k]
            keys = keys or ['1']
        n = rng.choice([2, 3, 4, 6, 10]) if nthreads > 1 else rng.choice([4, 8, 15, 30])
        threads = [[call() for _ in range(rng.randint(1, n))] for _ in range(nthreads)]
        return dict(setup=dict(caches=caches, objs=objs), threads=threads,
                    before=[call() for _ in range(rng.choice([0, 0, 1, 2]))],
                    schedule=random_schedule(rng, 25 * sum(map(len, threads))))


class Self:
    """A self object that calls were made on."""

    def __init__(self, cls, name):
        self.cls = cls
        self.name = name

    def __eq__(self, other):
        if self.cls == 'V' and other.cls == 'V':
            return self.name % 2 == other.name % 2
        return self is other


class Inv:
    def __init__(self, op, n, args, kwargs, who):
        self.op = op
        self.n = n
        self.args = args
        self.kwargs = kwargs
        self.who = who
        self.s = op.s


def same_args(a, ka, b, kb, typed):
    if len(a) != len(b) or set(ka) != set(kb):
        return False
    for x, y in [*zip(a, b), *((ka[k], kb[k]) for k in ka)]:
        if typed and type(x) is not type(y):
            return False
        if not (x is y or x == y):
            return False
    return True


def hashable(x):
    try:
        hash(x)
    except TypeError:
        return False
    return True


class CachesRun(OpsRun):
    def setup(self):
        from collections import UserList
        u = self.mods['user']
        u.UserList = UserList
        exec(compile(ATOMIC, '<atomic>', 'exec'), u.__dict__)
        utils = self.w.marsh.utils
        self.invs = []
        self.live = []
        self.caches = []
        self.single = len(self.spec['threads']) == 1
        pool = self.pool = utils.CachePool()
        self.objs = []
        self.selves = {}
        self.nobj = 0
        self.dead = []
        for i, cls in enumerate(self.spec['setup']['objs']):
            self.objs.append(None)
            self.new_obj(i)
        for i, c in enumerate(self.spec['setup']['caches']):
            if c['kind'] == 'fn':
                def enter(args, kwargs, who=None, i=i):
                    return self.enter(i, args, kwargs, who)
                f = (u.make_method if c['binding'] else u.make)(enter)
                kw = dict(maxsize=c['maxsize'], typed=c['typed'], safe=c['safe'],
                          binding=c['binding'])
                if c['pool']:
                    obj = pool.new_callable_cache(f, name=f'c{i}', **kw)
                else:
                    obj = utils.cache(f, **kw)
            elif c['kind'] == 'value':
                if c['pool'] and not c['typed']:
                    obj = pool.new_value_cache(f'c{i}')
                else:
                    obj = utils.ValueCache(typed=c['typed'])
                    if c['pool']:
                        pool.add(f'c{i}', obj)
            else:
                obj = utils.SafeDict()
            self.caches.append(obj)
        self.nval = 0

    def new_obj(self, i):
        u = self.mods['user']
        cls = self.spec['setup']['objs'][i]
        name = self.nobj
        self.nobj += 1
        # no switch to another thread is possible in here
        obj = object.__new__(getattr(u, cls))
        if cls == 'V':
            obj.v = name % 2
        self.objs[i] = obj
        self.selves[id(obj)] = Self(cls, name)

    # called by the cached functions
    def enter(self, c, args, kwargs, who):
        t = sched.CUR
        op = t.ops[-1]
        inv = Inv(op, len(self.invs), args, kwargs,
                  None if who is None else self.selves.get(id(who)))
        inv.s = self.sched.stamp()
        self.invs.append(inv)
        if who is None and self.spec['setup']['caches'][c]['binding']:
            self.bad('self', f'{op}: the function was called with self None')
        op.x['invs'].append(inv.n)
        if op.step['op'] != 'call' or op.step['c'] != c:
            self.bad('self', f'{op}: another function was called')
            return inv.n
        self.inner(t, op.step.get('in', ()) if len(op.x['invs']) == 1 else ())
        for x in args + tuple(kwargs.values()):
            if isinstance(x, str) and x in ERRORS:
                raise ERRORS[x](f'no {x}')
        return inv.n

    def value_of(self, src):
        return eval(src, self.mods['user'].__dict__)

    def do(self, t, step):
        op = t.ops[-1]
        kind = step['op']
        if kind == 'drop':
            return self.drop(step['o'])
        try:
            return self.act(op, step, kind)
        except sched.Killed:
            raise
        except Exception as err:
            self.bad('raises', f'{op} raised {type(err).__name__}: {err}')
            return ['error', type(err).__name__]

    def act(self, op, step, kind):
        if kind.startswith('pool'):
            getattr(self.pool, 'cache_' + kind[5:])()
            return None
        cache = self.caches[step['c']]
        cc = self.spec['setup']['caches'][step['c']]
        if kind == 'clear':
            cache.clear() if cc['kind'] == 'dict' else cache.cache_clear()
            return None
        if kind in ('disable', 'enable'):
            getattr(cache, 'cache_' + kind)()
            return None
        if kind == 'info':
            info = cache.cache_info()
            if cc['kind'] == 'fn' and cc['maxsize'] is not None and info.currsize > cc['maxsize']:
                self.bad('maxsize', f'{step}: {info} exceeds {cc}')
            return list(info)
        if kind == 'call':
            args = tuple(self.value_of(a) for a in step['a'])
            kwargs = {k: self.value_of(a) for k, a in step.get('k', {}).items()}
            op.x = dict(args=args, kwargs=kwargs, invs=[], who=None)
            self_ = ()
            if 'o' in step:
                self_ = (self.objs[step['o']],)
                op.x['who'] = self.selves[id(self_[0])]
                op.x['obj'] = step['o']
            try:
                res = cache(*self_, *args, **kwargs)
            except sched.Killed:
                raise
            except BaseException as err:
                out = ['error', type(err).__name__, str(err)]
                del err
                return out
            finally:
                self_ = None
            if type(res).__name__ != 'Res':
                return ['odd', repr(res)]
            self.live.append((step['c'], weakref.ref(res)))
            return ['value', res.inv]
        key = self.value_of(step['k']) if 'k' in step else None
        op.x = dict(key=key)
        try:
            if kind == 'set':
                self.nval += 1
                op.x['value'] = v = self.nval
                cache[key] = v
                return None
            if kind == 'get':
                return ['value', cache[key]]
            if kind == 'del':
                del cache[key]
                return None
            if kind == 'list':
                if cc['kind'] == 'dict':
                    op.x['list'] = [list(cache), list(reversed(cache)), len(cache)]
                else:
                    op.x['list'] = [None, None, len(cache)]
                return ['len', len(cache)]
        except sched.Killed:
            raise
        except BaseException as err:
            return ['error', type(err).__name__]
        raise AssertionError(kind)

    def drop(self, o):
        """Forget an object and make another one, often at the same address."""
        obj = self.objs[o]
        cls = self.spec['setup']['objs'][o]
        alive = weakref.ref(obj) if cls != 'N' else None
        busy = any(op.x and op.x.get('obj') == o and op.e == INF for op in self.hist)
        self.objs[o] = None
        del obj
        if alive is not None and not busy:
            gc.collect()
            if alive() is not None:
                self.bad('kept alive', f'object {o} of class {cls} is kept alive by a cache with '
                         f'a binding: {self.spec["setup"]["caches"]}')
        self.new_obj(o)
        return None

    # -- oracle
    def on(self, c, *ops):
        """Operations of these kinds that act on cache c."""
        pooled = self.spec['setup']['caches'][c].get('pool')
        for op in self.hist:
            k = op.step['op']
            if k in ops and op.step.get('c') == c:
                yield op
            elif k.startswith('pool') and pooled and k[5:] in ops:
                yield op

    def switch(self, c, s, e):
        """(may be disabled, may be enabled) at some moment of [s, e]."""
        writes = [(-2, -1, False, True)]
        for op in self.on(c, 'disable', 'enable'):
            writes.append((op.s, op.e, op.step['op'].endswith('disable'), True))
        vals = possible(writes, s, e)
        return True in vals, False in vals

    def judge(self):
        for c, cc in enumerate(self.spec['setup']['caches']):
            if cc['kind'] == 'fn':
                self.judge_fn(c, cc)
            elif cc['kind'] == 'value':
                self.judge_value(c, cc)
            else:
                self.judge_dict(c, cc)

    def judge_fn(self, c, cc):
        calls = [op for op in self.hist if op.step['op'] == 'call' and op.step['c'] == c]
        clears = list(self.on(c, 'clear'))
        info = {op.s: op.out for op in self.hist if op.step['op'] == 'info'}
        for op in calls:
            x = op.x
            args, kwargs = x['args'], x['kwargs']
            loud = [a for a in args + tuple(kwargs.values())
                    if isinstance(a, str) and a in ERRORS]
            plain = all(hashable(a) for a in args + tuple(kwargs.values()))
            usable = cc['binding'] != 'weak' or x['who'].cls in 'OV'
            may_off, may_on = self.switch(c, op.s, op.e)
            mine = [self.invs[n] for n in x['invs']]
            for inv in mine:
                if not same_args(inv.args, inv.kwargs, args, kwargs, True):
                    self.bad('arguments', f'{op}: the function was called with {inv.args} '
                             f'{inv.kwargs}')
                if inv.who is not x['who']:
                    self.bad('self', f'{op}: the function ran with another object as self')
            twice = cc['safe'] and loud and ERRORS[loud[0]] is TypeError
            if len(mine) > 1 + bool(twice):
                self.bad('called twice', f'{op}: the function was called {len(mine)} times')
            if op.out[0] == 'error':
                want = None
                if loud:
                    want = [['error', ERRORS[loud[0]].__name__,
                             str(ERRORS[loud[0]](f'no {loud[0]}'))]]
                elif not cc['safe'] and not (plain and usable) and may_on:
                    want = [['error', 'TypeError', op.out[2]]]
                if want is None or op.out not in want:
                    if not (not cc['safe'] and not (plain and usable) and may_on
                            and op.out[1] == 'TypeError'):
                        self.bad('outcome', f'{op}: cache {cc}, expected {want or "a value"}')
                continue
            if op.out[0] != 'value' or loud:
                self.bad('outcome', f'{op}: expected {loud}')
                continue
            inv = self.invs[op.out[1]]
            if not same_args(inv.args, inv.kwargs, args, kwargs, cc['typed']):
                self.bad('mixed up', f'{op}: got the result of {inv.args} {inv.kwargs} in {cc}')
            if cc['binding'] == 'weak' and not (inv.who == x['who']):
                self.bad('mixed up', f'{op}: got the result of another object')
            if inv.op not in calls:
                self.bad('mixed up', f'{op}: got a result of {inv.op}')
            for k in clears:
                if inv.s < k.s and k.e < op.s:
                    self.bad('stale', f'{op}: started after {k}, got the result of {inv.op}')
            if not may_on and inv not in mine:
                self.bad('disabled', f'{op}: the cache is disabled, got the result of {inv.op}')
            if not plain and inv not in mine:
                self.bad('unhashable', f'{op}: got the result of {inv.op}')
            # must be a hit
            if plain and usable and not may_off and mine and (
                    cc['maxsize'] is None or sum(o.s < op.e for o in calls) <= cc['maxsize']):
                for p in calls:
                    if p.e < op.s and p.out[0] == 'value' and list(p.x['kwargs']) == list(kwargs) \
                            and same_args(p.x['args'], p.x['kwargs'], args, kwargs, True) \
                            and (cc['binding'] != 'weak' or p.x['who'] is x['who']) \
                            and not any(k.e > p.s and k.s < op.e for k in clears) \
                            and not self.switch(c, p.s, op.e)[0]:
                        self.bad('not cached', f'{op}: called the function again, as {p} did')
                        break
        # how many results are kept
        if cc['maxsize'] is not None:
            gc.collect()
            kept = sum(1 for i, r in self.live if i == c and r() is not None)
            distinct = len({id(r()) for i, r in self.live if i == c and r() is not None})
            if distinct > cc['maxsize']:
                self.bad('maxsize', f'{distinct} results are kept by {cc}')
            self.probes['results kept by bounded caches'] += bool(kept)

    def judge_value(self, c, cc):
        ops = [op for op in self.hist if op.step.get('c') == c and
               op.step['op'] in ('set', 'get', 'del')]
        clears = list(self.on(c, 'clear'))

        def same(a, b):
            if cc['typed'] and type(a) is not type(b):
                return False
            return hashable(a) is hashable(b) and (a is b or a == b)

        for op in ops:
            key = op.x['key']
            if op.step['op'] == 'set':
                if op.out is not None:
                    self.bad('value cache', f'{op} in {cc}')
                continue
            writes = [(-2, -1, None, True)]
            writes += [(k.s, k.e, None, True) for k in clears]
            for o in ops:
                if not same(o.x['key'], key) or o is op:
                    continue
                if o.step['op'] == 'set':
                    off, on = self.switch(c, o.s, o.e)
                    if on:
                        writes.append((o.s, o.e, o.x['value'], not off))
                elif o.step['op'] == 'del':
                    writes.append((o.s, o.e, None, o.out is None))
            vals = possible(writes, op.s, op.e)
            off, on = self.switch(c, op.s, op.e)
            if op.step['op'] == 'del':
                ok = (op.out is None and any(v is not None for v in vals)) or \
                    (op.out == ['error', 'KeyError'] and None in vals)
            else:
                allowed = [['value', v] for v in vals if v is not None and on]
                if off or None in vals:
                    allowed.append(['error', 'KeyError'])
                ok = op.out in allowed
            if not ok:
                self.bad('value cache', f'{op} in {cc}: stored values that are possible {vals}')
        if self.single:
            self.judge_dict(c, cc)

    def judge_dict(self, c, cc):
        """Exactly like a list of pairs with equality of keys."""
        items = []
        off = False

        def find(key):
            for i, (k, _) in enumerate(items):
                if hashable(k) is hashable(key) and (k is key or k == key) \
                        and not (cc['kind'] == 'value' and cc['typed']
                                 and type(k) is not type(key)):
                    return i
            return None

        for op in self.hist:
            k = op.step['op']
            mine = op.step.get('c') == c or (k.startswith('pool') and cc.get('pool'))
            if not mine:
                continue
            if k.endswith('clear'):
                items.clear()
            elif k.endswith('disable'):
                off = True
            elif k.endswith('enable'):
                off = False
            elif k in ('set', 'get', 'del'):
                i = find(op.x['key'])
                if k == 'set':
                    want = None
                    if not off:
                        if i is None:
                            items.append((op.x['key'], op.x['value']))
                        else:
                            items[i] = (items[i][0], op.x['value'])
                elif i is None or (off and k == 'get'):
                    want = ['error', 'KeyError']
                elif k == 'get':
                    want = ['value', items[i][1]]
                else:
                    want = None
                    items.pop(i)
                if op.out != want:
                    self.bad('value cache', f'{op} in {cc}: expected {want}')
            elif k == 'list':
                fwd, back, n = op.x['list']
                if n != len(items):
                    self.bad('value cache', f'{op} in {cc}: {n} items, expected {items}')
                if fwd is not None:
                    keys = [a for a, _ in items]
                    if fwd != keys or back != keys[::-1]:
                        self.bad('order', f'{op}: {fwd} / {back}, expected {keys}')


Caches.Run = CachesRun
