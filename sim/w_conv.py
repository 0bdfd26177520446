"""Conversions under schedules, histories and aborts: C01 C02 C03 C06 C07 C08."""
import ast
import collections
import gc
import json
import random
import sys

from . import conv, core, hand, sched, univ
from .core import derive, digest
from .describe import containers, describe

POOL = {'quick': 100, 'thorough': 600}
REAL = ('marsh (every module, unmodified)', 'the Python interpreter, its dict, weakref and '
        'lru_cache implementations', 'real OS threads, released one at a time')
STUB = ('threading.Lock/RLock/Condition and _thread locks created by marsh (simulated: '
        'blocking is a scheduling decision)', 'time.sleep (simulated)')
ASSUME = (
    'threads are preempted between source lines of marsh and of the user types; code of the '
    'interpreter and of the dependencies runs atomically',
)


def literal(rng, el, top=True):
    """Source of an element, with some containers of unusual types."""
    if isinstance(el, dict):
        body = '{' + ', '.join(f'{k!r}: {literal(rng, v, False)}' for k, v in el.items()) + '}'
        r = rng.random()
        if r < .25:
            return f'collections.defaultdict(dict, {body})'
        if r < .35:
            return f'collections.OrderedDict({body})'
        if r < .45:
            return f'collections.UserDict({body})'
        return body
    if isinstance(el, (list, tuple)):
        body = '[' + ', '.join(literal(rng, v, False) for v in el) + ']'
        r = rng.random()
        if r < .15:
            return f'tuple({body})'
        if r < .25:
            return f'collections.UserList({body})'
        return body
    return repr(el)


def exotic(rng, call):
    """The same call with elements given in unusual containers."""
    if call['op'] not in ('unmarshal', 'unmarshal_args', 's_unmarshal', 'cast', 'cast_args'):
        return call
    try:
        el = ast.literal_eval(call['a'][0])
    except Exception:
        return call
    return dict(call, a=[literal(rng, el)] + call['a'][1:])


def aliens(value, mod, seen=None, depth=0):
    """Objects whose class is not the one of that name in its universe."""
    seen = set() if seen is None else seen
    if id(value) in seen or depth > 40:
        return []
    seen.add(id(value))
    out = []
    t = type(value)
    if t.__module__ == mod.__name__:
        if getattr(mod, t.__qualname__, t) is not t:
            out.append(f'{t.__module__}.{t.__qualname__}')
    subs = []
    if isinstance(value, collections.abc.Mapping):
        subs = list(value.values())
    elif isinstance(value, (list, tuple, set, frozenset, collections.deque)):
        subs = list(value)
    if hasattr(value, '__dict__') and not isinstance(value, type):
        subs += [x for x in vars(value).values()]
    for x in subs:
        if not isinstance(x, (str, int, float, bool, bytes, type(None), type)):
            out += aliens(x, mod, seen, depth + 1)
    return out


def random_schedule(rng, span):
    r = rng.random()
    seed = rng.getrandbits(40)
    if r < .42:
        return dict(mode='rw', seed=seed, p=rng.choice([.003, .01, .03, .1, .3]))
    if r < .75:
        return dict(mode='pct', seed=seed, d=rng.choice([1, 2, 3, 4, 6]), span=max(2, span))
    return dict(mode='hot', seed=seed, salt=rng.getrandbits(30), mod=rng.choice([3, 8, 20, 60]),
                p=rng.choice([.2, .5, .9]))


class Conv(core.World):
    level = 'exploration'
    real = REAL
    stub = STUB
    assumptions = ASSUME
    events = sched.LINES
    plain = None
    refs = None
    use_hand = True
    use_data = .08  # share of cases about elements
    fresh_typing = True
    ops = None

    def template(self):
        conv.template(self.events)

    # -- universes
    def __init__(self):
        super().__init__()
        self._sources = {}

    def universe(self, index):
        """(name, source, calls) of the pool."""
        cache = self.__dict__.setdefault('_pool', {})
        if index not in cache:
            rng = random.Random(derive(core.SEED, self.id, 'universe', index))
            plain = self.plain if self.plain is not None else rng.random() < .25
            refs = self.refs if self.refs is not None else rng.random() < .35
            name = f'u{index}'
            u = univ.random_universe(rng.getrandbits(60), name, 24, plain=plain, refs=refs,
                                     ops=self.ops, checked=self.checked)
            cache[index] = (name, u.source, u.calls)
            if len(cache) > 3000:
                cache.pop(next(iter(cache)))
        return cache[index]

    def data(self, index):
        """Calls of the functions that work on elements."""
        cache = self.__dict__.setdefault('_data', {})
        if index not in cache:
            cache[index] = hand.data(derive(core.SEED, self.id, 'data', index))
        return cache[index]

    def pick_universe(self, rng):
        r = rng.random()
        if self.use_data and r > 1 - self.use_data:
            name, src, calls = self.data(rng.randrange(POOL[core.TIER]))
        elif self.use_hand and r < .35:
            name = rng.choice(['hand_types', 'hand_types', 'hand_names', 'hand_misc'])
            src, calls = hand.universes()[name]
        else:
            name, src, calls = self.universe(rng.randrange(self.pool[core.TIER]))
        self._sources[name] = src
        return name, src, calls

    def some_calls(self, rng, calls, n):
        """Calls that are likely to use the same types."""
        rng_calls = rng.sample(calls, min(n, len(calls)))
        out = []
        for i, c in enumerate(rng_calls):
            # favour several calls on one type
            same = [x for x in calls if x['t'] == rng_calls[0]['t']]
            out.append(rng.choice(same) if rng.random() < .5 else c)
        return self.quick_only(out, calls)

    def quick_only(self, some, calls):
        """Replace calls that take too long on their own."""
        out = []
        for c in some:
            tries = iter([c] + calls)
            for x in tries:
                if not self.alone_of(x)['problem']:
                    break
            out.append(x)
        return out

    def alone_of(self, call):
        return conv.alone(self, {'universes': self._sources}, call, self.fresh_typing)

    def lines_of(self, spec, calls):
        return sum(conv.alone(self, spec, c, self.fresh_typing)['lines'] for c in calls)

    # -- oracle
    def calls_of(self, spec):
        seen = {}
        for step in self.steps_of(spec):
            if 'call' in step:
                seen.setdefault(json.dumps(step['call'], sort_keys=True), step['call'])
        return seen

    def steps_of(self, spec):
        for step in spec.get('before', ()):
            yield step
        for steps in spec['threads']:
            yield from steps

    def prepare(self, spec):
        out = {}
        for key, call in self.calls_of(spec).items():
            alone = conv.alone(self, spec, call, self.fresh_typing)
            if alone['problem']:
                return core.SKIP
            out[key] = alone
        return out

    # -- run
    def run(self, spec, oracle):
        return Run(self, spec, oracle).go()

    # -- minimisation
    def shrinks(self, spec):
        n = len(spec['threads'])
        for i in range(n):
            if n > 1:
                threads = spec['threads'][:i] + spec['threads'][i + 1:]
                yield self.remap(spec, threads, i)
        for i in range(n):
            for cand in core.drop_chunks(spec['threads'][i]):
                if cand:
                    threads = list(spec['threads'])
                    threads[i] = cand
                    yield dict(spec, threads=threads)
        for cand in core.drop_chunks(spec.get('before') or []):
            yield dict(spec, before=cand)
        used = {s['call']['u'] for s in self.steps_of(spec) if 'call' in s}
        if set(spec['universes']) - used:
            yield dict(spec, universes={k: v for k, v in spec['universes'].items() if k in used})
        s = spec['schedule']
        if s['mode'] == 'explicit':
            for cand in core.drop_chunks(s['switches']):
                yield dict(spec, schedule=dict(s, switches=cand))
            for cand in core.drop_chunks(s.get('forced', [])):
                yield dict(spec, schedule=dict(s, forced=cand))

    def remap(self, spec, threads, gone):
        s = spec['schedule']
        if s['mode'] == 'explicit':
            def m(i):
                return i - 1 if i > gone else i
            s = dict(
                s,
                switches=[[m(t), k, m(to)] for t, k, to in s['switches'] if gone not in (t, to)],
                forced=[[m(t), k, m(to)] for t, k, to in s['forced'] if gone not in (t, to)],
            )
        elif s['mode'] == 'serial':
            s = dict(mode='serial')
        return dict(spec, threads=threads, schedule=s)


class Run:
    """One simulated execution of a spec."""

    def __init__(self, world, spec, oracle):
        self.w = world
        self.spec = spec
        self.oracle = oracle
        self.viol = []
        self.stats = collections.Counter()
        self.probes = collections.Counter()
        self.prepared = {}
        self.history = []
        self.kept = []  # (label, Prepared, value)
        self.active = {}
        self.disabled = False

    def bad(self, cls, msg):
        if len(self.viol) < 20:
            self.viol.append({'class': cls, 'msg': msg[:1500]})

    # -- preparation
    def prep(self, step):
        key = json.dumps(step['call'], sort_keys=True)
        shared = step.get('shared')
        if shared and key in self.prepared:
            return self.prepared[key]
        p = conv.Prepared(step['call'], self.mods, self.w.fresh_typing)
        if shared:
            self.prepared[key] = p
        return p

    def load(self):
        self.mods = conv.load_universes(self.spec['universes'], self.w.fresh_typing)

    # -- one step
    def step(self, t, i, step):
        if 'h' in step:
            return self.history_op(t, step)
        p = step.get('_p')
        if p is None:
            p = self.prep(step)
            if step['call']['op'].startswith('s_'):
                p.build()
        abort = step.get('abort')
        keep = self.w.keep
        t.label = (t.idx, i)
        self.before_call(t, p)
        want = self.oracle[json.dumps(step['call'], sort_keys=True)]
        t.sched.limit(t, 300_000 + 20 * want['lines'])
        if self.w.arms:
            with sched.armed(t, abort):
                res = conv.act(p)
        else:
            res = conv.act(p)
        out = conv.outcome(res)
        value = res[1] if res[0] == 'value' else None
        self.after_call(t, p, step, out, value)
        t.label = None
        self.stats['calls'] += 1
        if abort:
            if t.fired:
                self.stats[f'fault:{abort["exc"]} ({abort["kind"]})'] += 1
                self.history.append(f'{t.idx}:{conv.call_text(step["call"])} aborted at {t.fired}')
                if out[0] == 'value' or out[1] != abort['exc']:
                    self.probes['abort swallowed by user-level fallback'] += 1
                    if not issubclass(sched.EXCS[abort['exc']], Exception):
                        self.bad('swallowed', f'{conv.call_text(step["call"])} (thread {t.idx}, step {i}) '
                                 f'gave {out}, though {abort["exc"]} was raised at {t.fired}')
                return
        self.history.append(f'{t.idx}:{conv.call_text(step["call"])}')
        if out != want['out']:
            self.bad('outcome', f'{conv.call_text(step["call"])} (thread {t.idx}, step {i}) gave '
                     f'{out}, alone it gives {want["out"]}')
        if out[0] == 'value':
            strange = aliens(value, p.mod)
            if strange:
                self.bad('class', f'{conv.call_text(step["call"])} gave objects of another class '
                         f'of the same name: {strange}')
        tree = step['call'].get('tree')
        if tree:
            unmarshal = step['call']['op'] == 'unmarshal'
            el = eval(step['call']['a'][0]) if unmarshal else univ.NO_ELEMENT
            problem = (univ.misfit(value, tree, el, p.mod) if out[0] == 'value' else
                       f'failed with {out[1:]}' if unmarshal else None)
            if problem:
                self.bad('meant', f'{conv.call_text(step["call"])} (thread {t.idx}, step {i}): '
                         f'{problem}')
        if keep:
            self.kept.append((f'{conv.call_text(step["call"])} (thread {t.idx}, step {i})', p,
                              out, value))

    def before_call(self, t, p):
        pass

    def after_call(self, t, p, step, out, value):
        pass

    def history_op(self, t, step):
        m = conv.marsh
        h = step['h']
        self.stats[f'fault:{h}'] += 1
        self.history.append(f'{t.idx}:{h} {step.get("x", "")}')
        if h == 'clear all':
            m.schema.caches.cache_clear()
            m.schema.UnmarshalSchema.cache_clear()
            m.namespaces.cache_clear(full=True)
        elif h == 'clear schemas':
            m.schema.UnmarshalSchema.cache_clear()
        elif h == 'clear registry':
            m.schema.UnmarshalSchema.registry.cache_clear()
        elif h == 'clear namespaces':
            m.namespaces.cache_clear(full=bool(step['x'] % 2))
        elif h == 'clear one cache':
            names = sorted(m.schema.caches)
            m.schema.caches[names[step['x'] % len(names)]].cache_clear()
        elif h == 'disable one cache':
            self.disabled = True
            names = sorted(m.schema.caches)
            m.schema.caches[names[step['x'] % len(names)]].cache_disable()
        elif h == 'disable caches':
            self.disabled = True
            m.schema.caches.cache_disable()
        elif h == 'enable caches':
            self.disabled = False
            m.schema.caches.cache_enable()
        elif h == 'cache info':
            m.schema.caches.cache_info()
            m.namespaces.cache_info(full=True)
        elif h == 'collect garbage':
            gc.collect()
        elif h == 'reload universe':
            names = sorted(self.spec['universes'])
            name = names[step['x'] % len(names)]
            if 'namespaces' not in self.spec['universes'][name]:
                for key in [k for k, p in self.prepared.items() if p.call['u'] == name]:
                    del self.prepared[key]
                self.mods[name] = conv.load_universe(
                    name, self.spec['universes'][name], self.w.fresh_typing)
                if step['x'] % 3:
                    gc.collect()
        else:
            raise AssertionError(h)

    # -- everything
    def go(self):
        spec = self.spec
        self.load()
        s = sched.Scheduler(spec['schedule'], probe=self.probe if self.w.probe_every else None,
                            probe_every=spec.get('probe', self.w.probe_every))
        self.sched = s
        solo_steps = spec.get('before', ())
        if solo_steps:
            solo = sched.Solo()
            with solo as t:
                t.idx = -1
                t.label = None
                for i, step in enumerate(solo_steps):
                    self.step(t, i, step)
        threads = [[dict(x) for x in steps] for steps in spec['threads']]
        if self.w.prepare_first:
            made = []
            for steps in threads:
                for step in steps:
                    if 'call' in step:
                        step['_p'] = self.prep(step)
                        made.append(step['_p'])
            conv.share_schemas(made)
        for steps in threads:
            def fn(t, steps=steps):
                for i, step in enumerate(steps):
                    self.step(t, i, step)
                    if s.mode in ('steps', 'explicit') and self.w.hops:
                        s.yield_(t)
            s.add(fn).label = None
        s.run()
        if s.problem:
            if s.problem[0] == 'harness':
                raise core.HarnessError(s.problem[1])
            if s.problem[0] == 'no-progress' and self.disabled:
                # without caches, building a type takes exponential time
                self.probes['gave up: slow without caches'] += 1
            else:
                self.bad(*s.problem)
        else:
            self.finish()
        self.stats['switches'] += len(s.switches)
        self.stats['lines'] += sum(t.n for t in s.threads)
        trace = [s.trace, self.history]
        return core.result(
            viol=self.viol, digest_=digest([sorted(spec['universes']), trace]),
            nontrivial=self.w.is_nontrivial(self, s), stats=self.stats,
            sim_s=s.sim_time, explicit=dict(schedule=s.explicit()),
            note=digest(trace) if s.trace or self.history else None, probes=self.probes)

    def probe(self, t, code, line):
        pass

    def finish(self):
        pass


# world options
Conv.keep = False
Conv.arms = False
Conv.hops = False
Conv.pool = POOL
Conv.checked = False
Conv.prepare_first = True
Conv.probe_every = 0
Conv.is_nontrivial = lambda self, run, s: bool(s.switches)


# --------------------------------------------------------------------------
# C01


class Concurrent(Conv):
    runs = {'quick': 6000, 'thorough': 150000}
    rule = ('A case is 2-4 threads making 1-4 conversions each over 1-2 universes of user types '
            '(random or hand-written) under one schedule (random walk, PCT or hot-spot). '
            'Non-trivial: at least one preemption inside marsh or user code. Distinct by the '
            'sequence of (thread, file, line, next thread) and calls.')

    def gen(self, rng, index):
        spec = dict(universes={}, before=[], threads=[])
        nthreads = rng.choice([2, 2, 2, 3, 3, 4])
        us = [self.pick_universe(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
        for name, src, calls in us:
            spec['universes'][name] = src
        per = rng.choice([1, 1, 2, 3, 4])
        pool = [c for _, _, calls in us for c in self.some_calls(rng, calls, rng.randint(1, 4))]
        shared = rng.random() < .4
        for _ in range(nthreads):
            spec['threads'].append([
                dict(call=rng.choice(pool), **({'shared': 1} if shared else {}))
                for _ in range(rng.randint(1, per))])
        if rng.random() < .3:
            spec['before'] = [dict(call=c) for c in self.some_calls(
                rng, us[0][2], rng.randint(1, 3))]
        span = self.lines_of(spec, [s['call'] for st in spec['threads'] for s in st])
        spec['schedule'] = random_schedule(rng, span)
        return spec


# --------------------------------------------------------------------------
# C02

HISTORY = ['clear all', 'clear schemas', 'clear registry', 'clear namespaces', 'clear one cache',
           'clear one cache', 'disable one cache', 'disable caches', 'enable caches',
           'enable caches', 'cache info', 'collect garbage', 'reload universe', 'reload universe']


class History(Conv):
    runs = {'quick': 4500, 'thorough': 90000}
    prepare_first = False
    hops = True
    rule = ('A case is a history of 8-60 calls over 1-4 universes, made by 1-3 threads that take '
            'turns between calls, mixed with clearing, disabling and enabling caches, garbage '
            'collection and reloading of modules. Non-trivial: more than three calls. Distinct '
            'by the sequence of operations and threads.')

    def gen(self, rng, index):
        spec = dict(universes={}, before=[], threads=[])
        us = [self.pick_universe(rng) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
        for name, src, calls in us:
            spec['universes'][name] = src
        pool = []
        for _, _, calls in us:
            pool += self.some_calls(rng, calls, rng.randint(2, 12))
        n = rng.choice([8, 14, 25, 40, 60])
        ph = rng.choice([0, .05, .2, .4])
        nthreads = rng.choice([1, 1, 2, 3])
        spec['threads'] = [[] for _ in range(nthreads)]
        for _ in range(n):
            if rng.random() < ph:
                step = dict(h=rng.choice(HISTORY), x=rng.randrange(1000))
            else:
                step = dict(call=rng.choice(pool))
                if rng.random() < .4:
                    step['shared'] = 1
            rng.choice(spec['threads']).append(step)
        spec['threads'] = [s for s in spec['threads'] if s]
        spec['schedule'] = dict(mode='steps', seed=rng.getrandbits(40))
        return spec

    def is_nontrivial(self, run, s):
        return run.stats['calls'] > 3


# --------------------------------------------------------------------------
# C03

class Aborted(Conv):
    runs = {'quick': 7500, 'thorough': 150000}
    level = 'fault_enumeration'
    events = sched.LINES | sched.ABORTS
    arms = True
    hops = True
    prepare_first = True
    rule = ('A case is 3-12 calls in one or more threads of which 1-4 are aborted at a chosen '
            'delivery point: an asynchronous exception on entry of a function, return from a C '
            'call or a backward jump, or an exception raised by user code. The aborted call is '
            'repeated later without the fault. Non-trivial: at least one fault fired. Distinct '
            'by calls and the places where faults fired.')
    assumptions = ASSUME + (
        'asynchronous exceptions are delivered where CPython checks for them (function entry, '
        'return from C, backward jumps) and not inside except/finally blocks or __exit__',
    )

    def make_abort(self, rng, alone):
        if alone['u'] and rng.random() < .4:
            return dict(kind='user', at=rng.randint(1, alone['u']),
                        exc=rng.choice(['KeyboardInterrupt', 'Cancelled', 'RuntimeError',
                                        'ValueError', 'TypeError', 'LookupError']))
        if alone['p']:
            at = rng.randint(1, alone['p'])
            if rng.random() < .3:
                at = min(at, rng.randint(1, alone['p']), rng.randint(1, alone['p']))
            return dict(kind='async', at=at, exc=rng.choice(['KeyboardInterrupt', 'Cancelled',
                                                             'SystemExit']))
        return None

    def gen(self, rng, index):
        spec = dict(universes={}, before=[], threads=[])
        us = [self.pick_universe(rng) for _ in range(rng.choice([1, 1, 2]))]
        for name, src, calls in us:
            spec['universes'][name] = src
        pool = []
        for _, _, calls in us:
            pool += self.some_calls(rng, calls, rng.randint(1, 3))
        nthreads = rng.choice([1, 1, 1, 2, 3])
        for k in range(nthreads):
            steps = []
            for _ in range(rng.randint(1, 3)):
                call = rng.choice(pool)
                step = dict(call=call)
                if rng.random() < .3:
                    step['shared'] = 1
                if rng.random() < (.8 if k == 0 else .3):
                    abort = self.make_abort(rng, conv.alone(self, spec, call))
                    if abort:
                        steps.append(dict(step, abort=abort))
                        if rng.random() < .3:
                            steps.append(dict(call=rng.choice(pool)))
                        if rng.random() < .2:
                            steps.append(dict(h='collect garbage', x=0))
                steps.append(step)
            spec['threads'].append(steps)
        span = self.lines_of(spec, [s['call'] for st in spec['threads'] for s in st if 'call' in s])
        if nthreads == 1 or rng.random() < .3:
            spec['schedule'] = dict(mode='steps', seed=rng.getrandbits(40))
        else:
            spec['schedule'] = random_schedule(rng, span)
        return spec

    def is_nontrivial(self, run, s):
        return any(k.startswith('fault:') and '(' in k for k in run.stats)

    def shrinks(self, spec):
        yield from super().shrinks(spec)


# --------------------------------------------------------------------------
# C06


def snapshot(v, depth=0, seen=()):
    """Deep snapshot of a value including the identity of its containers."""
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes, type)):
        return (type(v).__name__, repr(v) if not isinstance(v, str) else v)
    if id(v) in seen or depth > 40:
        return '<cycle>'
    seen = seen + (id(v),)

    def sub(x):
        return snapshot(x, depth + 1, seen)

    if isinstance(v, (collections.UserDict, collections.UserList)):
        return (id(v), sub(v.data))
    if isinstance(v, dict):
        return (id(v), type(v).__name__, tuple((sub(k), sub(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple, collections.deque)):
        return (id(v), type(v).__name__, tuple(sub(x) for x in v))
    if isinstance(v, (set, frozenset)):
        return (id(v), type(v).__name__, tuple(sorted(map(repr, v))))
    if type(v).__name__ == 'mappingproxy':
        return (id(v), tuple((sub(k), sub(x)) for k, x in v.items()))
    d = getattr(v, '__dict__', None)
    if isinstance(d, dict) and type(v).__module__ not in ('logging', 'typing'):
        if type(v).__module__.startswith('omegaconf'):
            return (id(v), describe(v))
        return (id(v), type(v).__name__, tuple((k, sub(x)) for k, x in d.items()))
    return (id(v), type(v).__name__)


class InputsRun(Run):
    def before_call(self, t, p):
        self.active[t.label] = (p, snapshot(p.args))

    def compare(self, label, where):
        p, before = self.active[label]
        now = snapshot(p.args)
        self.stats['snapshots compared'] += 1
        if now != before:
            self.bad('modified', f'{conv.call_text(p.call)} {where}: its arguments are now '
                     f'{describe(p.args)}')
            self.active[label] = (p, now)

    def probe(self, t, code, line):
        cur, sched.CUR = sched.CUR, None
        try:
            for label in list(self.active):
                self.compare(label, f'during the call, at {code.co_filename.rpartition("/")[2]}:'
                             f'{line}')
        finally:
            sched.CUR = cur

    def after_call(self, t, p, step, out, value):
        cur, sched.CUR = sched.CUR, None
        self.compare(t.label, 'after the call' + (' was aborted' if t.fired else ''))
        del self.active[t.label]
        sched.CUR = cur


class Inputs(Conv):
    runs = {'quick': 4500, 'thorough': 90000}
    events = sched.LINES | sched.ABORTS
    arms = True
    probe_every = 97
    rule = ('A case is 1-3 threads making conversions, element and parsing calls that share their '
            'input objects (also default dicts, user dicts and other containers); some calls are '
            'aborted. A deep snapshot of every argument (values and identities) is compared every '
            'few lines and at the end of each call. Non-trivial: some argument holds a container. '
            'Distinct by calls and interleaving.')

    use_data = .4
    make_abort = Aborted.make_abort

    def run(self, spec, oracle):
        return InputsRun(self, spec, oracle).go()

    def gen(self, rng, index):
        spec = dict(universes={}, before=[], threads=[])
        name, src, calls = self.pick_universe(rng)
        spec['universes'][name] = src
        calls = [c for c in calls if c['op'] not in ('str', 'doc', 'help', 'rst', 'select',
                                                     'default', 's_doc', 's_str')]
        pool = [exotic(rng, c) if rng.random() < .6 else c
                for c in self.some_calls(rng, calls, rng.randint(1, 3))]
        for _ in range(rng.choice([1, 1, 2, 3])):
            steps = []
            for _ in range(rng.randint(1, 3)):
                step = dict(call=rng.choice(pool), shared=1)
                if rng.random() < .25:
                    abort = self.make_abort(rng, conv.alone(self, spec, step['call']))
                    if abort:
                        steps.append(dict(step, abort=abort))
                steps.append(step)
            spec['threads'].append(steps)
        span = self.lines_of(spec, [s['call'] for st in spec['threads'] for s in st])
        spec['schedule'] = random_schedule(rng, span)
        spec['probe'] = rng.choice([7, 31, 97, 400])
        return spec

    def is_nontrivial(self, run, s):
        return any(isinstance(a, (dict, list, tuple)) or hasattr(a, '__dict__')
                   for p in run.prepared.values() for a in p.args)


# --------------------------------------------------------------------------
# C07


class SharingRun(Run):
    def load(self):
        super().load()
        self.made = []  # (thread label, field, product)

        def logged(name, value):
            t = sched.CUR
            self.made.append((getattr(t, 'label', None), name, value))
            return value

        for m in self.mods.values():
            m._made = logged

    def before_call(self, t, p):
        t.mark = len(self.made)

    def after_call(self, t, p, step, out, value):
        label = t.label
        mine = [(n, v) for l, n, v in self.made[t.mark:] if l == label]
        if mine and p.call['op'] in ('str', 'doc', 'help', 'select', 's_doc', 's_str', 'rst',
                                     'marshal'):
            self.bad('factory called', f'{conv.call_text(p.call)} called the default factory of '
                     f'{[n for n, _ in mine]}')
        self.stats['factory calls'] += len(mine)
        want = self.oracle[json.dumps(step['call'], sort_keys=True)]
        if sorted(n for n, _ in mine) != sorted(want['made']):
            self.bad('factory calls', f'{conv.call_text(p.call)} called the factories '
                     f'{sorted(n for n, _ in mine)}, alone it calls {sorted(want["made"])}')
        if out[0] == 'value' and mine and p.call['op'] not in ('fn',):
            count = collections.Counter()
            walk(value, lambda x: count.update([id(x)]))
            for n, v in mine:
                if count[id(v)] != 1:
                    self.bad('product', f'{conv.call_text(p.call)}: a product of the factory of '
                             f'{n} appears {count[id(v)]} times in the result')

    def finish(self):
        spec = self.spec
        rng = random.Random(spec['mutate'])
        kept = [k for k in self.kept if k[2][0] == 'value']
        # no two results hold the same mutable object
        owner = {}
        for label, p, out, value in kept:
            inputs = set()
            for obj, _ in containers(list(p.args)):
                inputs.add(id(obj))
            for obj, _ in containers(value):
                if id(obj) in inputs:
                    continue
                self.stats['mutable objects'] += 1
                if id(obj) in owner and owner[id(obj)][0] != label:
                    self.bad('shared', f'the results of {label} and {owner[id(obj)][0]} share '
                             f'the object {describe(obj)}')
                owner[id(obj)] = (label, obj)
        # whatever is done to some results, the others and later ones are unchanged
        cut = rng.randint(1, max(1, len(kept) - 1))
        victims = rng.sample(range(len(kept)), min(cut, len(kept)))
        for i in victims:
            for obj, mutate in containers(kept[i][3]):
                try:
                    mutate()
                    self.stats['fault:mutated result'] += 1
                except Exception:
                    pass
        for i, (label, p, out, value) in enumerate(kept):
            if i not in victims:
                now = ['value', describe(value, touch=True)]
                if now != out:
                    self.bad('changed', f'the result of {label} changed to {now} from {out} when '
                             f'another result was mutated')
        for step in spec['again']:
            p = self.prep(step)
            if p.call['op'].startswith('s_'):
                continue
            out = conv.perform(p)
            want = self.oracle[json.dumps(step['call'], sort_keys=True)]
            if out != want['out']:
                self.bad('later', f'{conv.call_text(p.call)} gave {out} after other results were '
                         f'mutated, alone it gives {want["out"]}')


def walk(v, visit, depth=0, path=()):
    if id(v) in path or depth > 40:
        return
    visit(v)
    path = path + (id(v),)
    if isinstance(v, collections.abc.Mapping):
        subs = list(v.values())
    elif isinstance(v, (list, tuple, collections.deque)):
        subs = list(v)
    elif hasattr(v, '__dict__') and not isinstance(v, type):
        subs = list(vars(v).values())
    else:
        return
    for x in subs:
        if not isinstance(x, (str, int, float, bool, bytes, type(None), type)):
            walk(x, visit, depth + 1, path)


class Sharing(Conv):
    runs = {'quick': 4500, 'thorough': 90000}
    plain = True
    use_hand = True
    use_data = 0
    keep = True
    rule = ('A case is 2-8 calls by 1-3 threads whose results are kept; some results are then '
            'mutated everywhere and the others, and repeated calls, are compared with what they '
            'were. Calls of default factories are counted and their products looked for in the '
            'results. Non-trivial: results hold mutable objects. Distinct by calls and '
            'interleaving.')

    def run(self, spec, oracle):
        return SharingRun(self, spec, oracle).go()

    def steps_of(self, spec):
        yield from super().steps_of(spec)
        yield from spec['again']

    def pick_universe(self, rng):
        name, src, calls = super().pick_universe(rng)
        if name == 'hand_types':
            # these hand out objects made at import on purpose
            calls = [c for c in calls if c['op'] not in ('default', 'fn', 'rst')
                     and 'logging' not in c['t']]
        elif name == 'hand_names':
            calls = [c for c in calls if c['op'] != 'fn']
        elif name == 'hand_misc':
            calls = [c for c in calls if c['op'] not in ('default', 'fn')]
        else:
            calls = [c for c in calls if c['op'] != 'default']
        return name, src, calls

    def gen(self, rng, index):
        spec = dict(universes={}, before=[], threads=[])
        us = [self.pick_universe(rng)]
        for name, src, calls in us:
            spec['universes'][name] = src
        pool = [c for _, _, calls in us for c in self.some_calls(rng, calls, rng.randint(1, 4))]
        if rng.random() < .4:
            pool = [exotic(rng, c) if rng.random() < .3 else c for c in pool]
        nthreads = rng.choice([1, 1, 2, 3])
        for _ in range(nthreads):
            spec['threads'].append([dict(call=rng.choice(pool))
                                    for _ in range(rng.randint(1 + (nthreads == 1), 4))])
        spec['again'] = [dict(call=c) for c in pool]
        spec['mutate'] = rng.getrandbits(30)
        span = self.lines_of(spec, [s['call'] for st in spec['threads'] for s in st])
        if nthreads == 1:
            spec['schedule'] = dict(mode='steps', seed=0)
        else:
            spec['schedule'] = random_schedule(rng, span)
        return spec

    def is_nontrivial(self, run, s):
        return run.stats['mutable objects'] > 0


# --------------------------------------------------------------------------
# C08


class References(Conv):
    runs = {'quick': 5000, 'thorough': 100000}
    refs = True
    plain = True
    checked = True
    pool = {'quick': 300, 'thorough': 2000}
    use_hand = False
    use_data = 0
    fresh_typing = False
    hops = True
    prepare_first = False
    ops = ['unmarshal'] * 8 + ['cast', 'str', 'doc', 'select', 'unmarshal_args']
    rule = ('A case is 1-3 threads using 2-4 universes whose classes have the same names and refer '
            'to themselves and each other by name, with failing builds, cache clears and module '
            'reloads in between. The class of every object in every result is compared by '
            'identity with the class of that name in its module. Non-trivial: classes of the '
            'same name from two modules (or two versions of one) were used. Distinct by calls '
            'and interleaving.')

    def universe(self, index):
        name, src, calls = super().universe(index)
        if 'class Broken' not in src:
            rng = random.Random(index)
            classes = [c['t'] for c in calls if c['t'].isidentifier()] or ['int']
            good = rng.choice(classes)
            first = 'from __future__ import annotations' in src
            src += (
                'class Broken:\n    def __init__(self, '
                + (f'a: List[{good!r}], b: Dict[str, "Missing_{name}"]' if not first else
                   f'a: List[{good}], b: Dict[str, ForwardRef("Missing_{name}")]')
                + '):\n        self.a = a\n\n\n'
                f'@dataclasses.dataclass\nclass BrokenToo:\n    x: Optional[{good!r}] = None\n'
                f'    y: Tuple["Missing_{name}", ...] = ()\n'
            )
            calls = calls + [
                dict(u=name, op='unmarshal', t='Broken', a=["{'a': []}"]),
                dict(u=name, op='unmarshal', t='BrokenToo', a=["{'x': None}"]),
                dict(u=name, op='doc', t='List[BrokenToo]', a=['2']),
            ]
            self._pool[index] = (name, src, calls)
        return name, src, calls

    def gen(self, rng, index):
        spec = dict(universes={}, before=[], threads=[])
        us = [self.pick_universe(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        for name, src, calls in us:
            spec['universes'][name] = src
        pool = []
        for _, _, calls in us:
            pool += self.quick_only(rng.sample(calls, min(len(calls), rng.randint(1, 4))), calls)
        nthreads = rng.choice([1, 1, 2, 3])
        ph = rng.choice([0, 0, .1, .25])
        for _ in range(nthreads):
            steps = []
            for _ in range(rng.randint(2, 8 if nthreads == 1 else 4)):
                if rng.random() < ph:
                    steps.append(dict(h=rng.choice(
                        ['clear all', 'clear schemas', 'collect garbage', 'reload universe']
                        if nthreads == 1 else ['collect garbage']), x=rng.randrange(100)))
                else:
                    steps.append(dict(call=rng.choice(pool)))
            spec['threads'].append(steps)
        span = self.lines_of(spec, [s['call'] for st in spec['threads'] for s in st if 'call' in s])
        if nthreads == 1 or rng.random() < .2:
            spec['schedule'] = dict(mode='steps', seed=rng.getrandbits(40))
        else:
            spec['schedule'] = random_schedule(rng, span)
        return spec

    def is_nontrivial(self, run, s):
        return len(run.spec['universes']) > 1 or run.stats['fault:reload universe'] > 0
