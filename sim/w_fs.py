"""Config files under a faulty and changing disk: C09, C10, C11."""
import collections
import io
import itertools
import json
import os
import re
import sys

import yaml

from . import conv, core, disk, sched
from .core import digest


class FsWorld(core.World):
    runs = {'quick': 24000, 'thorough': 600000}
    real = ('all of marsh', 'json, PyYAML and omegaconf', 'buffered and text layers of Python files',
            'files in a scratch directory')
    stub = ('raw file reads, writes, opens and closes, directory listings and changes by other '
            'processes (interposed)',)
    Run = None

    def template(self):
        conv.template(0)
        self.marsh = conv.marsh

    def run(self, spec, oracle):
        return self.Run(self, spec).go()

    def plan(self, rng, kinds):
        r = rng.random()
        seed = rng.getrandbits(40)
        if r < .12:
            p = {}
        elif r < .6:
            p = {rng.choice(kinds): rng.choice([.03, .1, .3, .6, 1.])}
        else:
            some = rng.sample(kinds, min(len(kinds), rng.choice([2, 3, 4])))
            p = {k: rng.choice([.03, .1, .3]) for k in some}
        return dict(seed=seed, p=p)

    def shrinks(self, spec):
        for cand in core.drop_chunks(spec['steps']):
            yield self.dropped(spec, cand)
        p = spec['plan']
        if 'explicit' in p:
            for cand in core.drop_chunks(p['explicit']):
                yield dict(spec, plan=dict(p, explicit=cand))

    @staticmethod
    def dropped(spec, steps):
        """Steps are numbered by their place, and so are the faults."""
        p = spec['plan']
        if 'explicit' in p:
            ids = {id(s): i for i, s in enumerate(spec['steps'])}
            new = {ids[id(s)]: i for i, s in enumerate(steps)}
            p = dict(p, explicit=[[new[a], b, f] for a, b, f in p['explicit'] if a in new])
        return dict(spec, steps=list(steps), plan=p)


class FsRun:
    def __init__(self, world, spec):
        self.w = world
        self.m = world.marsh
        self.spec = spec
        self.viol = []
        self.stats = collections.Counter()
        self.probes = collections.Counter()
        self.hist = []
        self.sim_s = 0.0

    def bad(self, cls, msg):
        if len(self.viol) < 20:
            self.viol.append({'class': cls, 'msg': self.clean(msg)[:1500]})

    def clean(self, text):
        return str(text).replace(self.root, '<root>')

    def act(self):
        return False

    def setup(self):
        pass

    def go(self):
        base = os.path.realpath(disk.fresh(
            os.path.join(os.environ['MARSH_SIM_SCRATCH'], 'run%08d' % os.getpid())))
        self.root = os.path.join(base, 'top')  # this name may be shown
        os.mkdir(self.root)
        try:
            self.d = disk.Disk(self.root, self.spec['plan'], self.act)
            os.chdir(self.root)
            self.setup()
            with self.d.installed():
                for i, step in enumerate(self.spec['steps']):
                    self.i = i
                    self.stats[step['op']] += 1
                    self.step(i, step)
                    if self.viol:
                        break
                self.finish()
        finally:
            os.chdir('/')
            disk.shutil.rmtree(base, ignore_errors=True)
        for _, _, f in self.d.hits:
            self.stats['fault:' + f] += 1
        self.stats['system calls'] += self.d.calls
        explicit = dict(plan=dict(explicit=self.d.hits,
                                  order=self.spec['plan'].get('order', self.spec['plan'].get('seed', 0))))
        return core.result(
            viol=self.viol, digest_=digest([self.spec['steps'], self.d.trace, self.d.hits, self.hist]),
            nontrivial=self.d.calls > 0, stats=self.stats, explicit=explicit, sim_s=self.sim_s,
            note=digest([self.d.trace, self.d.hits, self.hist]), probes=self.probes)

    def finish(self):
        pass

    def call(self, i, fn, calm=False):
        """The call under test, under faults: ('ok', value) or ('error', type, text)."""
        d = self.d
        d.begin(i, calm)
        try:
            with sched.Solo(2_000_000):
                out = ['ok', fn()]
        except BaseException as err:
            if isinstance(err, sched.Killed):
                out = ['no end']
            else:
                out = ['error', type(err).__name__, self.clean(err)[:300]]
            del err
        finally:
            d.end()
        return out


# --------------------------------------------------------------------------
# values

WORDS = ['', ' ', 'a', 'yes', 'no', 'on', 'null', '~', 'Null', 'true', '1', '-1', '1e3', '1.5', '.5',
         '0x10', '0o7', '010', '1_000', '12:30', '12:30:45', '2001-01-01', '2001-01-01 10:00:00',
         '${a}', '${', '???', '-', '- a', 'a: b', 'a:', ': a', '# c', 'a # c', '"', "'", "it's",
         '"q"', '\n', '\n\n', 'a\nb', 'a\n b\n', ' a', 'a ', '\ta', 'a\t', '\r', 'a\r\nb', 'é', 'ü日本',
         '\u2028', '\u2029', '\x85', '\xa0', '\x00', '\x07', '\x7f', '\x9f', '\ud800', '\udfff\ud800',
         '\U0001d54f', '\ufeff', '\uffff', '\\', '\\n', '\\u0041', '%', '@', '`', '&a', '*a', '!t',
         '!!int', '|', '>', '=', '<<', '{', '}', '[', ']', ',', '{}', '[]', '---', '...', '--- a', '? a',
         '.inf', '.nan', 'NaN', 'Infinity', '_meta_', 'name', 'a' * 200, 'word ' * 60, ' ' * 120,
         'a\n' * 40, 'é' * 90, "x' y" * 40, 'long ' * 30 + '\n  more ' * 5]
NUMBERS = [0, 1, -1, 7, 10 ** 6, 2 ** 63, -2 ** 70, 10 ** 30, 0.0, -0.0, 0.1, -1.5, 1e16, 1e17, 1e-7,
           1e300, 5e-324, 123456789.123, float('inf'), float('-inf'), True, False, None]
KEYS = ['a', 'b', 'c', 'base', 'x y', '1', 'yes', '']


def word(rng):
    r = rng.random()
    if r < .8:
        return rng.choice(WORDS)
    return ''.join(rng.choice(WORDS)[:5] for _ in range(rng.choice([2, 3, 8])))


def value(rng, depth):
    r = rng.random()
    if depth <= 0 or r < .3:
        return word(rng) if rng.random() < .6 else rng.choice(NUMBERS)
    n = rng.choice([0, 1, 1, 2, 3, 5])
    if r < .7:
        return {(word(rng) if rng.random() < .5 else rng.choice(KEYS)): value(rng, depth - 1)
                for _ in range(n)}
    return [value(rng, depth - 1) for _ in range(n)]


def same(a, b, strict=True):
    """Equal, types and all (sequences of either kind)."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, strict) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], strict) for k in a)
    if not strict:
        return a == b
    return type(a) is type(b) and (repr(a) == repr(b) if isinstance(a, float) else a == b)


# --------------------------------------------------------------------------
# C09

WRITE_FAULTS = ['short write', 'short write', 'disk full', 'write error', 'close fails',
                'open fails', 'interrupt in write', 'sync fails', 'rename fails']


class Odd(str):
    pass


class Number(int):
    pass


ODD = {
    'object': object, 'set': lambda: {1, 2}, 'bytes': lambda: b'x', 'function': lambda: len,
    'class': lambda: dict, 'str subclass': lambda: Odd('x'), 'complex': lambda: 1j,
    'huge': lambda: 10 ** 5000, 'generator': lambda: (x for x in 'ab'), 'int subclass': lambda: Number(3),
    'od': lambda: collections.OrderedDict(a=1), 'frozenset': lambda: frozenset('a'),
    'range': lambda: range(3), 'ellipsis': lambda: ...,
}


class Write(FsWorld):
    rule = ('A case is 1-6 config writes (JSON-like values with difficult strings, values up to '
            'about 60 kB, values that cannot be encoded) over existing files of every kind, with '
            'short and failing writes, opens and closes. Non-trivial: at least one system call. '
            'Distinct by values, calls and faults.')
    assumptions = ('mapping keys are strings, no NaN', 'no power loss')

    def gen(self, rng, index):
        before = {}
        for name in ('a.json', 'b.yaml', 'c.yml', 'd/e.json', 'd/f.yaml', 'G.JSON', 'h.Yaml'):
            r = rng.random()
            if r < .5:
                before[name] = rng.choice(['', '{"old": 1}', 'old: 1\n', 'x' * 50000, '\x00\xff',
                                           '{"a": ' * 30, 'a: [1,\n' * 9])
        steps = []
        for _ in range(rng.choice([1, 1, 2, 3, 6])):
            v = value(rng, rng.choice([0, 1, 2, 3, 4]))
            s = dict(op='write', v=v, path=rng.choice(
                ['a.json', 'b.yaml', 'c.yml', 'd/e.json', './d/f.yaml', 'G.JSON', 'h.Yaml',
                 '<root>/a.json', '<root>/b.yaml', '<root>/d/f.yaml', 'd/../c.yml']),
                api=rng.choice(['write', 'write', 'dump']))
            r = rng.random()
            if r < .1:
                s['big'] = rng.choice([2000, 9000, 20000, 60000])
            if r > .85:
                s['odd'] = rng.choice(list(ODD))
                s['deep'] = rng.random() < .7
            if rng.random() < .1:
                s['tuples'] = True
            r = rng.random()
            if r < .04:
                s['path'] = rng.choice(['nodir/a.json', 'dir.json', 'a.json/b.json', 'noext', 'x.txt'])
            elif r < .14:
                s['path'] = '-'
            elif r < .2:
                s['alias'] = True
            steps.append(s)
        return dict(before=before, steps=steps, text=rng.choice(['', 'earlier\n', 'no newline']),
                    plan=self.plan(rng, WRITE_FAULTS))

    def shrinks(self, spec):
        yield from super().shrinks(spec)
        for i, s in enumerate(spec['steps']):
            for v in smaller(s['v']):
                yield dict(spec, steps=spec['steps'][:i] + [dict(s, v=v)] + spec['steps'][i + 1:])
        for name in spec['before']:
            yield dict(spec, before={k: v for k, v in spec['before'].items() if k != name})


def smaller(v):
    if isinstance(v, dict):
        for k in v:
            yield v[k]
            yield {x: v[x] for x in v if x != k}
        for k in v:
            for y in smaller(v[k]):
                yield {**v, k: y}
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield x
            yield v[:i] + v[i + 1:]
        for i, x in enumerate(v):
            for y in smaller(x):
                yield v[:i] + [y] + v[i + 1:]
    elif isinstance(v, str) and len(v) > 1:
        yield v[:len(v) // 2]
        yield v[len(v) // 2:]


class WriteRun(FsRun):
    def setup(self):
        os.mkdir('d')
        os.mkdir('dir.json')
        for name, text in self.spec['before'].items():
            disk.put(name, text)
        disk.put('other.txt', 'other')
        self.known = {}
        for at, _, names in os.walk('.'):
            for n in names:
                p = os.path.normpath(os.path.join(at, n))
                self.known[p] = disk.get(p)
        self.console = io.BytesIO()
        self.stdout = sys.stdout
        sys.stdout = io.TextIOWrapper(self.console, 'utf-8')
        sys.stdout.write(self.spec['text'])
        self.printed = self.spec['text'].encode()

    def finish(self):
        sys.stdout = self.stdout

    def config(self, s):
        v = s['v']
        if s.get('big'):
            v = {'big': ['%07d' % i for i in range(s['big'] // 10)], 'v': v}
        if s.get('tuples'):
            v = tuples(v)
        if s.get('alias'):
            v = {'one': v, 'two': v, 'three': [v]}
        if s.get('odd'):
            x = ODD[s['odd']]()
            v = {'zz': [v, {'deep': x}]} if s['deep'] else x
        return v

    def step(self, i, s):
        m = self.m
        path = s['path'].replace('<root>', self.root)
        v = self.config(s)
        if path == '-':
            out = self.call(i, lambda: m.config.write(v))
        elif s['api'] == 'write':
            out = self.call(i, lambda: m.config.write(v, path))
        else:
            out = self.call(i, lambda: m.config.ConfigSchema(path).dump(v))
        self.hist.append([out[:2], self.d.now[:]])
        hard = self.d.hard()
        what = f'writing {show(v)} to {s["path"]} with {self.d.now}'
        plain = not s.get('odd')
        sys.stdout.flush()
        printed = self.console.getvalue()
        if path == '-':
            if not printed.startswith(self.printed):
                self.bad('stdout', f'{what}: earlier text on stdout was changed')
            elif out[0] == 'ok' and plain:
                back = yaml.safe_load(printed[len(self.printed):].decode()) \
                    if not s.get('tuples') and not surrogates(v) else v
                if not same(v, back):
                    self.bad('stdout', f'{what}: what was printed reads as {back}')
            elif plain and not surrogates(v):
                self.bad('raises', f'{what}: {out}')
            self.printed = printed
            return
        if printed != self.printed:
            self.bad('stdout', f'{what}: text on stdout became {printed!r}')
        rel = os.path.relpath(path, self.root) if path.startswith('/') else os.path.normpath(path)
        possible = rel not in ('nodir/a.json', 'dir.json', 'a.json/b.json', 'noext', 'x.txt')
        if out[0] == 'ok':
            if hard:
                self.bad('silent', f'{what}: returned normally')
            elif not possible:
                self.bad('silent', f'{what}: returned normally')
            else:
                try:
                    back = m.config.load(path, resolve=False, keep_meta=True)
                except Exception as err:
                    self.bad('unfaithful', f'{what}: loading it gives {type(err).__name__}: {err}')
                else:
                    if not same(v, back, plain):
                        self.bad('unfaithful', f'{what}: loading it gives {str(back)[:300]!r}')
        elif out[0] == 'no end':
            self.bad('no end', what)
        elif not hard:
            if possible and plain:
                self.bad('raises', f'{what}: {out}')
            if disk.get(rel) != self.known.get(rel):
                self.bad('touched', f'{what}: raised {out[1:]} but the file became '
                         f'{disk.get(rel)[:100] if disk.get(rel) is not None else None!r}')
        self.known[rel] = disk.get(rel)
        for p, data in self.known.items():
            if disk.get(p) != data:
                self.bad('other file', f'{what}: {p} was changed')
                self.known[p] = disk.get(p)


def show(v):
    try:
        return ascii(v)[:200]
    except ValueError:
        return '...'


def surrogates(v):
    try:
        json.dumps(v, ensure_ascii=False).encode()
    except UnicodeEncodeError:
        return True
    return False


def tuples(v):
    if isinstance(v, dict):
        return {k: tuples(x) for k, x in v.items()}
    if isinstance(v, list):
        return tuple(tuples(x) for x in v)
    return v


Write.Run = WriteRun


# --------------------------------------------------------------------------
# C10

READ_FAULTS = ['short read', 'short read', 'read error', 'open fails', 'interrupt in read',
               'close fails', 'list fails', 'another process', 'another process', 'another process']
FILES = ['f.json', 'f.yaml', 'g.yaml', 'h.yml', 'd/f.json', 'd/g.json', 'k.JSON']


class Load(FsWorld):
    rule = ('A case is 1-6 loads of 1-4 configs by name with or without extension and with every '
            'option, from files with 1-4 versions each, under short and failing reads while '
            'another process replaces and removes files. Non-trivial: at least one system call. '
            'Distinct by files, calls and faults.')
    assumptions = ('files are replaced atomically',)

    def gen(self, rng, index):
        names = rng.sample(FILES, rng.choice([1, 2, 3, 4, 6]))
        files = {}
        for f in names:
            files[f] = [self.content(rng)]
            for _ in range(rng.choice([0, 1, 1, 3])):
                files[f].append(self.alike(rng, files[f][-1]) if rng.random() < .4
                                else self.content(rng))
        steps = []
        for _ in range(rng.choice([1, 1, 2, 3, 6])):
            if rng.random() < .3 and steps:
                steps.append(dict(op='change', act=self.change(rng, files)))
                if rng.random() < .6 and 'names' in steps[-2]:
                    steps.append(dict(steps[-2]))
                continue
            wanted = []
            for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
                f = rng.choice(names) if rng.random() < .95 else rng.choice(FILES)
                wanted.append(os.path.splitext(f)[0] if rng.random() < .3 else f)
            s = dict(op='load', names=wanted, how=rng.choice(['load', 'load', 'load', 'schema']))
            for k in ('resolve', 'keep_meta', 'concatenate'):
                if rng.random() < .4:
                    s[k] = rng.random() < .5
            r = rng.random()
            if r < .2:
                s['root'] = '<root>'
            elif r < .3:
                s['root'] = '.'
            elif r < .4:
                s['names'] = ['<root>/' + n for n in s['names']]
                if rng.random() < .5:
                    s['root'] = 'd'
            steps.append(s)
        acts = [self.change(rng, files) for _ in range(rng.choice([0, 1, 2, 4, 8]))]
        return dict(files=files, steps=steps, acts=acts, same_time=rng.random() < .4,
                    plan=self.plan(rng, READ_FAULTS))

    def alike(self, rng, c):
        """Another content of the same length."""
        if 'broken' in c:
            return c

        def other(v):
            if isinstance(v, dict):
                return {k: other(x) for k, x in v.items()}
            if isinstance(v, list):
                return [other(x) for x in v]
            if type(v) is int:
                return (v + 1) % 10
            if isinstance(v, str) and len(v) == 1 and v.isalpha() and v.isascii():
                return {'w': 'v'}.get(v, 'w')
            return v
        return dict(c, v=other(c['v']))

    def change(self, rng, files):
        f = rng.choice(list(files))
        n = len(files[f])
        return [f, rng.randrange(n) if rng.random() < .8 else None]

    def content(self, rng):
        r = rng.random()
        if r < .05:
            return dict(broken=rng.randrange(4))
        if r < .1:
            v = [self.item(rng, 1) for _ in range(rng.choice([0, 2]))]
        elif r < .13:
            v = rng.choice([None, 3, 'text', True])
        else:
            v = {k: self.item(rng, 2) for k in rng.sample(['a', 'b', 'c', 'é'],
                                                          rng.choice([0, 1, 2, 3]))}
            if rng.random() < .5:
                v['base'] = rng.choice([3, 'txt', 'ü', 0])
            if rng.random() < .4:
                v['_meta_'] = {'x': rng.choice([1, 'mx'])} if rng.random() < .8 else 5
        c = dict(v=v, style=rng.randrange(4))
        if rng.random() < .1:
            c['pad'] = rng.choice([3000, 9000, 20000, 70000])
        return c

    def item(self, rng, depth):
        r = rng.random()
        if depth and r < .35:
            return {k: self.item(rng, depth - 1)
                    for k in rng.sample(['a', 'b', 'c'], rng.choice([0, 1, 2]))}
        if depth and r < .6:
            return [self.item(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))]
        if r < .7:
            return rng.choice(['${base}', 'see ${base}', '${_meta_.x}'])
        return rng.choice([0, 1, 2.5, True, None, 'é', 'w', 'yes', '1', 'two words'])

    def shrinks(self, spec):
        yield from super().shrinks(spec)
        for cand in core.drop_chunks(spec['acts']):
            yield dict(spec, acts=cand)
        for i, s in enumerate(spec['steps']):
            for cand in core.drop_chunks(s.get('names', [])):
                if cand:
                    yield dict(spec, steps=spec['steps'][:i] + [dict(s, names=cand)]
                               + spec['steps'][i + 1:])


BROKEN = ['{"a": 1, "b', 'a: [1, 2', 'a: b: c\n- d', '{]']


def encode(name, c):
    if 'broken' in c:
        return BROKEN[c['broken']]
    v, style = c['v'], c['style']
    if os.path.splitext(name)[1].lower() == '.json':
        text = json.dumps(v, indent=[None, 1, 4, None][style], ensure_ascii=style == 3)
        pad = ' ' * c.get('pad', 0)
        # spaces in the middle, so that less of it is not well-formed
        return text[:1] + pad + text[1:] if text[0] in '{[' else pad + text
    text = yaml.safe_dump(v, default_flow_style=[None, True, False, None][style], sort_keys=False,
                          allow_unicode=style != 3)
    if c.get('pad') and isinstance(v, dict) and text[0] not in '{':
        lines = text.splitlines(True)
        text = ''.join([lines[0], *[f'# {i}\n' for i in range(c['pad'] // 8)], *lines[1:]]) \
            if all(x[0] not in ' -' for x in lines) else text
    return text


class Raises(Exception):
    pass


def ref_merge(a, b, cat):
    if isinstance(a, dict) and isinstance(b, dict):
        out = dict(a)
        for k, v in b.items():
            out[k] = ref_merge(a[k], v, cat) if k in a else v
        return out
    if cat and isinstance(a, list) and isinstance(b, list):
        return a + b
    return b


def ref_resolve(v, top):
    if isinstance(v, dict):
        return {k: ref_resolve(x, top) for k, x in v.items()}
    if isinstance(v, list):
        return [ref_resolve(x, top) for x in v]
    if not isinstance(v, str) or '${' not in v:
        return v
    path = re.search(r'\$\{(.*)\}', v).group(1).split('.')
    x = top
    for k in path:
        if not isinstance(x, dict) or k not in x:
            raise Raises
        x = x[k]
    if v.startswith('${'):
        return x
    return v[:v.index('$')] + str(x)


def ref_load(values, s):
    out = values[0]
    for v in values[1:]:
        out = ref_merge(out, v, s.get('concatenate', False))
    if s.get('resolve', True) and isinstance(out, (dict, list)):
        out = ref_resolve(out, out)
    if not s.get('keep_meta', False) and isinstance(out, dict):
        out = {k: v for k, v in out.items() if k != '_meta_'}
    return out


class LoadRun(FsRun):
    def setup(self):
        os.mkdir('d')
        self.state = {}
        self.acts = list(self.spec['acts'])
        for f in self.spec['files']:
            self.state[f] = 0
            self.put(f, 0)
        self.window = None

    def put(self, f, k):
        """By another process, at once; with the time of the file it came from."""
        full = os.path.join(self.root, f)
        disk.put(full + '~', encode(f, self.spec['files'][f][k]))
        if self.spec['same_time']:
            os.utime(full + '~', (1e9, 1e9))
        disk.R['rename'](full + '~', full)

    def apply(self, act):
        f, k = act
        if k is None:
            if self.state[f] is None:
                return False
            os.remove(f if not self.d.on else os.path.join(self.root, f))
        else:
            self.put(f, k)
        self.state[f] = k
        if self.window is not None:
            self.window.setdefault(f, set()).add(k)
            self.changed.add(f)
        return True

    def act(self):
        return bool(self.acts) and self.apply(self.acts.pop(0))

    def step(self, i, s):
        if s['op'] == 'change':
            self.apply(s['act'])
            return
        self.window = {f: {k} for f, k in self.state.items()}
        self.changed = set()
        names = [n.replace('<root>', self.root) for n in s['names']]
        kw = {k: s[k] for k in ('resolve', 'keep_meta', 'concatenate') if k in s}
        if 'root' in s:
            kw['root'] = s['root'].replace('<root>', self.root)
        single = s['how'] == 'schema' and len(names) == 1 and os.path.splitext(names[0])[1] and \
            'root' not in s
        if single:
            s = dict(s, resolve=False, keep_meta=True)
            out = self.call(i, lambda: self.m.config.ConfigSchema(names[0]).load())
        else:
            out = self.call(i, lambda: self.m.config.load(*names, **kw))
        window, self.window = self.window, None
        self.hist.append([out[:2], self.d.now[:]])
        what = f'loading {s["names"]} {kw} with {self.d.now}'.replace(self.root, '<root>')
        hard = [f for f in self.d.hard() if f != 'close fails']
        # what each name may stand for
        options = []
        sure = not self.changed
        for n in s['names']:
            n = n.replace('<root>/', '')
            opts = []
            if os.path.splitext(n)[1]:
                cands = [n] if n in window else []
            else:
                cands = [f for f in window if os.path.splitext(f)[0] == n]
                if sum(None not in window[f] for f in cands) > 1:
                    cands = []  # ambiguous all the time
            for f in cands:
                for k in window[f]:
                    if k is not None:
                        opts.append(self.spec['files'][f][k])
            options.append(opts)
        wants = []
        for combo in itertools.product(*options):
            try:
                if any('broken' in c for c in combo):
                    raise Raises
                wants.append(ref_load([c['v'] for c in combo], s))
            except Raises:
                sure = False
        if out[0] == 'ok':
            if hard:
                self.bad('silent', f'{what}: returned normally')
            elif not any(same(out[1], w) for w in wants):
                self.bad('wrong', f'{what}: {out[1]} is none of {wants[:4]}')
        elif out[0] == 'no end':
            self.bad('no end', what)
        elif sure and wants and not self.d.hard():
            self.bad('raises', f'{what}: {out}')


Load.Run = LoadRun


# --------------------------------------------------------------------------
# C11

FIND_FAULTS = ['list fails', 'another process', 'another process', 'another process',
               'another process']
STEMS = ['a', 'a', 'b', 'ab', 'a.b', '.h', 'A', 'é', 'a b', 'json']
EXTS = ['.json', '.json', '.yaml', '.yml', '.JSON', '.txt', '', '.jsonx', '.json~', '.toml', '.Yml']
SUPPORTED = {'.json', '.yaml', '.yml'}


def supported(name):
    stem, ext = os.path.splitext(name)
    return bool(stem) and ext.lower() in SUPPORTED


class Discovery(FsWorld):
    rule = ('A case is 1-6 lookups of configs by name, loads and tree views over a directory tree '
            'of up to 25 entries, under every listing order, failing listings, and entries that '
            'appear and vanish. Non-trivial: at least one system call. Distinct by tree, calls and '
            'faults.')
    assumptions = ('no symbolic links that lead nowhere or in circles',)

    def gen(self, rng, index):
        pl = rng.choice([0, 0, .3])  # links to files and directories elsewhere
        dirs = ['']
        entries = {}
        for _ in range(rng.choice([0, 1, 2, 4])):
            d = os.path.join(rng.choice(dirs), rng.choice(['d', 'e', 'a', 'x.json', 'b.yaml', 'é']))
            if d not in dirs:
                dirs.append(d)
                entries[d] = 'dir link' if rng.random() < pl else 'dir'

        def fname():
            stem = rng.choice(STEMS) if rng.random() < .5 else 'a'
            return os.path.join(rng.choice(dirs), stem + rng.choice(EXTS))

        for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 15])):
            f = fname()
            if f not in entries:
                entries[f] = 'file link' if rng.random() < pl else 'file'
        steps = []
        for _ in range(rng.choice([1, 1, 2, 3, 6])):
            r = rng.random()
            d = rng.choice(dirs)
            if r < .4:
                steps.append(dict(op='tree', path=rng.choice(['<root>', '.', '<root>/' + d, d or '.'])))
                continue
            stem = rng.choice(STEMS) if rng.random() < .5 else 'a'
            if rng.random() < .15:
                stem += rng.choice(EXTS)
            t = os.path.join(d, stem)
            r2 = rng.random()
            if r2 < .15:
                t = './' + t
            elif r2 < .3:
                t = '<root>/' + t
            elif r2 < .35:
                t = 'missing/a'
            steps.append(dict(op='find' if r < .8 else 'load', target=t))
        acts = []
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            r = rng.random()
            if r < .5 and entries:
                acts.append(['remove', rng.choice(list(entries))])
            elif r < .9:
                acts.append(['file', fname()])
            else:
                acts.append(['dir', os.path.join(rng.choice(dirs), rng.choice(['d', 'n', 'a.json']))])
        return dict(entries=entries, steps=steps, acts=acts, plan=self.plan(rng, FIND_FAULTS))

    def shrinks(self, spec):
        yield from super().shrinks(spec)
        for cand in core.drop_chunks(spec['acts']):
            yield dict(spec, acts=cand)
        for cand in core.drop_chunks(list(spec['entries'])):
            if all(not os.path.dirname(x) or os.path.dirname(x) in cand for x in cand):
                yield dict(spec, entries={k: spec['entries'][k] for k in cand})


class DiscoveryRun(FsRun):
    def setup(self):
        self.state = {'': 'dir'}
        self.acts = list(self.spec['acts'])
        for path, kind in self.spec['entries'].items():
            self.create(path, kind)
        self.window = None

    def create(self, path, kind):
        kind, _, link = kind.partition(' ')
        full = os.path.join(self.root, path)
        parent = os.path.dirname(path)
        if path in self.state or self.state.get(parent) != 'dir':
            return False
        if link:
            elsewhere = os.path.join(os.path.dirname(self.root), 'else%d' % len(self.state))
            while os.path.lexists(elsewhere):
                elsewhere += 'x'
            disk.R['symlink'](elsewhere, full)
            full = elsewhere
            self.stats[f'{kind} links'] += 1
        if kind == 'dir':
            disk.R['mkdir'](full)
        else:
            disk.put(full, json.dumps({'path': path}))
        self.state[path] = kind
        return True

    def act(self):
        if not self.acts:
            return False
        what, path = self.acts.pop(0)
        if what == 'remove':
            if path not in self.state:
                return False
            full = os.path.join(self.root, path)
            if self.state[path] == 'dir' and not os.path.islink(full):
                disk.shutil.rmtree(full)
            else:
                os.remove(full)
            self.state = {k: v for k, v in self.state.items()
                          if k != path and not k.startswith(path + '/')}
        elif not self.create(path, what):
            return False
        if self.window is not None:
            self.window.append(dict(self.state))
        return True

    def step(self, i, s):
        self.window = [dict(self.state)]
        if s['op'] == 'tree':
            path = s['path'].replace('<root>', self.root)
            fn = self.m.config.tree
        else:
            path = s['target'].replace('<root>', self.root)
            fn = self.m.config.find_config if s['op'] == 'find' else self.m.config.load
        out = self.call(i, lambda: fn(path))
        if out[0] == 'ok' and isinstance(out[1], str):
            out[1] = self.clean(out[1])
        if not self.d.now:
            # the same in another order
            again = self.call(i, lambda: fn(path), calm=True)
            if again[0] == 'ok' and isinstance(again[1], str):
                again[1] = self.clean(again[1])
            self.stats['repeated in another listing order'] += 1
            if again != out:
                self.bad('order', f'{s}: {out}, and with another listing order {again}')
        self.hist.append([out[:2], self.d.now[:]])
        what = f'{s} with {self.d.now}: {out}'
        if out[0] == 'no end':
            self.bad('no end', what)
        elif self.d.hard():
            if out[0] == 'ok':
                self.bad('silent', what)
        elif s['op'] == 'tree':
            self.judge_tree(s, out, what)
        else:
            self.judge_find(s, out, what)

    def ever(self, path, kind):
        return any(w.get(path) == kind for w in self.window)

    def always(self, path, kind):
        return all(w.get(path) == kind for w in self.window)

    def rel(self, path):
        path = path.replace('<root>', '.')
        path = os.path.normpath(path.lstrip('/') or '.')
        return '' if path == '.' else path

    def judge_find(self, s, out, what):
        target = self.rel(s['target'])
        where, name = os.path.split(target)
        changed = len(self.window) > 1
        if os.path.splitext(target)[1]:
            # must be there, whatever it is
            there = [bool(w.get(target)) for w in self.window]
            if out[0] == 'ok':
                ok = any(there)
                if s['op'] == 'find':
                    ok = ok and self.rel(out[1]) == target
                else:
                    ok = ok and out[1] == {'path': target}
            elif s['op'] == 'load' and any(w.get(target) == 'dir' for w in self.window):
                ok = True
            elif s['op'] == 'load' and not supported(name):
                ok = True
            else:
                ok = not all(there) and (out[1] == 'ConfigFileError' or changed)
            if not ok:
                self.bad('find', what)
            return
        cands = sorted({p for w in self.window for p in w if os.path.dirname(p) == where
                        and p and supported(os.path.basename(p))
                        and os.path.splitext(os.path.basename(p))[0] == name})
        may = [p for p in cands if self.ever(p, 'file')]
        must = [p for p in cands if self.always(p, 'file')]
        if out[0] == 'ok':
            got = self.rel(out[1]) if s['op'] == 'find' else out[1].get('path')
            ok = got in may and not any(p != got for p in must)
        elif changed and (not self.always(where, 'dir') or s['op'] == 'load'):
            ok = len(self.window) > 1
        else:
            ok = out[1] == 'ConfigFileError' and (len(must) != 1 or len(may) > 1) and \
                (len(may) > 1 or len(must) == 0)
        if not ok:
            self.bad('find', what + f' (may be {may}, are there {must})')

    def judge_tree(self, s, out, what):
        top = self.rel(s['path'])
        if out[0] == 'error':
            if self.always(top, 'dir'):
                self.bad('tree', what)
            return
        if not self.ever(top, 'dir'):
            self.bad('tree', what)
            return
        lines = out[1].split('\n')
        stack = [top]
        items = []
        for line in lines[1:]:
            got = re.match(r'((?:│   |    )*)(?:├── |└── )(.*)$', line)
            if not got or len(got.group(1)) // 4 >= len(stack):
                self.bad('tree', f'{what}: line {line!r}')
                return
            del stack[len(got.group(1)) // 4 + 1:]
            stack.append(os.path.join(stack[-1], got.group(2)))
            items.append(stack[-1])
        if len(set(items)) != len(items):
            self.bad('tree', f'{what}: shown twice')
        for p in items:
            if self.ever(p, 'dir'):
                continue
            if not (self.ever(p, 'file') and supported(os.path.basename(p))):
                self.bad('tree', f'{what}: {p} is not a config')
        for p in self.window[0]:
            if not p or not supported(os.path.basename(p)) or not self.always(p, 'file'):
                continue
            if top and not p.startswith(top + '/'):
                continue
            parents = []
            d = os.path.dirname(p)
            while len(d) > len(top):
                parents.append(d)
                d = os.path.dirname(d)
            if all(self.always(d, 'dir') for d in parents) and (
                    p not in items or not all(d in items for d in parents)):
                self.bad('tree', f'{what}: {p} is not shown with its parents')


Discovery.Run = DiscoveryRun
