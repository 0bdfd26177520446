"""Runs, workers, minimisation, replay files and evidence.

Everything a run does is decided by its spec, a JSON value that is a pure
function of (VERIF_SEED, property, run index).  A run is executed in a process
forked from a template in which marsh has been imported but never used.
"""
import argparse
import collections
import gc
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import clock

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MARSH_SIM_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'

WORLDS = {
    'C01': ('sim.w_conv', 'Concurrent'),
    'C02': ('sim.w_conv', 'History'),
    'C03': ('sim.w_conv', 'Aborted'),
    'C04': ('sim.w_reg', 'Registry'),
    'C05': ('sim.w_ns', 'Namespaces'),
    'C06': ('sim.w_conv', 'Inputs'),
    'C07': ('sim.w_conv', 'Sharing'),
    'C08': ('sim.w_conv', 'References'),
    'C09': ('sim.w_fs', 'Write'),
    'C10': ('sim.w_fs', 'Load'),
    'C11': ('sim.w_fs', 'Discovery'),
    'C12': ('sim.w_entry', 'EntryCalls'),
    'C13': ('sim.w_entry', 'EntryCwd'),
    'C14': ('sim.w_cache', 'Caches'),
    'C15': ('sim.w_iter', 'Iterables'),
    'C20': ('sim.w_order', 'Orders'),
    'C16': ('sim.w_repro', 'Reproducible'),
    'C17': ('sim.w_dates', 'Dates'),
    'C18': ('sim.w_fail', 'Failures'),
    'C19': ('sim.w_nest', 'Nested'),
}


SKIP = 'skip'


class HarnessError(Exception):
    pass


def derive(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def rng_for(*parts):
    return random.Random(derive(*parts))


def digest(obj):
    return hashlib.sha256(
        json.dumps(obj, sort_keys=True, default=str).encode(),
    ).hexdigest()[:16]


# --------------------------------------------------------------------------
# isolated execution


SLOTS = 10


def isolated(world, name, *args, timeout=120.0):
    """Run a function in a forked child, return ('ok', value) | ('exc', text) |
    ('died', status) | ('timeout', None).

    name: a method of world, or 'module:function'.
    """
    return Zygote.current.call(name, args, timeout)


class Zygotes:
    """The processes that run requests, all forked from one that was started
    with fixed arguments and environment and did nothing but import marsh.

    Their memory is the same at every fork of a child, so neither what was run
    before nor by whom can be seen by a child, not even in the addresses of
    objects (the randomisation of the address space is off).
    """

    procs = []

    def __init__(self, world, pid, scratch, variant):
        fds = []
        self.slots = []
        for _ in range(SLOTS):
            r1, req = os.pipe()
            resp, w2 = os.pipe()
            stat, w3 = os.pipe()
            fds += [r1, w2, w3]
            self.slots.append(Zygote(req, resp, stat))
        ready, w = os.pipe()
        # fixed descriptor numbers in the child
        base = 200
        moved = [os.dup2(fd, base + i) for i, fd in enumerate(fds + [w])]
        r, cfg = os.pipe()
        os.dup2(r, base - 1)
        env = {k: v for k, v in os.environ.items() if k.startswith('PYTHON')
               or k in ('TZ', 'LC_ALL', 'COLUMNS', 'LINES', 'MARSH_SIM_CHILD', 'MARSH_SIM_REPO')}
        if world.clock:
            env['LD_PRELOAD'] = clock.build()
        if 'hash' in variant:
            env['PYTHONHASHSEED'] = str(variant['hash'])
        self.proc = os.fork()
        if not self.proc:
            os.set_inheritable(base - 1, True)
            for fd in moved:
                os.set_inheritable(fd, True)
            os.setpgid(0, 0)
            os.chdir('/')
            os.execve(sys.executable, [sys.executable, os.path.join(VERIF, 'check.py'),
                                       '--zygote'], env)
        for fd in fds + moved + [w, r, base - 1]:
            os.close(fd)
        write_all(cfg, json.dumps([pid, scratch, variant.get('pad', 0)]).encode())
        os.close(cfg)
        Zygotes.procs.append(self.proc)
        if os.read(ready, 1) != b'r':
            raise HarnessError('marsh can not be imported: see above')
        os.close(ready)

    @staticmethod
    def main():
        base = 200
        n = 3 * SLOTS
        chunks = []
        while True:
            chunk = os.read(base - 1, 4096)
            if not chunk:
                break
            chunks.append(chunk)
        os.close(base - 1)
        pid, os.environ['MARSH_SIM_SCRATCH'], seed = json.loads(b''.join(chunks))
        padding = pad(seed)
        world = load_world(pid)
        world.template()
        gc.collect()
        gc.freeze()
        gc.disable()
        sys.unraisablehook = lambda *_: None
        pids = []
        for i in range(SLOTS):
            kid = os.fork()
            if not kid:
                keep = [base + 3 * i + k for k in range(3)]
                for fd in range(base, base + n + 1):
                    if fd not in keep:
                        os.close(fd)
                try:
                    serve(world, *keep)
                finally:
                    os._exit(0)
            pids.append(kid)
        os.write(base + n, b'r')
        for fd in range(base, base + n + 1):
            os.close(fd)
        for kid in pids:
            os.waitpid(kid, 0)
        os._exit(0)


def pad(seed):
    """Take up memory, so that what comes later has other addresses."""
    if not seed:
        return None
    rng = random.Random(seed)
    out = [bytearray(rng.choice([20, 40, 70, 120, 200, 300, 500, 700, 1100, 1300]) + rng.randrange(16))
           for _ in range(rng.randrange(2000, 6000))]
    return [x for x in out if rng.random() < .6]


def serve(world, req, resp, stat):
    while os.read(req, 1):
        pid = os.fork()
        if not pid:
            child(world, req, resp, stat)
        _, status = os.waitpid(pid, 0)
        os.write(stat, b'%10d' % status)


def child(world, req, resp, stat):
    code = 0
    try:
        os.write(stat, b'%10d' % os.getpid())
        size = int(read_exactly(req, 10))
        name, args = json.loads(read_exactly(req, size))
        os.close(req)
        os.close(stat)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        try:
            if ':' in name:
                mod, name = name.split(':')
                fn = getattr(importlib.import_module(mod), name)
            else:
                fn = getattr(world, name)
            payload = json.dumps(['ok', fn(*args)])
        except BaseException:
            payload = json.dumps(['exc', traceback.format_exc()])
        write_all(resp, payload.encode())
    except BaseException:
        code = 3
    finally:
        os._exit(code)


class Zygote:
    """One slot, seen from the process that uses it."""

    current = None
    variants = ()  # of the processes that differ in more than what they run

    def __init__(self, req, resp, stat):
        self.req = req
        self.resp = resp
        self.stat = stat

    def close(self):
        os.close(self.req)
        os.close(self.resp)
        os.close(self.stat)

    def call(self, name, args, timeout):
        data = json.dumps([name, args]).encode()
        os.write(self.req, b'g')
        pid = int(read_exactly(self.stat, 10))
        write_all(self.req, b'%10d' % len(data) + data)
        chunks = []
        deadline = time.monotonic() + timeout
        late = False
        done = False
        while True:
            ready = select.select([self.resp] + [self.stat] * (not done), [], [],
                                  0 if done else max(0.0, deadline - time.monotonic()))[0]
            if self.resp in ready:
                chunks.append(os.read(self.resp, 1 << 16))
            elif done:
                break
            elif self.stat in ready:
                status = int(read_exactly(self.stat, 10))
                done = True
            else:
                late = True
                deadline = time.monotonic() + 10.0
                os.kill(pid, signal.SIGKILL)
        if late:
            return 'timeout', None
        try:
            kind, value = json.loads(b''.join(chunks))
        except Exception:
            return 'died', status
        return kind, value


def read_exactly(fd, n):
    chunks = []
    while n:
        chunk = os.read(fd, n)
        if not chunk:
            raise EOFError
        chunks.append(chunk)
        n -= len(chunk)
    return b''.join(chunks)


def write_all(fd, data):
    view = memoryview(data)
    while view:
        view = view[os.write(fd, view):]


# --------------------------------------------------------------------------
# base world


class World:
    """One property: how its runs are generated, executed and judged."""

    id = None
    clock = False  # does it need the simulated clock?
    rule = ''
    level = 'exploration'
    runs = {'quick': 400, 'thorough': 20000}
    cap_s = {'quick': 300.0, 'thorough': 3 * 3600.0}
    timeout = 120.0
    real = ()
    stub = ()
    assumptions = ()

    def __init__(self):
        self.memo = collections.OrderedDict()
        self.alone_runs = 0

    # -- to be overridden
    def template(self):
        """Imports and other preparation before any fork."""

    def gen(self, rng, index):
        raise NotImplementedError

    def variants(self, spec=None):
        """The kinds of processes that runs are executed in."""
        return [{}]

    def prepare(self, spec):
        """Compute whatever the oracle needs (may fork)."""
        return None

    def run(self, spec, oracle):
        """Executed in a forked child."""
        raise NotImplementedError

    def shrinks(self, spec):
        return iter(())

    # -- shared
    def alone(self, key, fn, *args):
        """Memoised outcome of a function ('module:name') in a pristine forked process."""
        if key in self.memo:
            self.memo.move_to_end(key)
            return self.memo[key]
        kind, value = isolated(self, fn, *args, timeout=self.timeout)
        self.alone_runs += 1
        if kind != 'ok':
            raise HarnessError(f'alone run {kind}: {value}')
        self.memo[key] = value
        if len(self.memo) > 20000:
            self.memo.popitem(last=False)
        return value

    def execute(self, spec):
        oracle = self.prepare(spec)
        if oracle == SKIP:
            return result(nontrivial=False, stats={'skipped': 1}, digest_='skipped')
        kind, value = isolated(self, 'run', spec, oracle, timeout=self.timeout)
        if kind == 'ok':
            return value
        if kind == 'exc':
            raise HarnessError(f'run failed:\n{value}')
        raise HarnessError(f'run {kind}: {value}')


def load_world(pid):
    mod, cls = WORLDS[pid]
    world = getattr(importlib.import_module(mod), cls)()
    world.id = pid
    return world


def result(viol=(), digest_=None, nontrivial=True, stats=None, sim_s=0.0,
           explicit=None, note=None, probes=None):
    return dict(
        viol=list(viol), digest=digest_, nontrivial=bool(nontrivial),
        stats=dict(stats or {}), sim_s=sim_s, explicit=explicit, note=note,
        probes=dict(probes or {}),
    )


# --------------------------------------------------------------------------
# batch


def spec_for(world, index):
    rng = rng_for(SEED, world.id, index)
    return world.gen(rng, index)


def worker(world, indices, deadline, fd):
    def send(obj):
        data = (json.dumps(obj) + '\n').encode()
        while data:
            n = os.write(fd, data)
            data = data[n:]

    for index in indices:
        if time.monotonic() > deadline:
            send(dict(capped=index))
            break
        try:
            spec = spec_for(world, index)
            res = world.execute(spec)
            res['index'] = index
            if res['viol'] or index < 3:
                res['spec'] = spec
            send(res)
            if res['viol']:
                break
        except BaseException as err:
            send(dict(index=index, error=f'{type(err).__name__}: {err}',
                      tb=traceback.format_exc()))
            break
    send(dict(done=True, alone=world.alone_runs))


def use_slot(trees, i):
    Zygote.variants = [tree.slots[i] for tree in trees]
    Zygote.current = Zygote.variants[0]


def batch(world, trees, nruns, nworkers, cap_s):
    deadline = time.monotonic() + cap_s
    pipes = {}
    pids = []
    for w in range(nworkers):
        r, wr = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(r)
                for other in pipes:
                    os.close(other)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                os.setpgid(0, 0)
                use_slot(trees, w)
                for tree in trees:
                    for i, z in enumerate(tree.slots):
                        if i != w:
                            z.close()
                worker(world, range(w, nruns, nworkers), deadline, wr)
            finally:
                os._exit(0)
        os.close(wr)
        pipes[r] = b''
        pids.append(pid)
    out = []
    alone = 0
    capped = False
    stop_at = None
    open_ = set(pipes)
    while open_:
        ready, _, _ = select.select(list(open_), [], [], 1.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                open_.discard(fd)
                os.close(fd)
                continue
            pipes[fd] += chunk
            *lines, rest = pipes[fd].split(b'\n')
            pipes[fd] = rest
            for line in lines:
                msg = json.loads(line)
                if 'done' in msg:
                    alone += msg['alone']
                elif 'capped' in msg:
                    capped = True
                else:
                    out.append(msg)
                    if (msg.get('viol') or msg.get('error')) and stop_at is None:
                        # a little grace so that a lower index may be found
                        stop_at = time.monotonic() + 2.0
        hard = time.monotonic() > deadline + world.timeout * 2
        if (stop_at is not None and time.monotonic() > stop_at) or hard:
            for pid in pids:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
            if hard:
                capped = True
            break
    for pid in pids:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    return out, alone, capped


# --------------------------------------------------------------------------
# minimisation


def viol_class(viol):
    return viol[0]['class']


def still_fails(world, spec, cls, budget):
    if time.monotonic() > budget:
        return None
    try:
        res = world.execute(spec)
    except HarnessError:
        return None
    if res['viol'] and any(v['class'] == cls for v in res['viol']):
        return res
    return None


def minimise(world, spec, res, seconds=60.0):
    cls = viol_class(res['viol'])
    budget = time.monotonic() + seconds
    best, best_res = spec, res
    if res.get('explicit') is not None:
        cand = dict(spec, **res['explicit'])
        got = still_fails(world, cand, cls, budget)
        if got:
            best, best_res = cand, got
    progress = True
    steps = 0
    while progress and time.monotonic() < budget:
        progress = False
        for cand in world.shrinks(best):
            if time.monotonic() > budget:
                break
            got = still_fails(world, cand, cls, budget)
            steps += 1
            if got:
                best, best_res = cand, got
                progress = True
                break
    return best, best_res, steps


def drop_chunks(seq):
    """Candidate sublists of a list, biggest removals first."""
    n = len(seq)
    size = n
    while size >= 1:
        for start in range(0, n, size):
            cand = seq[:start] + seq[start + size:]
            if len(cand) < n:
                yield cand
        size //= 2


# --------------------------------------------------------------------------
# main


def known_findings():
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def write_replay(world, spec, res, extra):
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    doc = dict(
        property=world.id, seed=SEED, spec=spec, violations=res['viol'],
        how='VERIF_SEED is not needed: the spec decides everything. '
            f'Replay with: python3 check.py {world.id} --replay <this file>',
        **extra,
    )
    path = os.path.join(VERIF, 'replays', f'{world.id}-{digest(spec)}.json')
    with open(path, 'w') as fp:
        json.dump(doc, fp, indent=1)
    return path


def replay_in_fresh_process(world, path):
    env = dict(os.environ)
    env.pop('MARSH_SIM_CHILD', None)
    pid = os.fork()
    if not pid:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        os.execve(
            sys.executable,
            [sys.executable, os.path.join(VERIF, 'check.py'), world.id, '--replay', path],
            env,
        )
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status)


def do_replay(world, path):
    doc = json.load(open(path))
    res = world.execute(doc['spec'])
    if res['viol']:
        for v in res['viol'][:5]:
            print(f"{v['class']}: {v['msg']}")
        print(f'VIOLATION property={world.id} replay={path}')
        return 1
    print('not reproduced')
    return 0


def write_evidence(world, doc):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', f'{world.id}.json')
    with open(path + '.tmp', 'w') as fp:
        json.dump(doc, fp, indent=1)
    os.replace(path + '.tmp', path)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--digests')
    ap.add_argument('--only', type=int)
    ap.add_argument('--no-min', action='store_true')
    args = ap.parse_args(argv)
    if args.setup:
        # only the clock is built: marsh is pure Python and imported from /repo
        import marsh
        clock.build()
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        print('ready:', os.path.dirname(marsh.__file__), sys.version.split()[0])
        return
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    code = 2
    scratch = tempfile.mkdtemp(prefix='marshsim-')
    os.environ['MARSH_SIM_SCRATCH'] = scratch
    # the children of a child must find it too, and nothing else is written to
    try:
        code = main_(args)
    except SystemExit as err:
        code = err.code
    except BaseException:
        traceback.print_exc()
        code = 2
    finally:
        for proc in Zygotes.procs:
            try:
                os.killpg(proc, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code if isinstance(code, int) else 2)


def main_(args):
    t0 = time.monotonic()
    world = load_world(args.property)
    spec = json.load(open(args.replay))['spec'] if args.replay else None
    trees = [Zygotes(world, args.property, os.environ['MARSH_SIM_SCRATCH'], v)
             for v in world.variants(spec)]
    use_slot(trees, SLOTS - 1)
    if args.replay:
        return do_replay(world, args.replay)
    nruns = args.runs or world.runs[TIER]
    if args.only is not None:
        spec = spec_for(world, args.only)
        print(json.dumps(spec, indent=1))
        res = world.execute(spec)
        print(json.dumps(res, indent=1))
        return 1 if res['viol'] else 0
    out, alone, capped = batch(world, trees, nruns, min(args.workers, SLOTS - 1), world.cap_s[TIER])
    out.sort(key=lambda r: r['index'])
    good = [r for r in out if 'error' not in r]
    errors = [r for r in out if 'error' in r]
    bad = [r for r in good if r['viol']]
    if args.digests:
        with open(args.digests, 'w') as fp:
            for r in good:
                fp.write(f"{r['index']} {r['digest']} {digest(r['stats'])} {r['note']}\n")
    code = 0
    known = [k for k in known_findings()
             if k.get('property') == world.id and k.get('status') == 'finding']
    for k in known:
        print(f"KNOWN-FINDING: property={world.id} {k['what']}")
    if bad:
        first = bad[0]
        if args.no_min:
            spec, res, steps = first['spec'], first, 0
        else:
            spec, res, steps = minimise(world, first['spec'], first)
        extra = dict(run_index=first['index'], minimise_steps=steps)
        path = write_replay(world, spec, res, extra)
        rc = replay_in_fresh_process(world, path)
        tries = 1
        if rc != 1:
            path = write_replay(world, first['spec'], first, extra)
            while rc != 1 and tries < 5:
                rc = replay_in_fresh_process(world, path)
                tries += 1
        for v in res['viol'][:5]:
            print(f"{v['class']}: {v['msg']}")
        if rc == 1:
            print(f'VIOLATION property={world.id} replay={path}')
            code = 1
        else:
            print(f'HARNESS: violation of run {first["index"]} did not replay '
                  f'in a fresh process (rc={rc})')
            code = 2
    elif errors:
        print(f"HARNESS: run {errors[0]['index']}: {errors[0]['error']}")
        print(errors[0].get('tb', ''))
        code = 2
    elif not good:
        print('HARNESS: no run was completed')
        code = 2
    wall = time.monotonic() - t0
    stats = collections.Counter()
    probes = collections.Counter()
    for r in good:
        stats.update(r['stats'])
        probes.update(r['probes'])
    distinct = {r['digest'] for r in good if r['nontrivial']}
    inter = {d for r in good for d in [r['note']] if d}
    samples = []
    for r in good:
        if 'spec' in r and len(samples) < 2:
            samples.append(dict(run=r['index'], spec=_trim(r['spec'])))
    if code in (0, 1):
        write_evidence(world, dict(
            property=world.id, tier=TIER, seed=SEED, level=world.level,
            coverage=dict(
                evaluations=len(good),
                distinct_nontrivial=len(distinct),
                rule=world.rule,
                samples=samples,
                simulated_runs_per_hour=round(len(good) / wall * 3600),
                seeds_per_hour=round(len(good) / wall * 3600),
                simulated_seconds=round(sum(r['sim_s'] for r in good), 3),
                faults_injected={k[6:]: v for k, v in sorted(stats.items())
                                 if k.startswith('fault:')},
                counters={k: v for k, v in sorted(stats.items())
                          if not k.startswith('fault:')},
                rare_conditions_hit=dict(sorted(probes.items())),
                distinct_interleavings_or_histories=len(inter),
                pristine_reference_runs=alone,
                stopped_by_wall_cap=capped,
                runs_planned=nruns,
                components_real=list(world.real),
                components_stub=list(world.stub),
            ),
            assumptions=list(world.assumptions),
            wall_s=round(wall, 2),
            violations=len(bad),
        ))
    print(f'{world.id} tier={TIER} seed={SEED} runs={len(good)}/{nruns} '
          f'distinct={len(distinct)} violations={len(bad)} wall={wall:.1f}s'
          + (' (wall cap)' if capped else ''))
    return code


def _trim(obj, depth=0):
    text = json.dumps(obj)
    if len(text) <= 6000:
        return obj
    return text[:6000] + ' ...'
