"""Writes MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

THREADS = ('deterministic simulation: seeded line-level thread schedules (random walk, PCT, '
           'hot-spot), minimised replay')
TECH = {
    'C01': THREADS + '; every call compared with the same call alone in a pristine process',
    'C02': 'deterministic simulation: seeded histories of calls, cache controls, garbage '
           'collection and module reloads; every call compared with a pristine process',
    'C03': 'deterministic simulation with fault injection: asynchronous aborts at interpreter '
           'delivery points and failing user code, later calls compared with a pristine process',
    'C04': THREADS + '; registrations racing with lookups, judged against the specified order',
    'C05': THREADS + '; namespace histories judged against a sequential map',
    'C06': THREADS + ' and aborts; deep snapshots of shared inputs during and after each call',
    'C07': THREADS + '; mutation of returned values as the fault, other results re-examined',
    'C08': THREADS + '; histories over same-named recursive classes, compared by class identity',
    'C09': 'deterministic simulation with fault injection: interposed raw files with short '
           'writes, EINTR, ENOSPC, EIO; model of file contents',
    'C10': 'deterministic simulation with fault injection: interposed raw files with short '
           'reads, EIO, files replaced or removed during the load; reference merge',
    'C11': 'deterministic simulation with fault injection: listing order, vanishing and '
           'appearing entries; reference discovery',
    'C12': 'deterministic simulation with fault injection: entry-point runs under I/O faults, '
           'compared with a reference pipeline',
    'C13': 'deterministic simulation with fault injection: simulated clock, time zone and '
           'directory faults, and every way of ending the call',
    'C14': THREADS + '; cache histories judged against the bare function',
    'C15': THREADS + '; iterations judged against the list of items',
    'C16': 'deterministic simulation: the same program in processes with different hash seeds, '
           'listing orders and clocks',
    'C17': 'deterministic simulation: clock and time zone decided by the simulator, results '
           'compared with the calendar',
    'C18': 'deterministic simulation with fault injection: one failing part (user code or damaged '
           'element) per call on generated types, between concurrent calls; error, cause and path '
           'compared with a model',
    'C19': 'deterministic simulation: further calls made at chosen points of user code, by the same '
           'thread or by threads it waits for; every outcome compared with the call alone in a '
           'pristine process',
    'C20': THREADS + ' and failing user code; histories judged against a list kept by the '
           'specified pairwise rules',
}
NOTE = {
    'C01': 'Samples thousands of schedules of 2-4 threads; preemption between source lines of '
           'marsh and of user types, not inside C code or the dependencies.',
    'C02': 'Samples histories of 8-60 calls; "alone" is a process forked right after import.',
    'C03': 'Samples abort points over all delivery points of the calls made; none inside '
           'except/finally blocks or __exit__.',
    'C04': 'Samples histories and interleavings of up to 3 threads; the order is judged from the '
           'specified pairwise rules only.',
    'C05': 'Samples histories and interleavings of up to 3 threads over a few names.',
    'C06': 'Inputs are compared every few lines and after each call.',
    'C07': 'Types with mutable non-factory defaults are excluded by the statement.',
    'C08': 'Samples histories over generated recursive classes sharing names.',
    'C09': 'The faults are those of the raw-file layer below Python buffered files; no power loss '
           '(the property does not promise durability).',
    'C10': 'Faults at the raw-file layer; concurrent change is atomic replacement or removal.',
    'C11': 'Directories up to a dozen entries; faults at listdir/scandir/stat level.',
    'C12': 'The expected arguments come from an independent model of overrides and merging over '
           'simple function signatures.',
    'C13': 'A failing final chdir is excluded.',
    'C14': 'Samples schedules and histories over small key sets.',
    'C20': 'Samples histories and interleavings of up to 3 threads; orders that the pairwise '
           'rules leave open are not judged.',
    'C15': 'Samples schedules of 2-4 iterations.',
    'C16': 'Compares a sample of programs between a sample of hash seeds.',
    'C17': 'Compares a sample of instants under a sample of clocks and zones; the clock is set '
           'below datetime and dateparser.',
    'C18': 'Samples types, elements and failing parts; where a positional or extra argument may be '
           'named in two ways both paths are accepted.',
    'C19': 'Samples calls, points within user code and what is done there, to a depth of 3.',
}
PURE = ('pure function of its input: no schedule, clock, fault, crash point or history enters, so '
        'there is nothing for a simulator to decide')

if __name__ == '__main__':
    from sim import core
    props = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for pid in props:
        mod = core.WORLDS.get(pid, (None,))[0]
        if mod is None:
            na.append(dict(property=pid, reason=PURE))
        elif not os.path.exists(os.path.join(HERE, *mod.split('.')) + '.py'):
            na.append(dict(property=pid, reason='the simulated world for it is not built yet'))
        else:
            checks.append(dict(
                property=pid,
                quick_cmd=f'python3 check.py {pid}',
                thorough_cmd=f'VERIF_TIER=thorough python3 check.py {pid}',
                evidence_file=f'evidence/{pid}.json',
                technique=TECH[pid],
                level='exploration',
                level_note=NOTE[pid],
            ))
    doc = dict(
        version=1,
        setup_cmd='python3 check.py --setup',
        checks=checks,
        not_applicable=na,
        notes='No hooks were added to /repo: the simulator instruments the imported code from '
              'outside (sys.monitoring, replaced locks, interposed raw files and clocks).',
    )
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump(doc, fp, indent=1)
        fp.write('\n')
