"""Dates under simulated clocks and time zones: C17."""
import collections
import datetime
import json
import os
import zoneinfo

from . import clock, conv, core
from .core import digest

SOURCE = '''
import dataclasses
import datetime
from typing import Dict, List, Optional, Tuple, Union

@dataclasses.dataclass
class Event:
    when: datetime.datetime
    day: Optional[datetime.date] = None
    at: Optional[datetime.time] = None

def wrap(t, how):
    if how == 'plain':
        return t
    if how == 'list':
        return List[t]
    if how == 'optional':
        return Optional[t]
    if how == 'dict':
        return Dict[str, t]
    if how == 'tuple':
        return Tuple[int, t]
    if how == 'subclass':
        return type('Sub', (t,), {})
    raise KeyError(how)
'''
UTC = datetime.timezone.utc
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=UTC)
NAMED = ['UTC', 'Europe/Stockholm', 'America/New_York', 'Asia/Kolkata', 'Pacific/Kiritimati',
         'Pacific/Chatham', 'America/St_Johns', 'Australia/Lord_Howe', 'Europe/London',
         'Pacific/Apia', 'Pacific/Honolulu', 'Asia/Tehran', 'Africa/Casablanca']
UNNAMED = ['XXX-14', 'YYY+12', 'EST5EDT,M3.2.0,M11.1.0', 'ZZZ-5:45', 'AAA3BBB,J60,J300']
OFFSETS = [None, None, None, 'Z', '+00:00', '+05:30', '-11:00', '+14:00', '-03:30', '+01:00']
YEARS = [1, 13, 99, 999, 1582, 1900, 1969, 1970, 2000, 2019, 2020, 2024, 2026, 2038, 2100, 9999]
DAYS = [(1, 1), (12, 31), (2, 28), (3, 1), (2, 29), (11, 12), (12, 11), (1, 2), (10, 10), (3, 31)]
UNITS = ['second', 'minute', 'hour', 'day', 'week', 'month', 'year']


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def gen_instant(rng):
    if rng.random() < .5:
        y = rng.choice(YEARS[6:-1])
        mo, d = rng.choice(DAYS)
        if (mo, d) == (2, 29) and not leap(y):
            d = 28
        t = datetime.datetime(y, mo, d, tzinfo=UTC)
        t += datetime.timedelta(seconds=rng.choice([0, -1, 1, 3600 * 5, 86399, -3600 * 12, 43200]))
        s = int((t - EPOCH).total_seconds())
    else:
        s = rng.randrange(0, 4 * 10 ** 9)
    return max(0, s) * 10 ** 9 + rng.choice([0, 999999000, 1000, 500000000, 123456789])


def gen_script(rng):
    t = gen_instant(rng)
    out = [t]
    for _ in range(rng.choice([0, 0, 0, 2, 4])):
        if rng.random() < .6:
            t += rng.choice([1000, 10 ** 9, 3600 * 10 ** 9])
        else:
            t = max(0, t + rng.choice([-1, 1]) * rng.choice([86400, 31 * 86400, 366 * 86400])
                    * 10 ** 9)
        out.append(t)
    return out


def gen_fields(rng):
    y = rng.choice(YEARS) if rng.random() < .7 else rng.randrange(1, 10000)
    mo, d = rng.choice(DAYS) if rng.random() < .6 else (rng.randrange(1, 13), rng.randrange(1, 29))
    if (mo, d) == (2, 29) and not leap(y):
        d = 28
    r = rng.random()
    if r < .3:
        h, mi, s, us = 0, 0, 0, 0
    elif r < .5:
        h, mi, s, us = 23, 59, 59, 999999
    else:
        h, mi, s = rng.randrange(24), rng.randrange(60), rng.randrange(60)
        us = rng.choice([0, 1, 500000, 123456, rng.randrange(10 ** 6)])
    return [y, mo, d, h, mi, s, us]


def shift(t, n, unit):
    """Calendar arithmetic on a naive value, the last day of the month at most."""
    if unit in ('month', 'year'):
        m = t.year * 12 + t.month - 1 + (n if unit == 'month' else 12 * n)
        y, mo = divmod(m, 12)
        mo += 1
        days = [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]
        return t.replace(year=y, month=mo, day=min(t.day, days))
    return t + datetime.timedelta(**{unit + 's': n})


class Dates(core.World):
    clock = True
    runs = {'quick': 24000, 'thorough': 600000}
    real = ('all of marsh', 'dateparser, tzlocal and datetime')
    stub = ('the real-time clock of the process (LD_PRELOAD) and its time zone',)
    rule = ('A case is one local time zone (13 named, 5 unnamed) and 3-14 calls with complete dates, '
            'times and date-times in ISO form, as mappings and as sequences, timestamps, and (in '
            'named zones) relative texts, each under its own clock script with jumps between and '
            'within the calls; calls recur under other clocks. Non-trivial: at least two calls. '
            'Distinct by calls, clocks and zone.')
    assumptions = ('the time zone stays the same while a process runs',
                   'relative texts are evaluated in a zone of the zone database')

    def template(self):
        conv.template(0)
        self.marsh = conv.marsh
        # what the first call loads
        self.marsh.unmarshal(datetime.datetime, '3 March 2020')

    def gen(self, rng, index):
        named = rng.random() < .75
        zone = rng.choice(NAMED if named else UNNAMED)
        calls = []
        for _ in range(rng.choice([3, 5, 8, 14])):
            if calls and rng.random() < .35:
                c = dict(rng.choice(calls))
            else:
                c = self.gen_call(rng, named)
            c['clock'] = gen_script(rng)
            calls.append(c)
        return dict(zone=zone, calls=calls)

    def gen_call(self, rng, named):
        kind = rng.choice(['iso', 'iso', 'iso', 'mapping', 'sequence', 'timestamp', 'timestamp',
                           'relative', 'relative', 'relative', 'event'])
        if kind == 'relative' and not named:
            kind = 'iso'
        t = rng.choice(['datetime', 'datetime', 'date', 'time'])
        c = dict(kind=kind, type=t, how=rng.choice(['plain'] * 5 + ['list', 'optional', 'dict',
                                                                   'tuple']))
        if kind in ('iso', 'mapping', 'sequence', 'event'):
            c['fields'] = gen_fields(rng)
            c['offset'] = rng.choice(OFFSETS)
            c['sep'] = rng.choice('TT ')
            c['part'] = rng.choice(['all', 'all', 'date', 'minutes', 'millis'])
        elif kind == 'timestamp':
            r = rng.random()
            if r < .4:
                v = gen_instant(rng) // 10 ** 9
            elif r < .7:
                v = gen_instant(rng) / 1e9
            else:
                v = rng.choice([0, -1, 1.5, -0.25, 951782400, 2 ** 31, -2 ** 31 - 1, 253402300799,
                                -62135596800, 0.000001, 1e9])
            c['value'] = v
            c['text'] = rng.random() < .4
        else:
            c['text'] = rng.choice(['now', 'today', 'yesterday', 'tomorrow', 'ago', 'ago', 'in'])
            c['n'] = rng.choice([1, 2, 3, 7, 11, 30])
            c['unit'] = rng.choice(UNITS)
        return c

    def shrinks(self, spec):
        for cand in core.drop_chunks(spec['calls']):
            yield dict(spec, calls=cand)
        if spec['zone'] != 'UTC':
            yield dict(spec, zone='UTC')
        for i, c in enumerate(spec['calls']):
            def with_(**kw):
                return dict(spec, calls=spec['calls'][:i] + [dict(c, **kw)] + spec['calls'][i + 1:])
            if c['how'] != 'plain':
                yield with_(how='plain')
            if len(c['clock']) > 1:
                yield with_(clock=c['clock'][:1])
            if c.get('offset'):
                yield with_(offset=None)

    def run(self, spec, oracle):
        return DatesRun(self, spec).go()


class DatesRun:
    def __init__(self, world, spec):
        self.w = world
        self.m = world.marsh
        self.spec = spec
        self.viol = []
        self.stats = collections.Counter()
        self.hist = []
        self.seen = {}
        self.sim_s = 0.0
        self.zone = spec['zone']

    def bad(self, cls, msg):
        self.viol.append({'class': cls, 'msg': msg[:1500]})

    def go(self):
        before = os.environ.get('TZ')
        clock.set_zone(self.zone)
        try:
            import tzlocal
            tzlocal.reload_localzone()
        except Exception:
            # a zone it does not know
            tzlocal.unix._cache_tz = None
        self.u = conv.load_universe('user', SOURCE, False)
        last = None
        try:
            for i, c in enumerate(self.spec['calls']):
                self.call(i, c)
                span = c['clock']
                self.sim_s += abs(span[0] - last) / 1e9 if last is not None else 0
                if last is not None and span[0] < last:
                    self.stats['fault:clock goes back between calls'] += 1
                elif last is not None:
                    self.stats['fault:clock jumps forward between calls'] += 1
                last = span[-1]
                if self.viol:
                    break
        finally:
            clock.set_zone(before)
        self.stats['fault:zone ' + self.zone] += 1
        return core.result(
            viol=self.viol, digest_=digest([self.spec, self.hist]),
            nontrivial=len(self.hist) > 1, stats=self.stats, sim_s=self.sim_s,
            note=digest(self.hist))

    # -- one call
    def element(self, c):
        kind = c['kind']
        t = c['type']
        if kind in ('iso', 'event'):
            return self.iso(c, t)
        f = c.get('fields')
        if kind == 'mapping':
            names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond']
            part = self.part(c, t)
            return {k: f[names.index(k)] for k in (names[part[0]:part[1]])}
        if kind == 'sequence':
            part = self.part(c, t)
            return f[part[0]:part[1]]
        if kind == 'timestamp':
            return repr(c['value']) if c['text'] else c['value']
        if c['text'] == 'ago':
            return f'{c["n"]} {c["unit"]}{"s" if c["n"] > 1 else ""} ago'
        if c['text'] == 'in':
            return f'in {c["n"]} {c["unit"]}{"s" if c["n"] > 1 else ""}'
        return c['text']

    @staticmethod
    def part(c, t):
        if t == 'date':
            return 0, 3
        if t == 'time':
            return 3, {'minutes': 5}.get(c['part'], 7)
        return 0, {'date': 3, 'minutes': 5}.get(c['part'], 7)

    def value(self, c):
        """The date-time of the fields that are given."""
        f = list(c['fields'])
        if c['part'] == 'date':
            f[3:] = [0] * 4
        elif c['part'] == 'minutes':
            f[5:] = [0, 0]
        elif c['part'] == 'millis':
            f[6] -= f[6] % 1000
        return datetime.datetime(*f)

    def iso(self, c, t):
        v = self.value(c)
        spec = {'minutes': 'minutes', 'millis': 'milliseconds'}.get(c['part'], 'auto')
        if t == 'time':
            return v.time().isoformat(spec)
        if t == 'date' or c['part'] == 'date':
            return v.date().isoformat()
        return v.isoformat(c['sep'], spec) + (c['offset'] or '')

    def wanted(self, c, readings):
        """The values that are right."""
        kind = c['kind']
        t = c['type']
        if kind in ('iso', 'event'):
            v = self.value(c)
            if t == 'datetime' and c['part'] != 'date' and c['offset']:
                v = datetime.datetime.fromisoformat(
                    v.isoformat() + c['offset'].replace('Z', '+00:00'))
            elif t == 'date':
                v = v.replace(hour=0, minute=0, second=0, microsecond=0)
            return [v]
        if kind in ('mapping', 'sequence'):
            part = self.part(c, t)
            return [getattr(datetime, t)(*c['fields'][part[0]:part[1]])]
        if kind == 'timestamp':
            return [datetime.datetime.fromtimestamp(c['value'], UTC)]
        zone = zoneinfo.ZoneInfo(self.zone)
        out = []
        n, unit = {'now': (0, 'day'), 'today': (0, 'day'), 'yesterday': (-1, 'day'),
                   'tomorrow': (1, 'day'), 'ago': (-c['n'], c['unit']),
                   'in': (c['n'], c['unit'])}[c['text']]
        for ns in readings:
            # a clock shows nanoseconds
            now = EPOCH + datetime.timedelta(microseconds=ns // 1000)
            try:
                out.append(shift(now.astimezone(zone).replace(tzinfo=None), n, unit))
                if unit not in ('month', 'year'):
                    out.append(shift(now, n, unit).astimezone(zone).replace(tzinfo=None))
            except (ValueError, OverflowError):
                pass
        return out

    def call(self, i, c):
        el = self.element(c)
        if c['kind'] == 'event':
            v = self.value(c)
            type_ = self.u.Event
            arg = {'when': el if c['type'] == 'datetime' else v.isoformat(),
                   'day': v.date().isoformat(), 'at': v.time().isoformat()}
        else:
            type_ = self.u.wrap(getattr(datetime, c['type']), c['how'])
            arg = {'list': [el, el], 'dict': {'k': el}, 'tuple': [3, el]}.get(c['how'], el)
        clock.set_clock(c['clock'])
        try:
            got = self.m.unmarshal(type_, arg)
        except Exception as err:
            got = err
        finally:
            readings = clock.readings()
            clock.off()
        self.stats[c['kind']] += 1
        self.stats['clock readings'] += len(readings)
        what = f'{c["type"]} ({c["how"]}) from {arg!r}, zone {self.zone}, clock {c["clock"]}'
        shown = f'{type(got).__name__}: {got}' if isinstance(got, Exception) else repr(got)
        self.hist.append([i, shown])
        if isinstance(got, Exception):
            if c['kind'] == 'relative' and not self.wanted(c, readings):
                return
            self.bad('fails', f'{what}: {shown}')
            return
        if c['kind'] == 'event':
            v = self.value(c)
            if (c['type'] != 'datetime' and got.when != v) or got.at != v.time() \
                    or not self.day(got.day, v):
                self.bad('value', f'{what}: {shown}')
            if c['type'] != 'datetime':
                return
            got = [got.when]
        else:
            got = {'list': lambda: list(got), 'dict': lambda: [got['k']],
                   'tuple': lambda: [got[1]]}.get(c['how'], lambda: [got])()
        want = self.wanted(c, readings)
        for g in got:
            if not any(self.right(c, g, w) for w in want):
                self.bad('relative' if c['kind'] == 'relative' else 'value',
                         f'{what}: {shown}, expected {want[:4]} (clock read: {readings[:6]})')
                return
        if c['kind'] != 'relative':
            key = json.dumps([c[k] for k in sorted(c) if k != 'clock'])
            first = self.seen.setdefault(key, shown)
            if first != shown:
                self.bad('differs', f'{what}: {shown}, but under another clock {first}')

    @staticmethod
    def day(got, v):
        return isinstance(got, datetime.date) and \
            (got.year, got.month, got.day) == (v.year, v.month, v.day) and \
            (not isinstance(got, datetime.datetime) or got.time() == datetime.time(0))

    def right(self, c, got, want):
        t = c['type']
        if c['kind'] in ('mapping', 'sequence'):
            return type(got) is type(want) and got == want
        if t == 'time':
            return type(got) is datetime.time and got == want.time()
        if not isinstance(got, datetime.date):
            return False
        if t == 'date':
            if not isinstance(got, datetime.datetime):
                return got == want.date()
            if c['kind'] == 'timestamp' and got.tzinfo is None:
                return got == want.replace(tzinfo=None) or got == datetime.datetime.combine(
                    want.date(), datetime.time())
        if not isinstance(got, datetime.datetime):
            return False
        return (got.tzinfo is None) == (want.tzinfo is None) and got == want \
            and got.utcoffset() == want.utcoffset()
