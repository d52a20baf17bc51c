"""P22: TIDs and AT URIs."""
import datetime
import itertools
import string

from mc import env, sched
from arroba import util

ID = 'P22'
LEVEL = 'model_checking'
CHUNK = 1
TECHNIQUE = ('stateless exploration of all interleavings of concurrent generators at bytecode '
             'granularity, and exhaustive enumeration of clock answers, of boundary numbers and '
             'times, and of URI parts, against an independent encoder')
RULE = ('every sequence of up to five (thorough: seven) clock answers before, at, just after and '
        'long after the last one; every interleaving, up to the stated number of preemptions, of '
        'two and three generators with every clock behaviour; every number within a distance of '
        'every power of two in the 53 bit range, with every clock id, as number, time and TID; '
        'every single character change and every length of a TID; every URI from an alphabet of '
        'authorities, collections and record keys of every allowed character')
ASSUMPTIONS = ['numbers are between 0 and 2^53-1, clock ids between 0 and 31',
               'dashes in a TID and record keys with characters that AT Protocol refuses are '
               'not specified']

UTC = datetime.timezone.utc
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=UTC)
US = datetime.timedelta(microseconds=1)
# ns from the base
ANSWERS = (-3_600_000_000_000, -1000, 0, 999, 1000, 2000, 1_000_000_000)


def units(tier, seed):
    q = tier == 'quick'
    out = []
    for first in range(len(ANSWERS)):
        for second in range(len(ANSWERS)):
            out.append({'kind': 'clock', 'prefix': [first, second], 'len': 5 if q else 7})
    # tasks, calls, clock
    for clock in ('stalls', 'back', 'ahead'):
        for calls, bound in (([1, 1], 2 if q else 4), ([2, 1], 2 if q else 3),
                             ([2, 2], 1 if q else 2), ([1, 1, 1], 1 if q else 2)):
            out.append({'kind': 'threads', 'calls': calls, 'clock': clock, 'bound': bound})
    for bit in range(54):
        out.append({'kind': 'numbers', 'bit': bit, 'near': 100 if q else 2000})
    out += [{'kind': 'times'}, {'kind': 'malformed'}]
    for auth in range(len(AUTHORITIES)):
        out.append({'kind': 'uris', 'auth': auth})
    out.append({'kind': 'bad uris'})
    return out


def tid(n, clock):
    """Independent encoder: ten base 32 digits and more of the number, two of the clock id."""
    digits = []
    for _ in range(11):
        n, d = divmod(n, 32)
        digits.append(env.TID_ALPHA[d])
    assert not n
    return ''.join(reversed(digits))


def number(t):
    n = 0
    for c in t[:11]:
        n = n * 32 + env.TID_ALPHA.index(c)
    return n


def wellformed(ctx, t):
    return ctx.check(isinstance(t, str) and len(t) == 13 and set(t) <= set(env.TID_ALPHA),
                     'a TID is not 13 base 32 characters', tid=t)


class Clock:
    """Stands in for time in util."""
    def __init__(self, fn):
        self.fn = fn

    def __enter__(self):
        self.undo = sched.shim(util)
        self.saved = getattr(util, 'time_ns', None)
        if self.saved:
            util.time_ns = self.fn
        self.mod = sched.time_shim.time_ns
        sched.time_shim.time_ns = self.fn
        return self

    def __exit__(self, *exc):
        if self.saved:
            util.time_ns = self.saved
        sched.time_shim.time_ns = self.mod
        self.undo()


BASE = [10 ** 18]   # ns


def base(step):
    """A time after everything so far."""
    BASE[0] += step
    return BASE[0]


def run_unit(unit, ctx):
    ctx.sample(unit)
    {'clock': clocks, 'threads': threads, 'numbers': numbers, 'times': times,
     'malformed': malformed, 'uris': uris, 'bad uris': bad_uris}[unit['kind']](unit, ctx)


def clocks(unit, ctx):
    now = [0]
    with Clock(lambda: now[0]):
        for rest in itertools.product(range(len(ANSWERS)), repeat=unit['len'] - 2):
            if ctx.expired():
                return
            seq = unit['prefix'] + list(rest)
            b = base(10 ** 13)
            prev = None
            for i, a in enumerate(seq):
                now[0] = b + ANSWERS[a]
                t = util.next_tid()
                wellformed(ctx, t)
                ctx.check(prev is None or t > prev, "a TID isn't above the one before",
                          answers=[ANSWERS[a] for a in seq[:i + 1]], tid=t, before=prev)
                ctx.check(prev is None or number(t) > number(prev),
                          "a TID isn't at a later time than the one before",
                          answers=[ANSWERS[a] for a in seq[:i + 1]], tid=t, before=prev)
                ctx.check(number(t) >= now[0] // 1000,
                          'a TID is before the current time',
                          answers=[ANSWERS[a] for a in seq[:i + 1]], tid=t)
                high = max(b + ANSWERS[x] for x in seq[:i + 1]) // 1000
                ctx.check(number(t) <= high + i,
                          'a TID is ahead of the clock by more than earlier ones need',
                          answers=[ANSWERS[a] for a in seq[:i + 1]], tid=t)
                ctx.step()
                prev = t
            ctx.execution()
            ctx.state(len(seq))
        ctx.outcome([unit['prefix'], t > '3'])


def threads(unit, ctx):
    n = [0]
    start = [0]

    def now():
        sched.point('clock')
        n[0] += 1
        return start[0] + {'stalls': 0, 'back': -n[0] * 1_000_000,
                           'ahead': n[0] * 1000}[unit['clock']]

    def run(choices):
        start[0] = base(10 ** 10)
        n[0] = 0
        events = []
        ticks = itertools.count()
        s = sched.Sched(choices, trace_files=[util.__file__], opcodes=True,
                        trace_skip=('s32encode', 's32decode', 'time_ns'))

        def task(calls):
            for _ in range(calls):
                a = next(ticks)
                t = util.next_tid()
                events.append((a, next(ticks), t))
        for i, calls in enumerate(unit['calls']):
            s.spawn(str(i), lambda calls=calls: task(calls))
        s.run()
        what = {'unit': unit, 'choices': list(s.taken)}
        for t in s.tasks:
            ctx.check(t.error is None, f'next_tid fails: {t.error!r}', how=what)
        ctx.check(not s.blocked and not s.truncated, 'next_tid never returns', how=what,
                  blocked=s.blocked)
        if not s.blocked:
            got = [e[2] for e in events]
            for t in got:
                wellformed(ctx, t)
            ctx.check(len(set(got)) == sum(unit['calls']), 'two TIDs are the same', how=what,
                      events=events)
            for a, b in itertools.permutations(events, 2):
                ctx.check(not a[1] < b[0] or a[2] < b[2],
                          'a TID is below one that was returned before it was asked for',
                          how=what, events=events)
            ctx.outcome([[e[0] for e in events]])
        s.kill()
        return s

    with Clock(now):
        sched.explore(ctx, run, unit['bound'])


def numbers(unit, ctx):
    p = 2 ** unit['bit']
    last = None
    for n in range(max(p - unit['near'], 0), min(p + unit['near'], 2 ** 53)):
        want = tid(n, 0)
        for clock in range(32):
            t = util.int_to_tid(n, clock_id=clock)
            wellformed(ctx, t)
            ctx.check(t[:11] == want, 'a TID is not the base 32 encoding of its number',
                      number=n, tid=t, want=want)
            ctx.check(util.tid_to_int(t) == n, 'a TID converts to another number than its own',
                      number=n, tid=t, got=util.tid_to_int(t))
            ctx.check(util.tid_to_int(t.encode()) == n,
                      'a bytes TID converts to another number than its own', number=n, tid=t)
            ctx.step()
        t = util.int_to_tid(n, clock_id=7)
        ctx.check(last is None or last < t, "TIDs of one clock id aren't in the order of their "
                  'numbers', number=n, tid=t, before=last)
        last = t
        ctx.check(len({util.int_to_tid(n, clock_id=c) for c in range(32)}) == 32,
                  'two clock ids make the same TID', number=n)
        ctx.check(util.int_to_tid(n)[:11] == want, 'the default clock id changes the number',
                  number=n, tid=util.int_to_tid(n))
        s = util.s32encode(n)
        ctx.check(util.s32decode(s) == n and s == want.lstrip('2'), 'base 32 does not round-trip',
                  number=n, text=s)
        try:
            dt = EPOCH + n * US
        except OverflowError:
            dt = None
        if dt:
            for t in (util.datetime_to_tid(dt, clock_id=3), util.datetime_to_tid(dt)):
                ctx.check(t[:11] == want, 'a time converts to another TID than its own',
                          time=dt.isoformat(), tid=t, want=want)
            got = util.tid_to_datetime(util.int_to_tid(n, clock_id=31))
            ctx.check(got == dt and got.utcoffset() == datetime.timedelta(0),
                      'a TID converts to another time than its own', tid=want,
                      got=got.isoformat(), time=dt.isoformat())
        ctx.state()
        ctx.execution()
    ctx.outcome(last or 'none')


def times(unit, ctx):
    """Times in other time zones and without one."""
    zones = [datetime.timezone(datetime.timedelta(minutes=m))
             for m in (-720, -210, -1, 0, 1, 330, 840)]
    for y, mo, d, h, us in itertools.product(
            (1970, 1999, 2000, 2023, 2024, 2038, 2106, 2255), (1, 2, 3, 6, 7, 11, 12), (2, 15, 28),
            (0, 1, 2, 3, 12, 23), (0, 1, 3, 499_999, 500_000, 678_901, 999_999)):
        dt = datetime.datetime(y, mo, d, h, 30, 59, us, tzinfo=UTC)
        n = (dt - EPOCH) // US
        for z in zones:
            t = util.datetime_to_tid(dt.astimezone(z), clock_id=0)
            ctx.check(util.tid_to_int(t) == n, 'a time in another zone converts to another TID',
                      time=dt.astimezone(z).isoformat(), tid=t)
            ctx.step()
        naive = dt.replace(tzinfo=None)
        got = util.tid_to_datetime(util.datetime_to_tid(naive, clock_id=0))
        ctx.check(got == naive.astimezone(UTC),
                  "a naive time isn't taken as local time", time=naive.isoformat(),
                  got=got.isoformat())
        ctx.state()
        ctx.execution()


def refuses(ctx, fn, arg, what):
    try:
        got = fn(arg)
    except ValueError:
        ctx.outcome('refused')
    except Exception as e:
        ctx.violation(f'{what} fails with {type(e).__name__} instead of ValueError',
                      arg=repr(arg), error=repr(e))
    else:
        ctx.violation(f'{what} is accepted', arg=repr(arg), got=repr(got))
    ctx.execution()
    ctx.step()


def malformed(unit, ctx):
    good = '3jzfcijpj2z2a'
    for fn in util.tid_to_int, util.tid_to_datetime:
        for i in range(11):
            for c in itertools.chain(range(128), (0xe9, 0x3b1, 0x661, 0x1f600)):
                c = chr(c)
                t = good[:i] + c + good[i + 1:]
                if c == '-':
                    continue
                ctx.state()
                if c not in env.TID_ALPHA:
                    refuses(ctx, fn, t, 'a TID with an invalid character')
                else:
                    ctx.check(util.tid_to_int(t) == number(t), 'a TID is read wrong', tid=t)
        for n in list(range(13)) + list(range(14, 27)):
            ctx.state()
            refuses(ctx, fn, (good * 2)[:n], 'a TID of another length')
            refuses(ctx, fn, (good * 2)[:n].encode(), 'a TID of another length')
        for bad in (None, 0, 13, 1.5, [], list(good), tuple(good), {c: 1 for c in 'abcdefghijklm'}):
            refuses(ctx, fn, bad, "a TID that isn't text")


AUTHORITIES = ('did:plc:44ybard66vv44zksje25o7dz', 'did:web:user.com', 'did:web:localhost%3A3000',
               'did:web:a.b-c.example', 'did:key:zQ3shokFTS3brHcDQrn82RUDfCZESWL1ZdCEJwekUDPQiYBme',
               'did:method:val:two', 'did:m:v%25', 'han.dle', 'xn--ls8h.test', 'a.b.c.d.e',
               'UPPER.example.COM', 'did:web:Mixed.Case')
COLLECTIONS = ('app.bsky.feed.post', 'x.y.z', 'com.example.fooBar', 'a-0.b-1.c', 'a.b.c' + 'd' * 50)
RKEY = string.ascii_letters + string.digits + '.-_:~'


def uris(unit, ctx):
    auth = AUTHORITIES[unit['auth']]

    def one(coll, rkey):
        uri = util.at_uri(auth, coll, rkey)
        ctx.check(uri == f'at://{auth}/{coll}/{rkey}', 'an AT URI is built wrong', uri=uri,
                  parts=[auth, coll, rkey])
        got = util.parse_at_uri(uri)
        ctx.check(tuple(got) == (auth, coll, rkey), "an AT URI's parts aren't those that it was "
                  'built from', uri=uri, got=list(got))
        ctx.step()
        ctx.execution()

    keys = [''.join(p) for n in (1, 2) for p in itertools.product(RKEY, repeat=n)]
    keys += ['self', 'example.com', '3jzfcijpj2z2a', 'pre:fix', 'a' * 512, '~1.2-3_', '_', ':', '~',
             'http:a', 'at:b', 'x' * 511 + '~']
    for coll in COLLECTIONS:
        for rkey in keys:
            one(coll, rkey)
            ctx.state()
        got = util.parse_at_uri(f'at://{auth}/{coll}')
        ctx.check(tuple(got) == (auth, coll, ''), 'a collection URI is read wrong',
                  got=list(got))
    ctx.check(tuple(util.parse_at_uri(f'at://{auth}')) == (auth, '', ''),
              'a repo URI is read wrong', got=list(util.parse_at_uri(f'at://{auth}')))
    ctx.outcome(auth)


def bad_uris(unit, ctx):
    for bad in ('', None, 'at:', 'at:/', 'at:/did:plc:x/a.b.c/d', 'at//did:plc:x/a.b.c/d',
                'http://did:plc:x/a.b.c/d', 'https://x.com/', ' at://did:plc:x/a.b.c/d',
                'did:plc:x', 'did:plc:x/a.b.c/d', 'bat://did:plc:x/a.b.c/d', 'han.dle',
                '//did:plc:x/a.b.c/d', '/a.b.c/d', 'xat://a', 'at;//did:plc:x/a.b.c/d'):
        refuses(ctx, util.parse_at_uri, bad, "something that isn't an AT URI")
        ctx.state()
    good = 'at://did:plc:x/a.b.c/d'
    for i in range(5):
        for c in range(32, 127):
            bad = good[:i] + chr(c) + good[i + 1:]
            if bad != good and not (i < 2 and chr(c).lower() == good[i]):
                refuses(ctx, util.parse_at_uri, bad, "something that isn't an AT URI")
                ctx.state()
