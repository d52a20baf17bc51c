"""P16: replaying from a cursor."""
import itertools

from mc import fire, sched
from mc.fire import Fire
from arroba import firehose
import arroba.firehose

ID = 'P16'
LEVEL = 'model_checking'
CHUNK = 1
TECHNIQUE = ('exhaustive enumeration of cursors, windows and histories, and stateless exploration '
             'of all interleavings of subscribers with cursors, the real collector and a writer '
             'under a controlled scheduler up to a bound on preemptions')
RULE = ('every cursor, by every size of the recent-events and preload windows, by every history of '
        'up to four numbers (thorough: five) of which any are lost, by how many of them are '
        'stored at startup, by a second cursor of another subscriber before; every schedule with '
        'at most the stated number of preemptions of one or two subscribers with cursors and a '
        'writer, with points at every lock, condition, log read and delivered event, and in '
        'further runs at every source line of the firehose')
ASSUMPTIONS = ['one thread runs at a time, switching at the scheduling points',
               'numbers that are missing from the log are lost for good, or newer than the window']

SCENARIOS = {
    # before: stored events, of which the collector preloads some
    'window': dict(before=4, window=2, preload=2, cursors=[1], more=2),
    'edge': dict(before=3, window=3, preload=2, cursors=[2], more=2),
    'full': dict(before=3, window=2, preload=2, cursors=[2], more=1),
    'full two': dict(before=3, window=2, preload=2, cursors=[2], more=2),
    'one': dict(before=2, window=1, preload=1, cursors=[1], more=2),
    'merge': dict(before=4, window=9, preload=1, cursors=[1, 2], more=0),
    'merge live': dict(before=4, window=5, preload=1, cursors=[1, 2], more=1),
    'merge three': dict(before=4, window=9, preload=1, cursors=[1, 2, 3], more=0),
    'merge short': dict(before=4, window=3, preload=1, cursors=[1, 2], more=1),
    'both': dict(before=3, window=5, preload=1, cursors=[1, None], more=1),
    'gaps': dict(before=5, window=3, preload=2, cursors=[1], more=1, lost=[2, 4]),
    'nothing preloaded': dict(before=0, window=5, preload=2, cursors=[1], more=2, lost=[1]),
}
# event numbers don't have to be small
BASES = [992, 2 ** 31 - 3, 2 ** 32 - 3, 2 ** 40, 2 ** 53 - 9]
# preemptions, as in P14
BOUNDS = {
    'window': (2, None, 1, 2),
    'edge': (2, None, 1, 2),
    'full': (None, None, 1, 2),
    'full two': (2, None, 1, 2),
    'one': (2, None, 1, 2),
    'merge': (2, None, 0, 1),
    'merge live': (1, 3, 0, 1),
    'merge three': (1, 2, 0, 1),
    'merge short': (1, 3, 0, 1),
    'both': (1, 3, 0, 1),
    'gaps': (2, None, 1, 1),
    'nothing preloaded': (2, None, 1, 1),
}


def units(tier, seed):
    q = tier == 'quick'
    out = []
    n = 4 if q else 5
    for lost in itertools.product((0, 1), repeat=n):
        lost = [i + 1 for i, x in enumerate(lost) if x]
        for first in ([None, 'each'] if len(lost) < (2 if q else 4) else [None]):
            out.append({'n': n, 'lost': lost, 'first': first})
    for base in BASES:
        for lost in [], [1], [2], [3], [1, 2], [2, 3]:
            out.append({'n': 3, 'lost': lost, 'first': None, 'base': base})
    for name, (a, b, c, d) in BOUNDS.items():
        for live in (False, True):
            out.append({'scenario': name, 'bound': a if q else b, 'line': False, 'live': live})
        out.append({'scenario': name, 'bound': c if q else d, 'line': True, 'live': False})
    return out


def run_unit(unit, ctx):
    ctx.sample(unit)
    with fire.Env():
        if 'n' in unit:
            sequential(unit, ctx)
        else:
            concurrent(unit, ctx)


def sequential(unit, ctx):
    n = unit['n']
    base = unit.get('base', 0)
    lost = {base + i for i in unit['lost']}
    # with a base, everything before it that can matter is there
    old = list(range(base - n - 4, base + 1)) if base else []
    src = fire.source(n + 1 + len(old), base=base - len(old))
    for start, window, preload in itertools.product(range(n + 1), range(1, n + 2),
                                                    range(1, n + 1)):
        for first in ([None] if unit['first'] is None else range(0, n + 1)):
            for cursor in [None] + ([0, 1, base - 1] if base else []) + list(
                    range(base, base + n + 3)):
                if ctx.expired():
                    return
                s = sched.Sched((), horizon=1000)
                visible = old + [i for i in range(base + 1, base + start + 1)
                                 if i not in lost]
                f = Fire(s, src, visible=visible, allocated=base + start, rollback=window,
                         preload=preload)
                phase = []

                def idle():
                    return all(not t.ready() for t in s.tasks if t.name != 'driver'
                               and not t.done)

                def driver():
                    sched.point('driver', lambda: firehose.started.is_set() and idle())
                    for i in range(base + start + 1, base + n + 2):
                        if i == base + n + 1:
                            phase.append('first')
                            sched.point('driver', idle)
                            phase.append('sub')
                            sched.point('driver', idle)
                        f.alloc()
                        if i in lost:
                            f.lost(i)
                        else:
                            f.publish(i)
                        sched.point('driver', idle)
                s.spawn('main', f.start)
                s.spawn('driver', driver)
                if first is not None:
                    s.spawn('sub0', f.subscriber('sub0', cursor=first,
                                                 when=lambda: 'first' in phase))
                s.spawn('sub1', f.subscriber('sub1', cursor=cursor, when=lambda: 'sub' in phase))
                s.run()
                stored = old + [i for i in range(base + 1, base + n + 2) if i not in lost]
                ctx.check(not s.truncated, 'livelock', blocked=s.blocked)
                what = {'start': start, 'window': window, 'preload': preload, 'first': first,
                        'cursor': cursor, 'lost': unit['lost']}
                for t in s.tasks:
                    ctx.check(t.error is None, f'{t.name} fails: {type(t.error).__name__}',
                              what_=what)
                if first is not None:
                    check_sub(ctx, f, 'sub0', base + n, window, stored, what)
                check_sub(ctx, f, 'sub1', base + n, window, stored, what)
                s.kill()
                ctx.execution()
                ctx.step(s.steps)
                ctx.state()


def check_sub(ctx, f, name, last, window, stored, what):
    r = f.subs[name]
    cursor, frames = r['cursor'], r['frames']
    what = {**what, 'sub': name, 'got': r['got'], 'frames': frames[:2]}
    if not ctx.check(r['error'] is None, f'a subscription fails: {type(r["error"]).__name__}',
                     what_=what, error=repr(r['error'])):
        return
    if cursor is not None and cursor > last:
        ctx.check(r['ended'] and len(frames) == 1 and frames[0][0] == {'op': -1}
                  and frames[0][1].get('error') == 'FutureCursor',
                  'a cursor in the future is not refused', what_=what)
        return
    ctx.check(not r['ended'], 'a subscription ends', what_=what)
    start = last + 1 if cursor is None else cursor
    if cursor is not None and cursor < last - window:
        ctx.check(frames and frames[0][0] == {'op': 1, 't': '#info'}
                  and frames[0][1].get('name') == 'OutdatedCursor',
                  'an old cursor gets no notice', what_=what)
        frames = frames[1:]
        start = last - window
    ctx.check(all(h.get('op') == 1 and h.get('t') not in (None, '#info') for h, p in frames),
              'an unexpected frame', what_=what)
    want = [i for i in stored if i >= start]
    got = r['got']
    ctx.outcome([got, cursor])
    if got == want:
        return
    if cursor is None and want and got == stored[-len(got):] and len(got) > len(want):
        # numbers that were missing at startup hold back events
        return
    ctx.check(all(a < b for a, b in zip(got, got[1:])), 'events are repeated or out of order',
              what_=what, want=want)
    ctx.check(all(g >= start for g in got), 'events before the cursor', what_=what, want=want)
    ctx.check(False, 'events are missing', what_=what, want=want)


def concurrent(unit, ctx):
    sc = SCENARIOS[unit['scenario']]
    before, more = sc['before'], sc['more']
    lost = set(sc.get('lost', ()))
    total = max([before, *lost]) + more
    src = fire.source(total)
    files = [arroba.firehose.__file__] if unit['line'] else ()
    cache = {}
    known = max([before, *lost])
    stored = [i for i in range(1, total + 1) if i not in lost]

    def run(choices):
        s = sched.Sched(choices, trace_files=files, horizon=1000, cache=cache,
                        bound=unit['bound'], shared=lambda: f.shared())
        f = Fire(s, src, live=unit['live'], rollback=sc['window'], preload=sc['preload'],
                 visible=[i for i in stored if i <= known], allocated=known)

        def writer():
            sched.point('writer starts', firehose.started.is_set, mover=True)
            for _ in range(more):
                f.publish(f.alloc())

        def start():
            f.start()
            for i in lost:
                firehose.mark_seq_lost(i)
        s.spawn('main', start)
        for i, c in enumerate(sc['cursors']):
            s.spawn(f'sub{i}', f.subscriber(f'sub{i}', cursor=c, slow=True,
                                            when=firehose.started.is_set))
        if more:
            s.spawn('writer', writer)
        s.run()
        ctx.check(not s.truncated, 'livelock', unit=unit, choices=list(s.taken),
                  blocked=s.blocked)
        if not s.pruned and not s.truncated:
            check(s, f)
        s.kill()
        return s

    def check(s, f):
        what = {'unit': unit, 'choices': list(s.taken), 'blocked': s.blocked}
        ok = {'collector': 'wait', **{k: 'queue get' for k in f.subs}}
        for t in s.tasks:
            ctx.check(t.error is None, f'{t.name} fails: {type(t.error).__name__}', what_=what,
                      error=repr(t.error))
        for name, label in s.blocked.items():
            ctx.check(label == ok.get(name), f'deadlock: {name.rstrip("0123456789")} waits',
                      what_=what)
        ctx.check([i for i in fire.rolled()] == stored[-len(fire.rolled()):],
                  'the recent-events window is not the newest events', what_=what,
                  window=fire.rolled())
        connected = 0
        for name, r in f.subs.items():
            got = r['got']
            ctx.outcome([unit['scenario'], name, got, repr(r['error'])])
            if r['cursor'] is None:
                want = [v for v in stored if v not in (r['registered'] or ())]
                ctx.check(set(want) <= set(got), 'a live subscriber misses an event',
                          what_=what, got=got, want=want)
                connected += 1
                continue
            connected += 1
            lasts = {r['last'], known} | set(range(known, total + 1))
            wants = {tuple(v for v in stored if v >= max(r['cursor'], last - sc['window']))
                     for last in lasts}
            if not ctx.check(r['error'] is None and not r['ended'],
                             f'a subscription fails: {type(r["error"]).__name__}',
                             what_=what, error=repr(r['error'])):
                continue
            ctx.check(all(a < b for a, b in zip(got, got[1:])),
                      'events are repeated or out of order', what_=what, got=got)
            ctx.check(tuple(got) in wants, 'events are missing', what_=what, got=got,
                      wants=sorted(wants))
        ctx.check(len(firehose.subscribers) == connected,
                  'wrong number of registered subscribers', what_=what)

    sched.explore(ctx, run, unit['bound'])


def finalize(total, outcomes, tier):
    if len(outcomes) < 30 or total['schedules'] < 1000:
        return 'vacuous exploration'
