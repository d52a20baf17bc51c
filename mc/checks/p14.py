"""P14: live subscribers."""
from mc import fire, sched
from mc.fire import Fire
from arroba import firehose
import arroba.firehose

ID = 'P14'
LEVEL = 'model_checking'
CHUNK = 1
TECHNIQUE = ('stateless exploration of all interleavings of writers, the real collector and real '
             'subscribers under a controlled scheduler with virtual time, up to a bound on '
     'preemptions')
RULE = ('every schedule with at most the stated number of preemptions (None: any number), with '
        'scheduling points at every lock, condition, log read, allocation, commit and '
        'notification, and in further runs at every source line of the firehose; one or two '
        'writers that commit in and out of order, one to three subscribers that connect at any '
        'time, stay, or leave after a number of events. Executions that reach a state that was '
        'explored before are cut off')
ASSUMPTIONS = ['one thread runs at a time, switching at the scheduling points; operations on the '
               'unbounded queues, events and sleeping are done as soon as they are possible, as '
               'they commute with all others',
               'states are equal if the frames, locals and step counts of all threads and all '
               'shared objects are',
               'a commit becomes visible atomically, between its number being allocated and its '
               'callback, and takes less than the delay for skipped numbers; P15 explores longer '
               'ones']

# writers: lists of actions; a<n> allocates and remembers as n, p<n> stores n, l<n> reports lost
SCENARIOS = {
    'one writer': dict(writers=[['a1', 'p1', 'a2', 'p2']], subs=[{}]),
    'two subs': dict(writers=[['a1', 'p1', 'a2', 'p2']], subs=[{}, {}]),
    'two writers': dict(writers=[['a1', 'p1'], ['a2', 'p2']], subs=[{}]),
    'two writers two subs': dict(writers=[['a1', 'p1'], ['a2', 'p2']], subs=[{}, {}]),
    'out of order': dict(writers=[['a1', 'a2', 'p2', 'p1', 'a3', 'p3']], subs=[{}]),
    'leaves': dict(writers=[['a1', 'p1', 'a2', 'p2', 'a3', 'p3']], subs=[{'limit': 1}, {}]),
    'leaves first': dict(writers=[['a1', 'p1', 'a2', 'p2']], subs=[{}, {'limit': 1}, {}]),
    'lost': dict(writers=[['a1', 'l1', 'a2', 'p2'], ['a3', 'p3']], subs=[{}]),
    'slow': dict(writers=[['a1', 'p1', 'a2', 'p2', 'a3', 'p3']], subs=[{'pause': (1, 500)}, {}]),
    'one leaves': dict(writers=[['a1', 'p1', 'a2', 'p2']], subs=[{'limit': 1}]),
    'two short': dict(writers=[['a1', 'p1']], subs=[{}, {}]),
    'preloaded': dict(writers=[['a1', 'p1']], subs=[{}, {}], before=3),
    'fresh': dict(writers=[['a1', 'p1', 'a2', 'p2']], subs=[{}], before=0),
    'fresh during start': dict(writers=[['a1', 'p1', 'a2', 'p2']], subs=[{}], before=0,
                               started=False),
    'during start': dict(writers=[['a1', 'p1', 'a2', 'p2']], subs=[{}], started=False),
    'out of order during start': dict(writers=[['a1', 'a2', 'p2', 'p1', 'a3', 'p3']], subs=[{}],
                                      started=False),
    'commits': dict(writers=[['a1', 'p1', 'a2', 'p2']], subs=[{}], before=2, commits=(1, 2, 3, 4)),
}


# preemptions: (quick, thorough) with points at synchronization and storage operations, and
# (quick, thorough) with points at all lines too. None is unlimited: all interleavings
BOUNDS = {
    'one writer': (None, None, 1, 2),
    'two subs': (1, None, 0, 1),
    'two short': (2, None, 0, 1),
    'two writers': (2, None, 0, 1),
    'two writers two subs': (1, 3, None, 1),
    'out of order': (None, None, 1, 2),
    'leaves': (1, 2, 0, 1),
    'one leaves': (None, None, 1, 2),
    'leaves first': (0, 2, None, 1),
    'lost': (2, None, 0, 1),
    'slow': (1, 3, None, 1),
    'preloaded': (2, None, 0, 1),
    'fresh': (None, None, 1, 2),
    'fresh during start': (None, None, 1, 2),
    'during start': (None, None, 1, 2),
    'out of order during start': (None, None, 1, 1),
    'commits': (2, None, 1, 1),
}


def units(tier, seed):
    q = tier == 'quick'
    out = []
    for name, (a, b, c, d) in BOUNDS.items():
        out.append({'scenario': name, 'bound': a if q else b, 'line': False, 'live': False})
        line = c if q else d
        if line is not None:
            out.append({'scenario': name, 'bound': line, 'line': True, 'live': False})
    for name in ('two writers', 'out of order'):
        out.append({'scenario': name, 'bound': 2 if q else None, 'line': False, 'live': True})
    return out


def run_unit(unit, ctx):
    ctx.sample(unit)
    sc = SCENARIOS[unit['scenario']]
    before = sc.get('before', 1)
    n = before + sum(a[0] == 'a' for w in sc['writers'] for a in w)
    src = fire.source(n, sc.get('commits', ()))
    files = [arroba.firehose.__file__] if unit['line'] else ()

    cache = {}

    def run(choices):
        s = sched.Sched(choices, trace_files=files, horizon=1000, cache=cache,
                        bound=unit['bound'], shared=lambda: [f.shared(), nums, lost])
        f = Fire(s, src, live=unit['live'], visible=range(1, before + 1), allocated=before)
        nums = {}

        def writer(actions):
            def go():
                if late:
                    sched.point('writer starts', lambda: firehose.started.is_set(),
                                mover=True)
                for a in actions:
                    if a[0] == 'a':
                        nums[a] = f.alloc()
                    elif a[0] == 'p':
                        f.publish(nums['a' + a[1:]])
                    else:
                        f.lost(nums['a' + a[1:]])
                        lost.add(nums['a' + a[1:]])
            return go
        lost = set()
        late = sc.get('started', True)
        s.spawn('main', f.start)
        for i, sub in enumerate(sc['subs']):
            s.spawn(f'sub{i}', f.subscriber(f'sub{i}', limit=sub.get('limit'),
                                            pause=sub.get('pause')))
        for i, w in enumerate(sc['writers']):
            s.spawn(f'writer{i}', writer(w))
        s.run()
        if not s.pruned:
            check(ctx, s, f, sc, lost, before, unit)
        s.kill()
        return s

    with fire.Env():
        sched.explore(ctx, run, unit['bound'])


def check(ctx, s, f, sc, lost, before, unit):
    what = {'unit': unit, 'choices': list(s.taken), 'blocked': s.blocked}
    if not ctx.check(not s.truncated, 'livelock', what_=what):
        return
    for t in s.tasks:
        if not ctx.check(t.error is None, f'{t.name.rstrip("0123456789")} fails: '
                         f'{type(t.error).__name__}', what_=what, error=repr(t.error)):
            return
    emitted = fire.rolled()
    visible = sorted(f.log.visible)
    # numbers that were behind the newest stored event, but not stored yet, at startup
    pre = f.log.first_read or {0}
    skipped = [v for v in visible if v < max(pre) and v not in pre and v not in emitted]
    if skipped:
        ctx.violation('startup-gap: an event that was committed after a newer one that the '
                      'collector preloaded is never emitted', what_=what)
        visible = [v for v in visible if v not in skipped]
    ctx.outcome([unit['scenario'], emitted, {k: v['got'] for k, v in f.subs.items()}])
    ctx.check(emitted == visible, 'the emitted events are not the stored events in order',
              what_=what, emitted=emitted, stored=visible)
    # nobody is stuck
    ok = {'collector': 'wait', **{k: 'queue get' for k in f.subs}}
    for name, label in s.blocked.items():
        ctx.check(label == ok.get(name), f'deadlock: {name.rstrip("0123456789")} waits',
                  what_=what)
    connected = 0
    for name, r in f.subs.items():
        got = r['got']
        limit = sc['subs'][int(name[3:])].get('limit')
        ctx.check(r['error'] is None and not r['ended'], 'a subscription ends', what_=what,
                  error=repr(r['error']))
        ctx.check(all(a < b for a, b in zip(got, got[1:])), 'a subscriber sees events out of '
                  'order or twice', what_=what, got=got)
        if got:
            i = emitted.index(got[0])
            ctx.check(emitted[i:i + len(got)] == got, 'a subscriber misses an event', what_=what,
                      got=got, emitted=emitted)
        if limit and len(got) >= limit:
            ctx.check(r['closed'], 'a subscriber does not leave', what_=what)
            continue
        connected += 1
        if ctx.check(r['registered'] is not None, 'a subscriber never gets registered',
                     what_=what):
            want = [v for v in visible if v not in r['registered']]
            ctx.check(set(want) <= set(got), 'a subscriber misses an event that was committed '
                      'after it connected', what_=what, got=got, want=want)
            ctx.check(all(v > 0 for v in got) and (not got or got[-1] == emitted[-1]),
                      'a subscriber misses the last events', what_=what, got=got,
                      emitted=emitted)
    ctx.check(len(firehose.subscribers) == connected, 'wrong number of registered subscribers',
              what_=what, n=len(firehose.subscribers), connected=connected)


def finalize(total, outcomes, tier):
    if len(outcomes) < 20 or total['schedules'] < 1000:
        return 'vacuous exploration'
