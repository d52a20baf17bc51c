"""P15: numbers that appear late, or never."""
import itertools

from mc import fire, sched
from mc.fire import Fire
from arroba import firehose

ID = 'P15'
LEVEL = 'model_checking'
CHUNK = 1
TECHNIQUE = ('exhaustive enumeration of environment histories against the real collector under a '
             'controlled scheduler with virtual time, checked against a specification of which '
             'numbers each collection may and must emit')
RULE = ('every order in which up to three (thorough: four) numbers are stored with or without a '
        'notification, are reported lost, or never appear, with every choice of clock advances '
        'shorter and longer than the delay between them, at several skipped-number windows; '
        'the same with read errors at each number and failing sequence lookups, and with '
        'collector start at each point')
ASSUMPTIONS = ['environment steps happen while the collector is idle; P14 interleaves them',
               'a lost or late number only counts as such from when the collector first sees a '
               'later one']
DELAY = 120
TICKS = (-1, 0, 50, 121)   # -1: don't wait for the collector


def units(tier, seed):
    q = tier == 'quick'
    out = []
    # P: stored and notified, p: stored, L: lost, N: never, X: lost but stored later
    for fates in itertools.product('PpLN', repeat=3):
        out.append({'fates': ''.join(fates), 'ticks': TICKS, 'window': 300, 'ahead': 0})
    for fates in itertools.product('PLN', repeat=4):
        if set(fates) & set('LN') and 'P' in fates:
            out.append({'fates': ''.join(fates), 'ticks': (-1, 50, 121) if q else TICKS,
                        'window': 300, 'ahead': 0})
    for fates in itertools.product('PLN', repeat=3):
        if 'P' in fates:
            for window, ahead in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 2), (300, 300),
                                  (300, 301)):
                out.append({'fates': ''.join(fates), 'ticks': (0, 121), 'window': window,
                            'ahead': ahead})
            out.append({'fates': ''.join(fates), 'ticks': (-1, 0, 50, 121), 'window': 300,
                        'ahead': 0, 'fail': True})
    for fates in itertools.product('PLN', repeat=3):
        if 'P' in fates:
            # batch delay: the collector sleeps between collections
            out.append({'fates': ''.join(fates), 'ticks': (0, 3, 121), 'window': 300,
                        'ahead': 0, 'batch': 5})
    if not q:
        for fates in itertools.product('PLN', repeat=5):
            if set(fates) & set('LN') and 'P' in fates and fates[-1] == 'P':
                out.append({'fates': ''.join(fates), 'ticks': (0, 121), 'window': 300,
                            'ahead': 0})
    return out


def run_unit(unit, ctx):
    ctx.sample(unit)
    fates = unit['fates']
    acts = [(f, i + 2) for i, f in enumerate(fates) if f != 'N']
    k = len(fates)
    src = fire.source(k + 1)
    faults = [None]
    if unit.get('fail'):
        stored = [n for f, n in acts if f == 'P']
        faults = ([('read', n, t) for n in stored for t in (1, 2)] + [('first', 1), ('first', 2),
                  ('last', 1), ('last', 2)])
    with fire.Env():
        for order in itertools.permutations(acts):
            for ticks in itertools.product(unit['ticks'], repeat=max(len(acts) - 1, 0)):
                for fault in faults:
                    if ctx.expired():
                        return
                    one(ctx, unit, src, k, order, (0,) + ticks, fault)


def one(ctx, unit, src, k, order, ticks, fault):
    s = sched.Sched((), horizon=1e7)
    f = Fire(s, src, visible=[1], allocated=1, delay=DELAY, window=unit['window'],
             batch=unit.get('batch', 0))
    log = f.log
    trace = []

    def on_read():
        if firehose.started.is_set() and sched.current().name == 'collector':
            trace.append((s.now, set(log.visible), set(lost), log.allocated,
                          len(fire.rolled())))
    log.on_read = on_read
    failed = set()
    log.on_error = lambda: failed.add(len(trace) - 1)
    lost = set()

    def idle():
        c = f.collector_task()
        return not c.ready() and (c.label == 'wait' or unit.get('batch') and c.label == 'sleep')

    def env():
        sched.point('env starts', lambda: firehose.started.is_set() and idle())
        log.allocated = k + 1 + unit['ahead']
        if fault:
            if fault[0] == 'read':
                log.fail_at = {fault[1]: fault[2]}
            elif fault[0] == 'first':
                log.fail_reads = fault[1]
            else:
                log.bad_last = fault[1]
        for (a, n), dt in zip(order, ticks):
            if dt > 0:
                sched.sleep(dt)
            if dt >= 0:
                sched.point('env', idle)
            if a == 'L':
                lost.add(n)
                f.lost(n)
            else:
                f.publish(n, notify=a == 'P')
        # everything's settled after this
        sched.sleep(DELAY * (k + 4))
        done.append(True)
    done = []
    s.spawn('main', f.start)
    s.spawn('sub', f.subscriber('sub'))
    s.spawn('env', env)
    s.horizon = DELAY * 30
    s.stop = lambda: bool(done)
    s.run()
    try:
        check(ctx, unit, s, f, order, ticks, fault, trace, failed, done)
    finally:
        s.kill()
    ctx.execution()
    ctx.step(s.steps)
    ctx.state(len(trace))


def check(ctx, unit, s, f, order, ticks, fault, trace, failed, done):
    what = {'order': order, 'ticks': ticks, 'fault': fault,
            'trace': [(round(t - s.start, 2), sorted(v), sorted(l), a, n)
                      for t, v, l, a, n in trace]}
    for t in s.tasks:
        if not ctx.check(t.error is None, f'{t.name} fails: {type(t.error).__name__}',
                         what_=what, error=repr(t.error)):
            return
    if not ctx.check(done, 'the collector does not get idle', what_=what, blocked=s.blocked):
        return
    out = fire.rolled()
    ctx.outcome([out, unit['fates']])
    ctx.check(all(a < b for a, b in zip(out, out[1:])),
              'events are emitted out of order or twice', what_=what, out=out)
    ctx.check(f.subs['sub']['got'] == out[1:], 'a subscriber gets other events than those '
              'emitted', what_=what, out=out, got=f.subs['sub']['got'])
    stored = {n for a, n in order if a != 'L'} | {1}
    ctx.check(set(out) <= stored, 'an event is emitted that is not stored', what_=what, out=out)

    # each collection
    missing = {}    # number => first collection that saw a later one without it
    blocking = {}   # number => first collection that it was the first one to block
    trace = trace + [(None, None, None, None, len(out))]
    for i, ((t, visible, gone, allocated, start), (*_, end)) in enumerate(zip(trace, trace[1:])):
        emitted = out[start:end]
        last = out[start - 1]
        todo = sorted(v for v in visible if v > last)
        if todo:
            for g in range(last + 1, todo[-1]):
                if g not in visible and g not in gone:
                    missing.setdefault(g, t)
        blocked = False
        want = []
        for v in todo:
            gap = [g for g in range(last + 1, v) if g not in gone]
            far = allocated - v > unit['window']
            if gap and not far:
                for g in gap:
                    if i not in failed:
                        blocking.setdefault(g, t)
                if any(t - missing[g] < DELAY - 1 for g in gap):
                    if not ctx.check(v not in emitted, 'a later event is not held back',
                                     what_=what, v=v, gap=gap, out=out):
                        return
                if any(t - blocking.get(g, t) <= DELAY + 1 for g in gap):
                    break
            want.append(v)
            last = v
        if emitted[:len(want)] != want:
            if i in failed and emitted == want[:len(emitted)] or fault and fault[0] == 'last':
                continue
            ctx.violation('an event is held back without reason', what_=what,
                          at=round(t - s.start, 2), want=want, emitted=emitted)
            return
    # events can only be given up if they appeared after the delay
    for n in sorted(stored - set(out)):
        later = [i for i, v in enumerate(out) if v > n]
        if not ctx.check(later, 'a stored event is never emitted', what_=what, n=n, out=out):
            return
    if fault is None:
        gaps = [b - a for (a, *_), (b, *_) in zip(trace, trace[1:-1])]
        ctx.check(all(g <= DELAY + unit.get('batch', 0) + 1 for g in gaps), 'the collector does '
                  'not collect for longer than the delay', what_=what)


def finalize(total, outcomes, tier):
    if len(outcomes) < 100:
        return 'vacuous exploration'
