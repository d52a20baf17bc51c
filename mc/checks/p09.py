"""P09: concurrent commits to one Datastore repo."""
from mc import dsstate, env, fakeds, ref, sched
from mc.hist import DIDS, World, val
from mc.checks import p08
from arroba.storage import CommitData
from arroba.util import InactiveRepo

ID = 'P09'
LEVEL = 'model_checking'
CHUNK = 1
TECHNIQUE = ('stateless exploration of all interleavings, at Datastore request granularity, of '
             'several simulated processes that run the real storage code, up to a bound on '
             'preemptions')
RULE = ('every schedule with at most the stated number of preemptions of two or three processes '
        'that commit single writes and batches to the same and to different paths, change the '
        "account's status, and write events, with long-lived and freshly loaded repo objects, with "
        'and without a surrounding ndb context; then the stored commit chain, contents and log '
        'are compared with sequential executions of the acknowledged operations')
ASSUMPTIONS = ['Datastore transactions are atomic and serializable, as in the in-process model',
               'reading a block that is already stored commutes with all other requests']

D = 0
DID = DIDS[D]
KEY = env.KEYS[D]
PATTERN = [1, 0, 2, 0, 1, 0]
fakeds.install()

# base: contents {key: value}; status; procs: lists of operations
SCENARIOS = {
    'other paths': dict(procs=[[['commit', [['create', 3, 3]]]], [['commit', [['create', 4, 4]]]]],
                        bounds=(2, None)),
    'same path': dict(procs=[[['commit', [['create', 3, 3]]]], [['commit', [['create', 3, 4]]]]],
                      bounds=(2, None)),
    'same record': dict(procs=[[['commit', [['create', 3, 3]]]], [['commit', [['create', 4, 3]]]]],
                        bounds=(1, 3)),
    'updates': dict(procs=[[['commit', [['update', 0, 5]]]], [['commit', [['update', 0, 6]]]]],
                    bounds=(2, None)),
    'update delete': dict(procs=[[['commit', [['update', 0, 5]]]],
                                 [['commit', [['delete', 0, None]]]]], bounds=(2, None)),
    'deletes': dict(procs=[[['commit', [['delete', 0, None]]]],
                           [['commit', [['delete', 0, None]]]]], bounds=(2, 4)),
    'delete create': dict(procs=[[['commit', [['delete', 0, None]]]],
                                 [['commit', [['create', 0, 5]]]]], bounds=(2, 4)),
    'batches': dict(procs=[[['commit', [['create', 3, 3], ['delete', 1, None]]]],
                           [['commit', [['create', 4, 4], ['update', 1, 5]]]]], bounds=(1, 3)),
    'empty': dict(procs=[[['commit', []]], [['commit', [['create', 4, 4]]]]], bounds=(1, 3)),
    'two each': dict(procs=[[['commit', [['create', 3, 3]]], ['commit', [['delete', 0, None]]]],
                            [['commit', [['create', 4, 4]]], ['commit', [['update', 1, 5]]]]],
                     bounds=(1, 3)),
    'three': dict(procs=[[['commit', [['create', 3, 3]]]], [['commit', [['create', 4, 4]]]],
                         [['commit', [['update', 0, 5]]]]], bounds=(1, 2)),
    'deactivate': dict(procs=[[['commit', [['create', 3, 3]]]], [['deactivate']]],
                       bounds=(2, 4)),
    'tombstone': dict(procs=[[['commit', [['create', 3, 3]]]], [['tombstone']]],
                      bounds=(2, 4)),
    'deactivate two': dict(procs=[[['commit', [['create', 3, 3]]], ['commit', [['create', 4, 4]]]],
                                  [['deactivate']]], bounds=(1, 3)),
    'commit after': dict(procs=[[['commit', [['create', 3, 3]]]],
                                [['deactivate'], ['commit', [['create', 4, 4]]]]], bounds=(1, 3)),
    'activate': dict(status='deactivated', procs=[[['commit', [['create', 3, 3]]]], [['activate']]],
                     bounds=(2, 4)),
    'tombstone activate': dict(status='deactivated', procs=[[['tombstone']], [['activate']]],
                               bounds=(2, 4)),
    'flip': dict(procs=[[['commit', [['create', 3, 3]]]], [['deactivate'], ['activate']]],
                 bounds=(1, 3)),
    'event': dict(procs=[[['commit', [['create', 3, 3]]]], [['event', 'identity']]],
                  bounds=(2, 4)),
    'other repo': dict(procs=[[['commit', [['create', 3, 3]]]], [['other', [['create', 3, 3]]]]],
                       bounds=(2, 4)),
    'four': dict(procs=[[['commit', [['create', 3, 3]]]], [['commit', [['create', 4, 4]]]],
                        [['commit', [['update', 0, 5]]]], [['commit', [['delete', 1, None]]]]],
                 bounds=(0, 2)),
}
MODES = ('held', 'load', 'ctx')


def units(tier, seed):
    q = tier == 'quick'
    out = []
    for name, sc in SCENARIOS.items():
        for mode in MODES:
            b = sc['bounds'][not q]
            if mode != 'held':
                b = min(2 if b is None else b, 1) if q else (3 if b is None else max(b - 1, 1))
            out.append({'scenario': name, 'mode': mode, 'bound': b})
    out.sort(key=lambda u: -(99 if u['bound'] is None else u['bound']))
    return out


class Proc:
    """A simulated process."""
    def __init__(self, db, monitor):
        self.sys = env.DS(db)
        self.monitor = monitor
        self.calls = []

    def hook(self, stub, method, req):
        self.monitor()
        if method == 'lookup':
            kts = [fakeds.ktuple(k) for k in req.keys]
            if all(k[-1][0] == 'AtpBlock' and k in stub.db.entities for k in kts):
                # stored blocks never change, so this commutes with all other requests
                return
        sched.point(f'db {method}')
        self.monitor()

    def callback(self, data=None, lost_seq=None):
        self.calls.append(data if data is not None else lost_seq)


def run_unit(unit, ctx):
    ctx.sample(unit)
    sc = SCENARIOS[unit['scenario']]
    keys = ref.keys_for(PATTERN, ctx.seed)
    w = World(keys, 'datastore')
    setup = [['create', 0], ['commit', 0, [['create', 0, 0], ['create', 1, 1], ['create', 2, 2]],
                             'held']]
    if any(op[0] == 'other' for p in sc['procs'] for op in p):
        setup += [['create', 1], ['commit', 1, [['create', 0, 0]], 'held']]
    if sc.get('status'):
        setup.append(['deactivate', 0, 'held'])
    for op in setup:
        out = w.step(op)
        assert out['ok'], out['error']
    base = w.sys.db
    before = dsstate.read_repo(base, DID, KEY)
    log0 = {e['seq'] for e in w.log}
    mode = unit['mode']

    def run(choices):
        db = base.snapshot()
        states = []      # distinct (status, head) that were stored, in order
        clock = [0]

        def monitor():
            e = db.entities[(('AtpRepo', DID),)][0].properties
            now = (e['status'].string_value or None, e['head'].string_value)
            if not states or states[-1] != now:
                states.append(now)

        monitor()
        s = sched.Sched(choices)
        done = []

        def task(p, ops, held):
            def go():
                if mode == 'ctx':
                    with p.sys.client.context():
                        body()
                else:
                    body()

            def body():
                for op in ops:
                    r = {'op': op, 'proc': p, 'start': clock[0], 'from': len(states)}
                    clock[0] += 1
                    ncalls = len(p.calls)
                    try:
                        r['result'] = perform(p, w, op, held.get(DIDS[1] if op[0] == 'other' else DID))
                        r['error'] = None
                    except sched.Kill:
                        raise
                    except Exception as e:
                        r['error'] = e
                    monitor()
                    r['calls'] = p.calls[ncalls:]
                    r['end'], r['to'] = clock[0], len(states)
                    clock[0] += 1
                    done.append(r)
            return go

        for i, ops in enumerate(sc['procs']):
            p = Proc(db, monitor)
            held = {}
            if mode == 'held':
                held = {d: p.sys.storage.load_repo(d) for d in DIDS[:2]}
            p.sys.client.stub.hook = p.hook
            s.spawn(f'proc{i}', task(p, ops, held))
        s.run()
        what = {**unit, 'setup': setup, 'procs': sc['procs'], 'choices': list(s.taken)}
        ctx.check(not s.truncated and not s.blocked, 'an operation never ends', what_=what)
        for t in s.tasks:
            if t.error:
                raise t.error
        s.kill()
        check(ctx, db, before, states, done, w, log0, what)
        return s

    sched.explore(ctx, run, unit['bound'])


def perform(p, w, op, held):
    s = p.sys.storage
    did = DIDS[1] if op[0] == 'other' else DID
    r = held or s.load_repo(did)
    r.callback = p.callback
    if op[0] in ('commit', 'other'):
        return s.commit(r, [w.write(*x) for x in op[1]])
    if op[0] == 'event':
        return s.write_event(r, op[1], handle='new.handle')
    return getattr(s, op[0] + '_repo')(r)


def apply(keys, items, writes):
    """New contents, or None if refused."""
    items = dict(items)
    for act, k, v in writes:
        path = keys[k]
        if (act == 'create') == (path in items):
            return None
        if act == 'delete':
            del items[path]
        else:
            items[path] = ref.cid(val(v))
    return items


def check(ctx, db, before, states, done, w, log0, what):
    hist = [[r['op'], repr(r['error']), r['start'], r['end']] for r in done]
    what = {**what, 'history': hist}
    try:
        now = dsstate.read_repo(db, DID, KEY)
    except (dsstate.Bad, KeyError, ValueError, AssertionError) as e:
        ctx.violation(f'the stored repo is broken: {e}', what_=what)
        return
    n0 = len(before.chain)
    ctx.outcome([what['scenario'], hist, sorted(now.items), now.status])
    ctx.check(now.chain[:n0] == before.chain, 'earlier commits are gone', what_=what)
    commits = [r for r in done if r['op'][0] == 'commit']
    acked = {}
    for r in commits:
        if r['error'] is None:
            ctx.check(isinstance(r['result'], CommitData), 'wrong result of a commit', what_=what)
            acked[bytes(r['result'].commit.cid)] = r
    new = now.chain[n0:]
    ctx.check(len(set(new)) == len(new) and set(new) <= set(acked),
              'a commit in the chain was not acknowledged', what_=what)
    ctx.check(set(acked) <= set(new), 'an acknowledged commit is not in the chain', what_=what)
    # each one is its own operation applied to the one before
    for i, c in enumerate(new):
        want = apply(w.keys, now.trees[n0 + i - 1], acked[c]['op'][1])
        ctx.check(now.trees[n0 + i] == want, "a commit's contents are not its writes applied to "
                  'the previous contents', what_=what)
    # real time order
    for i, c in enumerate(new):
        for d in new[:i]:
            ctx.check(not acked[c]['end'] < acked[d]['start'],
                      'commits are not in the order they happened', what_=what)
    # refusals are right at some moment
    for r in commits:
        if r['error'] is None:
            continue
        during = states[max(r['from'] - 1, 0):r['to']]
        if isinstance(r['error'], InactiveRepo):
            held = states[:r['to']] if what['mode'] == 'held' else during
            ctx.check(any(s for s, _ in held), 'a commit to an active account is refused as inactive',
                      what_=what)
        elif isinstance(r['error'], ValueError):
            trees = [now.trees[now.chain.index(ref.unb32(h))] for _, h in during]
            ctx.check(any(apply(w.keys, t, r['op'][1]) is None for t in trees),
                      'a valid commit is refused', what_=what, error=repr(r['error']))
        else:
            ctx.violation(f'a commit fails: {type(r["error"]).__name__}', what_=what,
                          error=repr(r['error']))
    # what was stored over time
    for (s1, h1), (s2, h2) in zip(states, states[1:]):
        ctx.check(h1 == h2 or not s1 and not s2, 'a commit changes an inactive account',
                  what_=what, states=states)
        ctx.check(s1 == s2 or h1 == h2, 'a commit changes the status', what_=what, states=states)
        ctx.check(s1 != 'tombstoned' or s2 == 'tombstoned', 'a tombstoned account comes back',
                  what_=what, states=states)
    heads = [ref.unb32(h) for _, h in states]
    heads = [h for i, h in enumerate(heads) if not i or heads[i - 1] != h]
    ctx.check(heads == now.chain[n0 - 1:], 'heads are not stored in the order of the chain',
              what_=what)
    for r in done:
        if r['op'][0] in ('deactivate', 'tombstone', 'activate'):
            ctx.check(r['error'] is None, f"{r['op'][0]} fails", what_=what, error=repr(r['error']))
    ops = [r['op'][0] for r in done]
    want = {'deactivate': 'deactivated', 'tombstone': 'tombstoned', 'activate': None}
    flips = [o for o in ops if o in want]
    if 'tombstone' in flips:
        ctx.check(now.status == 'tombstoned', 'wrong status', what_=what, status=now.status)
    elif flips:
        ctx.check(now.status == want[flips[-1]], 'wrong status', what_=what, status=now.status)
    # numbers
    seqs = [q for q in now.seqs if q]
    ctx.check(len(set(seqs)) == len(seqs), 'two commits have the same sequence number', what_=what)
    for a, b in zip(range(len(now.revs)), range(1, len(now.revs))):
        if now.revs[a] >= now.revs[b]:
            ra, rb = acked.get(now.chain[a]), acked.get(now.chain[b])
            ctx.violation('revs do not increase',
                          {'overlap': bool(ra and rb and rb['start'] < ra['end'])},
                          what_=what, revs=now.revs)
    for r in commits:
        if r['error'] is None:
            ctx.check(len(r['calls']) == 1 and r['calls'][0] is r['result'],
                      'an acknowledged commit is not announced once', what_=what)
            ctx.check(now.seqs[now.chain.index(bytes(r['result'].commit.cid))]
                      == r['result'].commit.seq, 'wrong sequence number', what_=what)
        else:
            ctx.check(len(r['calls']) == 1 and isinstance(r['calls'][0], int) and
                      r['calls'][0] not in now.seqs,
                      'the number of a refused commit is not reported as lost', what_=what)
    seen = p08.check_log(ctx, db, None, what, log0)
    for c, q in zip(now.chain, now.seqs):
        e = seen.get(q)
        ctx.check(isinstance(e, CommitData) and bytes(e.commit.cid) == c,
                  'a commit is not in the log', what_=what)
        if c in acked and e:
            ops = sorted((env.op_of(o) for o in e.commit.ops), key=repr)
            prev = now.trees[now.chain.index(c) - 1]
            want = []
            for act, k, v in acked[c]['op'][1]:
                p = w.keys[k]
                want.append((act, p, ref.cid(val(v)) if v is not None else None,
                             prev.get(p) if act != 'create' else None))
            ctx.check(ops == sorted(want, key=repr), "a commit's ops are wrong", what_=what, ops=ops)
    nlog = len(log0) + len(new) + sum(r['error'] is None and r['op'][0] in
                                      ('event', 'deactivate', 'tombstone', 'other') for r in done)
    ctx.check(len(seen) - sum(o == 'activate' for o in flips) <= nlog <= len(seen),
              'wrong number of events in the log', what_=what, n=len(seen), want=nlog)
    if 'other' in [r['op'][0] for r in done]:
        other = dsstate.read_repo(db, DIDS[1], env.KEYS[1])
        ctx.check(len(other.chain) == 3 and len(other.items) == 2, 'another repo is disturbed',
                  what_=what)


def finalize(total, outcomes, tier):
    if total['schedules'] < 1000 or len(outcomes) < 60:
        return 'vacuous exploration'
