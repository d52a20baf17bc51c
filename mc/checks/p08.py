"""P08: crashes and backend errors never leave a half-written Datastore repo."""
import google.api_core.exceptions as gexc

from mc import dsstate, env, fakeds, ref, xrpc
from mc.env import KEYS, NSID
from mc.hist import DIDS, EV, HANDLES, World, val
from mc.checks.p20 import doc, imp
from arroba.storage import CommitData

ID = 'P08'
LEVEL = 'fault_enumeration'
CHUNK = 1
TECHNIQUE = ('enumeration of every crash point and every failing Datastore request of every '
             'operation of short histories, on the real storage code, followed by recovery in a '
             'fresh process and comparison with the states before and after')
RULE = ('repo creation, imports, commits of every kind of batch, status changes and events, from '
        'several starting states; a crash before and after each Datastore request, each request '
        'failing without effect and after taking effect with each kind of error, once and from '
        'there on, and pairs of a retried failure and a later failure or crash; after each the stored '
        'entities, then reading the log, retrying and going on in a fresh process, and in the same '
        'process when it survived')
ASSUMPTIONS = ['Datastore transactions are atomic and serializable, as in the in-process model',
               'rolling back a transaction that took effect is tried both as accepted and refused']

FAILS = {
    'unavailable': lambda: gexc.ServiceUnavailable('injected'),
    'aborted': lambda: gexc.Aborted('injected'),
    'deadline': lambda: gexc.DeadlineExceeded('injected'),
    'invalid': lambda: gexc.InvalidArgument('injected'),
    'internal': lambda: gexc.InternalServerError('injected'),
}
D = 0
DID = DIDS[D]
KEY = KEYS[D]


# starting states: lists of operations
BASES = {
    'none': [],
    'empty': [['create', 0]],
    'few': [['create', 0], ['commit', 0, [['create', 0, 0], ['create', 1, 1]], 'held'],
            ['commit', 0, [['create', 2, 2]], 'held']],
    # blocks of earlier commits recur
    'recur': [['create', 0], ['commit', 0, [['create', 0, 0], ['create', 1, 1]], 'held'],
              ['commit', 0, [['delete', 1, None]], 'held'],
              ['create', 1], ['commit', 1, [['create', 0, 0], ['create', 2, 2]], 'held']],
    'deactivated': [['create', 0], ['commit', 0, [['create', 0, 0]], 'held'],
                    ['deactivate', 0, 'held']],
}

OPS = {
    'none': [['create', 0], ['import', 0]],
    'empty': [['commit', [['create', 0, 0]]], ['commit', []],
              ['commit', [['create', 0, 0], ['create', 1, 1], ['create', 2, 2]]],
              ['deactivate']],
    'few': [['commit', [['update', 0, 5]]], ['commit', [['delete', 2, None]]],
            ['commit', [['delete', 0, None], ['create', 3, 3], ['update', 1, 0]]],
            ['commit', [['update', 0, 0]]], ['commit', [['create', 3, 0]]],
            ['tombstone'], ['event', 'identity']],
    'recur': [['commit', [['create', 1, 1]]], ['commit', [['create', 2, 2]]],
              ['commit', [['delete', 0, None]]],
              ['commit', [['create', 1, 1], ['delete', 0, None], ['create', 2, 2]]]],
    'deactivated': [['activate'], ['tombstone'], ['commit', [['create', 1, 1]]]],
}
PATTERNS = [[1, 0, 2, 0], [0, 0, 1, 0]]


def units(tier, seed):
    q = tier == 'quick'
    out = []
    for pi in range(1 if q else 2):
        for base, ops in OPS.items():
            for i in range(len(ops)):
                out.append({'base': base, 'op': i, 'pattern': pi, 'pairs': False})
                out.append({'base': base, 'op': i, 'pattern': pi, 'pairs': True})
    out.sort(key=lambda u: not u['pairs'])
    return out


class Sim:
    """One simulated process on a database, with a plan of faults."""
    def __init__(self, db, plan, refuse_rollback=False):
        self.sys = env.DS(db)
        self.plan = plan          # request number => instruction name
        self.n = 0
        self.fired = []
        self.calls = []
        self.tx_done = set()
        self.refuse_rollback = refuse_rollback
        self.sys.client.stub.hook = self.hook

    def hook(self, stub, method, req):
        self.n += 1
        todo = self.plan.get(self.n) or self.plan.get('rest') if self.n >= self.plan.get('from', 1) \
            else None
        if method == 'rollback' and self.refuse_rollback and req.transaction in self.tx_done:
            return ('fail', gexc.InvalidArgument('transaction is finished'))
        if not todo:
            return None
        self.fired.append((self.n, method, todo))
        if method == 'commit' and todo.startswith('after'):
            self.tx_done.add(req.transaction)
        if todo == 'crash':
            return ('crash',)
        if todo == 'after-crash':
            return ('crash_after',)
        kind, _, exc = todo.rpartition('-')
        return ('fail_after' if kind == 'after' else 'fail', FAILS[exc]())

    def callback(self, data=None, lost_seq=None):
        self.calls.append(data if data is not None else lost_seq)

    def stop(self):
        self.sys.client.stub.hook = None


def perform(sim, op, keys, held=None):
    """Runs the operation. Returns the result."""
    s = sim.sys.storage
    kind = op[0]
    if kind == 'create':
        return env.Repo.create(s, DID, handle=HANDLES[D], signing_key=KEY, rotation_key=KEYS[3],
                               callback=sim.callback)
    if kind == 'import':
        ok, res = imp(sim.sys, IMPORT['car'], doc(DID, KEYS[D], HANDLES[D]))
        if not ok:
            raise res
        return res
    r = held or s.load_repo(DID)
    r.callback = sim.callback
    if kind == 'commit':
        w = IMPORT['world']
        return s.commit(r, [w.write(*x) for x in op[1]])
    if kind == 'event':
        return s.write_event(r, op[1], handle='new.handle')
    return getattr(s, kind + '_repo')(r)


IMPORT = {}


def prepare(unit, seed):
    keys = ref.keys_for(PATTERNS[unit['pattern']], seed)
    w = World(keys, 'datastore')
    for op in BASES[unit['base']]:
        out = w.step(op)
        assert out['ok'], out['error']
    IMPORT['world'] = w
    return w


def make_car(keys):
    w = World(keys, 'memory')
    w.step(['create', 0])
    w.step(['commit', 0, [['create', 0, 0], ['create', 1, 1], ['create', 2, 2]], 'held'])
    ok, car = xrpc.call(w, 'com.atproto.sync.getRepo', {}, did=DID)
    assert ok, car
    IMPORT['car'] = car
    IMPORT['head'] = w.repos[DID].head
    IMPORT['items'] = w.repos[DID].tree()


def after_of(before, op, w):
    """Items and status after the operation, or None if it is refused."""
    if op[0] == 'create':
        return {}, None
    if op[0] == 'import':
        return IMPORT['items'], 'deactivated'
    m = w.repos[DID]
    if op[0] == 'commit':
        if m.status:
            return None
        try:
            items, _ = w._apply_writes(m, op[1])
        except Exception:
            return None
        return {p: ref.cid(val(n)) for p, n in items.items()}, None
    status = {'deactivate': 'deactivated', 'tombstone': 'tombstoned', 'activate': None}
    return m.tree(), status.get(op[0], m.status)


def phase(before, after, now):
    """'before', 'after', 'both' or None."""
    if now is None:
        return 'before' if before is None else None
    if before is not None and now.same(before):
        if after is not None and (now.items, now.status) == after:
            return 'both'
        return 'before'
    if after is not None and (now.items, now.status) == after:
        return 'after'
    return None


def check_log(ctx, db, did_events, what, expect_seqs=()):
    """Reads the whole log in a fresh process."""
    s = env.DS(db.snapshot()).storage
    last, seen = 0, {}
    try:
        events = list(s.read_events_by_seq(start=0))
    except Exception as e:
        ctx.violation(f'the log cannot be read afterwards: {type(e).__name__}', what_=what,
                      error=repr(e))
        return seen
    for e in events:
        seq = e['seq'] if isinstance(e, dict) else e.commit.seq
        ctx.check(seq > last, 'the log is not in ascending order', what_=what, seq=seq)
        last = seq
        seen[seq] = e
        if isinstance(e, CommitData):
            for op in e.commit.ops or ():
                ctx.check(op.cid is None or e.blocks.get(op.cid), 'a commit event lacks a record',
                          what_=what)
    for q in expect_seqs:
        ctx.check(q in seen, 'an event of before the fault is gone', what_=what, seq=q)
    return seen


def read(ctx, db, what):
    try:
        return dsstate.read_repo(db, DID, KEY, chain='import' not in str(what))
    except (dsstate.Bad, KeyError, ValueError, AssertionError) as e:
        ctx.violation(f'stored repo is half-written: {e}', what_=what)


def chain_ok(ctx, before, now, what, most=1):
    """The chain extends the previous one by at most this many commits."""
    old = before.chain if before else []
    ctx.check(now.chain[:len(old)] == old, 'earlier commits are gone', what_=what)
    if before is not None:
        ctx.check(len(now.chain) - len(old) <= most, 'an operation took effect more than once',
                  what_=what, commits=len(now.chain) - len(old))
    ctx.check(all(a < b for a, b in zip(now.revs, now.revs[1:])), 'revs do not increase',
              what_=what, revs=now.revs)
    seqs = [s for s in now.seqs if s]
    ctx.check(len(set(seqs)) == len(seqs), 'two commits have the same sequence number', what_=what)


def run_one(ctx, base, before, after, op, keys, plan, refuse, log0, done):
    ndone = len(done)
    what = {'base': IMPORT['world'].hist, 'op': op, 'plan': {str(k): v for k, v in plan.items()},
            'refuse_rollback': refuse}
    sim = Sim(base.snapshot(), plan, refuse)
    ctx.execution()
    ctx.step()
    crashed, err = False, None
    held = None
    if before is not None:
        # the client's long-lived object
        sim.stop()
        held = sim.sys.storage.load_repo(DID)
        sim.sys.client.stub.hook = sim.hook
    try:
        perform(sim, op, keys, held)
    except fakeds.Crash:
        crashed = True
    except (Exception, AssertionError) as e:
        err = e
    sim.stop()
    sim.total = sim.n
    what['fired'] = sim.fired
    db = sim.sys.db
    db.txs.clear()
    now = read(ctx, db, what)
    ph = phase(before, after, now)
    ctx.state()
    ctx.outcome([op, plan, ph, crashed, type(err).__name__])
    if not ctx.check(ph, 'the stored repo is neither the one before nor the one after', what_=what,
                     error=repr(err), now=vars(now) if now else None):
        return sim
    acked = not crashed and err is None
    if acked:
        ctx.check(ph in ('after', 'both') and after is not None,
                  'an acknowledged operation did not take effect', what_=what)
        if op[0] == 'commit':
            ctx.check(len(now.chain) == len(before.chain) + 1,
                      'an acknowledged commit is not in the chain exactly once', what_=what)
    if not sim.fired and after is not None:
        ctx.check(acked, 'failed without a fault', what_=what, error=repr(err))
    if now is not None and op[0] != 'import':
        chain_ok(ctx, before, now, what)
    seen = check_log(ctx, db, None, what, log0)
    if now is not None and before is not None and len(now.chain) > len(before.chain):
        ctx.check(isinstance(seen.get(now.seqs[-1]), CommitData)
                  and bytes(seen[now.seqs[-1]].commit.cid) == now.head,
                  'the commit is not in the log', what_=what)
    if acked and op[0] == 'commit':
        ctx.check([c for c in sim.calls if isinstance(c, int)] == [] and len(sim.calls) == 1
                  and bytes(sim.calls[0].commit.cid) == now.head,
                  'an acknowledged commit is not announced, or as lost', what_=what)
    # the survivors go on: a fresh process, and the same one if it lives
    canon = dsstate.canon(db)
    if (canon, ph) not in done:
        done.add((canon, ph))
        go_on(ctx, Sim(db.snapshot(), {}), None, op, now, after, ph, keys, {**what, 'then': 'fresh'})
    if not crashed and held:
        key = (canon, ph, bytes(held.mst.get_pointer()), held.status, held.head.seq)
        if key not in done:
            done.add(key)
            sim.plan = {}
            sim.sys.client.stub.hook = sim.hook
            go_on(ctx, sim, held, op, now, after, ph, keys, {**what, 'then': 'same'})
    ctx.count('recovered_states', len(done) - ndone)
    return sim


def go_on(ctx, sim, held, op, now, after, ph, keys, what):
    try:
        perform(sim, op, keys, held)
        err = None
    except (Exception, AssertionError) as e:
        err = e
    db = sim.sys.db
    again = read(ctx, db, what)
    if again is None:
        ctx.check(err is not None and now is None and after is None, 'a retry fails', what_=what,
                  error=repr(err))
        return
    if err is None:
        if op[0] == 'commit' and ph == 'after':
            # eg an update twice
            ctx.check(again.items == after[0], 'wrong contents after a repeated operation',
                      what_=what)
        else:
            ctx.check(phase(now, after, again) in ('after', 'both'),
                      'a successful retry has the wrong effect', what_=what)
    else:
        ctx.check(ph in ('after', 'both') or after is None, 'a retry fails', what_=what,
                  error=repr(err))
        ctx.check(again.same(now), 'a refused retry changes something', what_=what,
                  error=repr(err))
    if op[0] != 'import':
        chain_ok(ctx, now if now is not None and op[0] != 'create' else None, again, what)
    if again.status:
        return
    # and a later commit
    try:
        perform(sim, ['commit', [['create', 'd/later', 7]]], keys, held)
    except (Exception, AssertionError) as e:
        ctx.violation('a later commit fails', what_=what, error=repr(e))
        return
    later = read(ctx, db, what)
    ctx.check(later.items == {**again.items, 'd/later': ref.cid(val(7))},
              'wrong contents after a later commit', what_=what)
    chain_ok(ctx, again, later, what) if op[0] != 'import' else None
    check_log(ctx, db, None, what)


def run_unit(unit, ctx):
    w = prepare(unit, ctx.seed)
    make_car(w.keys)
    base = w.sys.db
    op = OPS[unit['base']][unit['op']]
    before = read(ctx, base, 'base')
    after = after_of(before, op, w)
    done = set()
    log0 = [e['seq'] for e in w.log]
    ctx.sample({'base': unit['base'], 'op': op})

    def go(plan, refuse=False):
        return run_one(ctx, base, before, after, op, w.keys, plan, refuse, log0, done)

    n = go({}).total
    if not unit['pairs']:
        ctx.count('requests', n)
        for i in range(1, n + 1):
            fails = ['unavailable', 'deadline', 'aborted', 'invalid'] if ctx.tier == 'quick' else FAILS
            for todo in ['crash', 'after-crash'] + [a + k for k in fails for a in ('now-', 'after-')]:
                go({i: todo})
                if todo.startswith('after-'):
                    go({i: todo}, True)
            for k in ['unavailable'] if ctx.tier == 'quick' else FAILS:
                go({'from': i, 'rest': 'now-' + k})
                go({'from': i, 'rest': 'after-' + k})
        return
    # pairs: a failure that may be retried, then any failure or crash
    q = ctx.tier == 'quick'
    firsts = ['now-aborted', 'after-unavailable'] if q else \
        ['now-aborted', 'now-unavailable', 'after-unavailable', 'after-aborted', 'after-internal']
    seconds = ['crash', 'after-unavailable'] if q else \
        ['crash', 'after-crash'] + [a + k for k in ('unavailable', 'aborted', 'invalid')
                                    for a in ('now-', 'after-')]
    for f in firsts:
        for i in range(1, n + 1):
            j = i
            while True:
                j += 1
                hit = False
                for s in seconds:
                    if ctx.expired():
                        return
                    sim = go({i: f, j: s})
                    hit = hit or len(sim.fired) == 2
                if not hit:
                    break


def finalize(total, outcomes, tier):
    if total['requests'] < 50:
        return 'no requests'
