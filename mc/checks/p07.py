"""P07: a commit happens completely or not at all."""
import itertools

import google.api_core.exceptions as gexc

from mc import env, ref
from mc.hist import DIDS, World, obj_state, val
from mc.msttools import patterns
import arroba.mst
import arroba.storage
import arroba.util
from arroba.server import server

ID = 'P07'
LEVEL = 'fault_enumeration'
TECHNIQUE = ('exhaustive enumeration of write batches and of every single failure point of a '
             'commit (each call into storage, tree, signing and validation, each Datastore '
             'request), executed on the real code against a reference model')
RULE = ('every batch of up to three writes out of valid and invalid ones in every repo state; '
        'every call to a function that can fail during a commit made to fail, one per execution; '
        'every Datastore request of a commit made to fail once or for good; a callback that '
        'raises; each followed by another commit. Non-trivial: the batch was refused or the '
        'fault fired')
ASSUMPTIONS = ['single fault per commit', 'MemoryStorage itself cannot fail half way through '
               'its final assignment', 'ambiguous failures of the Datastore commit request are '
               'covered by P08']

BIG = {'$type': 'x.y.z', 's': 'x' * 1_000_001}
BAD_VALUES = {'big': BIG, 'unencodable': {'$type': 'x.y.z', 's': object()},
              'none': None, 'float': {'$type': 'x.y.z', 'f': float('nan')}}
# write letters: action, key index or path, value
LETTERS = {
    'c0': ['create', 0, 0], 'c1': ['create', 1, 0], 'u0': ['update', 0, 1],
    'u1': ['update', 1, 0], 'd0': ['delete', 0, None], 'd1': ['delete', 1, None],
}
BAD = {
    'path': ('create', 'c/a b', 0), 'noslash': ('create', 'c/', 0),
    'longkey': ('create', 'c/' + 'k' * 1023, 0),
    'big': ('create', 2, 'big'), 'unencodable': ('create', 2, 'unencodable'),
    'none': ('create', 2, 'none'), 'float': ('create', 2, 'float'),
    'notwrite': None,
}
STATES = [[], [0], [1], [0, 1], [0, 1, 3]]


def units(tier, seed):
    q = tier == 'quick'
    pats = [[0, 1, 0, 2], [1, 0, 2, 0], [2, 2, 0, 0]] if q else patterns(4, [0, 1, 2])
    out = []
    for p in pats:
        for s in STATES:
            out.append({'kind': 'batch', 'pattern': p, 'state': s, 'backend': 'memory',
                        'len': 3 if q else 4})
            out.append({'kind': 'calls', 'pattern': p, 'state': s, 'backend': 'memory'})
    for s in STATES[:4] if q else STATES:
        p = pats[0]
        out.append({'kind': 'batch', 'pattern': p, 'state': s, 'backend': 'datastore',
                    'len': 1 if q else 2})
        for b in (['c0'], ['u0'], ['d1', 'c0'], ['u0', 'd1']):
            out.append({'kind': 'rpc', 'pattern': p, 'state': s, 'backend': 'datastore',
                        'batch': b})
            if not q or s in ([0], [0, 1]):
                out.append({'kind': 'calls', 'pattern': p, 'state': s, 'backend': 'datastore',
                            'batch': b})
    return out


def start(unit, seed):
    w = World(ref.keys_for(unit['pattern'], seed), backend=unit['backend'])
    w.step(['create', 0])
    w.step(['create', 1])
    if unit['state']:
        w.step(['commit', 0, [['create', k, 0] for k in unit['state']], 'held'])
        assert w.last['ok'], w.last
    return w


class Bad:
    """Marks an invalid write in a batch."""
    def __init__(self, name):
        self.name = name


def before(w):
    return (w.snapshot(), obj_state(w.held[0]), obj_state(w.storage.load_repo(DIDS[0])),
            obj_state(w.storage.load_repo(DIDS[1])), w.last_seq())


def check_unchanged(ctx, w, b4, hist):
    """Nothing but the sequence changed, and the lost number was reported once."""
    names = ('storage', "the client's repo", 'the stored repo', 'another repo')
    for name, x, y in zip(names, b4, before(w)):
        ctx.check(x == y, f'a failed commit changed {name}', history=hist)
    used = list(range(b4[4] + 1, w.last_seq() + 1))
    ctx.check(w.calls == [('lost', s) for s in used],
              'a failed commit did not report exactly its own number as lost', history=hist,
              calls=[(c[0], str(c[1])[:60]) for c in w.calls], want=used)
    ctx.check(len(used) <= 1, 'a failed commit consumed several numbers', history=hist)


def check_done(ctx, w, m, b4, seq, hist):
    ctx.check([c[0] for c in w.calls] == ['data'],
              'a successful commit was not reported as new exactly once, or also as lost',
              history=hist, calls=[c[0] for c in w.calls])
    cd = w.calls[0][1]
    ctx.check(cd.commit.seq == seq, 'the reported commit has the wrong number', history=hist)
    for r, name in ((w.held[0], "the client's repo"), (w.storage.load_repo(DIDS[0]), 'stored repo')):
        st = obj_state(r)
        ctx.check(st[0] == bytes(cd.commit.cid), f'{name} does not have the new head',
                  history=hist)
        ctx.check(dict(st[2]) == m.tree(), f'{name} has the wrong contents', history=hist)
    other = obj_state(w.storage.load_repo(DIDS[1]))
    ctx.check(other == b4[3], 'a commit changed another repo', history=hist)


def follow_up(ctx, w, hist):
    """The next commit builds on exactly the current state."""
    w = w.clone()
    path = w.keys[3]
    m = w.repos[DIDS[0]]
    w.seq = w.last_seq()
    r = w.step(['commit', 0, [['update' if path in m.items else 'create', 3, 2]], 'held'])
    ctx.check(r['ok'], 'the commit after a failed one failed', history=hist, error=repr(r['error']))
    st = obj_state(w.held[0])
    ctx.check(dict(st[2]) == m.tree() and st[1] == m.data,
              'the commit after a failed one has the wrong contents', history=hist,
              got=[k for k, _ in st[2]], want=sorted(m.items))


def run_unit(unit, ctx):
    {'batch': run_batch, 'calls': run_calls, 'rpc': run_rpc}[unit['kind']](unit, ctx)


def run_batch(unit, ctx):
    base = start(unit, ctx.seed)
    names = list(LETTERS) + list(BAD)
    batches = [b for n in range(1, unit['len'] + 1) for b in itertools.product(names, repeat=n)
               if sum(x in BAD for x in b) <= 1
               and (n <= 3 or not any(x in BAD for x in b))]
    batches.append(('many200',))
    batches.append(('many201',))
    if unit['len'] > 2:
        for v in ('c0', 'u0', 'd0'):
            batches.append((v, 'raise'))
    for b in batches:
        w = base.clone()
        ctx.step()
        ctx.execution()
        m = w.repos[DIDS[0]]
        hist = w.hist + [['commit', list(b)]]
        raising = 'raise' in b
        writes, bad, model = [], False, []
        for x in b:
            if x in LETTERS:
                writes.append(w.write(*LETTERS[x]))
                model.append(LETTERS[x])
            elif x.startswith('many'):
                n = int(x[4:])
                ws = [['create', f'm/k{i:04}', 0] for i in range(n)]
                model += ws
                writes += [w.write(*y) for y in ws]
            elif x == 'raise':
                pass
            else:
                bad = True
                if BAD[x] is None:
                    writes.append('not a write')
                else:
                    act, k, v = BAD[x]
                    path = w.keys[k] if isinstance(k, int) else k
                    coll, rkey = path.split('/', 1)
                    writes.append(env.Write(
                        action=arroba.storage.Action.CREATE, collection=coll, rkey=rkey,
                        record=BAD_VALUES[v] if isinstance(v, str) else val(v)))
        try:
            items, ops = w._apply_writes(m, model)
            ok = not bad
        except Exception:
            ok = False
        b4 = before(w)
        del w.calls[:]
        if raising:
            w.cb.fail = RuntimeError('callback')
        if len(b) == 1 and not b[0].startswith('many') and len(writes) == 1 and not bad:
            writes = writes[0]   # a single write may be passed bare
        try:
            res = w.storage.commit(w.held[0], writes)
            err = None
        except (Exception, AssertionError) as e:
            res, err = None, e
        w.cb.fail = None
        if raising and ok:
            ctx.check(isinstance(err, RuntimeError), 'the callback\'s exception disappeared',
                      history=hist)
        else:
            ctx.check((err is None) == ok, 'a valid commit was refused' if ok else
                      'an invalid commit was accepted', history=hist, error=repr(err)[:300])
        if ok:
            m.items = items
            check_done(ctx, w, m, b4, b4[4] + 1, hist)
            # the model for follow_up
            root = ref.build(m.tree())[0]
            m.data = root
        else:
            check_unchanged(ctx, w, b4, hist)
            ctx.count('refused')
            ctx.outcome([unit['state'], b])
        if len(b) <= 2:
            follow_up(ctx, w, hist)
        ctx.state()
    ctx.sample({'unit': unit, 'batches': len(batches)})


class Fault(Exception):
    pass


class Interrupt(BaseException):
    """Like KeyboardInterrupt or SystemExit."""


class Injector:
    """Counts calls to functions that can fail, and makes one of them fail."""
    def __init__(self, at=None, kind=Fault):
        self.n, self.at, self.fired, self.kind = 0, at, None, kind
        self.armed = False

    def hit(self, name):
        if not self.armed:
            return
        self.n += 1
        if self.n == self.at:
            self.fired = name
            raise self.kind(name)


CALLS = [(arroba.storage.MemoryStorage, ('read', 'read_many', 'load_repo')),
         (arroba.mst.MST, ('get', 'add', 'update', 'delete', 'get_pointer', 'get_entries',
                           'get_unstored_blocks')),
         (arroba.util, ('sign',)), (type(server), ('validate',))]


def run_calls(unit, ctx):
    calls = list(CALLS)
    if unit['backend'] == 'datastore':
        from arroba.datastore_storage import DatastoreStorage
        calls[0] = (DatastoreStorage, ('read', 'read_many', 'load_repo', 'write_blocks',
                                       'store_repo'))
    batches = [unit['batch']] if 'batch' in unit else \
        [['c0'], ['u0'], ['d0'], ['c1', 'u0'], ['d1', 'c0'], ['u0', 'd1', 'c1']]
    base = start(unit, ctx.seed)
    orig = []
    cur = [Injector()]
    try:
        for owner, names in calls:
            for name in names:
                f = getattr(owner, name, None)
                if f is None:
                    continue
                orig.append((owner, name, f))

                def wrapped(*a, _f=f, _name=name, **kw):
                    cur[0].hit(_name)
                    return _f(*a, **kw)
                setattr(owner, name, wrapped)

        for b, kind in [(b, k) for b in batches for k in (Fault, Interrupt)]:
            at = 0
            while True:
                w = base.clone()
                m = w.repos[DIDS[0]]
                writes = [w.write(*LETTERS[x]) for x in b]
                try:
                    items, ops = w._apply_writes(m, [LETTERS[x] for x in b])
                except Exception:
                    break
                b4 = before(w)
                del w.calls[:]
                inj = cur[0] = Injector(at, kind)
                inj.armed = True
                hist = w.hist + [['commit', b, f'call {at} fails with {kind.__name__}']]
                ctx.step()
                ctx.execution()
                try:
                    w.storage.commit(w.held[0], writes)
                    err = None
                except (Exception, Interrupt) as e:
                    err = e
                inj.armed = False
                if not inj.fired and at:
                    break   # past the last call
                if inj.fired:
                    hist[-1].append(inj.fired)
                    ctx.count('faults')
                    ctx.outcome([unit['state'], b, at, inj.fired])
                if err is None:
                    m.items, m.data = items, ref.build({p: ref.cid(val(n)) for p, n in items.items()})[0]
                    check_done(ctx, w, m, b4, b4[4] + 1, hist)
                else:
                    ctx.check(isinstance(err, (Fault, Interrupt)) or inj.fired, 'commit failed without a fault',
                              history=hist, error=repr(err))
                    check_unchanged(ctx, w, b4, hist)
                follow_up(ctx, w, hist)
                ctx.state()
                at += 1
    finally:
        for owner, name, f in orig:
            setattr(owner, name, f)
    ctx.sample({'unit': unit})


def run_rpc(unit, ctx):
    """Every Datastore request of a commit fails once, or it and all later ones."""
    base = start(unit, ctx.seed)
    b = unit['batch']
    modes = [('once', gexc.InvalidArgument('injected')), ('once', gexc.ServiceUnavailable('injected')),
             ('once', gexc.Aborted('injected')), ('forever', gexc.ServiceUnavailable('injected'))]
    for mode, exc in modes:
        at = 0
        while True:
            w = base.clone()
            m = w.repos[DIDS[0]]
            try:
                items, ops = w._apply_writes(m, [LETTERS[x] for x in b])
            except Exception:
                return
            writes = [w.write(*LETTERS[x]) for x in b]
            b4 = before(w)
            del w.calls[:]
            count = [0]
            fired = []

            def hook(stub, method, req):
                count[0] += 1
                if at and (count[0] == at or mode == 'forever' and count[0] > at):
                    fired.append(method)
                    return ('fail', exc)

            w.sys.client.stub.hook = hook
            hist = w.hist + [['commit', b, f'request {at} fails {mode} with {type(exc).__name__}']]
            ctx.step()
            ctx.execution()
            try:
                w.storage.commit(w.held[0], writes)
                err = None
            except Exception as e:
                err = e
            w.sys.client.stub.hook = None
            if at and not fired:
                break
            if fired:
                hist[-1].append(fired[0])
                ctx.count('faults')
                ctx.outcome([unit['state'], b, mode, type(exc).__name__, at])
            if err is None:
                m.items, m.data = items, ref.build({p: ref.cid(val(n)) for p, n in items.items()})[0]
                # retried attempts may have used only one number
                check_done(ctx, w, m, b4, w.last_seq(), hist)
            else:
                ctx.check(at, 'commit failed without a fault', history=hist, error=repr(err))
                check_unchanged(ctx, w, b4, hist)
            follow_up(ctx, w, hist)
            ctx.state()
            at += 1
    ctx.sample({'unit': unit})


def finalize(total, outcomes, tier):
    if not total['refused'] or total['faults'] < 100:
        return 'no faults fired'
