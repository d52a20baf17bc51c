"""P28: listRepos pages through every repo exactly once."""
import itertools

from mc import env, ref, xrpc
from mc.checks import p20
from arroba.repo import Repo
from arroba.storage import Block

ID = 'P28'
CHUNK = 1
LEVEL = 'model_checking'
TECHNIQUE = ('enumeration of all sets of repos with all statuses and creation orders on the real '
             'storages; in each, every page size and start cursor is followed to the end through the '
             'real XRPC method')
RULE = ('every subset of the DIDs in every creation order (up to the bound), every assignment of the '
        'statuses, with commits, status changes and imports between pages; every limit from 1 to one '
        'more than the number of repos, every stored and absent cursor, invalid limits')
ASSUMPTIONS = ['a tombstoned repo is reported as deactivated, as the code documents',
               'Datastore histories run on the in-process model of Datastore']

# prefixes of each other, upper case, punctuation around ":" and ".", different methods
DIDS = ['did:plc:abc', 'did:plc:abcd', 'did:web:a.com', 'did:web:a.com.b', 'did:web:B.com',
        'did:web:a-b.com', 'did:web:localhost%3A80']
STATUSES = [None, 'deactivated', 'tombstoned', 'deleted']


class W:
    pass


def lst(w, **kw):
    return xrpc.call(w, 'com.atproto.sync.listRepos', {}, **kw)


def expect(model, did):
    m = model[did]
    out = {'did': did, 'head': m['head'], 'rev': m['rev'], 'active': m['status'] is None}
    if m['status']:
        out['status'] = {'tombstoned': 'deactivated'}.get(m['status'], m['status'])
    return out


def snap(storage, did):
    """Head and rev as stored, read independently."""
    r = storage.load_repo(did)
    return {'head': ref.b32(bytes(r.head.cid)), 'rev': ref.decode(r.head.encoded)['rev'],
            'status': r.status}


def check(ctx, w, model, hist):
    dids = sorted(model, key=str.encode)
    n = len(dids)
    for limit in list(range(1, n + 2)) + [None, 1000]:
        kw = {'limit': limit} if limit else {}
        for start in [None] + dids + ['a', 'did:plc:abcc', 'did:web:a.com!', 'zzz']:
            got, cur, pages = [], start, 0
            while True:
                ok, res = lst(w, **kw, **({'cursor': cur} if cur else {}))
                ctx.count('pages')
                if not ctx.check(ok, 'listRepos fails', history=hist, limit=limit, cursor=cur,
                                 error=repr(res)):
                    return
                ctx.check(len(res['repos']) <= (limit or 500), 'listRepos: page too long',
                          history=hist, limit=limit)
                got += res['repos']
                pages += 1
                nxt = res.get('cursor')
                if nxt is None:
                    break
                ctx.check(cur is None or nxt > cur, 'listRepos: cursor does not advance',
                          history=hist, cursor=cur, next=nxt)
                cur = nxt
                if not ctx.check(pages <= n + 2, 'listRepos: paging does not end', history=hist,
                                 limit=limit, cursor=start):
                    return
            want = [expect(model, d) for d in dids if start is None or d.encode() > start.encode()]
            ctx.check(got == want, 'listRepos: wrong repos', history=hist, limit=limit, cursor=start,
                      got=got, want=want)
    for limit in (0, -1, 1001):
        ok, res = lst(w, limit=limit)
        ctx.check(not ok, 'listRepos: invalid limit is accepted', history=hist, limit=limit)
    ctx.state()


def setup(backend, order, statuses):
    w = W()
    w.sys = env.make(backend)
    s = w.sys.storage
    model = {}
    for i, did in enumerate(order):
        r = env.create_repo(s, did, handle=f'h{i}.com')
        if i % 2:
            s.commit(r, [env.path_write('create', 'c/x', i)])
        st = statuses[i]
        if st == 'deleted':   # no operation of its own
            r.status = st
            s.store_repo(r)
        elif st:
            getattr(s, {'deactivated': 'deactivate', 'tombstoned': 'tombstone'}[st] + '_repo')(r)
        model[did] = snap(s, did)
    return w, model


def units(tier, seed):
    q = tier == 'quick'
    out = [{'backend': backend, 'mode': 'changes', 'first': i,
            'depth': (3 if backend == 'memory' else 2) + (not q)}
           for backend in ('datastore', 'memory') for i in range(8)]
    for backend in ('memory', 'datastore'):
        for n in range(0, 5):
            if backend == 'datastore' and q and n > 3:
                continue
            sets = list(itertools.combinations(range(len(DIDS)), n))
            if n > 2 and q:
                sets = sets[seed % 3::3]
            for s in sets:
                out.append({'backend': backend, 'dids': s, 'mode': 'sets'})
        out.append({'backend': backend, 'dids': list(range(len(DIDS))), 'mode': 'full'})
    return out


def run_changes(unit, ctx):
    """listRepos after every operation of every sequence, and changes between pages."""
    dids = DIDS[1:5]
    ops = ['commit', 'deactivate', 'activate', 'tombstone', 'create', 'import']

    def apply(w, model, op):
        s = w.sys.storage
        if op[0] == 'create':
            env.create_repo(s, dids[3], handle='new.com')
            model[dids[3]] = snap(s, dids[3])
            return
        if op[0] == 'import':
            src = W()
            src.sys = env.Mem()
            r = env.create_repo(src.sys.storage, dids[0], handle='imp.com')
            src.sys.storage.commit(r, [env.path_write('create', 'c/i', 1)])
            ok, car = p20.export(src, dids[0])
            assert ok
            ok, res = p20.imp(w.sys, car, p20.doc(dids[0], env.KEYS[0], 'imp.com'))
            assert ok, res
            m = snap(s, dids[0])
            head = ref.read_car(car)[0][0]
            ctx.check(m['head'] == ref.b32(head), 'import: wrong head')
            model[dids[0]] = m
            return
        r = s.load_repo(dids[op[1]])
        if op[0] == 'commit':
            s.commit(r, [env.path_write('create', f'c/n{len(model)}-{s.sequences.last(env.NSID)}', 3)])
        else:
            getattr(s, op[0] + '_repo')(r)
        model[dids[op[1]]] = snap(s, dids[op[1]])

    def enabled(model):
        out = []
        for d in (1, 2):
            st = model[dids[d]]['status']
            out += [['commit', d], ['deactivate', d], ['tombstone', d]] if st is None else \
                [['activate', d]] if st == 'deactivated' else []
        if dids[3] not in model:
            out.append(['create'])
        if dids[0] not in model:
            out.append(['import'])
        return out

    def fresh(hist):
        w, model = setup(unit['backend'], dids[1:3], [None, None])
        for op in hist:
            apply(w, model, op)
        return w, model

    def rec(hist):
        w, model = fresh(hist)
        check(ctx, w, model, hist)
        ctx.execution()
        ctx.outcome([(d, m['status']) for d, m in sorted(model.items())])
        # a change between two pages: repos that were there the whole time are
        # still listed exactly once
        if unit['backend'] == 'memory' or len(hist) < 2:
            for op in enabled(model):
                w, model = fresh(hist)
                ok, first = lst(w, limit=1)
                before = set(model)
                apply(w, model, op)
                ctx.step()
                got, cur = list(first['repos']), first.get('cursor')
                while cur:
                    ok, res = lst(w, limit=1, cursor=cur)
                    got += res['repos']
                    cur = res.get('cursor')
                names = [r['did'] for r in got]
                ctx.check(names == sorted(set(names)) and before <= set(names),
                          'listRepos: a change between pages loses or repeats a repo',
                          history=hist + [op], got=names)
        if len(hist) < unit['depth']:
            for op in enabled(model):
                rec(hist + [op])

    _, model = fresh([])
    en = enabled(model)
    for i, op in enumerate(en):
        if i == unit['first']:
            rec([op])


def run_unit(unit, ctx):
    if unit['mode'] == 'changes':
        return run_changes(unit, ctx)
    dids = [DIDS[i] for i in unit['dids']]
    n = len(dids)
    if unit['mode'] == 'full':
        combos = [(dids, [STATUSES[i % 4] for i in range(n)]), (dids[::-1], [None] * n)]
    else:
        orders = list(itertools.permutations(dids)) if n <= 3 else [dids, dids[::-1]]
        combos = [(dids, st) for st in itertools.product(STATUSES, repeat=n)
                  if n < 3 or unit['backend'] == 'memory' or st[0] is None]
        combos += [(o, [STATUSES[i % 4] for i in range(n)]) for o in orders]
    for order, st in combos:
        w, model = setup(unit['backend'], order, st)
        for i, did in enumerate(order):
            ctx.check(model[did]['status'] == st[i], 'wrong status in storage', did=did)
        check(ctx, w, model, [list(zip(order, st))])
        ctx.execution()
        ctx.step()
        ctx.outcome([order, st])
    ctx.sample(unit)


def finalize(total, outcomes, tier):
    if total['pages'] < 10000:
        return 'vacuous exploration'
