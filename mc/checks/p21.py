"""P21: sync reads return self-verifying data for the current head."""
import itertools

from multiformats import CID

from mc import env, ref, xrpc
from mc.hist import DIDS, HANDLES, World, explore

ID = 'P21'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of histories on the real storages; in every state every sync '
             'read with every argument of a small domain is called on the real XRPC server and '
             'verified independently')
RULE = ('every history of creates, updates, deletes, status changes and commits of a second repo up to '
        'the depth bound, and every tree over up to five keys in every layer arrangement; in every '
        'state getLatestCommit, getHead, getRepoStatus, getCheckout, getBlocks of every single block, '
        'every pair and unknown and malformed CIDs, and getRecord of every present and of absent paths')
ASSUMPTIONS = ['a block of another repo on the same server may be read with getBlocks',
               'Datastore histories run on the in-process model of Datastore']

COLL = 'a.b.c'
NOBODY = 'did:web:nobody.com'


def call(w, method, **kw):
    return xrpc.call(w, f'com.atproto.sync.{method}', {}, **kw)


def lookup(blocks, root, key):
    """Follows the search path for key with only the given blocks. Returns value or None."""
    c = root
    while True:
        n = ref.decode(blocks[c])  # KeyError: the path is incomplete
        prev, nxt = b'', n['l']
        for e in n['e']:
            prev = prev[:e['p']] + e['k']
            k = prev.decode()
            if k == key:
                return e['v'].b
            if k > key:
                break
            nxt = e['t']
        if nxt is None:
            return None
        c = nxt.b


def parse(ctx, w, m, what, car):
    roots, blocks = ref.read_car(car)
    ctx.check(roots == [m.head], f'{what}: root is not the head commit', history=w.hist)
    for c, b in blocks:
        ctx.check(ref.cid_of(b) == c, f'{what}: block does not match its CID', history=w.hist)
    return blocks


def check_record(ctx, w, d, path, reach=None):
    m = w.repos[DIDS[d]]
    coll, rkey = path.split('/')
    ok, car = call(w, 'getRecord', did=DIDS[d], collection=coll, rkey=rkey)
    ctx.count('records')
    if path not in m.items:
        ctx.check(not ok and xrpc.err_name(car) == 'RecordNotFound',
                  'getRecord: a missing record does not give RecordNotFound', history=w.hist,
                  path=path, got=repr(car))
        return
    if not ctx.check(ok, 'getRecord fails', history=w.hist, path=path, error=repr(car)):
        return
    blocks = dict(parse(ctx, w, m, 'getRecord', car))
    want = ref.cid(w_val(m.items[path]))
    try:
        commit = ref.decode(blocks[m.head])
        got = lookup(blocks, commit['data'].b, path)
    except KeyError as e:
        ctx.violation('getRecord: the CAR does not contain the path to the record',
                      history=w.hist, path=path, missing=str(e))
        return
    ctx.check(commit['data'].b == m.data, 'getRecord: wrong commit', history=w.hist)
    ctx.check(got == want and want in blocks, 'getRecord: record is missing or wrong',
              history=w.hist, path=path)
    if reach is not None:
        ctx.check(set(blocks) <= reach, 'getRecord: blocks that are not in the repo',
                  history=w.hist, path=path, extra=[ref.b32(c) for c in set(blocks) - reach])


def w_val(v):
    from mc.hist import val
    return val(v)


def check(ctx, w, deep):
    raw = w.raw()
    for d in (0, 1):
        did = DIDS[d]
        m = w.repos[did]
        if m.status:
            ok, res = call(w, 'getRepoStatus', did=did)
            ctx.check(ok and res == {'did': did, 'active': False, 'status': 'deactivated'},
                      'getRepoStatus: wrong answer for an inactive repo', history=w.hist, got=repr(res))
            for method in ('getLatestCommit', 'getHead', 'getBlocks', 'getRepo', 'getCheckout',
                           'getRecord'):
                kw = {'getBlocks': {'cids': [ref.b32(m.head)]},
                      'getRecord': {'collection': COLL, 'rkey': 'x'}}.get(method, {})
                ok, res = call(w, method, did=did, **kw)
                ctx.check(not ok and xrpc.err_name(res) == 'RepoDeactivated',
                          f'{method}: answers for an inactive repo', history=w.hist, got=repr(res))
            continue
        for method, want in (('getLatestCommit', {'cid': ref.b32(m.head), 'rev': m.rev}),
                             ('getHead', {'root': ref.b32(m.head)}),
                             ('getRepoStatus', {'did': did, 'active': True})):
            ok, res = call(w, method, did=did)
            ctx.check(ok and res == want, f'{method}: wrong answer', history=w.hist, got=repr(res),
                      want=want)
        items, nodes = ref.walk(m.data, raw.__getitem__)
        reach = {m.head} | nodes | set(items.values())
        ok, car = call(w, 'getCheckout', did=did)
        if ctx.check(ok, 'getCheckout fails', history=w.hist, error=repr(car)):
            got = parse(ctx, w, m, 'getCheckout', car)
            ctx.check({c for c, _ in got} == reach, 'getCheckout: wrong blocks', history=w.hist)
        for path in w.keys + [f'{COLL}/~zzz'.replace('~', 'z'), f'{COLL}/-', 'a.b.cc/x']:
            if path.split('/')[1] in ('.', '..'):
                continue
            check_record(ctx, w, d, path, reach)
        # getBlocks
        stored = sorted(raw)
        sets = [[c] for c in stored]
        if deep:
            sets += [list(p) for p in itertools.permutations(stored[:4] + stored[-2:], 2)]
            sets += [stored, stored[::-1], []]
            sets += [[stored[0], stored[0]]]
        for cids in sets if deep else sets[:3] + [stored]:
            ok, car = call(w, 'getBlocks', did=did, cids=[ref.b32(c) for c in cids])
            ctx.count('getblocks')
            if not ctx.check(ok, 'getBlocks fails', history=w.hist, error=repr(car)):
                continue
            got = parse(ctx, w, m, 'getBlocks', car)
            ctx.check({c for c, _ in got} == set(cids) and all(raw[c] == b for c, b in got),
                      'getBlocks: not exactly the requested blocks', history=w.hist,
                      want=[ref.b32(c) for c in cids], got=[ref.b32(c) for c, _ in got])
        unknown = ref.b32(ref.cid({'unknown': 1}))
        for cids in ([unknown], [unknown, ref.b32(stored[0])], [ref.b32(stored[0]), unknown]):
            ok, res = call(w, 'getBlocks', did=did, cids=cids)
            ctx.check(not ok and xrpc.err_name(res) == 'BlockNotFound',
                      'getBlocks: an unknown block does not give BlockNotFound', history=w.hist,
                      got=repr(res))
        if deep:
            for bad in ('', 'x', 'bafy', 'zzz', ref.b32(stored[0])[:-3], '!' + ref.b32(stored[0])):
                for validate in (True, False):
                    ok, res = call(w, 'getBlocks', did=did, cids=[bad], validate=validate)
                    ctx.check(not ok, 'getBlocks: malformed CID is accepted', history=w.hist, cid=bad,
                              got=repr(res))
    for method in ('getLatestCommit', 'getHead', 'getRepoStatus', 'getRepo', 'getCheckout',
                   'getBlocks', 'getRecord', 'listBlobs'):
        kw = {'getBlocks': {'cids': [ref.b32(w.repos[DIDS[0]].head)]},
              'getRecord': {'collection': COLL, 'rkey': 'x'}}.get(method, {})
        ok, res = call(w, method, did=NOBODY, **kw)
        ctx.check(not ok and xrpc.err_name(res) == 'RepoNotFound',
                  f'{method}: unknown repo does not give RepoNotFound', history=w.hist,
                  got=repr(res))


def menu(w):
    ops = []
    for d in (0, 1):
        m = w.repos[DIDS[d]]
        if m.status:
            ops.append(['activate', d, 'held'])
            continue
        for k in range(3) if d == 0 else (0,):
            path = w.keys[k]
            if path in m.items:
                ops.append(['commit', d, [['update', k, 1 - m.items[path]]], 'held'])
                ops.append(['commit', d, [['delete', k, None]], 'held'])
            else:
                ops.append(['commit', d, [['create', k, 0]], 'held'])
    ops.append(['deactivate', 0, 'held'])
    ops.append(['tombstone', 1, 'held'])
    return ops


def units(tier, seed):
    q = tier == 'quick'
    out = []
    for backend, depth, pats in (('memory', 3 if q else 4, [(0, 0, 0), (1, 0, 1), (0, 2, 0)]),
                                 ('datastore', 1 if q else 2, [(1, 0, 1), (0, 2, 0)])):
        for p in pats:
            n = len(menu(start({'pattern': p, 'backend': 'memory'}, seed)))
            out += [{'pattern': p, 'backend': backend, 'depth': depth, 'first': i} for i in range(n)]
    for n in range(1, 5 if q else 6):
        pats = list(itertools.product(range(3), repeat=n))
        for i in range(0, len(pats), 27):
            out.append({'trees': pats[i:i + 27], 'backend': 'memory'})
            if n < 4 or not q:
                out.append({'trees': pats[i:i + 27], 'backend': 'datastore'})
    return out


def start(unit, seed):
    keys = ref.keys_for(tuple(unit['pattern']), seed=seed, coll=COLL)
    w = World(keys, 'memory')
    if unit['backend'] == 'datastore':
        w = World(keys, 'datastore')
    w.step(['create', 0])
    w.step(['create', 1])
    w.step(['commit', 1, [['create', 1, 0], ['create', 2, 3]], 'held'])
    return w


def run_unit(unit, ctx):
    if 'trees' in unit:
        for p in unit['trees']:
            keys = ref.keys_for(tuple(p), seed=ctx.seed, coll=COLL)
            w = World(keys, unit['backend'])
            w.step(['create', 0])
            w.step(['commit', 0, [['create', i, i] for i in range(len(p))], 'held'])
            for k in keys + [f'{COLL}/0', f'{COLL}/zzz', 'a.b.cc/x', keys[0] + '0', keys[-1][:-1]]:
                if not k.endswith('/'):
                    check_record(ctx, w, 0, k)
            ctx.state()
            ctx.step(len(p) + 5)
            ctx.execution()
            ctx.outcome(p)
        ctx.sample(unit['trees'][-1])
        return
    w = start(unit, ctx.seed)
    if unit['first'] == 0:
        check(ctx, w, True)

    def on_step(w, op):
        w.step(op)
        ctx.check(w.last['ok'], 'operation fails', history=w.hist, error=repr(w.last['error']))
        check(ctx, w, len(w.hist) < 5)
        ctx.outcome([(sorted(m.items.items()), m.status) for m in w.repos.values()])

    on_step(w, menu(w)[unit['first']])
    ctx.step()
    ctx.state()
    if unit['depth'] > 1:
        explore(ctx, w, menu, unit['depth'] - 1, on_step)
    ctx.sample({'unit': unit, 'history': w.hist})


def finalize(total, outcomes, tier):
    if total['records'] < 1000 or total['getblocks'] < 1000:
        return 'vacuous exploration'
