"""P06: the commit chain."""
from mc import env, ref
from mc.hist import DIDS, World, explore, obj_state, val
from mc.msttools import patterns
from multiformats import CID
from arroba.mst import MST

ID = 'P06'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of commit histories on the real storages, compared with an independent reference model of repos, trees and signatures'
RULE = ('every history of create/update/delete/batch commits, on one or two repos, through the '
        "client's long-lived repo object or a freshly loaded one, with lifecycle changes and lost "
        'sequence numbers in between, up to the depth bound, from sequence numbers between 1 and '
        '2**53; after each step head, tree, prev, '
        'rev, seq and signature are checked against the model')
ASSUMPTIONS = ['histories are sequential; concurrency is P09',
               'records are valid without lexicons',
               'Datastore histories run on the in-process model of Datastore (mc/fakeds.py)']

# sequence numbers around which a repo starts
BASES = [30, 31 * 32, 32 ** 3 - 3, 2 ** 31 - 3, 2 ** 32 - 3, 2 ** 40 - 3, 2 ** 53 - 9,
         1_700_000_000_000_000]


def menu_for(unit):
    nkeys = len(unit['pattern'])
    kind = unit['menu']

    def menu(w):
        ops = []
        m = w.repos[DIDS[0]]
        vias = unit.get('via', ['held', 'fresh'])
        for via in vias:
            for k in range(nkeys):
                path = w.keys[k]
                if path in m.items:
                    ops.append(['commit', 0, [['update', k, 1 - m.items[path]]], via])
                    ops.append(['commit', 0, [['delete', k, None]], via])
                    if kind == 'wide':
                        ops.append(['commit', 0, [['update', k, m.items[path]]], via])
                else:
                    ops.append(['commit', 0, [['create', k, 0]], via])
            if kind == 'wide':
                ops.append(['commit', 0, [], via])
                present = [k for k in range(nkeys) if w.keys[k] in m.items]
                absent = [k for k in range(nkeys) if w.keys[k] not in m.items]
                if absent:
                    ops.append(['commit', 0, [['create', k, 1] for k in absent], via])
                if present:
                    ops.append(['commit', 0, [['delete', k, None] for k in present], via])
                if present and absent:
                    ops.append(['commit', 0, [['delete', present[0], None],
                                              ['create', absent[0], 1],
                                              ['update', absent[0], 0]], via])
        if kind == 'wide':
            ops.append(['alloc'])
            if len(DIDS) > 1 and DIDS[1] not in w.repos:
                ops.append(['create', 1])
            elif DIDS[1] in w.repos:
                m1 = w.repos[DIDS[1]]
                ops.append(['commit', 1, [['update' if w.keys[0] in m1.items else 'create', 0, 1]],
                            'held'])
            ops.append(['reload', 0])
        return ops
    return menu


def units(tier, seed):
    q = tier == 'quick'
    out = []
    for p in patterns(3, [0, 1, 2] if q else [0, 1, 2, 3]):
        out.append({'pattern': p, 'menu': 'plain', 'depth': 4 if q else 5, 'backend': 'memory',
                    'via': ['held']})
    for p in [[0, 1], [1, 0], [0, 0], [1, 2]] + ([] if q else [[2, 0], [0, 2], [1, 1]]):
        out.append({'pattern': p, 'menu': 'wide', 'depth': 3 if q else 4, 'backend': 'memory'})
        out.append({'pattern': p, 'menu': 'wide', 'depth': 2 if q else 3, 'backend': 'datastore'})
    for base in BASES:
        for backend in 'memory', 'datastore':
            out.append({'pattern': [0, 1], 'menu': 'wide' if backend == 'memory' else 'plain',
                        'depth': 3 if backend == 'memory' and not q else 2, 'backend': backend,
                        'base': base})
    # split for parallelism: the first operation is fixed by the unit
    split = []
    for u in out:
        w = start(u, seed)
        n = len(menu_for(u)(w))
        split += [{**u, 'first': i} for i in range(n)]
    return split


def start(unit, seed):
    w = World(ref.keys_for(unit['pattern'], seed), backend='memory')
    w.repos[DIDS[0]] = type('M', (), {'items': {}})()
    return w


def check_repo(ctx, w, d, obj, hist):
    """The invariant, for one repo and every object that represents it."""
    did = DIDS[d]
    m = w.repos[did]
    raw = w.raw()
    c = env.verify_commit(raw[m.head], env.KEYS[m.key].public_key())
    ctx.check(ref.cid_of(raw[m.head]) == m.head, 'commit does not match its CID', history=hist)
    ctx.check(set(c) == {'did', 'version', 'rev', 'prev', 'data', 'sig'},
              'commit has other fields', history=hist, fields=sorted(c))
    ctx.check(c['version'] == 3 and c['did'] == did, 'wrong version or DID', history=hist)
    ctx.check(c['data'].b == m.data, 'the data root is not the root of the expected contents',
              history=hist, items=m.items)
    prev = m.chain[-2] if len(m.chain) > 1 else None
    ctx.check((c['prev'].b if c['prev'] else None) == prev,
              'prev is not the previous head', history=hist)
    ctx.check(c['rev'] == m.rev, 'rev is not the TID of the sequence number', history=hist,
              rev=c['rev'], seq=m.seq)
    if prev:
        p = ref.decode(raw[prev])
        ctx.check(env.tid_int(c['rev']) > env.tid_int(p['rev']) and c['rev'] > p['rev'],
                  'rev did not increase', history=hist)
    items, _ = ref.walk(m.data, lambda x: raw[x])
    ctx.check(items == m.tree(), 'the stored tree has other contents', history=hist)
    for p, n in m.items.items():
        ctx.check(ref.decode(raw[ref.cid(val(n))]) == val(n), 'wrong stored record',
                  history=hist)

    by_handle = w.storage.load_repo(m.handle)
    for name, r in (('stored repo', w.storage.load_repo(did)), ('repo by handle', by_handle),
                    ("client's repo", obj)):
        if r is None:
            ctx.check(name.startswith('client'), f'{name} not found', history=hist)
            continue
        st = obj_state(r)
        ctx.check(st[0] == m.head, f'{name} has the wrong head', history=hist)
        ctx.check(st[1] == m.data, f'{name} has the wrong tree', history=hist)
        ctx.check(dict(st[2]) == m.tree(), f'{name} has the wrong contents', history=hist,
                  got=[k for k, _ in st[2]], want=sorted(m.items))
        ctx.check(r.did == did and r.version == 3, f'{name}: wrong DID or version', history=hist)
        for p, n in m.items.items():
            ctx.check(r.get_record(*p.split('/')) == val(n), f'{name}: wrong record',
                      history=hist, path=p)
        want = {}
        for p, n in m.items.items():
            co, rk = p.split('/')
            want.setdefault(co, {})[rk] = val(n)
        ctx.check(dict(r.get_contents()) == want, f'{name}: wrong get_contents', history=hist)
    b = w.storage.read(CID.decode(m.head))
    ctx.check(b.seq == m.seq, 'wrong sequence number of the commit block', history=hist)


def run_unit(unit, ctx):
    w = World(ref.keys_for(unit['pattern'], ctx.seed), backend=unit['backend'])
    if 'base' in unit:
        w.start_at(unit['base'])
    w.step(['create', 0])
    check_repo(ctx, w, 0, w.held[0], w.hist)
    menu = menu_for(unit)

    def on_step(w, op):
        r = w.step(op)
        if r['error']:
            ctx.violation(f'{op[0]} failed: {r["error"]!r}', history=w.hist)
        for d, did in enumerate(DIDS):
            if did in w.repos:
                obj = r['obj'] if op[0] != 'reload' and len(op) > 1 and op[1] == d else None
                check_repo(ctx, w, d, obj, w.hist)
        if op[0] == 'commit':
            cd, m = r['result'], w.repos[DIDS[op[1]]]
            ctx.check(env.cidb(cd.prev) == (m.chain[-2] if len(m.chain) > 1 else None),
                      'CommitData.prev is wrong', history=w.hist)
            ctx.check([env.op_of(o) for o in cd.commit.ops] == r['event']['ops'],
                      'CommitData has the wrong operations', history=w.hist)
            ctx.outcome([op[2], sorted(m.items.items())])
        ctx.check(w.last_seq() == w.seq, 'wrong last sequence number', history=w.hist,
                  got=w.last_seq(), want=w.seq)

    op = menu(w)[unit['first']]
    on_step(w, op)
    ctx.step()
    ctx.state()
    ctx.execution()
    if unit['depth'] > 1:
        explore(ctx, w, menu, unit['depth'] - 1, on_step)
    ctx.sample({'unit': unit, 'first': op})


def finalize(total, outcomes, tier):
    if len(outcomes) < 50:
        return 'vacuous exploration'
