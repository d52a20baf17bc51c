"""P20: export and import round-trip, and a bad import changes nothing."""
import copy

from mc import env, ref, xrpc
from mc.hist import DIDS, HANDLES, World, explore
from mc.msttools import *
from arroba import did as adid
from arroba.util import int_to_tid
import webutil.util
import requests

ID = 'P20'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of histories, export and import of every state through the '
             'real XRPC methods, and enumeration of every single mutation of exported CARs')
RULE = ('every history of creates, updates, deletes and batches over keys in every layer arrangement '
        'up to the depth bound, on both storages; in every state the full export, the export since '
        'every earlier commit, and import of the full export into an empty server with each storage, '
        'continued with a commit; for three repos, every truncation, every one-byte change, every '
        'removed, repeated, moved and replaced block, and wrong signatures, keys, DIDs and DID '
        'documents')
ASSUMPTIONS = ['the importing server resolves the DID through a stand-in for HTTP',
               'a changed CAR may be accepted if the imported repo is identical to the original',
               'Datastore storages run on the in-process model of Datastore']

PATTERNS = [(0, 0, 0), (1, 0, 1), (0, 2, 0), (2, 0, 0)]


def doc(did, key, handle, **over):
    d = {'id': did, 'alsoKnownAs': [f'at://{handle}'], 'verificationMethod': [{
        'id': f'{did}#atproto', 'type': 'Multikey', 'controller': did,
        'publicKeyMultibase': adid.encode_did_key(key.public_key()).removeprefix('did:key:'),
    }]}
    d.update(over)
    return d


def imp(sys, car, answer):
    """Imports a CAR. answer: DID document, Resp or exception. Returns (ok, result)."""
    def get(url, **kw):
        if isinstance(answer, Exception):
            raise answer
        return answer if isinstance(answer, xrpc.Resp) else xrpc.Resp(json=answer, url=url)
    old = webutil.util.session.get
    webutil.util.session.get = get
    try:
        class W:
            pass
        W.sys = sys
        return xrpc.call(W, 'com.atproto.repo.importRepo', car)
    finally:
        webutil.util.session.get = old


def export(w, did, since=None):
    kw = {'since': since} if since else {}
    return xrpc.call(w, 'com.atproto.sync.getRepo', {}, did=did, **kw)


def state(storage, did):
    r = storage.load_repo(did)
    if r is None:
        return None
    return (bytes(r.head.cid), bytes(r.mst.get_pointer()),
            tuple((e.key, bytes(e.value)) for e in r.mst.list()), r.status, r.handle,
            ref.encode({c: dict(rs) for c, rs in r.get_contents().items()}))


def everything(sys):
    s = sys.storage
    return ([(r.did, bytes(r.head.cid), r.status) for r in s.load_repos(minimal=True)],
            [repr(e) if isinstance(e, dict) else (e.commit.seq, bytes(e.commit.cid))
             for e in s.read_events_by_seq(start=0)], s.sequences.last(env.NSID))


def check_export(ctx, w, d):
    did = DIDS[d]
    m = w.repos[did]
    raw = w.raw()
    ok, car = export(w, did)
    if not ctx.check(ok, 'getRepo fails', history=w.hist, error=repr(car)):
        return
    roots, blocks = ref.read_car(car)
    ctx.check(roots == [m.head], 'export: root is not the head commit', history=w.hist,
              got=[ref.b32(r) for r in roots])
    for c, b in blocks:
        ctx.check(ref.cid_of(b) == c, 'export: block does not match its CID', history=w.hist)
    def reach(data, head):
        items, nodes = ref.walk(data, raw.__getitem__)
        return items, {head} | nodes | set(items.values())
    items, want = reach(m.data, m.head)
    ctx.check(items == m.tree(), 'export: wrong stored tree', history=w.hist)
    have = dict(blocks)
    ctx.check(set(have) == want, 'export: not exactly the blocks of the repo', history=w.hist,
              missing=[ref.b32(c) for c in want - set(have)],
              extra=[ref.b32(c) for c in set(have) - want])
    # since every earlier commit
    for e in w.log:
        if e['kind'] != 'commit' or e['did'] != did:
            continue
        ok, scar = export(w, did, since=e['rev'])
        ctx.count('since_exports')
        if not ctx.check(ok, 'getRepo with since fails', history=w.hist, since=e['seq'],
                         error=repr(scar)):
            continue
        roots, sblocks = ref.read_car(scar)
        ctx.check(roots == [m.head], 'export since: wrong root', history=w.hist)
        got = dict(sblocks)
        for c, b in sblocks:
            ctx.check(ref.cid_of(b) == c, 'export since: block does not match its CID',
                      history=w.hist)
        ctx.check(set(got) <= want and m.head in got,
                  'export since: head is missing or extra blocks', history=w.hist, since=e['seq'])
        later = {c for c in want if w.stored.get(c, 0) >= e['seq']}
        ctx.check(later <= set(got), 'export since: a block of a later commit is missing',
                  history=w.hist, since=e['seq'],
                  missing=[ref.b32(c) for c in later - set(got)])
        # someone who has the repo as of that commit can rebuild it
        _, before = reach(e['data'], e['cid'])
        missing = want - set(got) - before
        if missing:
            ctx.check(False, 'export since: a block that recurred is missing',
                      sig={'recurring': all(w.stored[c] < e['seq'] for c in missing)},
                      history=w.hist, since=e['seq'], missing=[ref.b32(c) for c in missing])
    return car


def check_import(ctx, w, d, car, backend, cont):
    did = DIDS[d]
    m = w.repos[did]
    sys = env.make(backend)
    ok, res = imp(sys, car, doc(did, env.KEYS[m.key], HANDLES[d]))
    ctx.count('imports')
    if not ctx.check(ok, 'importRepo refuses an export', history=w.hist, backend=backend,
                     error=repr(res)):
        return
    # a fresh process, where that's possible
    storage = sys.reopen()
    src = state(w.storage, did)
    got = state(storage, did)
    ctx.check(got is not None and got[:3] == src[:3] and got[5] == src[5],
              'imported repo differs from the original', history=w.hist, backend=backend,
              got=repr(got), want=repr(src))
    ctx.check(got[3] == 'deactivated' and got[4] == HANDLES[d],
              'imported repo has the wrong status or handle', history=w.hist, got=repr(got[3:5]))
    ctx.check(not list(storage.read_events_by_seq(start=0)), 'import emits events',
              history=w.hist)
    ok, res = imp(sys, car, doc(did, env.KEYS[m.key], HANDLES[d]))
    ctx.check(not ok and state(storage, did) == got, 'importing again is not refused',
              history=w.hist)
    if not cont:
        return
    r = storage.load_repo(did)
    storage.activate_repo(r)
    class W:
        pass
    W.sys = sys
    ok, again = export(W, did)
    ctx.check(ok and again[:] == car or ok and sorted(ref.read_car(again)[1]) ==
              sorted(ref.read_car(car)[1]) and ref.read_car(again)[0] == [m.head],
              'export of an imported repo differs', history=w.hist, backend=backend)
    items = m.tree()
    path = 'c/zzzzzz'
    r = storage.load_repo(did)
    storage.commit(r, [env.path_write('create', path, 7)] +
                   [env.path_write('delete', p) for p in sorted(items)[:1]])
    want = {p: c for p, c in items.items() if p not in sorted(items)[:1]}
    want[path] = env.rec_cid(7)
    r = storage.load_repo(did)
    root, _ = ref.build(want)
    ctx.check(bytes(r.mst.get_pointer()) == root, 'imported repo: wrong tree after a commit',
              history=w.hist)
    c = env.verify_commit(r.head.encoded, r.signing_key.public_key())
    ctx.check(c['prev'] == ref.Link(m.head) and c['data'] == ref.Link(root),
              'imported repo: wrong commit', history=w.hist)
    evs = list(storage.read_events_by_seq(start=0))
    ctx.check(len(evs) == 2 and bytes(evs[1].commit.cid) == bytes(r.head.cid)
              and evs[0]['$type'].endswith('#account'),
              'imported repo: wrong events after activation and a commit', history=w.hist)


def menu_for(unit):
    def menu(w):
        ops = []
        m = w.repos[DIDS[0]]
        for k, path in enumerate(w.keys):
            if path in m.items:
                ops.append(['commit', 0, [['update', k, 1 - m.items[path]]], 'held'])
                ops.append(['commit', 0, [['delete', k, None]], 'held'])
            else:
                ops.append(['commit', 0, [['create', k, 0]], 'held'])
        absent = [k for k, p in enumerate(w.keys) if p not in m.items]
        if len(absent) >= 2:
            ops.append(['commit', 0, [['create', k, 0] for k in absent], 'held'])
        elif not absent:
            ops.append(['commit', 0, [['delete', k, None] for k in range(len(w.keys))], 'held'])
        m1 = w.repos[DIDS[1]]
        if w.keys[0] not in m1.items:
            ops.append(['commit', 1, [['create', 0, 1], ['create', 1, 0]], 'held'])
        return ops
    return menu


def units(tier, seed):
    q = tier == 'quick'
    out = []
    for p in PATTERNS:
        w = start({'pattern': p, 'backend': 'memory'}, seed)
        n = len(menu_for(None)(w))
        for i in range(n):
            out.append({'pattern': p, 'backend': 'memory', 'depth': 4 if q else 5, 'first': i})
            if p == PATTERNS[1] or not q:
                out.append({'pattern': p, 'backend': 'datastore', 'depth': 2 if q else 3, 'first': i})
    for base in range(3):
        n = len(base_car(base)[0])
        for kind in ('truncate', 'flip1', 'flip128') + (() if q else ('flip255', 'flip2', 'zero')):
            for lo in range(0, n, 400):
                out.append({'bad': kind, 'base': base, 'lo': lo, 'hi': min(n, lo + 400)})
        out.append({'bad': 'blocks', 'base': base})
        out.append({'bad': 'blocks', 'base': base, 'backend': 'datastore'})
        out.append({'bad': 'special', 'base': base})
        out.append({'bad': 'special', 'base': base, 'backend': 'datastore'})
    return out


def start(unit, seed):
    w = World(ref.keys_for(tuple(unit['pattern']), seed=seed), 'memory')
    if unit['backend'] == 'datastore':
        w = World(w.keys, 'datastore')
    w.step(['create', 0])
    w.step(['create', 1])
    return w


BASES = [[], [['create', 0, 0]], [['create', 0, 0], ['create', 1, 1], ['create', 2, 0]]]


def base_car(i):
    w = World(ref.keys_for((1, 0, 2), seed=1), 'memory')
    w.step(['create', 0])
    for wr in BASES[i]:
        w.step(['commit', 0, [wr], 'held'])
    ok, car = export(w, DIDS[0])
    assert ok, car
    return car, w


def judge(ctx, w, backend, what, car, answer=None, refuse=True, setup=None, **detail):
    """Imports and checks that it's refused without effect, or identical."""
    did = DIDS[0]
    sys = env.make(backend)
    if setup:
        setup(sys)
    before = everything(sys), state(sys.storage, did)
    m = w.repos[did]
    ok, res = imp(sys, car, answer if answer is not None else doc(did, env.KEYS[0], HANDLES[0]))
    ctx.execution()
    ctx.state()
    ctx.step()
    ctx.outcome([what, ok, type(res).__name__])
    if ok:
        src = state(w.storage, did)
        got = state(sys.storage, did)
        ctx.check(not refuse and got and got[:3] == src[:3] and got[5] == src[5],
                  f'importRepo accepts a bad CAR: {what}', sig={'bad': what}, backend=backend,
                  **detail)
    else:
        ctx.check(refuse is not False, f'importRepo refuses: {what}', error=repr(res),
                  backend=backend, **detail)
        ctx.check((everything(sys), state(sys.storage, did)) == before,
                  f'a refused import changes something: {what}', backend=backend, **detail)


def run_bad(unit, ctx):
    car, w = base_car(unit['base'])
    backend = unit.get('backend', 'memory')
    kind = unit['bad']
    if kind == 'truncate':
        for n in range(unit['lo'], unit['hi']):
            judge(ctx, w, backend, 'truncated', car[:n], length=n)
        return
    if kind.startswith('flip') or kind == 'zero':
        mask = int(kind.removeprefix('flip')) if kind != 'zero' else None
        for n in range(unit['lo'], unit['hi']):
            b = bytearray(car)
            b[n] = b[n] ^ mask if mask else 0
            if bytes(b) != car:
                judge(ctx, w, backend, 'changed byte', bytes(b), refuse=None, at=n, mask=mask)
        return
    roots, blocks = ref.read_car(car)
    if kind == 'blocks':
        judge(ctx, w, backend, 'unchanged', ref.write_car(roots, blocks), refuse=False)
        for i in range(len(blocks)):
            judge(ctx, w, backend, 'removed block', ref.write_car(roots, blocks[:i] + blocks[i + 1:]),
                  index=i)
            judge(ctx, w, backend, 'repeated block', ref.write_car(roots, blocks + [blocks[i]]),
                  refuse=None, index=i)
            judge(ctx, w, backend, 'moved block', ref.write_car(
                roots, [blocks[i]] + blocks[:i] + blocks[i + 1:]), refuse=None, index=i)
            for j in range(len(blocks)):
                if i != j:
                    judge(ctx, w, backend, 'block with another block\'s bytes', ref.write_car(
                        roots, [(c, blocks[j][1] if k == i else b)
                                for k, (c, b) in enumerate(blocks)]), index=[i, j])
            if blocks[i][0] != roots[0]:
                judge(ctx, w, backend, 'wrong root', ref.write_car([blocks[i][0]], blocks), index=i)
        extra = ref.encode({'extra': 1})
        judge(ctx, w, backend, 'extra block', ref.write_car(
            roots, blocks + [(ref.cid_of(extra), extra)]), refuse=None)
        judge(ctx, w, backend, 'reversed', ref.write_car(roots, blocks[::-1]), refuse=None)
        judge(ctx, w, backend, 'no roots', ref.write_car([], blocks))
        judge(ctx, w, backend, 'no blocks', ref.write_car(roots, []))
        judge(ctx, w, backend, 'unknown root', ref.write_car([ref.cid({'x': 1})], blocks))
        judge(ctx, w, backend, 'empty', b'')
        return
    # special
    did = DIDS[0]
    commit = ref.decode(dict(blocks)[roots[0]])
    def with_commit(change, resign=None):
        c = {k: v for k, v in commit.items()}
        change(c)
        if resign is not None:
            from arroba import util
            c.pop('sig', None)
            from multiformats import CID
            c = {k: CID.decode(v.b) if isinstance(v, ref.Link) else v for k, v in c.items()}
            c = util.sign(c, resign)
        enc = ref.encode(c)
        new = [(ref.cid_of(enc), enc) if b[0] == roots[0] else b for b in blocks]
        return ref.write_car([ref.cid_of(enc)], new)
    def setter(k, v):
        return lambda c: c.update({k: v})
    sig = bytearray(commit['sig'])
    for field, v in (('did', DIDS[1]), ('rev', env.rev_of(99)), ('prev', ref.Link(ref.cid({'x': 1}))),
                     ('data', ref.Link(ref.cid({'x': 1}))), ('version', 2), ('extra', 1),
                     ('sig', bytes(64)), ('sig', bytes(sig)[:-1]), ('sig', bytes(sig) + b'\0'),
                     ('sig', b'')):
        judge(ctx, w, backend, f'unsigned change of {field}', with_commit(setter(field, v)))
    for k in commit:
        judge(ctx, w, backend, f'commit without {k}', with_commit(lambda c: c.pop(k)))
    for i in range(512):
        if backend == 'datastore' and i % 64:
            continue
        s = bytearray(sig)
        s[i // 8] ^= 1 << i % 8
        judge(ctx, w, backend, 'signature bit', with_commit(setter('sig', bytes(s))), bit=i)
    judge(ctx, w, backend, 'signed with another key',
          with_commit(lambda c: None, resign=env.KEYS[1]))
    judge(ctx, w, backend, 'signed with the key of another curve',
          with_commit(lambda c: None, resign=env.P256[0]))
    judge(ctx, w, backend, 'tree root missing',
          with_commit(setter('data', ref.Link(ref.cid({'x': 1}))), resign=env.KEYS[0]))
    judge(ctx, w, backend, 'tree root is a commit',
          with_commit(setter('data', ref.Link(roots[0])), resign=env.KEYS[0]))
    key = env.KEYS[0]
    for name, d in (('other key', doc(did, env.KEYS[1], HANDLES[0])),
                    ('other curve', doc(did, env.P256[0], HANDLES[0])),
                    ('no keys', doc(did, key, HANDLES[0], verificationMethod=[])),
                    ('key of another DID', doc(DIDS[1], key, HANDLES[0], id=did)),
                    ('no id', {}), ('not found', xrpc.Resp(404, json={})),
                    ('server error', xrpc.Resp(500, json=doc(did, key, HANDLES[0]))),
                    ('not JSON', xrpc.Resp(200, text='x')),
                    ('no network', requests.ConnectionError('x')),
                    ('bad key', doc(did, key, HANDLES[0], verificationMethod=[
                        {'id': f'{did}#atproto', 'publicKeyMultibase': 'zbad'}])),
                    ('rotation key only', doc(did, key, HANDLES[0], verificationMethod=[
                        {**doc(did, key, 'x')['verificationMethod'][0],
                         'id': f'{did}#atproto_label'}]))):
        judge(ctx, w, backend, f'DID document: {name}', car, answer=d)
    wrong = doc(did, key, HANDLES[0])
    judge(ctx, w, backend, 'two keys, first is another\'s', car, refuse=False, answer=doc(
        did, key, HANDLES[0], verificationMethod=[
            {**doc(did, env.KEYS[1], 'x')['verificationMethod'][0], 'id': f'{did}#other'},
            wrong['verificationMethod'][0]]))
    for status in (None, 'deactivate', 'tombstone'):
        def setup(sys):
            r = env.Repo.create(sys.storage, did, handle=HANDLES[0], signing_key=key)
            sys.storage.commit(r, [env.path_write('create', 'c/x', 5)])
            if status:
                getattr(sys.storage, f'{status}_repo')(r)
        judge(ctx, w, backend, f'repo exists, {status}', car, setup=setup)
    def other(sys):
        r = env.Repo.create(sys.storage, DIDS[1], handle=HANDLES[1], signing_key=env.KEYS[1])
        sys.storage.commit(r, [env.path_write('create', w.keys[0], 0)])
    judge(ctx, w, backend, 'another repo exists', car, setup=other, refuse=False)


def run_unit(unit, ctx):
    if 'bad' in unit:
        run_bad(unit, ctx)
        ctx.sample(unit)
        return
    w = start(unit, ctx.seed)
    deep = unit['depth']

    def on_step(w, op):
        w.step(op)
        ctx.check(w.last['ok'], 'commit fails', history=w.hist, error=repr(w.last['error']))
        car = check_export(ctx, w, 0)
        if op[1] == 1:
            check_export(ctx, w, 1)
        n = len(w.hist) - 2
        if car and (n < 3 or n == deep):
            for backend in ('memory', 'datastore') if n < 2 else ('memory',):
                check_import(ctx, w, 0, car, backend, n < 3)
        m = w.repos[DIDS[0]]
        ctx.outcome([sorted(m.items.items())])

    op = menu_for(unit)(w)[unit['first']]
    on_step(w, op)
    ctx.step()
    ctx.state()
    if unit['depth'] > 1:
        explore(ctx, w, menu_for(unit), unit['depth'] - 1, on_step)
    ctx.sample({'unit': unit, 'history': w.hist})


def finalize(total, outcomes, tier):
    if total['imports'] < 100 or total['since_exports'] < 100:
        return 'vacuous exploration'
