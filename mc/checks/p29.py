"""P29: size and operation limits are enforced exactly at the boundary."""
from mc import env, ref, xrpc
from mc.hist import DIDS, HANDLES, Refused, World, check_event, obj_state, val
from arroba import firehose, server as aserver
import arroba.mst

ID = 'P29'
LEVEL = 'model_checking'
CHUNK = 1
TECHNIQUE = ('enumeration of every combination of limit, side of the boundary, operation kind and '
             'storage on the real code, against a model with the documented limits')
RULE = ('commits of 0, 1, 199, 200, 201 and 400 operations of every mix of actions; records one byte '
        'below, at and above the limit for several value types, alone and inside batches; every split '
        'of record paths of 255, 256 and 257 characters; every list limit around its documented '
        'range and full pages at it; after every accepted or refused commit the whole stored state '
        'and the log')
ASSUMPTIONS = ['documented limits: 200 operations, 1,000,000 bytes per record, 256 characters per '
               'path, and the limits in the lexicons',
               'Datastore storages run on the in-process model of Datastore']

MAX_OPS = 200
MAX_BYTES = 1_000_000
MAX_KEY = 256


class LW(World):
    def _apply_writes(self, m, writes):
        if len(writes) > MAX_OPS:
            raise Refused('too many')
        for act, k, v in writes:
            path = self.keys[k] if isinstance(k, int) else k
            if act != 'delete' and len(ref.encode(val(v))) > MAX_BYTES:
                raise Refused('too big')
            if len(path) > MAX_KEY:
                raise Refused('key too long')
        return super()._apply_writes(m, writes)


def step(ctx, w, op, what):
    """Runs a commit and checks that it's accepted or refused as predicted."""
    d = op[1]
    did = DIDS[d]
    before, held = w.snapshot(), obj_state(w.held[d])
    out = w.step(op)
    ctx.execution()
    ctx.step()
    ctx.state()
    ctx.outcome([what, out['ok']])
    hist = f'{what}'
    if not ctx.check(out['ok'] == out['expect'], 'limit: a commit within the limits is refused'
                     if out['expect'] else 'limit: a commit over a limit is accepted',
                     what_=what, error=repr(out['error'])[:500]):
        return out
    if not out['expect']:
        ctx.check(w.snapshot() == before and obj_state(w.held[d]) == held,
                  'limit: a refused commit changes something', what_=what)
        ctx.check(obj_state(w.storage.load_repo(did)) == held,
                  'limit: a refused commit changes the stored repo', what_=what)
        return out
    m = w.repos[did]
    stored = w.storage.load_repo(did)
    # a client's older Repo object only follows its own commits
    for r in (stored, w.held[d]) if op[3] == 'held' else (stored,):
        ctx.check({e.key: bytes(e.value) for e in r.mst.list()} == m.tree()
                  and bytes(r.mst.get_pointer()) == m.data, 'limit: wrong tree after a commit',
                  what_=what)
    e = list(w.storage.read_events_by_seq(start=m.seq))
    err = check_event(ctx, e[0], w.log[-1], None) if len(e) == 1 else f'{len(e)} events'
    ctx.check(not err, f'limit: wrong event: {err}', what_=what)
    aserver.storage = w.storage
    header, payload = firehose.process_event(e[0])
    ctx.check(len(payload['ops']) == len(w.log[-1]['ops']) and payload['seq'] == m.seq,
              'limit: event cannot be emitted', what_=what)
    return out


def start(backend):
    w = LW(['c/a', 'c/b'], backend)
    w.step(['create', 0])
    return w


def mixes(n):
    """Operation lists with exactly n operations."""
    yield 'creates', [], [['create', f'c/n{i}', i % 3] for i in range(n)]
    yield 'updates', n, [['update', f'c/p{i}', 9] for i in range(n)]
    yield 'deletes', n, [['delete', f'c/p{i}', None] for i in range(n)]
    yield 'same path', 1, [['update', 'c/p0', i] for i in range(n)]
    flip = [['delete', 'c/p0', None] if i % 2 == 0 else ['create', 'c/p0', i] for i in range(n)]
    yield 'flipping', 1, flip
    # one operation decides which side of the limit
    yield 'mixed', n, [[['create', f'c/n{i}', 1], ['update', f'c/p{i}', 9],
                        ['delete', f'c/p{i}', None]][i % 3] for i in range(n)]
    # no-op updates count as well
    yield 'no-op updates', n, [['update', f'c/p{i}', i % 2] for i in range(n)]


def fill(w, n):
    for lo in range(0, n, 150):
        w.step(['commit', 0, [['create', f'c/p{i}', i % 2] for i in range(lo, min(n, lo + 150))],
                'held'])


def sized(kind, size):
    """A record whose encoding has exactly size bytes."""
    def rec(n):
        if kind == 'ascii':
            return {'$type': 'x.y.z', 's': 'a' * n}
        if kind == 'unicode':
            return {'$type': 'x.y.z', 's': 'é' * (n // 2) + 'a' * (n % 2)}
        if kind == 'astral':
            return {'$type': 'x.y.z', 's': '\U0001f600' * (n // 4) + 'a' * (n % 4)}
        if kind == 'bytes':
            return {'$type': 'x.y.z', 's': b'x' * n}
        if kind == 'list':
            return {'$type': 'x.y.z', 's': ['a' * 9999] * (n // 10002) + ['b' * (n % 10002)]}
        if kind == 'nested':
            return {'$type': 'x.y.z', 'o': {'p': {'q': 'a' * n}}}
        if kind == 'keys':
            return {'$type': 'x.y.z', 'k' * n: 1}
    n = size - len(ref.encode(rec(0)))
    while len(ref.encode(rec(n))) > size:
        n -= 1
    r = rec(n)
    return r if len(ref.encode(r)) == size else None


KINDS = ['ascii', 'unicode', 'astral', 'bytes', 'list', 'nested', 'keys']


def units(tier, seed):
    q = tier == 'quick'
    out = []
    for backend in ('memory', 'datastore'):
        for i in range(7):
            for n in (0, 1, 199, 200, 201) + (() if backend == 'datastore' and q else (400,)):
                if n > 1 and backend == 'datastore' and q and i in (3, 6):
                    continue
                out.append({'ops': n, 'mix': i, 'backend': backend})
        for k in KINDS:
            out.append({'size': k, 'backend': backend})
        out.append({'paths': True, 'backend': backend})
        out.append({'lists': 'records', 'backend': backend})
        out.append({'lists': 'repos', 'backend': backend})
    out.append({'lists': 'blobs', 'backend': 'datastore'})
    out += [{'mst': n} for n in (255, 256, 257)]
    # slow ones first
    out.sort(key=lambda u: (u.get('backend') != 'datastore', -u.get('ops', 500)))
    return out


def run_ops(unit, ctx):
    n = unit['ops']
    name, pre, ops = list(mixes(n))[unit['mix']]
    w = start(unit['backend'])
    fill(w, pre or 0)
    step(ctx, w, ['commit', 0, ops, 'held'], f'{n} {name}')
    if n > MAX_OPS:
        step(ctx, w, ['commit', 0, ops[:MAX_OPS], 'held'], f'{MAX_OPS} {name} after refusal')
    else:
        # an unrelated operation more
        step(ctx, w, ['commit', 0, [['create', 'c/zz', 1]], 'fresh'], f'1 after {n} {name}')


def run_size(unit, ctx):
    kind = unit['size']
    for size in (MAX_BYTES - 1, MAX_BYTES, MAX_BYTES + 1, MAX_BYTES + 7):
        r = sized(kind, size)
        if r is None:
            ctx.count('impossible_sizes')
            continue
        w = start(unit['backend'])
        step(ctx, w, ['commit', 0, [['create', 0, 1]], 'held'], 'small')
        what = f'{kind} record of {size} bytes'
        step(ctx, w, ['commit', 0, [['create', 1, r]], 'held'], f'create {what}')
        step(ctx, w, ['commit', 0, [['update', 0, r]], 'held'], f'update to {what}')
        step(ctx, w, ['commit', 0, [['create', 'c/c', 1], ['create', 'c/d', r]], 'held'],
             f'batch with {what} last')
        step(ctx, w, ['commit', 0, [['create', 'c/e', r], ['create', 'c/f', 1]], 'held'],
             f'batch with {what} first')
        step(ctx, w, ['commit', 0, [['create', 'c/g', 2]], 'fresh'], 'small after')
        if kind in ('ascii', 'unicode'):
            before = w.snapshot()
            ok, res = xrpc.call(w, 'com.atproto.repo.putRecord', {
                'repo': DIDS[0], 'collection': 'x.y.z', 'rkey': 'big', 'record': r})
            ctx.check(ok == (size <= MAX_BYTES), 'limit: putRecord is wrong about the limit',
                      what_=what, got=repr(res)[:300])
            if not ok:
                ctx.check(w.snapshot() == before, 'limit: refused putRecord changes something',
                          what_=what)


def run_paths(unit, ctx):
    for total in (MAX_KEY - 1, MAX_KEY, MAX_KEY + 1, 2 * MAX_KEY):
        w = start(unit['backend'])
        cuts = sorted({1, 2, 100, 127, 128, 129, 200, total - 3, total - 2})
        if unit['backend'] == 'memory':
            cuts = range(1, total - 1)
        for cut in cuts:
            path = 'c' * cut + '/' + 'k' * (total - 1 - cut)
            assert len(path) == total
            step(ctx, w, ['commit', 0, [['create', path, 1]], 'held'], f'path {total} at {cut}')
            if total <= MAX_KEY:
                step(ctx, w, ['commit', 0, [['update', path, 2]], 'held'], f'path {total} at {cut}')
                step(ctx, w, ['commit', 0, [['delete', path, None]], 'held'], f'path {total} at {cut}')


def run_mst(unit, ctx):
    """Directly on the tree, with keys of every layer."""
    from arroba.storage import MemoryStorage
    from mc.msttools import VALS, cid
    n = unit['mst']
    for cut in range(1, n - 1):
        for fill in 'kx0':
            key = 'c' * cut + '/' + fill * (n - 1 - cut)
            t = arroba.mst.MST.create(storage=MemoryStorage()).add('a/b', cid(VALS[0]))
            try:
                t2 = t.add(key, cid(VALS[1]))
                ok = True
            except ValueError:
                ok = False
            ctx.execution()
            ctx.state()
            ctx.step()
            ctx.check(ok == (n <= MAX_KEY), f'limit: a key of {n} characters is '
                      f'{"accepted" if ok else "refused"}', key=key)
            if ok:
                want = {'a/b': VALS[0], key: VALS[1]}
                ctx.check(bytes(t2.get_pointer()) == ref.build(want)[0], 'wrong tree', key=key)
                ctx.check(bytes(t2.get(key)) == VALS[1], 'wrong value', key=key)


def check_limits(ctx, w, method, lo, hi, default, total, field, **kw):
    for limit in (lo - 1, lo, lo + 1, default - 1, default, default + 1, hi - 1, hi, hi + 1, None):
        args = {'limit': limit} if limit is not None else {}
        ok, res = xrpc.call(w, method, {}, **kw, **args)
        ctx.state()
        ctx.step()
        ctx.execution()
        valid = limit is None or lo <= limit <= hi
        if not ctx.check(ok == valid, f'{method}: limit {limit} is {"accepted" if ok else "refused"}',
                         error=repr(res)[:300]):
            continue
        if ok:
            want = min(total, limit or default)
            ctx.check(len(res[field]) == want, f'{method}: wrong number of results', limit=limit,
                      got=len(res[field]), want=want)
            ctx.check(('cursor' in res) == (want == (limit or default)), f'{method}: wrong cursor',
                      limit=limit)


def run_lists(unit, ctx):
    q = ctx.tier == 'quick'
    kind = unit['lists']
    if kind == 'records':
        for total in (0, 49, 50, 51, 99, 100, 101):
            w = start(unit['backend'])
            fill(w, total)
            # fill uses collection c; the lexicon needs an NSID
            r = w.storage.load_repo(DIDS[0])
            w.storage.commit(r, [env.path_write('create', f'a.b.c/k{i:03}', 1) for i in range(total)])
            check_limits(ctx, w, 'com.atproto.repo.listRecords', 1, 100, 50, total, 'records',
                         repo=DIDS[0], collection='a.b.c')
    elif kind == 'repos':
        n = 1001 if unit['backend'] == 'memory' else 501
        w = start(unit['backend'])
        s = w.storage
        for i in range(n - 1):
            env.create_repo(s, f'did:web:r{i:04}.com', handle=f'r{i}.com')
        check_limits(ctx, w, 'com.atproto.sync.listRepos', 1, 1000, 500, n, 'repos')
    else:
        from arroba.datastore_storage import AtpRemoteBlob, AtpRepo
        n = 1001
        w = start('datastore')
        with w.sys.client.context():
            from google.cloud import ndb
            ndb.put_multi([AtpRemoteBlob(id=f'http://b.com/{i:04}', cid=ref.b32(ref.cid(i)),
                                         repos=[AtpRepo(id=DIDS[0]).key]) for i in range(n)])
        check_limits(ctx, w, 'com.atproto.sync.listBlobs', 1, 1000, 500, n, 'cids', did=DIDS[0])


def run_unit(unit, ctx):
    ctx.sample(unit)
    for k, fn in (('ops', run_ops), ('size', run_size), ('paths', run_paths), ('mst', run_mst),
                  ('lists', run_lists)):
        if k in unit:
            return fn(unit, ctx)


def finalize(total, outcomes, tier):
    if len(outcomes) < 100:
        return 'vacuous exploration'
