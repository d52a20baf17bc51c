"""P10: both storages are the same simple store of repos and blocks."""
import itertools

from multiformats import CID

from mc import env, ref
from mc.hist import DIDS, clone
from mc.env import KEYS, NSID
from arroba import util
from arroba.storage import Block

HANDLES = ['han.a', 'Han.B', 'han.c']   # handles are stored as they are given

ID = 'P10'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of storage operation sequences on both real storages in '
             'lockstep with a dictionary model; every read operation is compared in every state')
RULE = ('every sequence, up to the depth bound, of repo creation, handle change, status change, '
        'commit, single block writes and batched block writes (new, duplicate and rewritten blocks, '
        'with given, allocated and zero sequence numbers) over two to three repos and four blocks; '
        'in each state every repo lookup, repo listing, block read and multi-block read')
ASSUMPTIONS = ['handles are unique, as the protocol requires',
               'histories are sequential',
               "Block.repo is a Datastore key on the Datastore backend, which the repo's tests "
               'require; it is compared by DID',
               'read_many_raw answers for a missing block with None or by leaving it out (the docs '
               "and the repo's tests disagree)",
               'the Datastore backend runs on the in-process model of Datastore']

OBJS = [{'b': i, 'pad': 'x' * i} for i in range(4)]
CIDS = [CID.decode(ref.cid(o)) for o in OBJS]
NEVER = CID.decode(ref.cid({'never': 'stored'}))
REPOS = DIDS[:3]


class W:
    """A storage and its model."""
    def __init__(self, backend, page=None, defer=None):
        self.sys = env.make(backend)
        self.backend, self.page, self.defer = backend, page, defer
        self.tune()
        self.repos = {}    # did => {'handle', 'status', 'head', 'rev', 'items'}
        self.blocks = {}   # CID bytes => (encoded, seq, repo did)
        self.seq = 0
        self.hist = []

    def tune(self):
        if self.backend == 'datastore':
            self.sys.client.stub.page = self.page
            self.sys.client.stub.defer = self.defer

    @property
    def s(self):
        return self.sys.storage

    def clone(self):
        w = W.__new__(W)
        w.backend, w.page, w.defer, w.seq = self.backend, self.page, self.defer, self.seq
        w.sys = (clone(self.sys, {}) if self.backend == 'memory'
                 else env.DS(self.sys.db.snapshot()))
        w.tune()
        w.repos = {d: {**m, 'items': dict(m['items'])} for d, m in self.repos.items()}
        w.blocks = dict(self.blocks)
        w.hist = list(self.hist)
        return w

    def put(self, obj, seq, did):
        e = ref.encode(obj)
        self.blocks.setdefault(ref.cid_of(e), (e, seq, did))

    def step(self, op):
        self.hist.append(op)
        k = op[0]
        s = self.s
        if k == 'create':
            did = REPOS[op[1]]
            r = env.Repo.create(s, did, handle=HANDLES[op[1]], signing_key=KEYS[op[1]],
                                rotation_key=KEYS[3] if op[1] != 1 else None)
            self.repos[did] = {'handle': HANDLES[op[1]], 'status': None, 'head': r.head,
                               'items': {}}
            self.sync_blocks()
            self.seq += 4
        elif k == 'handle':
            did = REPOS[op[1]]
            r = s.load_repo(did)
            r.handle = op[2]
            s.store_repo(r)
            self.repos[did]['handle'] = op[2]
        elif k == 'status':
            did = REPOS[op[1]]
            r = s.load_repo(did)
            s._set_repo_status(r, op[2])
            self.repos[did]['status'] = op[2]
        elif k == 'commit':
            did = REPOS[op[1]]
            r = s.load_repo(did)
            path = f'c/k{op[2]}'
            s.commit(r, [env.path_write('create', path, op[2])])
            self.repos[did]['head'] = r.head
            self.repos[did]['items'][path] = op[2]
            self.sync_blocks()
            self.seq += 1
        elif k == 'write':
            _, b, d, seq = op
            got = s.write(REPOS[d], OBJS[b], seq=seq)
            if seq is None:
                self.seq += 1
                seq = self.seq
            self.put(OBJS[b], seq, REPOS[d])
            return got
        elif k == 'write_blocks':
            _, bs, d, seq = op
            s.write_blocks([Block(decoded=dict(OBJS[b]), seq=seq, repo=REPOS[d]) for b in bs])
            for b in bs:
                self.put(OBJS[b], seq, REPOS[d])
        elif k == 'reopen':
            self.sys.reopen()
            self.tune()
        return None

    def sync_blocks(self):
        """The blocks of commits and events: P06, P13 and P17 check which ones these are.
        Here they are only checked to be stable from then on."""
        for b in self.s.read_blocks_by_seq(start=0):
            self.blocks.setdefault(bytes(b.cid), (b.encoded, b.seq, did_of(b.repo)))


def did_of(repo):
    return repo if repo is None or isinstance(repo, str) else repo.id()


def menu(w, wide):
    ops = []
    for d in range(2 if not wide else 3):
        did = REPOS[d]
        if did not in w.repos:
            if d == 0 or REPOS[0] in w.repos or wide:
                ops.append(['create', d])
            continue
        m = w.repos[did]
        ops.append(['handle', d, 'new.handle' if m['handle'] != 'new.handle' and
                    not any(x['handle'] == 'new.handle' for x in w.repos.values())
                    else HANDLES[d] if m['handle'] != HANDLES[d] else None])
        if m['handle'] is not None:
            ops.append(['handle', d, None])
        ops.append(['status', d, ('deactivated', 'deleted', 'tombstoned')[d]
                    if not m['status'] else None])
        if not m['status']:
            ops.append(['commit', d, len(m['items'])])
    for b in range(2):
        for d in range(2):
            ops.append(['write', b, d, None])
    # the sequence number of an existing block never changes
    ops.append(['write', 0, 0, max(w.seq, 1)])
    ops.append(['write_blocks', [0, 1], 1, max(w.seq - 1, 1)])
    ops.append(['write_blocks', [2, 2, 0], 0, 0])
    if wide:
        ops.append(['write_blocks', [3], 0, max(w.seq, 1)])
        ops.append(['write_blocks', [], 0, 1])
    if w.backend == 'datastore':
        ops.append(['reopen'])
    return ops


def check_repo(ctx, w, r, did, minimal=False):
    m = w.repos[did]
    h = w.hist
    if not ctx.check(r is not None, 'a stored repo is not found', history=h, did=did):
        return
    ctx.check(r.did == did, 'another repo is returned', history=h, want=did, got=r.did)
    ctx.check(bytes(r.head.cid) == bytes(m['head'].cid) and r.head.encoded == m['head'].encoded
              and r.head.seq == m['head'].seq, 'wrong head', history=h, did=did)
    ctx.check(r.status == m['status'], 'wrong status', history=h, did=did, got=r.status)
    if not minimal:
        ctx.check(r.handle == m['handle'], 'wrong handle', history=h, did=did, got=r.handle)
        have = {e.key: bytes(e.value) for e in r.mst.list()}
        want = {p: env.rec_cid(n) for p, n in m['items'].items()}
        ctx.check(have == want, 'wrong records', history=h, did=did)
        d = REPOS.index(did)
        ctx.check(r.signing_key.private_numbers() == KEYS[d].private_numbers(),
                  'wrong signing key', history=h, did=did)
        rk = r.rotation_key and r.rotation_key.private_numbers()
        ctx.check(rk == (None if d == 1 else KEYS[3].private_numbers()), 'wrong rotation key',
                  history=h, did=did)
    ctx.count('repo_reads')


def check_all(ctx, w, deep):
    s, h = w.s, w.hist
    # repos
    for d, did in enumerate(REPOS):
        r = s.load_repo(did)
        if did in w.repos:
            check_repo(ctx, w, r, did)
        else:
            ctx.check(r is None, 'a repo that was never stored is found', history=h, did=did)
    for hd in HANDLES + ['new.handle', 'unknown.handle']:
        owner = [did for did, m in w.repos.items() if m['handle'] == hd]
        r = s.load_repo(hd)
        if owner:
            check_repo(ctx, w, r, owner[0])
        else:
            ctx.check(r is None, 'a repo is found by a handle that it does not have', history=h,
                      handle=hd, got=r and r.did)
    alldids = sorted(w.repos)
    for after in ((None, *REPOS, 'did:a', 'did:web:aa', 'did:z') if deep
                  else (None, REPOS[0])):
        for limit in (1, 2, 500) if deep else (2,):
            for minimal in (False, True):
                got = list(s.load_repos(after=after, limit=limit, minimal=minimal))
                want = [x for x in alldids if after is None or x > after][:limit]
                if ctx.check([r.did for r in got] == want, 'wrong repo listing', history=h,
                             after=after, limit=limit, got=[r.did for r in got], want=want):
                    for r, did in zip(got, want):
                        check_repo(ctx, w, r, did, minimal)
    # blocks
    pool = CIDS + [NEVER] + [CID.decode(c) for c in list(w.blocks)[:2]]
    for c in pool:
        want = w.blocks.get(bytes(c))
        b = s.read(c)
        check_block(ctx, w, c, b, want, 'read')
        ctx.check(bool(s.has(c)) == (want is not None), 'has is wrong', history=h)
    subs = [pool, pool[::-1], [], [NEVER], CIDS[:2] + CIDS[:1]]
    if deep:
        subs += [list(x) for n in (1, 2) for x in itertools.combinations(pool[:5], n)]
    for sub in subs:
        got = s.read_many(c for c in sub)
        ctx.check(set(got) == set(sub), 'read_many does not answer for exactly the given CIDs',
                  history=h)
        for c in sub:
            check_block(ctx, w, c, got[c], w.blocks.get(bytes(c)), 'read_many')
        raw = s.read_many_raw([bytes(c) for c in sub])
        ctx.check(set(raw) <= {bytes(c) for c in sub}, 'read_many_raw returns other CIDs', history=h)
        for c in sub:
            want = w.blocks.get(bytes(c))
            g = raw.get(bytes(c))
            ctx.check(g == (want and want[:2]), 'read_many_raw returns something else', history=h,
                      got=repr(g), want=repr(want))
    for start in (0, 1, w.seq, w.seq + 5):
        for did in (None, REPOS[0], REPOS[1]):
            got = [(b.seq, bytes(b.cid)) for b in s.read_blocks_by_seq(start=start, repo=did)]
            want = [(v[1], c) for c, v in w.blocks.items()
                    if v[1] >= start and did in (None, v[2])]
            ctx.check([x[0] for x in got] == sorted(x[0] for x in want),
                      'read_blocks_by_seq is not in order or incomplete', history=h, start=start,
                      repo=did)
            ctx.check(sorted(got) == sorted(want), 'read_blocks_by_seq returns the wrong blocks',
                      history=h, start=start, repo=did)
    ctx.count('states_compared')


def check_block(ctx, w, c, b, want, what):
    if want is None:
        ctx.check(b is None, f'{what}: a block that was never stored is returned', history=w.hist)
        return
    if not ctx.check(b is not None, f'{what}: a stored block is missing', history=w.hist):
        return
    ctx.check(bytes(b.cid) == bytes(c) and b.encoded == want[0]
              and ref.encode(b.decoded) == want[0], f'{what}: wrong block', history=w.hist)
    ctx.check(b.seq == want[1], f'{what}: wrong seq', history=w.hist, got=b.seq, want=want[1])
    ctx.check(did_of(b.repo) == want[2], f'{what}: wrong repo', history=w.hist,
              got=did_of(b.repo), want=want[2])


def build(unit, ops):
    w = W(unit['backend'], unit.get('page'), unit.get('defer'))
    for op in ops:
        w.step(op)
    return w


def units(tier, seed):
    q = tier == 'quick'
    out = []
    pre = [[], [['create', 0]], [['create', 1], ['create', 0]]]
    for backend in ('memory', 'datastore'):
        for p in pre:
            for wide in (False, True):
                depth = 2 if (q or (wide and backend == 'datastore')) else 3
                u = {'backend': backend, 'pre': p, 'wide': wide, 'depth': depth}
                if backend == 'datastore':
                    u.update({'page': 2, 'defer': 2} if wide else {})
                n = len(menu(build(u, p), wide))
                out += [{**u, 'first': i} for i in range(n)]
    out += [{'special': 'bulk', 'backend': b} for b in ('memory', 'datastore')]
    return out


def run_unit(unit, ctx):
    if unit.get('special'):
        return run_bulk(unit, ctx)

    def rec(w0, depth, first=None):
        m = menu(w0, unit['wide'])
        for i, op in enumerate(m):
            if first is not None and i != first:
                continue
            if ctx.expired():
                return
            w = w0.clone()
            res = w.step(op)
            ctx.step()
            ctx.state()
            if op[0] == 'write':
                b = OBJS[op[1]]
                ctx.check(bytes(res.cid) == bytes(CIDS[op[1]]) and res.encoded == ref.encode(b),
                          'write returns another block', history=w.hist)
            check_all(ctx, w, depth > 1)
            ctx.outcome([sorted((k, v['handle'], v['status'], len(v['items']))
                                for k, v in w.repos.items()),
                         sorted((ref.b32(k), v[1:]) for k, v in w.blocks.items()
                                if CID.decode(k) in CIDS)])
            if depth > 1:
                rec(w, depth - 1)
            else:
                ctx.execution()
    if unit['first'] == 0:
        check_all(ctx, build(unit, unit['pre']), True)
    rec(build(unit, unit['pre']), unit['depth'], unit['first'])
    ctx.sample(unit)


def run_bulk(unit, ctx):
    """Reads of more blocks than fit in one request."""
    w = W(unit['backend'])
    objs = [{'bulk': i} for i in range(2101)]
    w.s.write_blocks([Block(decoded=o, seq=9, repo=REPOS[0]) for o in objs])
    cids = [CID.decode(ref.cid(o)) for o in objs]
    for n in (999, 1000, 1001, 2000, 2001, 2101):
        for defer in (None, 300) if unit['backend'] == 'datastore' else (None,):
            w.defer = defer
            w.tune()
            raw = w.s.read_many_raw([bytes(c) for c in cids[:n]])
            ctx.check({k: v for k, v in raw.items() if v} ==
                      {bytes(c): (ref.encode(o), 9) for c, o in zip(cids[:n], objs)},
                      'read_many_raw of many blocks is incomplete', n=n, defer=defer)
            ctx.step()
            ctx.state()
    w.defer = None
    w.tune()
    got = w.s.read_many(cids[:1500] + [NEVER])
    ctx.check(len(got) == 1501 and got[NEVER] is None and
              all(got[c].encoded == ref.encode(o) for c, o in zip(cids[:1500], objs)),
              'read_many of many blocks is incomplete')
    ctx.execution()


def finalize(total, outcomes, tier):
    if total['states_compared'] < 500 or len(outcomes) < 50:
        return 'vacuous exploration'
