"""P11: account lifecycle."""
from mc import env, ref, xrpc
from mc.hist import DIDS, HANDLES, World, check_event, explore, val

ID = 'P11'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of account lifecycle histories on both real storages and '
             'the real XRPC methods against a reference status machine')
RULE = ('every sequence up to the depth bound of deactivate, activate, tombstone and commits, each '
        "through the client's current, stale or freshly loaded repo object, and of XRPC writes, from an active, deactivated, tombstoned or deleted repo; in "
        'each state the stored status, records, blocks and events, and the answers of all XRPC reads')
ASSUMPTIONS = ['histories are sequential (concurrent deactivation is P09)',
               'activating a tombstoned repo does nothing, as documented; deactivating a tombstoned '
               'repo makes it deactivated',
               'Datastore histories run on the in-process model of Datastore']

XW = 'c'


def menu_for(unit):
    def menu(w):
        m = w.repos[DIDS[0]]
        ops = []
        vias = ['held', 'fresh'] + (['stale'] if w.backend == 'datastore' else [])
        for via in vias:
            for k in ('deactivate', 'activate', 'tombstone'):
                ops.append([k, 0, via])
            path = w.keys[0]
            ops.append(['commit', 0, [['update', 0, 1 - m.items[path]] if path in m.items
                                      else ['create', 0, 0]], via])
        ops.append(['commit', 0, [], 'held'])
        ops.append(['x', 0, 'put', 1])
        if w.keys[1] in m.items:
            ops.append(['x', 0, 'delete', 1])
        else:
            ops.append(['x', 0, 'create', 1])
        ops.append(['deactivate', 1, 'held'] if not w.repos[DIDS[1]].status
                   else ['activate', 1, 'held'])
        if w.backend == 'datastore':
            ops.append(['reload', 0])
        return ops
    return menu


class LW(World):
    """World with a second client whose repo object is never reloaded."""
    def repo(self, d, via):
        if via == 'stale':
            return self.stale[d]
        return super().repo(d, via)

    def _do_x(self, op, out):
        """XRPC write."""
        _, d, kind, k = op
        m = self.repos[DIDS[d]]
        coll, rkey = self.keys[k].split('/')
        v = len(self.hist)
        inp = {'repo': DIDS[d], 'collection': coll, 'rkey': rkey}
        if kind != 'delete':
            inp['record'] = val(v)
        nsid = f'com.atproto.repo.{kind}Record'
        ok, res = xrpc.call(self, nsid, inp)
        out['x'] = (ok, res)
        out['expect'] = not m.status
        if not ok:
            out['error'] = res
            return
        if m.status:
            return
        out['error'] = None
        r = self.storage.load_repo(DIDS[d])
        old = m.items.get(self.keys[k])
        seq = self._next(out)
        c = ref.cid(val(v)) if kind != 'delete' else None
        items = dict(m.items)
        if kind == 'delete':
            items.pop(self.keys[k])
            ops = [('delete', self.keys[k], None, ref.cid(val(old)))]
        else:
            items[self.keys[k]] = v
            ops = [('create' if old is None else 'update', self.keys[k], c,
                    ref.cid(val(old)) if old is not None else None)]
        self._commit_event(out, m, seq, bytes(r.head.cid), items, ops,
                           [v] if kind != 'delete' else [])

    def _do_mark(self, op, out):
        """Stores a status with store_repo, eg 'deleted', which has no operation of its own."""
        _, d, status = op
        repo = out['obj'] = self.storage.load_repo(DIDS[d])

        def go():
            repo.status = status
            self.storage.store_repo(repo)
        self._run(out, go)
        if out['error'] is None:
            self.repos[DIDS[d]].status = status


def start(unit, seed):
    w = LW(ref.keys_for([0, 1], seed, coll='c.d.e'), backend=unit['backend'])
    w.stale = {}
    w.step(['create', 0])
    w.step(['commit', 0, [['create', 0, 0]], 'held'])
    w.step(['create', 1])
    w.stale[0] = w.storage.load_repo(DIDS[0])
    if unit['backend'] == 'datastore':
        w.stale[0].callback = w.cb
    for op in unit.get('pre', []):
        w.step(op)
    return w


READS = [
    ('com.atproto.sync.getRepo', {'did': 0}),
    ('com.atproto.sync.getCheckout', {'did': 0}),
    ('com.atproto.sync.getHead', {'did': 0}),
    ('com.atproto.sync.getLatestCommit', {'did': 0}),
    ('com.atproto.sync.getBlocks', {'did': 0, 'cids': []}),
    ('com.atproto.sync.getRecord', {'did': 0, 'collection': 1, 'rkey': 2}),
    ('com.atproto.repo.getRecord', {'repo': 0, 'collection': 1, 'rkey': 2}),
    ('com.atproto.repo.listRecords', {'repo': 0, 'collection': 1}),
    ('com.atproto.repo.describeRepo', {'repo': 0}),
]


def check_reads(ctx, w):
    coll, rkey = w.keys[0].split('/')
    for d in (0, 1, None):
        did = DIDS[d] if d is not None else 'did:web:nobody.com'
        m = w.repos.get(did)
        for nsid, params in READS:
            p = {k: {0: did, 1: coll, 2: rkey}.get(v, v) if not isinstance(v, list) else v
                 for k, v in params.items()}
            ok, res = xrpc.call(w, nsid, {}, **p)
            ctx.count('xrpc_calls')
            if m is None:
                ctx.check(not ok and xrpc.err_name(res) == 'RepoNotFound',
                          f'{nsid}: unknown repo does not give RepoNotFound', history=w.hist,
                          got=repr(res))
            elif m.status:
                ctx.check(not ok and xrpc.err_name(res) == 'RepoDeactivated',
                          f'{nsid}: an inactive repo does not give RepoDeactivated',
                          history=w.hist, got=repr(res), status=m.status)
            elif 'getRecord' in nsid and w.keys[0] not in m.items:
                ctx.check(not ok and xrpc.err_name(res) == 'RecordNotFound',
                          f'{nsid}: wrong answer', history=w.hist, got=repr(res))
            else:
                ctx.check(ok, f'{nsid}: fails for an active repo', history=w.hist, got=repr(res))
        ok, res = xrpc.call(w, 'com.atproto.sync.getRepoStatus', {}, did=did)
        if m is None:
            ctx.check(not ok, 'getRepoStatus of an unknown repo succeeds', history=w.hist)
        elif ctx.check(ok, 'getRepoStatus fails', history=w.hist, error=repr(res)):
            want = ({'did': did, 'active': True} if not m.status else
                    {'did': did, 'active': False, 'status': 'deactivated'})
            ctx.check(res == want, 'getRepoStatus: wrong status', history=w.hist, got=res,
                      want=want)
    ok, res = xrpc.call(w, 'com.atproto.sync.listRepos', {})
    if ctx.check(ok, 'listRepos fails', history=w.hist, error=repr(res)):
        got = {r['did']: (r['active'], r.get('status')) for r in res['repos']}
        want = {d: (not m.status, {'tombstoned': 'deactivated'}.get(m.status, m.status))
                for d, m in w.repos.items()}
        ctx.check(got == want, 'listRepos: wrong status', history=w.hist, got=got, want=want)


def check_storage(ctx, w):
    for did, m in w.repos.items():
        for by in (did, m.handle):
            r = w.storage.load_repo(by)
            if not ctx.check(r is not None, 'a repo is gone', history=w.hist):
                return
            ctx.check(r.status == m.status, 'wrong stored status', history=w.hist, got=r.status,
                      want=m.status)
            ctx.check(bytes(r.head.cid) == m.head, 'wrong stored head', history=w.hist)
        have = {e.key: bytes(e.value) for e in r.mst.list()}
        ctx.check(have == m.tree(), 'wrong records', history=w.hist)
        for k, v in m.items.items():
            rec = r.get_record(*k.split('/'))
            ctx.check(rec is not None and ref.cid(rec) == ref.cid(val(v)), 'wrong record',
                      history=w.hist)
    raw = w.raw()
    ctx.check(all(c in raw and ref.cid_of(raw[c]) == c for c in w.stored),
              'a stored block is gone', history=w.hist)
    got = list(w.storage.read_events_by_seq())
    if ctx.check(len(got) == len(w.log), 'wrong number of events', history=w.hist,
                 got=len(got), want=len(w.log)):
        for g, e in zip(got, w.log):
            err = check_event(ctx, g, e, w.hist)
            ctx.check(err is None, err or '', history=w.hist, seq=e['seq'])


def units(tier, seed):
    q = tier == 'quick'
    out = []
    pres = [[], [['deactivate', 0, 'held']], [['tombstone', 0, 'held']], [['mark', 0, 'deleted']]]
    for backend, depth in (('memory', 2 if q else 3), ('datastore', 2)):
        for pre in pres:
            u = {'backend': backend, 'pre': pre, 'depth': depth}
            if backend == 'datastore' and not q:
                u['depth'] = 3
            n = len(menu_for(u)(start(u, seed)))
            out += [{**u, 'first': i} for i in range(n)]
    return out


def run_unit(unit, ctx):
    w = start(unit, ctx.seed)
    menu = menu_for(unit)
    reads_every = [0]

    def on_step(w, op):
        before = w.repos[DIDS[op[1]]].status
        b4 = w.snapshot() if before else None
        nlog = len(w.log)
        r = w.step(op)
        if op[0] in ('commit', 'x'):
            ctx.check(r['ok'] == r['expect'], f'{op[0]} on a repo with status {before}: '
                      + ('succeeds' if r['ok'] else 'is refused'), history=w.hist,
                      error=repr(r['error']))
            if before:
                ctx.check(w.snapshot() == b4, 'a write to an inactive repo changes something',
                          history=w.hist)
                if op[0] == 'x':
                    ctx.check(xrpc.err_name(r['error']) == 'RepoDeactivated',
                              'an XRPC write to an inactive repo gives another error',
                              history=w.hist, got=repr(r['error']))
                else:
                    ctx.check(type(r['error']).__name__ == 'InactiveRepo',
                              'a commit to an inactive repo gives another error',
                              history=w.hist, got=repr(r['error']))
                    ctx.check(not any(c[0] == 'data' for c in r['calls']),
                              'a refused commit was announced', history=w.hist)
        elif op[0] != 'reload':
            ctx.check(r['ok'], f'{op[0]} fails', history=w.hist, error=repr(r['error']))
            news = w.log[nlog:]
            data = [c[1] for c in r['calls'] if c[0] == 'data']
            if ctx.check(len(data) == len(news), f'{op[0]}: callback called {len(data)} times for '
                         f'{len(news)} events', history=w.hist) and news:
                err = check_event(ctx, data[0], news[0], w.hist, 'callback')
                ctx.check(err is None, err or '', history=w.hist)
            if r['obj'] is not None and news:
                ctx.check(r['obj'].status == w.repos[DIDS[op[1]]].status, "the repo object's status is wrong",
                          history=w.hist)
        check_storage(ctx, w)
        reads_every[0] += 1
        check_reads(ctx, w)
        ctx.outcome([[(m.status, sorted(m.items.items())) for m in w.repos.values()], len(w.log)])

    op = menu(w)[unit['first']]
    on_step(w, op)
    ctx.step()
    ctx.state()
    if unit['depth'] > 1:
        explore(ctx, w, menu, unit['depth'] - 1, on_step)
    ctx.sample({'unit': unit, 'history': w.hist})


def finalize(total, outcomes, tier):
    if total['xrpc_calls'] < 5000 or len(outcomes) < 30:
        return 'vacuous exploration'
