"""Histories of storage operations on the real code next to a reference model.

A :class:`World` is a real storage plus a model of what it must contain. ``step(op)``
predicts the outcome, runs the operation on the real code and updates the model.
Checks branch over histories by cloning the world (in-memory backend) or by replaying
(Datastore backend), so every history up to the bound is explored.

Operations (JSON-able):

* ``['create', d]``: Repo.create for DID number d
* ``['commit', d, writes, via]``: writes is a list of [action, key index, value]; via is
  'held' (the client's long-lived Repo object) or 'fresh' (loaded for this operation)
* ``['deactivate'|'activate'|'tombstone', d, via]``
* ``['event', d, type]``: Storage.write_event
* ``['alloc']``: a sequence number that's allocated and never used
* ``['import', n]``: blocks written with seq 0, ie not events
* ``['reload', d]``: the client loads its Repo object again
"""
import copy
import enum
import json

from . import env, ref
from .env import DID, DID2, KEYS, NSID, rec
from arroba.storage import Action, Block, CommitData
from arroba import util

DIDS = ['did:web:a.com', 'did:web:b.com', 'did:web:c.com']
HANDLES = ['han.a', 'han.b', 'han.c']
EV = 'com.atproto.sync.subscribeRepos#'


class CB:
    """Repo callback that records its calls."""
    def __init__(self, log):
        self.log = log
        self.fail = None

    def __call__(self, data=None, lost_seq=None):
        if data is not None:
            self.log.append(('data', data))
        if lost_seq is not None:
            self.log.append(('lost', lost_seq))
        if self.fail and data is not None:
            raise self.fail


_SHARED = (str, bytes, int, bool, type(None), float)


def clone(o, memo):
    t = type(o)
    if t in _SHARED:
        return o
    i = id(o)
    if i in memo:
        return memo[i][1]
    if t is dict:
        n = {}
        memo[i] = (o, n)
        for k, v in o.items():
            n[k] = clone(v, memo)
        return n
    if t is list:
        n = []
        memo[i] = (o, n)
        n.extend(clone(x, memo) for x in o)
        return n
    if t is set:
        return set(o)
    mod = t.__module__
    if isinstance(o, tuple):
        n = (t(*(clone(x, memo) for x in o)) if hasattr(t, '_fields')
             else tuple(clone(x, memo) for x in o))
        memo[i] = (o, n)
        return n
    if isinstance(o, (enum.Enum, type, BaseException)):
        return o
    if t is Block:
        # blocks in storage are shared by reference; attributes never change after they
        # are stored, except for lazily computed ones
        n = object.__new__(t)
        memo[i] = (o, n)
        n.__dict__.update(o.__dict__)
        return n
    if mod.startswith('arroba.') or mod.startswith('mc.') and hasattr(o, '__dict__'):
        n = object.__new__(t)
        memo[i] = (o, n)
        n.__dict__.update({k: clone(v, memo) for k, v in o.__dict__.items()})
        return n
    return o


class RepoModel:
    def __init__(self, did, handle, key):
        self.did, self.handle, self.key = did, handle, key
        self.items = {}      # path => value number
        self.status = None
        self.head = None     # commit CID bytes
        self.data = None     # data root, bytes
        self.rev = None
        self.seq = None
        self.chain = []      # list of commit CID bytes

    def tree(self):
        return {p: ref.cid(val(n)) for p, n in self.items.items()}


class Refused(Exception):
    pass


RECORDS = {}


def val(n):
    """Record value n. Values can also be given as (JSON) objects."""
    if isinstance(n, int):
        return rec(n)
    return n


class World:
    def __init__(self, keys, backend='memory', callback=True):
        self.backend = backend
        self.keys = list(keys)
        self.sys = env.make(backend)
        self.calls = []
        self.cb = CB(self.calls) if callback else None
        self.held = {}          # did number => client's Repo object
        self.seq = 0            # last allocated
        self.repos = {}         # did => RepoModel
        self.log = []           # events, in order: dicts, see _event
        self.stored = {}        # CID bytes => seq it was first stored with
        self.lost = []
        self.hist = []
        self.last = None        # result of the last operation

    @property
    def storage(self):
        return self.sys.storage

    def clone(self):
        if self.backend == 'memory':
            return clone(self, {})
        w = type(self)(self.keys, 'memory', self.cb is not None)
        w.backend = self.backend
        w.sys = env.DS(self.sys.db.snapshot())
        memo = {id(self.sys): (self.sys, w.sys),
                id(self.sys.storage): (self.sys.storage, w.sys.storage)}
        for k, v in self.__dict__.items():
            if k not in ('sys', 'backend', 'keys'):
                setattr(w, k, clone(v, memo))
        return w

    def start_at(self, seq):
        """Makes seq the last allocated sequence number. Only for a new world."""
        assert not self.hist
        if self.backend == 'memory':
            self.storage.sequences.sequences[NSID] = seq + 1
        else:
            from arroba import datastore_storage
            with self.sys.client.context():
                datastore_storage.AtpSequence(id=NSID, next=seq + 1).put()
        self.seq = seq
        return self

    # model

    def _apply_writes(self, m, writes):
        """Returns (new items, ops) or raises Refused."""
        items = dict(m.items)
        ops = []
        for act, k, v in writes:
            path = self.keys[k] if isinstance(k, int) else k
            if act == 'create':
                if path in items:
                    raise Refused(f'{path} exists')
                items[path] = v
                ops.append(('create', path, ref.cid(val(v)), None))
            elif act == 'update':
                if path not in items:
                    raise Refused(f'{path} missing')
                old = ref.cid(val(items[path]))
                new = ref.cid(val(v))
                items[path] = v
                if old != new:
                    ops.append(('update', path, new, old))
            elif act == 'delete':
                if path not in items:
                    raise Refused(f'{path} missing')
                old = ref.cid(val(items.pop(path)))
                ops.append(('delete', path, None, old))
            elif act == 'bad':
                raise Refused('bad write')
        if len(writes) > 200:
            raise Refused('too many')
        return items, ops

    def _store(self, cids, seq):
        new = [c for c in cids if c not in self.stored]
        for c in new:
            self.stored[c] = seq
        return new

    # execution

    def repo(self, d, via):
        did = DIDS[d]
        if via == 'held':
            return self.held[d]
        r = self.storage.load_repo(did)
        if r is not None and r.callback is None:
            r.callback = self.cb
        return r

    def write(self, act, k, v):
        path = self.keys[k] if isinstance(k, int) else k
        coll, rkey = path.split('/', 1)
        a = {'create': Action.CREATE, 'update': Action.UPDATE, 'delete': Action.DELETE}[act]
        if a == Action.DELETE:
            return env.Write(action=a, collection=coll, rkey=rkey)
        return env.Write(action=a, collection=coll, rkey=rkey,
                         record=copy.deepcopy(val(v)))

    def step(self, op):
        """Runs one operation. Returns its result, see the attributes it sets in last.

        last: dict with 'op', 'ok', 'expect' (bool), 'error', 'result', 'calls', 'seqs'
        (sequence numbers it must have used), 'event' (model event or None)
        """
        self.hist.append(op)
        env.TICK = len(self.hist)
        self.time = env.now().isoformat()
        del self.calls[:]
        out = {'op': op, 'expect': True, 'event': None, 'events': [], 'seqs': [],
               'error': None, 'result': None, 'obj': None}
        kind = op[0]
        getattr(self, '_do_' + kind)(op, out)
        out['calls'] = list(self.calls)
        out['ok'] = out['error'] is None
        self.last = out
        return out

    def _run(self, out, fn):
        try:
            out['result'] = fn()
        except (Exception, AssertionError) as e:
            out['error'] = e

    def _next(self, out):
        self.seq += 1
        out['seqs'].append(self.seq)
        return self.seq

    def _add_event(self, out, e):
        e['time'] = self.time
        self.log.append(e)
        out['events'].append(e)

    def _commit_event(self, out, m, seq, commit_cid, items, ops, records):
        """Updates the model with a new commit. Its CID comes from the implementation,
        since it depends on the random signature. Its contents are checked by checks."""
        root, nodes = ref.build({p: ref.cid(val(n)) for p, n in items.items()})
        rec_cids = [ref.cid(val(n)) for n in records]
        new_nodes = [c for c in nodes if c not in self.stored]
        new = self._store(rec_cids + new_nodes + [commit_cid], seq)
        blocks = set(new) | {commit_cid, root} | {o[2] for o in ops if o[2]}
        e = {'kind': 'commit', 'seq': seq, 'did': m.did, 'cid': commit_cid, 'ops': ops,
             'prev': m.head, 'prev_data': m.data, 'data': root, 'rev': env.rev_of(seq),
             'blocks': blocks, 'items': dict(items)}
        m.items, m.head, m.data, m.seq, m.rev = items, commit_cid, root, seq, e['rev']
        m.chain = m.chain + [commit_cid]
        self._add_event(out, e)
        out['event'] = e

    def _do_create(self, op, out):
        d = op[1]
        did, key = DIDS[d], KEYS[d]
        handle = (op[2] if len(op) > 2 else HANDLES[d]) or None
        assert did not in self.repos
        def fn():
            return env.Repo.create(self.storage, did, handle=handle, signing_key=key,
                                   rotation_key=KEYS[3], callback=self.cb)
        self._run(out, fn)
        if out['error']:
            return
        r = self.held[d] = out['result']
        out['obj'] = r
        m = self.repos[did] = RepoModel(did, handle, d)
        self._commit_event(out, m, self._next(out), bytes(r.head.cid), {}, [], [])
        for t, extra in (('identity', {'handle': handle} if handle else {}), ('account', {'active': True}),
                         ('sync', None)):
            e = {'kind': t, 'seq': self._next(out), 'did': did, 'extra': extra}
            if t == 'sync':
                e['head'] = m.head
                e['rev'] = m.rev
            self._add_event(out, e)

    def _do_commit(self, op, out):
        _, d, writes, via = op
        did = DIDS[d]
        m = self.repos[did]
        repo = self.repo(d, via)
        out['obj'] = repo
        stale_status = repo.status
        seq = self._next(out)
        try:
            if m.status or stale_status:
                raise Refused('inactive')
            items, ops = self._apply_writes(m, writes)
        except Refused as e:
            out['expect'] = False
            out['why'] = str(e)
        ws = [self.write(*w) for w in writes]
        self._run(out, lambda: self.storage.commit(repo, ws))
        if out['error'] is None and out['expect']:
            self._commit_event(out, m, seq, bytes(out['result'].commit.cid), items, ops,
                               [w[2] for w in writes if w[0] != 'delete'])
        else:
            self.lost.append(seq)

    def _status(self, op, out, new, kind, extra):
        d, via = op[1], op[2]
        m = self.repos[DIDS[d]]
        repo = self.repo(d, via)
        out['obj'] = repo
        fn = getattr(self.storage, op[0] + '_repo')
        noop = op[0] == 'activate' and 'tombstoned' in (m.status, repo.status)
        self._run(out, lambda: fn(repo))
        if out['error'] is None and not noop:
            m.status = new
            self._add_event(out, {'kind': kind, 'seq': self._next(out), 'did': m.did,
                                  'extra': extra})

    def _do_deactivate(self, op, out):
        self._status(op, out, 'deactivated', 'account',
                     {'active': False, 'status': 'deactivated'})

    def _do_activate(self, op, out):
        self._status(op, out, None, 'account', {'active': True})

    def _do_tombstone(self, op, out):
        self._status(op, out, 'tombstoned', 'tombstone', {})

    def _do_event(self, op, out):
        d, typ = op[1], op[2]
        m = self.repos[DIDS[d]]
        repo = self.held[d]
        out['obj'] = repo
        extra = {'identity': {'handle': 'new.handle'},
                 'account': {'active': True},
                 'sync': {'rev': 'x', 'blocks': b'abc'}, 'tombstone': {}}[typ]
        self._run(out, lambda: self.storage.write_event(repo, typ, **extra))
        if out['error'] is None:
            self._add_event(out, {'kind': typ, 'seq': self._next(out), 'did': m.did,
                                  'extra': extra})

    def _do_alloc(self, op, out):
        self._run(out, lambda: self.storage.sequences.allocate(NSID))
        self.lost.append(self._next(out))

    def _do_import(self, op, out):
        blocks = [Block(decoded={'imported': op[1], 'i': i}, seq=0, repo=DIDS[2])
                  for i in range(2)]
        self._run(out, lambda: self.storage.write_blocks(blocks))
        self._store([bytes(b.cid) for b in blocks], 0)

    def _do_reload(self, op, out):
        d = op[1]
        self._run(out, lambda: self.storage.load_repo(DIDS[d]))
        if out['error'] is None:
            r = out['result']
            r.callback = self.cb
            self.held[d] = r

    # observation

    def snapshot(self):
        """Everything observable in storage: repos and blocks."""
        if self.backend == 'datastore':
            return {'entities': {k: e.SerializeToString(deterministic=True)
                                 for k, (e, v) in self.sys.db.entities.items()
                                 if k[-1][0] != 'AtpSequence'}}
        s = self.storage
        return {
            'repos': {d: obj_state(r) for d, r in s.repos.items()},
            'blocks': {bytes(c): (b.encoded, b.seq, b.repo,
                                  tuple(env.op_of(o) for o in b.ops or ()))
                       for c, b in s.blocks.items()},
        }

    def raw(self):
        """CID bytes => stored bytes."""
        if self.backend == 'datastore':
            out = {}
            for k, (e, v) in self.sys.db.entities.items():
                if k[-1][0] == 'AtpBlock':
                    out[ref.unb32(k[-1][1])] = e.properties['encoded'].blob_value
            return out
        return {bytes(c): b.encoded for c, b in self.storage.blocks.items()}

    def last_seq(self):
        return self.storage.sequences.last(NSID)


def obj_state(r):
    """State of a Repo object: head, tree root, listing, status, handle."""
    if r is None:
        return None
    return (bytes(r.head.cid) if r.head else None, bytes(r.mst.get_pointer()),
            tuple((e.key, bytes(e.value)) for e in r.mst.list()),
            r.status, r.handle, r.did)


def check_event(ctx, got, want, hist, what='event'):
    """Compares an event from the log with the model's. Returns an error or None."""
    if want['kind'] == 'commit':
        if not isinstance(got, CommitData):
            return f'{what}: expected a commit, got {type(got).__name__}'
        c = got.commit
        if bytes(c.cid) != want['cid']:
            return f'{what}: wrong commit'
        if c.seq != want['seq']:
            return f'{what}: wrong seq {c.seq}, expected {want["seq"]}'
        ops = [env.op_of(o) for o in c.ops or []]
        if ops != want['ops']:
            return f'{what}: wrong ops {ops}, expected {want["ops"]}'
        if env.cidb(got.prev) != want['prev']:
            return f'{what}: wrong prev'
        have = {bytes(k) for k in got.blocks}
        if have != want['blocks']:
            return (f'{what}: wrong blocks: missing '
                    f'{[ref.b32(x) for x in want["blocks"] - have]}, extra '
                    f'{[ref.b32(x) for x in have - want["blocks"]]}')
        for k, b in got.blocks.items():
            if ref.cid_of(b.encoded) != bytes(k) or bytes(b.cid) != bytes(k):
                return f'{what}: block does not match its CID'
        return None
    if not isinstance(got, dict):
        return f'{what}: expected a {want["kind"]} event, got {type(got).__name__}'
    got = dict(got)
    if got.pop('$type', None) != EV + want['kind']:
        return f'{what}: wrong type'
    if got.pop('seq', None) != want['seq']:
        return f'{what}: wrong seq'
    if got.pop('did', None) != want['did']:
        return f'{what}: wrong DID'
    got.pop('time', None)
    if want['extra'] is not None:
        if got != want['extra']:
            return f'{what}: wrong fields {got}, expected {want["extra"]}'
    else:
        if got.get('rev') != want['rev'] or set(got) != {'rev', 'blocks'}:
            return f'{what}: wrong fields {sorted(got)}'
        roots, blocks = ref.read_car(got['blocks'])
        if roots != [want['head']] or want['head'] not in dict(blocks):
            return f'{what}: wrong commit in sync event'
    return None


def explore(ctx, world, menu, depth, on_step, ctxmgr=None):
    """Explores every history of up to depth operations.

    Args:
      menu (callable): world => list of operations
      on_step (callable): (world before (or None), world after)
    """
    if ctx.expired():
        return
    ops = menu(world)
    for i, op in enumerate(ops):
        w = world.clone()
        on_step(w, op)
        ctx.step()
        ctx.state()
        if depth > 1:
            explore(ctx, w, menu, depth - 1, on_step)
        else:
            ctx.execution()
