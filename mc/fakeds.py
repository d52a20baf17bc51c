"""In-process model of Firestore in Datastore mode, behind ndb's gRPC stub.

ndb (the real library) talks to :class:`FakeStub` instead of a gRPC transport. Every
request is one atomic step, so a scheduler can interleave processes at request
granularity and a fault injector can fail or crash at each request. Transactions are
serializable: reads come from the snapshot at the transaction's start, and a commit
aborts if any entity read (or query result) has changed since (optimistic concurrency,
as documented for Datastore mode).
"""
import functools
import threading

import google.api_core.exceptions as gexc
from google.cloud.datastore_v1.types import datastore as dst
from google.cloud.datastore_v1.types import entity as ent
from google.cloud.datastore_v1.types import query as qry

NON_TX = dst.CommitRequest.Mode.NON_TRANSACTIONAL


class Crash(BaseException):
    """The process died at this request."""


class DB:
    """Stored entities and open transactions."""
    def __init__(self):
        self.entities = {}   # key tuple => (Entity pb, version)
        self.version = 0
        self.txs = {}        # tx id => Tx
        self.next_tx = 1
        self.next_id = 1000
        self.lock = threading.Lock()  # only matters outside the schedulers

    def snapshot(self):
        """A deep enough copy: entity protobufs are never mutated in place."""
        db = DB()
        db.entities = dict(self.entities)
        db.version = self.version
        db.next_tx, db.next_id = self.next_tx, self.next_id
        return db


class Tx:
    def __init__(self, db, read_only=False):
        self.snap = dict(db.entities)
        self.reads = set()
        self.queries = []    # (kind, filter fn) => result versions
        self.read_only = read_only


class Future:
    def __init__(self, result=None, exception=None):
        self._r, self._e = result, exception

    def add_done_callback(self, fn):
        fn(self)

    def exception(self, timeout=None):
        return self._e

    def result(self, timeout=None):
        if self._e:
            raise self._e
        return self._r

    def done(self):
        return True

    def cancel(self):
        return False

    def cancelled(self):
        return False


def ktuple(key_pb):
    return tuple((e.kind, e.name or e.id) for e in key_pb.path)


def _val(v):
    """Sortable Python value of a Value protobuf. None if the type isn't supported."""
    t = v.WhichOneof('value_type')
    if t == 'null_value':
        return (0, 0)
    if t == 'integer_value':
        return (1, v.integer_value)
    if t == 'timestamp_value':
        return (2, (v.timestamp_value.seconds, v.timestamp_value.nanos))
    if t == 'boolean_value':
        return (3, v.boolean_value)
    if t == 'blob_value':
        return (4, v.blob_value)
    if t == 'string_value':
        return (5, v.string_value.encode())
    if t == 'double_value':
        return (6, v.double_value)
    if t == 'key_value':
        return (8, _ksort(ktuple(v.key_value)))
    return (9, repr(v))


def _ksort(kt):
    return tuple((k, (0, i, b'') if isinstance(i, int) else (1, 0, i.encode()))
                 for k, i in kt)


def _vals(entity, name):
    if name == '__key__':
        return [(8, _ksort(ktuple(entity.key)))]
    if name not in entity.properties:
        return []
    v = entity.properties[name]
    if v.WhichOneof('value_type') == 'array_value':
        return [_val(x) for x in v.array_value.values]
    return [_val(v)]


def _matches(entity, f):
    if f is None:
        return True
    which = f.WhichOneof('filter_type')
    if which == 'composite_filter':
        cf = f.composite_filter
        res = [_matches(entity, x) for x in cf.filters]
        op = qry.CompositeFilter.Operator(cf.op).name
        return any(res) if op == 'OR' else all(res)
    pf = f.property_filter
    name = pf.property.name
    op = qry.PropertyFilter.Operator(pf.op).name
    have = _vals(entity, name)
    if op == 'IN':
        want = [_val(x) for x in pf.value.array_value.values]
        return any(h in want for h in have)
    want = _val(pf.value)
    fn = {'EQUAL': lambda h: h == want,
          'LESS_THAN': lambda h: h < want and h[0] == want[0],
          'LESS_THAN_OR_EQUAL': lambda h: h <= want and h[0] == want[0],
          'GREATER_THAN': lambda h: h > want and h[0] == want[0],
          'GREATER_THAN_OR_EQUAL': lambda h: h >= want and h[0] == want[0],
          'NOT_EQUAL': lambda h: h != want}[op]
    return any(fn(h) for h in have)


@functools.total_ordering
class _Rev:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return self.v == o.v

    def __lt__(self, o):
        return o.v < self.v


class FakeStub:
    """Stands in for ``ndb.Client.stub``. One per simulated process.

    Attributes:
      db (DB)
      hook (callable): (stub, method, request) => None or an instruction; called before
        each request executes. May block (scheduling point), raise :class:`Crash`, or
        return ``('fail', exc)`` (fail without effect), ``('fail_after', exc)`` (take
        effect, then fail), or ``('crash_after',)``.
      page (int): max number of query results per batch, or None
      defer (int): max number of keys that a lookup answers, or None
    """
    def __init__(self, db, hook=None, page=None):
        self.db = db
        self.hook = hook
        self.page = page
        self.defer = None
        self.dead = False
        self.requests = 0
        self.trace = []

    def __getattr__(self, name):
        if name in ('lookup', 'run_query', 'commit', 'begin_transaction', 'rollback',
                    'allocate_ids', 'reserve_ids'):
            return _Method(self, name)
        raise AttributeError(name)


class _Method:
    def __init__(self, stub, name):
        self.stub, self.name = stub, name

    def __call__(self, request, **kwargs):
        return self.future(request, **kwargs).result()

    def future(self, request, timeout=None, metadata=None, **kwargs):
        stub = self.stub
        if stub.dead:
            raise Crash('process is dead')
        stub.requests += 1
        todo = stub.hook(stub, self.name, request) if stub.hook else None
        if todo:
            if todo[0] == 'fail':
                return Future(exception=todo[1])
            if todo[0] == 'crash':
                stub.dead = True
                raise Crash(self.name)
        try:
            pb = type(request).pb(request) if hasattr(type(request), 'pb') else request
            with stub.db.lock:
                res = getattr(self, '_' + self.name)(stub.db, pb)
        except gexc.GoogleAPICallError as e:
            res, err = None, e
        else:
            err = None
        if todo and not err:
            if todo[0] == 'fail_after':
                return Future(exception=todo[1])
            if todo[0] == 'crash_after':
                stub.dead = True
                raise Crash(self.name)
        if err:
            return Future(exception=err)
        return Future(result=res)

    @staticmethod
    def _tx(db, tid):
        if tid not in db.txs:
            raise gexc.InvalidArgument('unknown or finished transaction')
        return db.txs[tid]

    def _view(self, db, ro):
        """Entities a read sees, and its transaction if any."""
        if ro.transaction:
            tx = self._tx(db, ro.transaction)
            return tx.snap, tx
        return db.entities, None

    def _lookup(self, db, req):
        view, tx = self._view(db, req.read_options)
        resp = dst.LookupResponse.pb()()
        if len(req.keys) > 1000:
            raise gexc.InvalidArgument('cannot get more than 1000 keys in a single call')
        for i, k in enumerate(req.keys):
            if self.stub.defer and i >= self.stub.defer:
                # a lookup may answer only part of the keys
                resp.deferred.add().CopyFrom(k)
                continue
            kt = ktuple(k)
            if tx:
                tx.reads.add(kt)
            if kt in view:
                e, v = view[kt]
                r = resp.found.add()
                r.entity.CopyFrom(e)
                r.version = v
            else:
                r = resp.missing.add()
                r.entity.key.CopyFrom(k)
                r.version = db.version or 1
        return dst.LookupResponse.wrap(resp)

    def _run_query(self, db, req):
        view, tx = self._view(db, req.read_options)
        q = req.query
        kinds = [k.name for k in q.kind]
        filt = q.filter if q.HasField('filter') else None

        def run(view):
            out = []
            for kt, (e, v) in view.items():
                if kinds and kt[-1][0] not in kinds:
                    continue
                if not _matches(e, filt):
                    continue
                key = []
                ok = True
                for o in q.order:
                    desc = o.direction == qry.PropertyOrder.Direction.DESCENDING
                    vals = _vals(e, o.property.name)
                    if not vals:
                        ok = False
                        break
                    key.append(_Rev(max(vals)) if desc else min(vals))
                if ok:
                    # default order: inequality property is always ordered explicitly
                    # by ndb callers here; ties and default by key
                    out.append((tuple(key) + (_ksort(kt),), kt, e, v))
            out.sort(key=lambda x: x[0])
            return out

        results = run(view)
        if tx:
            tx.reads.update(kt for _, kt, _, _ in results)
            tx.queries.append((run, [(kt, v) for _, kt, _, v in results]))

        resp = dst.RunQueryResponse.pb()()
        b = resp.batch
        keys_only = [p.property.name for p in q.projection] == ['__key__']
        b.entity_result_type = (qry.EntityResult.ResultType.KEY_ONLY if keys_only
                                else qry.EntityResult.ResultType.FULL)
        if q.start_cursor:
            import pickle
            last = pickle.loads(q.start_cursor)
            # resume strictly after the cursor's position
            results = [r for r in results if _poskey(r) > last]
        offset = q.offset
        skipped = min(offset, len(results))
        results = results[offset:]
        limit = q.limit.value if q.HasField('limit') else None
        more = 'NO_MORE_RESULTS'
        n = len(results)
        if limit is not None and n > limit:
            n = limit
            more = 'MORE_RESULTS_AFTER_LIMIT'
        elif limit is not None and n == limit:
            more = 'MORE_RESULTS_AFTER_LIMIT'
        page = self.stub.page
        if page and n > page:
            n = page
            more = 'NOT_FINISHED'
        b.skipped_results = skipped
        import pickle
        for r in results[:n]:
            er = b.entity_results.add()
            if keys_only:
                er.entity.key.CopyFrom(r[2].key)
            else:
                er.entity.CopyFrom(r[2])
            er.version = r[3]
            er.cursor = pickle.dumps(_poskey(r))
        b.end_cursor = (b.entity_results[-1].cursor if b.entity_results
                        else q.start_cursor or b'')
        b.more_results = qry.QueryResultBatch.MoreResultsType[more]
        return dst.RunQueryResponse.wrap(resp)

    def _begin_transaction(self, db, req):
        tid = b'tx%d' % db.next_tx
        db.next_tx += 1
        ro = req.transaction_options.WhichOneof('mode') == 'read_only'
        db.txs[tid] = Tx(db, ro)
        return dst.BeginTransactionResponse(transaction=tid)

    def _rollback(self, db, req):
        db.txs.pop(req.transaction, None)
        return dst.RollbackResponse()

    def _commit(self, db, req):
        if req.mode != NON_TX:
            tx = self._tx(db, req.transaction)
            del db.txs[req.transaction]
            for kt in tx.reads:
                old = tx.snap.get(kt)
                cur = db.entities.get(kt)
                if (old and old[1]) != (cur and cur[1]):
                    raise gexc.Aborted(f'contention on {kt}')
            for run, before in tx.queries:
                if [(kt, v) for _, kt, _, v in run(db.entities)] != before:
                    raise gexc.Aborted('contention on a query')
            if tx.read_only and req.mutations:
                raise gexc.InvalidArgument('read only')
            # blind writes also conflict with changes since the transaction started?
            # Not in Datastore mode: only reads are validated.
        resp = dst.CommitResponse.pb()()
        db.version += 1
        for m in req.mutations:
            op = m.WhichOneof('operation')
            res = resp.mutation_results.add()
            res.version = db.version
            if op == 'delete':
                db.entities.pop(ktuple(m.delete), None)
                continue
            e = getattr(m, op)
            new = type(e)()
            new.CopyFrom(e)
            if not new.key.path[-1].WhichOneof('id_type'):
                db.next_id += 1
                new.key.path[-1].id = db.next_id
                res.key.CopyFrom(new.key)
            kt = ktuple(new.key)
            if op == 'insert' and kt in db.entities:
                raise gexc.AlreadyExists(str(kt))
            if op == 'update' and kt not in db.entities:
                raise gexc.NotFound(str(kt))
            db.entities[kt] = (new, db.version)
        resp.index_updates = len(req.mutations)
        return dst.CommitResponse.wrap(resp)

    def _allocate_ids(self, db, req):
        resp = dst.AllocateIdsResponse.pb()()
        for k in req.keys:
            n = resp.keys.add()
            n.CopyFrom(k)
            db.next_id += 1
            n.path[-1].id = db.next_id
        return dst.AllocateIdsResponse.wrap(resp)

    def _reserve_ids(self, db, req):
        return dst.ReserveIdsResponse()


def _poskey(r):
    # position of a result: everything but _Rev objects is picklable by value
    return tuple(x.v if isinstance(x, _Rev) else x for x in r[0])


class _FakeClockModule:
    """Stands in for the time module in ndb's event loop, so retries don't sleep."""
    def __init__(self):
        self.now = 0.0

    def time(self):
        return self.now

    def sleep(self, s):
        self.now += max(s, 0)


def install():
    """Makes ndb's event loop not really sleep between retries."""
    from google.cloud.ndb import _eventloop
    _eventloop.time = _FakeClockModule()


def client(db, hook=None, page=None):
    """A new ndb client, ie a new simulated process, on db."""
    import logging
    from google.auth.credentials import AnonymousCredentials
    from google.cloud import ndb
    c = ndb.Client.__new__(ndb.Client)
    c.namespace = None
    c.database = None
    c.project = 'app'
    c._credentials = None
    c.host = 'fake'
    c.secure = False
    c.stub = FakeStub(db, hook=hook, page=page)
    return c
