"""P18: XRPC record operations are a map of collections to records."""
import base64
import copy
import json

from mc import env, ref, xrpc
from mc.hist import DIDS, HANDLES, World, explore
from arroba import xrpc_repo
from arroba.storage import Action
from multiformats import CID

ID = 'P18'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of XRPC call sequences on the real server and storages '
             'against a dictionary; in every state every read method with every parameter '
             'combination is compared; paging through collections of up to 120 records')
RULE = ('every sequence up to the depth bound of createRecord (with and without record key), '
        'putRecord, deleteRecord, and refused variants of them, over three collections with a common '
        'prefix and two repos addressed by DID, handle and AT URI; in every state getRecord of every '
        'path, listRecords of every collection with every limit and cursor, and describeRepo')
ASSUMPTIONS = ['createRecord with an explicit record key that exists replaces it, like putRecord '
               '(the code delegates to it)',
               'the listRecords cursor is inclusive, as its docstring says',
               'the Datastore backend runs on the in-process model of Datastore']

A, B, C = 'a.b.c', 'a.b.c.d', 'a.b.cd'
PATHS = [f'{A}/1', f'{A}/2', f'{B}/1', f'{C}/1', f'{A}/self:x-y_.z']
NONE_DID = 'did:web:nobody.com'


LINK = ref.cid({'some': 'object'})


def rec(v, coll):
    out = {'$type': coll, 'v': v, 'nested': {'list': [1, 'é', None, True]}}
    if v % 3 == 0:
        out['data'] = {'bytes': b'\x00\xff\xfe>?', 'links': [CID.decode(LINK), False, -1, 2 ** 53 - 1, '']}
    elif v % 3 == 2:
        out['image'] = {'$type': 'blob', 'ref': CID.decode(LINK), 'mimeType': 'a/b', 'size': 0}
    return out


def as_json(val):
    """The JSON representation of a record, https://atproto.com/specs/data-model ."""
    if isinstance(val, dict):
        return {k: as_json(v) for k, v in val.items()}
    elif isinstance(val, list):
        return [as_json(v) for v in val]
    elif isinstance(val, bytes):
        return {'$bytes': base64.b64encode(val).decode().rstrip('=')}
    elif isinstance(val, CID):
        return {'$link': ref.b32(bytes(val))}
    return val


class XW:
    def __init__(self, backend):
        self.sys = env.make(backend)
        self.backend = backend
        self.maps = {}
        self.hist = []
        for d in (0, 1):
            env.Repo.create(self.sys.storage, DIDS[d], handle=HANDLES[d],
                            signing_key=env.KEYS[d])
            self.maps[DIDS[d]] = {}

    def clone(self):
        from mc.hist import clone
        w = XW.__new__(XW)
        w.backend = self.backend
        w.sys = (clone(self.sys, {}) if self.backend == 'memory'
                 else env.DS(self.sys.db.snapshot()))
        w.maps = {d: dict(m) for d, m in self.maps.items()}
        w.hist = list(self.hist)
        return w

    def call(self, method, input=None, **kw):
        inp = input if input is not None else {}
        # lexicons only allow DIDs and handles here, so AT URIs only work without validation
        validate = not str(inp.get('repo') or kw.get('repo')).startswith('at://')
        return xrpc.call(self, f'com.atproto.repo.{method}', inp, validate=validate, **kw)


FORMS = [DIDS[0], HANDLES[0], f'at://{DIDS[0]}', f'at://{DIDS[0]}/{A}/1', DIDS[1]]


def owner(form):
    return DIDS[FORMS.index(form) // 4]


def menu(w, unit):
    ops = []
    for f in FORMS if unit.get('forms') else FORMS[:1] + FORMS[4:]:
        paths = PATHS if f == DIDS[0] else PATHS[:1]
        for p in paths:
            m = w.maps[owner(f)]
            if unit.get('narrow') and p not in (PATHS[0], PATHS[2]):
                continue
            ops.append(['put', f, p, 0])
            if p in m or p == PATHS[1]:
                ops.append(['put', f, p, 1])
                ops.append(['create', f, p, 2])
            ops.append(['delete', f, p])
    ops.append(['create', FORMS[0], f'{A}/', 0])
    ops.append(['create', FORMS[0], f'{B}/', 1])
    if unit.get('bad'):
        for i in range(len(BAD)):
            ops.append(['bad', i])
    return ops


OK = {'repo': DIDS[0], 'collection': A, 'rkey': '1', 'record': rec(9, A)}
BAD = [
    # (method, input)
    ('putRecord', {**OK, 'swapCommit': 'bafyreie5cvv4h45feadgeuwhbcutmh6t2ceseocckahdoe6uat64zmz454'}),
    ('putRecord', {**OK, 'swapRecord': 'bafyreie5cvv4h45feadgeuwhbcutmh6t2ceseocckahdoe6uat64zmz454'}),
    ('createRecord', {**OK, 'swapCommit': 'bafyreie5cvv4h45feadgeuwhbcutmh6t2ceseocckahdoe6uat64zmz454'}),
    ('deleteRecord', {**{k: v for k, v in OK.items() if k != 'record'},
                      'swapCommit': 'bafyreie5cvv4h45feadgeuwhbcutmh6t2ceseocckahdoe6uat64zmz454'}),
    ('deleteRecord', {**{k: v for k, v in OK.items() if k != 'record'},
                      'swapRecord': 'bafyreie5cvv4h45feadgeuwhbcutmh6t2ceseocckahdoe6uat64zmz454'}),
    ('putRecord', {**OK, 'repo': NONE_DID}),
    ('createRecord', {**OK, 'repo': NONE_DID}),
    ('deleteRecord', {**OK, 'repo': NONE_DID}),
    ('putRecord', {**OK, 'rkey': 'a b'}),
    ('putRecord', {**OK, 'rkey': 'a/b'}),
    ('putRecord', {**OK, 'rkey': ''}),
    ('createRecord', {**OK, 'rkey': ''}),
    ('putRecord', {**OK, 'rkey': 'x' * 600}),
    ('putRecord', {**OK, 'rkey': 'é'}),
    ('putRecord', {k: v for k, v in OK.items() if k != 'record'}),
    ('putRecord', {k: v for k, v in OK.items() if k != 'repo'}),
    ('putRecord', {**OK, 'collection': ''}),
    ('putRecord', {**OK, 'record': None}),
    ('putRecord', {**OK, 'collection': 'app.bsky.feed.post',
                   'record': {'$type': 'app.bsky.feed.post', 'text': 5}}),
    ('createRecord', {**OK, 'collection': 'app.bsky.feed.like', 'rkey': 'y',
                      'record': {'$type': 'app.bsky.feed.like'}}),
    ('applyWrites', {'repo': DIDS[0], 'writes': []}),
    ('uploadBlob', None),
]


def step(ctx, w, op):
    w.hist.append(op)
    if op[0] == 'bad':
        method, inp = BAD[op[1]]
        before = snapshot(w)
        ok, res = w.call(method, copy.deepcopy(inp))
        if method in ('applyWrites', 'uploadBlob'):
            ctx.check(not ok or res == ('Not implemented', 501),
                      f'{method}: not implemented, but reports success', history=w.hist)
        else:
            ctx.check(not ok, f'{method}: invalid request is accepted', history=w.hist,
                      input=inp, got=repr(res))
            if not ok and inp.get('repo') == NONE_DID:
                ctx.check(xrpc.err_name(res) == 'RepoNotFound', f'{method}: wrong error for an '
                          'unknown repo', history=w.hist, got=repr(res))
        ctx.check(snapshot(w) == before, f'{method}: a refused request changes something',
                  history=w.hist, input=inp)
        return
    kind, form, path = op[:3]
    m = w.maps[owner(form)]
    coll, rkey = path.split('/')
    inp = {'repo': form, 'collection': coll, 'rkey': rkey}
    if kind == 'delete':
        ok, res = w.call('deleteRecord', inp)
        if ctx.check(ok, 'deleteRecord fails', history=w.hist, error=repr(res)):
            m.pop(path, None)
        return
    r = rec(op[3], coll)
    inp['record'] = r
    if not rkey:
        del inp['rkey']
    ok, res = w.call(f'{kind}Record', inp)
    if not ctx.check(ok, f'{kind}Record fails', history=w.hist, error=repr(res)):
        return
    ctx.check(set(res) >= {'uri', 'cid'}, 'wrong output', history=w.hist, got=res)
    if not rkey:
        pre = f'at://{owner(form)}/{coll}/'
        rkey = res['uri'].removeprefix(pre)
        ctx.check(res['uri'].startswith(pre) and len(rkey) == 13 and env.tid_int(rkey) is not None,
                  'createRecord: the new key is not a TID', history=w.hist, got=res)
        path = f'{coll}/{rkey}'
        ctx.check(path not in m, 'createRecord: generated key was in use', history=w.hist)
    ctx.check(res['uri'] == f'at://{owner(form)}/{path}', f'{kind}Record: wrong URI',
              history=w.hist, got=res)
    ctx.check(res['cid'] == ref.b32(ref.cid(rec(op[3], coll))), f'{kind}Record: wrong CID',
              history=w.hist, got=res)
    m[path] = op[3]


def snapshot(w, dids=DIDS[:2]):
    return {d: (bytes(r.head.cid), sorted((e.key, bytes(e.value)) for e in r.mst.list()))
            for d in dids for r in [w.sys.storage.load_repo(d)]}


def entry(did, path, v):
    coll = path.split('/')[0]
    return {'uri': f'at://{did}/{path}', 'cid': ref.b32(ref.cid(rec(v, coll))),
            'value': as_json(rec(v, coll))}


def check_reads(ctx, w, deep, light=False):
    for form in FORMS:
        did = owner(form)
        m = w.maps[did]
        if form not in DIDS and not deep:
            continue
        if light and did != owner(w.hist[-1][1]):
            ctx.check(snapshot(w, [did])[did][1] == sorted(
                (p, ref.cid(rec(v, p.split('/')[0]))) for p, v in m.items()),
                'a write changes another repo', history=w.hist)
            continue
        for p in sorted(set(PATHS) | set(m)) + [f'{A}/nope', 'x.y.z/1', f'{B}/2']:
            coll, rkey = p.split('/')
            ok, res = w.call('getRecord', repo=form, collection=coll, rkey=rkey)
            ctx.count('reads')
            if p in m:
                ctx.check(ok and res == entry(did, p, m[p]), 'getRecord: wrong answer',
                          history=w.hist, path=p, got=repr(res), want=m[p])
            else:
                ctx.check(not ok and xrpc.err_name(res) == 'RecordNotFound',
                          'getRecord: a missing record does not give RecordNotFound',
                          history=w.hist, path=p, got=repr(res))
        for coll in (A, B, C, 'a.b.ca', 'z.z.z'):
            keys = sorted(p for p in m if p.split('/')[0] == coll)
            for limit in (1, 2, 3, 100, None) if deep else (None,) if light else (2, None):
                for cur in [None] + keys[-1 if light else 0:] + ([f'{coll}/0', f'{coll}/11', f'{coll}/zzz'] if deep
                                            else []):
                    kw = {k: v for k, v in (('limit', limit), ('cursor', cur)) if v is not None}
                    ok, res = w.call('listRecords', repo=form, collection=coll, **kw)
                    ctx.count('reads')
                    want = [entry(did, p, m[p]) for p in keys if cur is None or p >= cur]
                    want = want[:limit or 50]
                    if ctx.check(ok, 'listRecords fails', history=w.hist, collection=coll,
                                 error=repr(res), **kw):
                        ctx.check(res['records'] == want, 'listRecords: wrong records',
                                  history=w.hist, collection=coll, got=res['records'], want=want,
                                  **kw)
                        if len(want) == (limit or 50):
                            ctx.check(res.get('cursor') == want[-1]['uri'].split('/', 3)[3],
                                      'listRecords: wrong cursor', history=w.hist, **kw)
                        else:
                            ctx.check('cursor' not in res, 'listRecords: cursor at the end',
                                      history=w.hist, **kw)
        ok, res = w.call('describeRepo', repo=form)
        if ctx.check(ok, 'describeRepo fails', history=w.hist, error=repr(res)):
            want = {'did': did, 'handle': HANDLES[DIDS.index(did)], 'didDoc': {'id': did},
                    'handleIsCorrect': True}
            colls = sorted({p.split('/')[0] for p in m})
            ctx.check({k: res.get(k) for k in want} == want and sorted(res['collections']) == colls,
                      'describeRepo: wrong answer', history=w.hist, got=res)
    if light:
        return
    for method, kw in (('listRecords', {'collection': A, 'reverse': True}),
                       ('listRecords', {}), ('listRecords', {'collection': A, 'limit': 0}),
                       ('listRecords', {'collection': A, 'limit': 101}),
                       ('getRecord', {'collection': A, 'rkey': '1', 'cid': 'bafyx'})):
        ok, res = w.call(method, repo=DIDS[0], **kw)
        ctx.check(not ok, f'{method}: unsupported or invalid parameters are accepted',
                  history=w.hist, params=kw)
    for method in ('getRecord', 'listRecords', 'describeRepo'):
        kw = {} if method == 'describeRepo' else {'collection': A}
        if method == 'getRecord':
            kw['rkey'] = '1'
        ok, res = w.call(method, repo=NONE_DID, **kw)
        ctx.check(not ok and xrpc.err_name(res) == 'RepoNotFound',
                  f'{method}: unknown repo does not give RepoNotFound', history=w.hist,
                  got=repr(res))


PRES = [[], [['put', DIDS[0], p, 0] for p in PATHS],
        [['put', DIDS[0], PATHS[0], 0], ['delete', DIDS[0], PATHS[0]],
         ['put', DIDS[0], PATHS[3], 1]]]


def units(tier, seed):
    q = tier == 'quick'
    out = []
    for backend in ('memory', 'datastore'):
        for pi in range(len(PRES)):
            for forms in ((False, True) if backend == 'memory' else (True,)):
                u = {'backend': backend, 'pre': pi, 'forms': forms, 'bad': forms,
                     'depth': (2 if forms or pi else 3) + (not q) if backend == 'memory'
                     else 1 + (not q), 'narrow': q and not forms and not pi}
                w = start(u, None)
                n = len(menu(w, u))
                out += [{**u, 'first': i} for i in range(n)]
        for n in (49, 50, 51, 99, 100, 101, 120) if not q or backend == 'memory' else (101,):
            out.append({'backend': backend, 'mode': 'many', 'n': n})
    return out


def run_many(unit, ctx):
    """Pages through a collection with many records, between neighbouring collections."""
    w = XW(unit['backend'])
    n = unit['n']
    paths = [f'{A}/k{i:04}' for i in range(n)]
    others = [f'{c}/{k}' for c in (B, C, 'a.b.b', 'a.b.c-') for k in ('k', 'k0001', 'zzz')]
    r = w.sys.storage.load_repo(DIDS[0])
    everything = sorted(paths + others, key=lambda p: ref.cid(p))
    for i in range(0, len(everything), 100):
        w.sys.storage.commit(r, [env.Write(action=Action.CREATE, collection=p.split('/')[0],
                                           rkey=p.split('/')[1], record=rec(0, p.split('/')[0]))
                                 for p in everything[i:i + 100]])
    want = [entry(DIDS[0], p, 0) for p in paths]
    for limit in (None, 1, 2, 3, 7, 49, 50, 51, 99, 100):
        size = limit or 50
        if size < 7 and unit['backend'] != 'memory':
            continue
        for start in (None, 0, n // 2, n - size, n - size + 1, n - 1):
            if start is not None and not 0 <= start < n:
                continue
            at, cur = start or 0, None if start is None else paths[start]
            while True:
                kw = {k: v for k, v in (('limit', limit), ('cursor', cur)) if v is not None}
                ok, res = w.call('listRecords', repo=DIDS[0], collection=A, **kw)
                ctx.step()
                ctx.count('reads')
                if not ctx.check(ok and res['records'] == want[at:at + size],
                                 'listRecords: wrong page', n=n, **kw):
                    break
                cur = res.get('cursor')
                ctx.check((cur is not None) == (len(want) - at >= size),
                          'listRecords: a cursor at the end, or none before it', n=n, **kw)
                if cur is None or size == 1:
                    break
                at += size - 1   # the cursor is inclusive
                ctx.check(cur == paths[at], 'listRecords: wrong cursor', n=n, **kw)
                if start is not None:
                    break
    ctx.state()
    ctx.execution()
    ctx.outcome(unit)
    ctx.sample(unit)


def start(unit, ctx):
    w = XW(unit['backend'])
    class Dummy:
        def check(self, c, *a, **k):
            return c
    for op in PRES[unit['pre']]:
        step(ctx or Dummy(), w, op)
    return w


def run_unit(unit, ctx):
    if unit.get('mode') == 'many':
        return run_many(unit, ctx)
    w = start(unit, ctx)

    def on_step(w, op):
        step(ctx, w, op)
        if op[0] != 'bad' or unit['depth'] == 1 and unit['backend'] == 'memory':
            n = len(w.hist) - len(PRES[unit['pre']])
            check_reads(ctx, w, unit['forms'] and n < 2 and (unit['backend'] == 'memory' or unit['first'] % 6 == 0
                                                        or ctx.tier != 'quick'), n > (1 if ctx.tier == 'quick' else 2))
        ctx.outcome([sorted((k.split('/')[0], v) for k, v in m.items()) for m in w.maps.values()])

    op = menu(w, unit)[unit['first']]
    on_step(w, op)
    ctx.step()
    ctx.state()
    ctx.execution()
    if unit['depth'] > 1:
        explore(ctx, w, lambda w: menu(w, unit), unit['depth'] - 1, on_step)
    ctx.sample({'unit': unit, 'history': w.hist})


def finalize(total, outcomes, tier):
    if total['reads'] < 10000:
        return 'vacuous exploration'
