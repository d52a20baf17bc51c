"""P33: the HTTP contract of the XRPC methods."""
import base64
import contextlib
import copy
import itertools
import json
import re
import sys
from unittest import mock

from lexrpc.base import Base, ValidationError

from mc import env, ref, xrpc
from mc.checks import p32
from mc.hist import DIDS, HANDLES, World, obj_state
from mc.xrpc import config
from flask import Flask, got_request_exception
# not installed here, and only used for subscriptions
for name in 'flask_sock', 'simple_websocket', 'iterators', 'wsproto', 'wsproto.utilities':
    try:
        __import__(name)
    except ImportError:
        sys.modules[name] = mock.MagicMock()
from lexrpc.flask_server import init_flask
import requests
import webutil.util
from arroba import did as did_mod, server as aserver, util

ID = 'P33'
LEVEL = 'model_checking'
CHUNK = 1
TECHNIQUE = ('exhaustive enumeration of requests (every method, every combination of parameter values, '
             'every single and pair of malformed body properties, every truncation and byte change of '
             'an import) over HTTP against the real server in states with repos of every status, '
             'against a model of which status and error each must get, with the complete stored state '
             'compared')
RULE = ('every query with every combination of valid, malformed, missing and unknown values of all its '
        'parameters; every procedure with every one and two of its properties replaced by every other '
        'JSON value or left out; every prefix and single byte change of a CAR file, and signed commits '
        'of every wrong shape; on both storages, with repos that are active, deactivated, tombstoned '
        'and missing, without any repo, and with DIDs that can\'t be resolved')
ASSUMPTIONS = ["bodies are valid JSON; others are lexrpc's to refuse",
               "lexrpc's validator decides which parameters and bodies fit the lexicon of a method",
               'getSession, refreshSession, applyWrites and uploadBlob are not implemented',
               'blob methods need Datastore']

app = Flask('p33', static_folder=None)
app.logger.disabled = True
ERRORS = []
got_request_exception.connect(lambda sender, exception, **kw: ERRORS.append(repr(exception)[:300]), app,
                              weak=False)
init_flask(aserver.server, app)
ORACLE = Base(validate=True, require_lexicons=False)

COLL, COLL2 = 'x.y.z', 'app.bsky.feed.like'
TID = '3jzfcijpj2z2a'
BLOB = 'bafkreihdwdcefgh4dqkjv67uzcmw7ojee6xedzdetojuzjevtenxquvyku'
BLOB2 = 'bafkreia' + BLOB[8:]
KEYS = [f'{COLL}/{TID}', f'{COLL}/self', f'{COLL2}/{TID}']
ABSENT = 'bafyreigh2akiscaildcqabsyg3dfr6chu3fgpregiymsck7e7aqa4s52zy'
NOHANDLE = 'did:web:nohandle.org'


class Sys:
    """One active, one deactivated and one tombstoned repo, and an empty one without a handle."""
    def __init__(self, backend, mode='full'):
        """mode: 'full', 'empty' (no repos), or 'down' (DIDs can't be resolved)"""
        self.backend = backend
        self.mode = mode
        self.w = w = World(KEYS, backend)
        for d in range(0 if mode == 'empty' else 3):
            w.step(['create', d])
            w.step(['commit', d, [['create', 0, 1], ['create', 1, 2]], 'held'])
        if mode != 'empty':
            w.step(['commit', 0, [['create', 2, copy.deepcopy(p32.GOOD)]], 'held'])
            w.step(['deactivate', 1, 'held'])
            w.step(['tombstone', 2, 'held'])
            env.create_repo(w.storage, did=NOHANDLE, handle=None)
        if mode != 'empty' and backend == 'datastore':
            self.blobs()
        self.client = app.test_client()
        self.cids = {ref.b32(c) for c in w.raw()}

    def blobs(self):
        """One that's been fetched, one that hasn't been and one that can't be any more."""
        from google.cloud import ndb
        from arroba.datastore_storage import AtpRemoteBlob, AtpRepo
        with self.w.sys.client.context():
            ndb.put_multi([AtpRemoteBlob(
                id=f'http://blob.com/{i}', cid=cid, status=status, mime_type='text/plain',
                repos=[ndb.Key(AtpRepo, DIDS[d]) for d in range(3)])
                for i, (cid, status) in enumerate(((BLOB, None), (None, None), (BLOB2, 'inactive')))])

    def http(self, nsid, method='GET', query=None, body=None, token=xrpc.TOKEN, **env_vars):
        """Returns (status, error name, response)."""
        aserver.storage = self.w.storage
        kw = {}
        if isinstance(body, bytes):
            kw = {'data': body, 'content_type': 'application/vnd.ipld.car'}
        elif body is not None:
            kw = {'data': json.dumps(body[0]), 'content_type': 'application/json'}
        del ERRORS[:]
        s = aserver.server
        old = s._validate, s._truncate, s._require_lexicons
        s._validate, s._truncate, s._require_lexicons = env.ORIGINAL_CONFIG
        try:
            with config(REPO_TOKEN=xrpc.TOKEN, REPO_PASSWORD='pw', PDS_HOST='pds.com', **env_vars), \
                    mock.patch.object(webutil.util.session, 'get', self.get), self.ctx():
                r = self.client.open('/xrpc/' + nsid, method=method, query_string=query or {},
                                     headers={'Authorization': 'Bearer ' + token}, **kw)
                r.get_data()
        finally:
            s._validate, s._truncate, s._require_lexicons = old
        body = r.get_json(silent=True) if r.is_json else None
        return r.status_code, body.get('error') if isinstance(body, dict) else None, r

    def ctx(self):
        return (self.w.sys.client.context() if self.backend == 'datastore'
                else contextlib.nullcontext())

    def get(self, url, **kw):
        """DID documents. Some hosts don't answer."""
        host = url.removeprefix('https://').split('/')[0]
        if host == 'down.com' or self.mode == 'down':
            raise requests.ConnectionError('injected')
        if host == 'gone.com' or 'plc' in host:
            return xrpc.Resp(404, url=url)
        did = f'did:web:{host}'
        return xrpc.Resp(json={
            'id': did, 'alsoKnownAs': [f'at://{host}'], 'verificationMethod': [{
                'id': f'{did}#atproto', 'type': 'Multikey', 'controller': did,
                'publicKeyMultibase': did_mod.encode_did_key(
                    env.KEYS[0].public_key()).removeprefix('did:key:')}]}, url=url)

    def state(self):
        return self.w.snapshot()

    def repo(self, ident):
        """Returns 'ok', 'RepoDeactivated' or 'RepoNotFound'."""
        for m in self.w.repos.values():
            if ident in (m.did, m.handle):
                return 'RepoDeactivated' if m.status else 'ok'
        return 'ok' if ident == NOHANDLE and self.mode != 'empty' else 'RepoNotFound'

    def has(self, p):
        """Whether the record with these parameters exists, in a repo that does."""
        ident = p.get('repo', p.get('did'))
        return any(f'{p["collection"]}/{p["rkey"]}' in m.items for m in self.w.repos.values()
                   if ident in (m.did, m.handle))


# --- queries ---

IDENT = [None, NOHANDLE, DIDS[0], DIDS[1], DIDS[2], 'did:web:zz.com', HANDLES[0], HANDLES[1], 'x', '', 'at://' + DIDS[0],
         'did:', 'did:web:', 'a' * 3000, 'han..a', DIDS[0] + '/', DIDS[0] + '\x00', DIDS[0].upper(), 'nohandle.com']
VALS = {
    'did': IDENT,
    'repo': IDENT,
    'collection': [None, COLL, COLL2, 'x.y.q', 'x.y', 'x', '', 'x.y.z/', 'a.b.' + 'c' * 300],
    'rkey': [None, TID, 'self', 'other', '', '.', '..', 'a/b', 'x' * 513, '\x00', '\u00e9'],
    'cid': [None, BLOB, BLOB2, ABSENT, 'x', '', 'bafy'],
    'limit': [None, '1', '2', '50', '100', '0', '-1', '101', '1000', '1001', 'x', '', '1.5', '9' * 25],
    'cursor': [None, '', 'x', DIDS[0], KEYS[0], f'{COLL}/zzz', 'x.y.zz', 'a' * 2000, '/', '\u00e9',
               '0', '999'],
    'since': [None, '', 'x', '2222222222222', TID, TID + 'a', '222222222222A', '1'],
    'reverse': [None, 'true', 'false', 'x'],
    'rkeyStart': [None, 'x'],
    'rkeyEnd': [None, 'x'],
    'includeUsed': [None, 'true', 'x'],
    'createAvailable': [None, 'false', 'x'],
    'commit': [None, ABSENT, 'x'],
}
CIDS = ['COMMIT', 'RECORD', ABSENT, 'x', '', 'bafy', 'zzzz', 'mAYAE', ABSENT.upper(), 'b',
        'QmY7Yh4UquoXHLPFo2XbhXkhBvFoPwmQUSa92pxnxjQuPU', 'bafkreigh2akiscaildcqabsyg3dfr6chu3fgpregiymsck7e7aqa4s52zy']
CORE = {'repo': [None, NOHANDLE, DIDS[0], DIDS[1], 'did:web:zz.com', HANDLES[0], 'x'],
        'collection': [None, COLL, 'x.y.q', 'x', ''],
        'limit': [None, '1', '100', '0', '101', 'x'],
        'cursor': [None, '', 'x', KEYS[0], f'{COLL}/zzz', 'x.y.zz', '\u00e9']}
QUERIES = ['com.atproto.repo.describeRepo', 'com.atproto.repo.getRecord', 'com.atproto.repo.listRecords',
           'com.atproto.server.describeServer', 'com.atproto.server.getAccountInviteCodes',
           'com.atproto.server.listAppPasswords', 'com.atproto.sync.getBlob',
           'com.atproto.sync.getBlocks', 'com.atproto.sync.getCheckout', 'com.atproto.sync.getHead',
           'com.atproto.sync.getLatestCommit', 'com.atproto.sync.getRecord', 'com.atproto.sync.getRepo',
           'com.atproto.sync.getRepoStatus', 'com.atproto.sync.listBlobs', 'com.atproto.sync.listRepos']
BAD = {'InvalidRequest'}


def params_of(nsid):
    return list((ORACLE._get_def(nsid) or {}).get('parameters', {}).get('properties', {}))


def expected(s, nsid, p):
    """Returns the set of acceptable outcomes: 'ok' or error names."""
    m = nsid.removeprefix('com.atproto.')
    if m == 'repo.describeRepo' and s.mode == 'down' and s.repo(p['repo']) == 'ok':
        return BAD
    ident = p.get('repo') or p.get('did')
    repo = s.repo(ident) if ident else None
    if m == 'repo.getRecord':
        if p.get('cid'):
            return BAD | ({repo} - {'ok'})
        if repo != 'ok':
            return {repo}
        return {'ok' if s.has(p) else 'RecordNotFound'}
    if m == 'repo.listRecords':
        if p.get('rkeyStart') or p.get('rkeyEnd') or p.get('reverse'):
            return BAD | ({repo} - {'ok'})
        return {repo}
    if m == 'sync.getRecord':
        if repo != 'ok':
            return {repo}
        # not in the repo: an implementation may also prove that it isn't
        return {'ok' if s.has(p) else 'RecordNotFound'}
    if m == 'sync.getBlocks':
        if repo != 'ok':
            return {repo}
        ok = all(c in s.cids or c.isupper() and c.lower() in s.cids for c in p.get('cids', ()))
        # lexrpc takes much that is no CID
        odd = not all(re.fullmatch('bafyrei[a-z2-7]{52}', c) for c in p.get('cids', ()))
        return {'ok'} if ok else {'BlockNotFound'} | (BAD if odd else set())
    if m == 'sync.getRepoStatus':
        return {repo} if repo == 'RepoNotFound' else {'ok'}
    if m == 'sync.getBlob':
        # blobs are found by CID alone
        if p.get('cid') == BLOB and s.mode != 'empty':
            return {'ok'}
        return {'InvalidRequest', 'BlobNotFound', repo} - {'ok'}
    if m == 'sync.listBlobs' and p.get('since'):
        return BAD | ({repo} - {'ok'})
    if repo:
        return {repo}
    return {'ok'}


def query_outcomes(s, nsid, pairs):
    """pairs: (name, value), as in the query string."""
    try:
        p = ORACLE.decode_params(nsid, pairs)
        ORACLE.validate(nsid, "parameters", p)
    except (ValidationError, ValueError):
        return BAD, None
    return expected(s, nsid, p), p


def odd_cids(s):
    """Strings that are almost CIDs."""
    out = set()
    for c in (ABSENT, ref.b32(ref.cid(env.rec(1))), CIDS[10]):
        out |= {c[:i] for i in range(len(c))} | {c + x for x in 'aAb1='}
        out |= {c[:i] + x + c[i + 1:] for i in range(len(c)) for x in 'az1A+7'}
        out |= {x + c[k:] for x in map(chr, range(33, 127)) for k in (0, 1)}
    for x in map(chr, range(33, 127)):
        out |= {x * 8, 'z' + x * 8, 'b' + x * 8}
    return sorted(out)


def cids(unit, ctx):
    s = Sys(unit['backend'])
    before, seq = s.state(), s.w.last_seq()
    names = {'getBlocks': 'cids', 'getBlob': 'cid'}
    for i, c in enumerate(odd_cids(s)):
        if i % unit['of'] != unit['part']:
            continue
        for m, name in names.items():
            if m == 'getBlob' and unit['backend'] == 'memory':
                continue
            nsid = 'com.atproto.sync.' + m
            pairs = [('did', DIDS[0]), (name, c)]
            want, _ = query_outcomes(s, nsid, pairs)
            if m == 'getBlocks' and 'BlockNotFound' in want:
                try:  # another spelling?
                    if ref.b32(bytes(p32.CID.decode(c))) in s.cids:
                        want = want | {'ok'}
                except (KeyError, ValueError):
                    want = want | BAD
            status, err, r = s.http(nsid, query=pairs)
            judge(ctx, nsid, want, status, err, r,
                  dict(method=nsid, cid=c, status=status, error=err, backend=unit['backend'],
                       body=repr(r.get_data()[:300])))
        ctx.count('cids')
    unchanged(ctx, s, before, seq, 'getBlocks, getBlob', [])


def combos(nsid):
    names = params_of(nsid)
    vals = []
    for n in names:
        if n == 'cids':
            vals.append([()] + [(c,) for c in CIDS] + list(itertools.permutations(CIDS[:6], 2)))
        elif nsid.endswith('listRecords') and n in CORE:
            vals.append(CORE[n])
        else:
            vals.append(VALS.get(n, [None, 'x']))
    for c in itertools.product(*vals):
        pairs = []
        for n, v in zip(names, c):
            if isinstance(v, tuple):
                pairs += [(n, x) for x in v]
            elif v is not None:
                pairs.append((n, v))
        yield pairs
    if nsid.endswith('listRecords'):
        # one or two odd values, others good
        good = {'repo': DIDS[0], 'collection': COLL}
        for a, b in itertools.combinations(names, 2):
            for va, vb in itertools.product(VALS[a], VALS[b]):
                p = {**good, a: va, b: vb}
                yield [(k, v) for k, v in p.items() if v is not None]


def resolve(pairs, s):
    m = s.w.repos.get(DIDS[0])
    sub = {'COMMIT': ref.b32(m.head) if m else ABSENT, 'RECORD': ref.b32(ref.cid(env.rec(1)))}
    return [(k, sub.get(v, v)) for k, v in pairs]


def query(unit, ctx):
    nsid = unit['nsid']
    s = Sys(unit['backend'], unit['mode'])
    before, seq = s.state(), s.w.last_seq()
    since_check = []
    for i, pairs in enumerate(combos(nsid)):
        if i % unit['of'] != unit['part'] or i // unit['of'] % unit['every']:
            continue
        pairs = resolve(pairs, s)
        want, p = query_outcomes(s, nsid, pairs)
        status, err, r = s.http(nsid, query=pairs)
        info = dict(method=nsid, params=repr(pairs)[:400], status=status, error=err,
                    backend=unit['backend'], body=repr(r.get_data()[:300]))
        judge(ctx, nsid, want, status, err, r, info)
        if status == 200 and 'ok' in want:
            good_output(ctx, s, nsid, p, r, info)
            s2, e2, r2 = s.http(nsid, query=pairs)
            ctx.check((s2, r2.get_data()) == (status, r.get_data()),
                      'the same query gets different answers', other=repr(r2.get_data()[:300]), **info)
        since_check.append(pairs)
        if len(since_check) >= 40:
            unchanged(ctx, s, before, seq, nsid, since_check)
            since_check = []
    unchanged(ctx, s, before, seq, nsid, since_check)


def unchanged(ctx, s, before, seq, nsid, pairs):
    ctx.check(s.state() == before and s.w.last_seq() == seq, 'a query changes something',
              method=nsid, params=repr(pairs)[:800])


def judge(ctx, nsid, want, status, err, r, info):
    ctx.execution()
    ctx.state()
    ctx.step()
    ctx.count('ok' if status == 200 else 'refused')
    ctx.outcome([nsid, status, err])
    if not ctx.check(status < 500, 'a request causes an internal server error',
                     exception=str(ERRORS), **info):
        return False
    if nsid.endswith('getBlob'):
        if status == 301:
            return ctx.check('ok' in want and r.headers['Location'] == 'http://blob.com/0',
                             'getBlob redirects to the wrong place',
                             location=r.headers['Location'], **info)
        ctx.check(status != 200, 'getBlob returns something', **info)
    if status == 200:
        return ctx.check('ok' in want, 'a request that must be refused is answered with success',
                         want=sorted(want), **info)
    body = r.get_json(silent=True)
    ctx.check(400 <= status < 500 and isinstance(body, dict)
              and isinstance(body.get('error'), str) and body['error']
              and isinstance(body.get('message'), str) and body['message']
              and set(body) <= {'error', 'message'},
              'a refusal is not a well-formed XRPC error', **info)
    return ctx.check(err in want, 'a well-formed request is refused' if want == {'ok'} else
                     'a request is refused with the wrong error', want=sorted(want), **info)


def good_output(ctx, s, nsid, p, r, info):
    enc = ORACLE._get_def(nsid)['output']['encoding']
    if enc == 'application/json':
        out = r.get_json(silent=True)
        ctx.check(r.content_type.split(';')[0] == enc and isinstance(out, dict),
                  'the answer is not a JSON object', **info)
        try:
            ORACLE.validate(nsid, 'output', out)
        except (ValidationError, ValueError) as e:
            ctx.check(False, "the answer doesn't fit the lexicon of its method", why=str(e), **info)
        m = nsid.split('.')[-1]
        if m in ('getRepoStatus',) :
            ctx.check(out['did'] == p['did'] and out['active']
                      == (p['did'] == NOHANDLE or not s.w.repos[p['did']].status),
                      'getRepoStatus is wrong', **info)
    else:
        roots, blocks = ref.read_car(r.get_data())
        ctx.check(len(roots) == 1, 'an export has no root', **info)


# --- procedures ---

GOOD_BODY = {'repo': DIDS[0], 'collection': COLL, 'rkey': 'abc', 'record': {'$type': COLL, 'a': 1},
             'identifier': DIDS[0], 'password': 'pw'}
JSONS = ['x', '', 1, 0, -1, True, False, None, [], {}, 1.5, 'did:web:zz.com', NOHANDLE, DIDS[0], DIDS[1], DIDS[2], HANDLES[0],
         HANDLES[1], COLL, COLL2, 'x.y', TID, 'self', 'other', 'a/b', '.', '..', 'x' * 513, '\u00e9', '\x00',
         {'$type': COLL}, {'a': 1}, {'$type': 1}, {'$type': None}, {'$type': []}, {'$type': COLL2},
         {'$type': COLL2, 'subject': p32.SUBJECT, 'createdAt': p32.TIME},
         {'$type': COLL, 'l': {'$link': ABSENT}, 'b': {'$bytes': 'AQID'}},
         *({'$type': COLL, 'a': a} for a in (2 ** 64 - 1, 2 ** 64, [10 ** 30], -2 ** 64, {'b': -2 ** 64 - 1},
                                             '\ud800', {'\ud800': 1}, '\x00', {'': 1}, {'$type': 'blob'}, 1e300)),
         {'$type': COLL, 'n': None, 'd': [[{}], -2 ** 63, 2 ** 63 - 1]}, {'$link': ABSENT}, {'$bytes': 'AQID'},
         [{'$type': COLL}], {'$type': ''}, {'$type': 'x'}, {'$type': 'com.atproto.sync.subscribeRepos#commit'}, 'at://' + DIDS[0]]
PROCEDURES = ['com.atproto.repo.createRecord', 'com.atproto.repo.putRecord',
              'com.atproto.repo.deleteRecord', 'com.atproto.server.createSession']


def bodies(nsid):
    props = list(ORACLE._get_def(nsid)['input']['schema']['properties'])
    base = {k: v for k, v in GOOD_BODY.items() if k in props}
    gone = object()
    yield base
    for n in 1, 2:
        for names in itertools.combinations(props, n):
            for vals in itertools.product([gone] + JSONS, repeat=n):
                b = {**base, **dict(zip(names, vals))}
                yield {k: v for k, v in b.items() if v is not gone}
    for b in ([], 'x', 1, None, True, [base], {'x': base}, {**base, 'more': 1}):
        yield b


def links(val):
    """JSON to what's stored."""
    if isinstance(val, dict):
        if set(val) == {'$link'}:
            return p32.CID.decode(val['$link'])
        if set(val) == {'$bytes'}:
            return base64.b64decode(val['$bytes'] + '==')
        return {k: links(v) for k, v in val.items()}
    if isinstance(val, list):
        return [links(v) for v in val]
    return val


def procedure_outcomes(s, nsid, body):
    """Returns (outcomes, decoded body). None: either is fine. 'lexrpc': the validator fails."""
    if not isinstance(body, dict):
        return 'lexrpc', None
    b = links(body)
    try:
        ORACLE.validate(nsid, 'input', b)
    except (ValidationError, ValueError):
        return BAD, b
    except (AttributeError, TypeError, KeyError):
        return 'lexrpc', b
    m = nsid.split('.')[-1]
    if m == 'createSession':
        return ({'ok'} if b['password'] == 'pw' and b['identifier'] in DIDS[:3] + HANDLES[:3] + [NOHANDLE]
                 else BAD), b
    if b.get('swapCommit') or b.get('swapRecord'):
        return BAD, b
    repo = s.repo(b['repo'])
    if repo != 'ok':
        return {repo} | BAD, b
    if m == 'deleteRecord':
        return {'ok'}, b
    rec = b['record']
    ok = isinstance(rec, dict) and rec and isinstance(rec.get('$type', ''), str)
    if ok and '$type' in rec:
        v = p32.valid(rec) if rec['$type'] else None
        if v is None:
            return None, b
        ok = v
    if ok and str(rec.get('$type')).startswith('com.atproto.sync.subscribeRepos#'):
        ok = False
    return ({'ok'} if ok and encodable(rec) else BAD), b


def encodable(v):
    if isinstance(v, dict):
        return all(encodable(x) for kv in v.items() for x in kv)
    if isinstance(v, list):
        return all(map(encodable, v))
    if isinstance(v, str):
        return not any('\ud800' <= c <= '\udfff' for c in v)
    return not isinstance(v, int) or -2 ** 64 <= v < 2 ** 64


def procedure(unit, ctx):
    nsid = unit['nsid']
    m = nsid.split('.')[-1]
    s, n = Sys(unit['backend']), 0
    for i, body in enumerate(bodies(nsid)):
        if i % unit['of'] != unit['part'] or i // unit['of'] % unit['every']:
            continue
        if n >= 50:
            s, n = Sys(unit['backend']), 0
        want, b = procedure_outcomes(s, nsid, body)
        before = s.state()
        status, err, r = s.http(nsid, method='POST', body=(body,))
        info = dict(method=nsid, input=repr(body)[:400], status=status, error=err,
                    backend=unit['backend'], body=repr(r.get_data()[:300]))
        any_ = {'ok', 'InvalidRequest', err or 'ok'}
        if want == 'lexrpc':
            ctx.count('lexrpc')
            ctx.check(status != 200 and s.state() == before,
                      'a request that is no valid input has an effect', **info)
            continue
        judge(ctx, nsid, any_ if want is None else want, status, err, r, info)
        if status != 200:
            ctx.check(s.state() == before, 'a refused request changes something', **info)
            continue
        if m == 'createSession':
            ctx.check(s.state() == before, 'createSession changes something', **info)
            continue
        if want is None:
            continue
        n += 1
        out = r.get_json(silent=True)
        did = NOHANDLE if b['repo'] == NOHANDLE else DIDS[0]
        repo = s.w.storage.load_repo(did)
        if m == 'deleteRecord':
            ctx.check(repo.get_record(b['collection'], b['rkey']) is None,
                      'a deleted record is still there', **info)
            continue
        rkey = out['uri'].split('/')[-1]
        ctx.check(out['uri'] == f'at://{did}/{b["collection"]}/{b.get("rkey", rkey)}'
                  and out['cid'] == ref.b32(ref.cid(b['record']))
                  and repo.get_record(b['collection'], rkey) == b['record'],
                  "a successful write isn't in the repo", **info)


# --- imports ---

NEW = 'did:web:new.com'


def new_car(did=NEW):
    w = World(KEYS, 'memory')
    repo = env.create_repo(w.storage, did=did, handle='new.com')
    w.storage.commit(repo, [env.path_write('create', KEYS[0], 1), env.path_write('create', KEYS[2], 2)])
    ok, out = xrpc.raw_call(w.storage, 'com.atproto.sync.getRepo', {}, did=did, validate=False)
    assert ok, out
    return out


def make_car(roots, blocks, header=...):
    """blocks: encoded bytes, or (CID bytes, encoded bytes)."""
    h = ref.encode({'version': 1, 'roots': [ref.Link(c) for c in roots]} if header is ... else header)
    out = ref._to_varint(len(h)) + h
    for b in blocks:
        c, b = b if isinstance(b, tuple) else (ref.cid_of(b), b)
        out += ref._to_varint(len(c) + len(b)) + c + b
    return out


def import_bodies(which):
    car = new_car()
    if which == 'prefix':
        yield from ((car[:i], 'prefix', i) for i in range(len(car)))
        yield from ((car + x, 'suffix', x) for x in (b'', b'\0', b'\1', b'x', car))
        yield from ((x, 'raw', x) for x in (b'\0', b'x', b'{}', b'null', b'\xff' * 50))
    elif which == 'bytes':
        for i in range(len(car)):
            for x in (1, 0x20, 0x80, car[i]):
                yield car[:i] + bytes([car[i] ^ x]) + car[i + 1:], 'byte', (i, x)
    elif which == 'shapes':
        raw = ref.encode
        tree = ref.build({})
        link = p32.CID.decode(tree[0])
        empty = tree[1][tree[0]]
        base = {'did': NEW, 'version': 3, 'rev': TID, 'prev': None, 'data': link}
        odd = [None, 1, -1, True, '', 'x', b'', b'x', [], [1], {}, {'a': 1}, link,
               p32.CID.decode(ABSENT), p32.LINK]
        odd += ['did:web:down.com', 'did:web:gone.com', 'did:plc:abc', 'did:web:', 'did:x:y', 'did:', NEW + '/x', 'new.com',
                DIDS[0], DIDS[1], DIDS[2]]
        for k in [None, *base]:
            for v in [...] + odd if k else [...]:
                c = {a: b for a, b in base.items() if a != k}
                if v is not ... and k:
                    c[k] = v
                for sign in (True, False):
                    c2 = util.sign(dict(c), env.KEYS[0]) if sign else {**c, 'sig': b'x' * 64}
                    e = raw(c2)
                    yield make_car([ref.cid_of(e)], [e, empty]), 'commit', (k, repr(v), sign)
                    yield make_car([ref.cid_of(e)], [e]), 'commit alone', (k, repr(v), sign)
        for sig in odd:
            e = raw({**base, 'sig': sig})
            yield make_car([ref.cid_of(e)], [e, empty]), 'sig', repr(sig)
        for c in odd:
            e = raw(c)
            yield make_car([ref.cid_of(e)], [e, empty]), 'root', repr(c)
        # signed commits of malformed trees
        entry = {'p': 0, 'k': KEYS[0].encode(), 'v': link, 't': None}
        nodes = [*odd, {'l': None}, {'e': []}, {'l': None, 'e': None}, {'l': None, 'e': 'x'},
                 {'l': None, 'e': [1]}, {'l': None, 'e': [{}]}, {'l': 1, 'e': []},
                 {'l': None, 'e': [], 'x': 1}, {'l': None, 'e': [], '$x': {}},
                 {'l': p32.CID.decode(ABSENT), 'e': []}, {'e': [None], 'l': None}]
        for k in entry:
            for v in [...] + odd:
                en = {a: b for a, b in entry.items() if a != k}
                if v is not ...:
                    en[k] = v
                nodes.append({'l': None, 'e': [en]})
        nodes += [{'l': None, 'e': [{**entry, 'p': 5}]}, {'l': None, 'e': [{**entry, 'k': b'\xff'}]},
                  {'l': None, 'e': [entry, entry]}, {'l': None, 'e': [{**entry, 'x': 1}]}]
        for node in nodes:
            n = raw(node)
            c = util.sign({**base, 'data': p32.CID.decode(ref.cid_of(n))}, env.KEYS[0])
            e = raw(c)
            yield make_car([ref.cid_of(e)], [e, n, empty]), 'node', repr(node)[:200]
        e = raw(util.sign(dict(base), env.KEYS[0]))
        cid = ref.cid_of(e)
        for h in [*odd, {'version': 1}, {'version': 2, 'roots': [p32.CID.decode(cid)]}, {'roots': [p32.CID.decode(cid)]},
                  *({'version': 1, 'roots': r} for r in [*odd, [None], ['x'], [[]], [p32.LINK, p32.LINK]]),
                  {'version': None, 'roots': []}, {'version': 'x', 'roots': []}]:
            yield make_car([], [e, empty], header=h), 'header', repr(h)
        for c in (b'', b'\x01', b'\x12\x20', cid[:-1], cid + b'x', b'\x00' + cid[1:], b'\x01\x55' + cid[2:],
                  cid[:2] + b'\x13' + cid[3:], cid[:3] + b'\x1f' + cid[4:], ref.cid_of(b'other')):
            for blocks in ([e, (c, empty)], [(c, e), empty], [(c, b''), e, empty], [e, empty, (c, b'\xa0')],
                           [e, empty, (c, b'\xff')]):
                yield make_car([cid], blocks), 'block', (c.hex(), len(blocks))


def imports(unit, ctx):
    nsid = 'com.atproto.repo.importRepo'
    s = before = None
    for i, (body, kind, what) in enumerate(import_bodies(unit['which'])):
        if i % unit['of'] != unit['part'] or i // unit['of'] % unit['every']:
            continue
        if s is None:
            s = Sys(unit['backend'])
            before = s.state()
            ctx.check(s.http('com.atproto.sync.getRepoStatus', query=[('did', NEW)])[1]
                      == 'RepoNotFound', 'a missing repo has a status')
        if not body:
            continue  # no body is JSON for lexrpc
        status, err, r = s.http(nsid, method='POST', body=body)
        info = dict(kind=kind, changed=repr(what), status=status, error=err, backend=unit['backend'],
                    body=repr(r.get_data()[:300]))
        judge(ctx, nsid, {'ok', 'InvalidRequest', err or 'ok'}, status, err, r, info)
        if kind == 'commit' and what[0] == 'did' and what[1] in map(repr, DIDS):
            ctx.check(status != 200, 'a repo that already exists is imported again', **info)
        if status != 200:
            if not ctx.check(s.state() == before, 'a refused import changes something', **info):
                s = None
        else:
            ctx.count('imported')
            for q, params in (('com.atproto.sync.listRepos', []),
                              ('com.atproto.sync.getRepoStatus', [('did', NEW)])):
                st2, err2, r2 = s.http(q, query=params)
                ctx.check(st2 == 200, f'after an import, {q.split(".")[-1]} fails',
                          answer=repr(r2.get_data()[:300]), **info)
            s = None


# --- lifecycles ---

def menu(w):
    for d in 0, 1:
        m = w.repos.get(DIDS[d])
        if m is None:
            yield ['create', d]
            continue
        for op in 'deactivate', 'activate', 'tombstone':
            yield [op, d, 'loaded']
        if not m.status and d == 0:
            for k in range(2):
                yield ['commit', d, [['delete', k, None] if KEYS[k] in m.items else ['create', k, 1]],
                       'loaded']


def probes(s):
    for d in 0, 1:
        did = DIDS[d]
        coll, rkey = KEYS[0].split('/')
        for m in 'getRepo', 'getCheckout', 'getHead', 'getLatestCommit', 'getRepoStatus':
            yield 'com.atproto.sync.' + m, [('did', did)]
        yield 'com.atproto.sync.getRecord', [('did', did), ('collection', coll), ('rkey', rkey)]
        yield 'com.atproto.sync.getBlocks', [('did', did), ('cids', 'COMMIT')]
        for ident in did, HANDLES[d]:
            yield 'com.atproto.repo.describeRepo', [('repo', ident)]
            yield 'com.atproto.repo.listRecords', [('repo', ident), ('collection', coll)]
            yield 'com.atproto.repo.getRecord', [('repo', ident), ('collection', coll),
                                                 ('rkey', rkey)]
    yield 'com.atproto.sync.listRepos', []


def lifecycle(unit, ctx):
    """Every history of two repos, with every query before and after every step."""
    def go(hist):
        s = Sys(unit['backend'], 'empty')
        ask(s)
        for op in hist:
            s.w.step(op)
            ask(s)
        ctx.step()
        if len(hist) < unit['depth']:
            for op in list(menu(s.w)):
                go(hist + [op])

    def ask(s):
        s.cids = {ref.b32(c) for c in s.w.raw()}
        before, seq = s.state(), s.w.last_seq()
        for nsid, pairs in probes(s):
            pairs = resolve(pairs, s)
            want, p = query_outcomes(s, nsid, pairs)
            status, err, r = s.http(nsid, query=pairs)
            info = dict(method=nsid, params=repr(pairs)[:400], status=status, error=err,
                        backend=unit['backend'], history=s.w.hist, body=repr(r.get_data()[:300]))
            judge(ctx, nsid, want, status, err, r, info)
            if status == 200 and 'ok' in want:
                good_output(ctx, s, nsid, p, r, info)
                if nsid.endswith('listRepos'):
                    got = {(o['did'], o['active'], o['head']) for o in r.get_json()['repos']}
                    ctx.check(got == {(m.did, not m.status, ref.b32(m.head))
                                      for m in s.w.repos.values()}, 'listRepos is wrong', **info)
        unchanged(ctx, s, before, seq, 'all queries', s.w.hist)

    for first in list(menu(Sys(unit['backend'], 'empty').w)):
        s = Sys(unit['backend'], 'empty')
        s.w.step(first)
        for i, op in enumerate(menu(s.w)):
            if i % unit['of'] == unit['part']:
                go([first, op])


def units(tier, seed):
    q = tier == 'quick'
    out = []
    for nsid in QUERIES:
        big = nsid.split('.')[-1] in ('listRecords', 'getRecord', 'listBlobs', 'listRepos')
        for b in ('memory', 'datastore'):
            if nsid.endswith('Blob') or nsid.endswith('Blobs'):
                if b == 'memory':
                    continue
            for part in range(6 if big else 1):
                out.append({'kind': 'query', 'nsid': nsid, 'backend': b, 'part': part, 'mode': 'full',
                            'of': 6 if big else 1, 'every': 3 if q and big and b == 'datastore' else 1})
            for mode in 'empty', 'down':
                out.append({'kind': 'query', 'nsid': nsid, 'backend': b, 'part': 0, 'mode': mode,
                            'of': 1, 'every': 7 if big else 1})
    for nsid in PROCEDURES:
        for b in ('memory', 'datastore'):
            for part in range(6):
                out.append({'kind': 'procedure', 'nsid': nsid, 'backend': b, 'part': part, 'of': 6,
                            'every': (1 if b == 'memory' else 5) if q else 1})
    for b in ('memory', 'datastore'):
        for part in range(6):
            out.append({'kind': 'lifecycle', 'backend': b, 'part': part, 'of': 6,
                        'depth': (4 if b == 'memory' else 3) + (not q)})
    for b in ('memory', 'datastore'):
        out += [{'kind': 'cids', 'backend': b, 'part': part, 'of': 2} for part in range(2)]
    for which in 'prefix', 'bytes', 'shapes':
        for b in ('memory', 'datastore'):
            for part in range(3):
                out.append({'kind': 'imports', 'which': which, 'backend': b, 'part': part, 'of': 3,
                            'every': 1})
    return out


def run_unit(unit, ctx):
    ctx.sample(unit)
    globals()[unit['kind']](unit, ctx)


def finalize(total, outcomes, tier):
    if total['ok'] < 500 or total['refused'] < 1000 or len(outcomes) < 30:
        return 'vacuous: too few answers'
