"""P19: authorisation of XRPC methods, over HTTP."""
import base64
import datetime
import io
import itertools
import json
import sys
from unittest import mock

from mc import env, fakeds, ref, xrpc
from mc.xrpc import config
from flask import Flask
# not installed here, and only used for subscriptions
for name in 'flask_sock', 'simple_websocket':
    try:
        __import__(name)
    except ImportError:
        sys.modules[name] = mock.MagicMock()
from lexrpc.flask_server import init_flask
import webutil.util
from arroba import did as adid
from arroba import server as aserver
from arroba import util, xrpc_repo

ID = 'P19'
LEVEL = 'model_checking'
CHUNK = 1
TECHNIQUE = ('exhaustive enumeration of registered methods, credentials and configurations, and of '
             'pairs of an authorised and an unauthorised call, over HTTP against the real server, '
             'with the complete stored state compared after each')
RULE = ('every registered method, with every single character change, prefix, extension and other '
        'way to pass the token, for unset, empty and several set tokens, on both storages; every '
        'authorised call followed by every unauthorised one, and by a change of the token; '
        'createSession with every password against every configuration; every write to '
        'collections in, near and outside the supported ones; getRepo with every switch, token, '
        'credential and age')
ASSUMPTIONS = ['case and white space around the authorisation scheme are not specified',
               'Flask is installed; without it the server sees no credentials',
               'the Datastore backend runs on the in-process model of Datastore']

# flask apps are per process
app = Flask('p19', static_folder=None)
init_flask(aserver.server, app)
PREFIX = '/xrpc/'
NEW = 'did:web:import.com'
NOW = datetime.datetime(2024, 1, 2, 3, 4, 5, tzinfo=datetime.timezone.utc)

PROCEDURES = ['com.atproto.repo.createRecord', 'com.atproto.repo.putRecord',
              'com.atproto.repo.deleteRecord', 'com.atproto.repo.importRepo',
              'com.atproto.repo.applyWrites', 'com.atproto.repo.uploadBlob',
              'com.atproto.server.refreshSession', 'com.atproto.server.getSession']
TOKENS = ('towkin', 'a', 'Bearer x', 'None', 'eyJ0.eyJ1-_.c2ln', 'x' * 300)


def registered():
    return sorted(n for n in aserver.server._methods
                  if (aserver.server._get_def(n) or {}).get('type') != 'subscription')


def is_protected(nsid):
    return (nsid in PROCEDURES
            or (aserver.server._get_def(nsid) or {}).get('type') == 'procedure'
            and nsid != 'com.atproto.server.createSession')


class Sys:
    """A server with one repo with one record."""
    CAR = None

    def __init__(self, backend, age=None):
        self.sys = env.make(backend)
        storage = self.sys.storage
        repo = env.create_repo(storage, did=env.DID, handle='han.dle')
        storage.commit(repo, [env.path_write('create', 'a.b.c/1', 1)])
        self.backend = backend

    def state(self):
        s = self.sys.storage
        with self.ctx():
            out = [(r.did, r.handle, bytes(r.head.cid), r.status) for r in s.load_repos()]
            out.append([(e if isinstance(e, dict) else (e.commit.seq, bytes(e.commit.cid)))
                        for e in s.read_events_by_seq(start=0)])
            out.append(s.sequences.last(env.NSID))
        if self.backend == 'datastore':
            out.append(repr(sorted(self.sys.db.data.items(), key=repr))
                       if hasattr(self.sys.db, 'data') else None)
        else:
            out.append(sorted(bytes(c) for c in s.blocks) if hasattr(s, 'blocks') else None)
        return repr(out)

    def ctx(self):
        import contextlib
        return (self.sys.client.context() if self.backend == 'datastore'
                else contextlib.nullcontext())

    def http(self, nsid, token, headers=None, query=None, body=None, method='POST', cookie=None):
        """Returns (status, body bytes)."""
        aserver.storage = self.sys.storage
        old = aserver.server._validate
        aserver.server._validate = True
        kw = {}
        if isinstance(body, bytes):
            kw = {'data': body, 'content_type': 'application/vnd.ipld.car'}
        elif body is not None:
            kw = {'json': body}
        client = app.test_client()
        if cookie:
            client.set_cookie(*cookie)
        try:
            with config(REPO_TOKEN=token), self.ctx():
                r = client.open(PREFIX + nsid, method=method, headers=headers or {},
                                query_string=query or {}, **kw)
                return r.status_code, r.get_data()
        finally:
            aserver.server._validate = old


def car():
    if Sys.CAR is None:
        s = env.make('memory').storage
        repo = env.create_repo(s, did=NEW, handle='import.com')
        s.commit(repo, [env.path_write('create', 'a.b.c/9', 9)])
        raw = {bytes(c): b.encoded for c, b in s.blocks.items()}
        Sys.CAR = xrpc_export(s, NEW)
    return Sys.CAR


def xrpc_export(storage, did):
    ok, out = xrpc.raw_call(storage, 'com.atproto.sync.getRepo', {}, did=did)
    assert ok, out
    return out


def get(url, **kw):
    """DID documents."""
    host = url.removeprefix('https://').split('/')[0]
    did = f'did:web:{host}'
    return xrpc.Resp(json={
        'id': did, 'alsoKnownAs': [f'at://{host}'], 'verificationMethod': [{
            'id': f'{did}#atproto', 'type': 'Multikey', 'controller': did,
            'publicKeyMultibase': adid.encode_did_key(
                env.KEYS[0].public_key()).removeprefix('did:key:')}]}, url=url)


REC = {'$type': 'a.b.c', 'n': 5}


def requests(nsid):
    """Requests of a method that would be successful: [(kwargs, does it change anything)]."""
    name = nsid.split('.')[-1]
    R = {'repo': env.DID}
    return {
        'createRecord': [({'body': {**R, 'collection': 'a.b.c', 'record': REC}}, True),
                         ({'body': {**R, 'collection': 'a.b.c', 'rkey': '1', 'record': REC}}, True),
                         ({'body': {**R, 'repo': 'han.dle', 'collection': 'a.b.c',
                                    'record': REC}}, True)],
        'putRecord': [({'body': {**R, 'collection': 'a.b.c', 'rkey': '1', 'record': REC}}, True),
                      ({'body': {**R, 'collection': 'a.b.c', 'rkey': '2', 'record': REC}}, True)],
        'deleteRecord': [({'body': {**R, 'collection': 'a.b.c', 'rkey': '1'}}, True),
                         ({'body': {**R, 'repo': 'han.dle', 'collection': 'a.b.c',
                                    'rkey': '1'}}, True),
                         ({'body': {**R, 'collection': 'a.b.c', 'rkey': 'none'}}, False)],
        'importRepo': [({'body': car()}, True)],
        'applyWrites': [({'body': {**R, 'writes': [
            {'$type': 'com.atproto.repo.applyWrites#create', 'collection': 'a.b.c',
             'rkey': '7', 'value': REC}]}}, None)],
        'uploadBlob': [({'body': b'foo'}, None)],
        'getRecord': [({'query': {'repo': env.DID, 'collection': 'a.b.c', 'rkey': '1'}}, False)],
        'listRecords': [({'query': {'repo': env.DID, 'collection': 'a.b.c'}}, False)],
        'describeRepo': [({'query': {'repo': env.DID}}, False)],
        'createSession': [({'body': {'identifier': env.DID, 'password': 'wrong'}}, False)],
        'getBlocks': [({'query': {'did': env.DID, 'cids': [ref.b32(env.rec_cid(1))]}}, False)],
    }.get(name, [({'query': {'did': env.DID}} if '.sync.' in nsid else {}, False)])


def sync_record(nsid):
    return nsid == 'com.atproto.sync.getRecord'


def calls(nsid):
    if sync_record(nsid):
        return [({'query': {'did': env.DID, 'collection': 'a.b.c', 'rkey': '1'}}, False)]
    if nsid == 'com.atproto.sync.listRepos':
        return [({}, False)]
    return requests(nsid)


def bad_credentials(t):
    """Everything that isn't the token t: HTTP arguments."""
    vals = {None, '', 'Bearer', 'Bearer ', 'Bearer None', 'Bearer null', 'Bearer undefined',
            'Bearer *', 'Basic', 'Bearer Bearer', 'DPoP x', 'None', 'True', 'Bearer True'}
    other = []
    if t:
        near = {t[:i] for i in range(len(t))} | {t[i:] for i in range(1, len(t))}
        near |= {t + c for c in 'a1.= '} | {c + t for c in 'a1.='} | {t + t}
        near.discard(t + ' ')
        for i, c in itertools.islice(enumerate(t), 40):
            near |= {t[:i] + chr(ord(c) ^ 1) + t[i + 1:], t[:i] + c.swapcase() + t[i + 1:],
                     t[:i] + c + c + t[i + 1:], t[:i] + t[i + 1:], t[:i] + '*' + t[i + 1:]}
        near |= {t[::-1], t.upper(), t.lower(), t.title()}
        near -= {t, ''}
        vals |= {f'Bearer {n}' for n in near if n.strip() == n and all(32 <= ord(c) < 127 for c in n)}
        b64 = base64.b64encode(t.encode()).decode()
        vals |= {t, f'Basic {t}', f'Token {t}', f'DPoP {t}', f'Bearer{t}', f'Bearer:{t}',
                 f'Bearer={t}', f'Bearer "{t}"', f'Bearer {b64}', f'Basic {b64}',
                 'Basic ' + base64.b64encode(f'admin:{t}'.encode()).decode(),
                 'Basic ' + base64.b64encode(f':{t}'.encode()).decode(),
                 f'Bearer x, Bearer {t}', f'Bearer {t}, Bearer x', f'Bearer {t} x',
                 f'x Bearer {t}'}
        vals.discard(f'Bearer {t}')
        good = f'Bearer {t}'
        other = [{'headers': {'X-Authorization': good}}, {'headers': {'Cookie': f'token={t}'}},
                 {'headers': {'Proxy-Authorization': good}},
                 {'headers': {'REPO_TOKEN': t}}, {'query': {'token': t}},
                 {'query': {'access_token': t}}, {'query': {'Authorization': good}},
                 {'query': {'auth': t}}, {'cookie': ('Authorization', good)}]
    return [{'headers': {} if v is None else {'Authorization': v}}
            for v in sorted(vals, key=str)] + other


def merge(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = {**out.get(k, {}), **v} if isinstance(v, dict) else v
    return out


def units(tier, seed):
    q = tier == 'quick'
    out = []
    for nsid in registered():
        for backend in ('memory', 'datastore'):
            for t in (None, '') + TOKENS:
                if q and backend == 'datastore' and t not in (None, '', 'towkin'):
                    continue
                out.append({'kind': 'method', 'nsid': nsid, 'backend': backend, 'token': t})
    for nsid in registered():
        for backend in ('memory', 'datastore'):
            out.append({'kind': 'pairs', 'nsid': nsid, 'backend': backend})
    out += [{'kind': 'session', 'backend': b, 'token': t} for b in ('memory', 'datastore')
            for t in (None, '', 'towkin')]
    out += [{'kind': 'collections', 'backend': b, 'config': c} for b in ('memory', 'datastore')
            for c in CONFIGS]
    out += [{'kind': 'getRepo', 'backend': b, 'token': t} for b in ('memory', 'datastore')
            for t in (None, '', 'gt', 'towkin')]
    return out


def run_unit(unit, ctx):
    ctx.sample(unit)
    webutil.util.session.get = get
    webutil.util.now = lambda: NOW
    car()
    {'method': method, 'pairs': pairs, 'session': session, 'collections': collections,
     'getRepo': get_repo}[unit['kind']](unit, ctx)


def applicable(nsid, backend):
    # blobs only exist on Datastore
    return backend == 'datastore' or 'Blob' not in nsid or nsid.endswith('uploadBlob')


def method(unit, ctx):
    nsid, token = unit['nsid'], unit['token']
    if not applicable(nsid, unit['backend']):
        return
    protected = is_protected(nsid)
    w = Sys(unit['backend'])
    before = w.state()
    for args, changes in calls(nsid):
        want = None
        if not protected:
            want = w.http(nsid, None, **args)
            ctx.check(want[0] < 400 or nsid.endswith(('createSession', 'getBlob')),
                      'a reading method is refused without a token', nsid=nsid, got=want)
        for cred in bad_credentials(token):
            for verb in (('POST', 'GET') if cred.get('headers') == {} else ('POST',)):
                got = w.http(nsid, token, method=verb, **merge(args, cred))
                how = dict(nsid=nsid, token=token, args=repr(args)[:500], credential=cred,
                           verb=verb, status=got[0], body=got[1][:300])
                ctx.execution()
                ctx.step()
                if protected:
                    ctx.check(got[0] >= 400, 'a protected method is not refused',
                              sig={'nsid': nsid}, **how)
                    ctx.check(w.state() == before, 'an unauthorised call changes something',
                              sig={'nsid': nsid}, **how)
                    if token and len(token) > 4:
                        ctx.check(token.encode() not in got[1], 'the token is given away', **how)
                elif 'createSession' not in nsid:
                    ctx.check(got == want, 'a reading method depends on the credential',
                              sig={'nsid': nsid}, want=want[1][:300], **how)
                ctx.outcome([nsid, got[0]])
                ctx.state()
        if token:
            # with the token
            got = w.http(nsid, token, **merge(args, {'headers': {
                'Authorization': f'Bearer {token}'}}))
            if protected and changes is not None and 'Session' not in nsid:
                ctx.check(got[0] < 400, 'an authorised call is refused', nsid=nsid, got=got)
                ctx.check((w.state() != before) == changes,
                          "an authorised call doesn't have its effect", nsid=nsid, got=got,
                          args=repr(args)[:500])
                w = Sys(unit['backend'])
                before = w.state()
            elif not protected:
                ctx.check(got == want or 'createSession' in nsid,
                          'a reading method depends on the credential', nsid=nsid)
            else:
                ctx.check(w.state() == before, 'a call without effect has one', nsid=nsid)


def pairs(unit, ctx):
    """An authorised call, then unauthorised ones, then one with another token."""
    first, b = unit['nsid'], unit['backend']
    if not applicable(first, b):
        return
    good = {'headers': {'Authorization': 'Bearer towkin'}}
    for args, _ in calls(first):
        w = Sys(b)
        w.http(first, 'towkin', **merge(args, good))
        before = w.state()
        for nsid in registered():
            if not is_protected(nsid) or not applicable(nsid, b):
                continue
            for args2, _ in calls(nsid):
                for token, cred in (('towkin', {}), ('towkin', {'headers': {
                        'Authorization': 'Bearer x'}}), ('other', good), (None, good), ('', good),
                        (None, {}), ('', {'headers': {'Authorization': 'Bearer '}})):
                    got = w.http(nsid, token, **merge(args2, cred))
                    how = dict(first=first, nsid=nsid, token=token, credential=cred,
                               status=got[0])
                    ctx.check(got[0] >= 400, 'a protected method is not refused after an '
                              'authorised call', sig={'nsid': nsid}, **how)
                    ctx.check(w.state() == before, 'an unauthorised call changes something after '
                              'an authorised one', sig={'nsid': nsid}, **how)
                    ctx.execution()
                    ctx.step(2)
                    ctx.state()
    ctx.outcome(first)


def session(unit, ctx):
    w = Sys(unit['backend'])
    before = w.state()
    token = unit['token']
    nsid = 'com.atproto.server.createSession'
    for conf in (None, '', 'pass', 'None', 'towkin'):
        for given in ('missing', None, '', 'pass', 'Pass', 'pas', 'passs', 'pass ', ' pass', 'None',
                      'towkin', 'null', 0, False, True, [], ['pass'], {'pass': 1}):
            for who in (env.DID, 'han.dle', 'none.com', '', 'did:web:none.com', 'missing'):
                body = {}
                if given != 'missing':
                    body['password'] = given
                if who != 'missing':
                    body['identifier'] = who
                with config(REPO_PASSWORD=conf):
                    got = w.http(nsid, token, body=body)
                ctx.execution()
                ctx.step()
                ctx.state()
                how = dict(password=conf, token=token, body=body, got=got)
                right = conf and given == conf and who in (env.DID, 'han.dle')
                if right and token:
                    ok = got[0] == 200
                    ctx.check(ok, 'createSession refuses the right password', **how)
                    out = json.loads(got[1]) if ok else {}
                    ctx.check(out.get('accessJwt') == token and out.get('did') == env.DID
                              and out.get('handle') == 'han.dle',
                              "createSession doesn't return the session", **how)
                elif not right:
                    ctx.check(got[0] >= 400, 'createSession accepts the wrong password',
                              sig={'conf': conf}, **how)
                    ctx.check(b'accessJwt' not in got[1], 'the token is given away', **how)
                ctx.outcome([bool(right), got[0]])
    ctx.check(w.state() == before, 'createSession changes something', **{})


CONFIGS = ([], ['a.b.c'], ['a.b.c', 'x.y.z'], ['a.b'], ['a.b.c.d'], ['a.b.C'])
COLLS = ('a.b.c', 'a.b.cc', 'a.b.c.d', 'x.y.z', 'b.c.d', 'a.b.C')


def collections(unit, ctx):
    conf = unit['config']
    good = {'headers': {'Authorization': 'Bearer towkin'}}
    old = xrpc_repo.SUPPORTED_COLLECTIONS
    xrpc_repo.SUPPORTED_COLLECTIONS = frozenset(conf)
    try:
        with config(SUPPORTED_COLLECTIONS=','.join(conf) or None):
            for coll, type in itertools.product(COLLS, COLLS):
                for name in ('createRecord', 'createRecord rkey', 'putRecord', 'putRecord old',
                             'deleteRecord'):
                    w = Sys(unit['backend'])
                    if name in ('deleteRecord', 'putRecord old'):
                        s = w.sys.storage
                        if coll != 'a.b.c':
                            with w.ctx():
                                s.commit(s.load_repo(env.DID), [env.path_write(
                                    'create', f'{coll}/1', 1)])
                    before = w.state()
                    body = {'repo': env.DID, 'collection': coll}
                    if name != 'createRecord':
                        body['rkey'] = '1' if 'old' in name or 'delete' in name else '3'
                    if name != 'deleteRecord':
                        body['record'] = {'$type': type, 'n': 7}
                    elif type != coll:
                        continue
                    got = w.http('com.atproto.repo.' + name.split()[0], 'towkin',
                                 **merge({'body': body}, good))
                    how = dict(supported=conf, call=name, body=body, got=got)
                    ctx.execution()
                    ctx.step()
                    ctx.state()
                    if conf and coll not in conf:
                        ctx.check(got[0] >= 400, "a write to an unsupported collection isn't "
                                  'refused', sig={'call': name}, **how)
                        ctx.check(w.state() == before, 'a refused write changes something', **how)
                    elif type == coll:
                        ctx.check(got[0] == 200 and w.state() != before,
                                  'a write to a supported collection is refused', **how)
                    ctx.outcome([name, bool(conf), coll in conf, got[0]])
                    # other ways to say it
    finally:
        xrpc_repo.SUPPORTED_COLLECTIONS = old


def get_repo(unit, ctx):
    """getRepo and getCheckout may be switched off for old repos, but for a token."""
    token = unit['token']
    w = Sys(unit['backend'])
    with w.ctx():
        created = w.sys.storage.load_repo(env.DID).created
    old = util.DISABLE_GETREPO, util.GETREPO_TOKEN
    H = datetime.timedelta(hours=1)
    try:
        for disabled in (False, True):
            for age in (0, 11.9, 12.1, 100):
                webutil.util.now = lambda: (created or NOW) + age * H
                for cred in bad_credentials(token) + (
                        [{'headers': {'Authorization': f'Bearer {token}'}}] if token else []):
                    for nsid in ('com.atproto.sync.getRepo', 'com.atproto.sync.getCheckout'):
                        for extra in ({}, {'internal': 'true'}, {'authed': 'true'}):
                            if extra and cred.get('headers'):
                                continue
                            util.DISABLE_GETREPO = disabled
                            util.GETREPO_TOKEN = token
                            got = w.http(nsid, 'towkin', **merge(
                                {'query': {'did': env.DID, **extra}, 'method': 'GET'}, cred))
                            ctx.execution()
                            ctx.step()
                            ctx.state()
                            how = dict(nsid=nsid, disabled=disabled, age=age, token=token,
                                       credential=cred, extra=extra, status=got[0],
                                       created=bool(created))
                            auth = cred.get('headers', {}).get('Authorization')
                            given = (auth or '').removeprefix('Bearer ').strip()
                            if not disabled or not created or age < 12 or (
                                    token and auth == f'Bearer {token}'):
                                ctx.check(got[0] == 200, 'getRepo is refused', **how)
                            elif not token or given != token:
                                # a bare token, without scheme, isn't specified
                                ctx.check(got[0] >= 400, "getRepo isn't refused", **how)
                            ctx.outcome([disabled, age > 12, got[0]])
    finally:
        util.DISABLE_GETREPO, util.GETREPO_TOKEN = old
