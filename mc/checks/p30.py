"""P30: private keys and credentials stay secret, and repos keep their keys."""
import base64
import contextlib
import hashlib
import io
import itertools
import logging
import os
import re

from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives.asymmetric import ec
import google.api_core.exceptions as gexc

from mc import env, hist, ref, xrpc
from mc.checks import p19, p24
from mc.hist import DIDS, HANDLES, World
import webutil.util
from arroba import did as adid
from arroba import firehose, server as aserver, util
from arroba.repo import Repo

ID = 'P30'
LEVEL = 'model_checking'
CHUNK = 1
TECHNIQUE = ('explicit-state exploration of histories of storage, XRPC and PLC operations on the '
             'real code with every request failing, in which everything that leaves the process '
             '(Datastore requests, HTTP requests and responses, events, log messages, errors) is '
             "searched for every encoding of every secret, and every repo's keys are compared")
RULE = ('every history of storage operations up to the depth bound on both storages; every operation '
        'of it with every Datastore request failing in every way; every XRPC method with every '
        'credential in every status; every PLC operation with every failing request; repos with '
        'boundary keys of every kind through every operation')
ASSUMPTIONS = ['encodings that are searched for: raw bytes and their repr, hex, decimal, base64 and '
               'base64url in every alignment, base32, base58, PEM and PEM lines',
               'memory inside the process is not observable, so in-memory storage may hold keys',
               'only log messages from arroba itself are searched',
               'createSession returns the token for the right password, by design',
               'Datastore histories run on the in-process model of Datastore']

SRC = os.path.join(os.path.realpath(os.environ.get('VERIF_REPO', '/repo')), 'arroba')
N = env.N


def strong(i):
    """A key without long runs of zeros, so that its encodings are unmistakable."""
    n = int.from_bytes(hashlib.sha256(f'key {i}'.encode()).digest(), 'big')
    return ec.derive_private_key(n % (N - 1) + 1, ec.SECP256K1())


# other modules share this list
env.KEYS[:] = [strong(i) for i in range(len(env.KEYS))]
p24.KEYS[:] = env.KEYS + [strong(10 + i) for i in range(2)]
p24.BY_DID.clear()
p24.BY_DID.update({p24.did_key(k.public_key()): k.public_key() for k in p24.KEYS})
KEYS = env.KEYS

TOKEN = 'tok-3f8a1bb2c7d94e05'
PASSWORD = 'pass-90c1d2e47b6f'
GETREPO = 'getrepo-5a6b7c8d9e0f'
ENCRYPTION = os.environ['ENCRYPTED_PROPERTY_KEY'].split()[0]


def encodings(raw):
    """Patterns that give raw away."""
    out = {raw, repr(raw)[2:-1].encode(), raw.hex().encode(), raw.hex().upper().encode(),
           ' '.join(f'{b:02x}' for b in raw).encode(), ':'.join(f'{b:02x}' for b in raw).encode(),
           str(int.from_bytes(raw, 'big')).encode(), str(int.from_bytes(raw, 'little')).encode(),
           raw[::-1], str(list(raw))[1:-1].encode(), p24.b58(raw).encode()}
    for pad in range(3):
        b = base64.b64encode(b'\0' * pad + raw)
        b = b[[0, 2, 3][pad]:]
        b = b[:len(b) - [0, 3, 2][(len(raw) + pad) % 3] - (1 if (len(raw) + pad) % 3 else 0)]
        out |= {b, b.replace(b'+', b'-').replace(b'/', b'_')}
    b = base64.b32encode(raw)[:len(raw) * 8 // 5]
    out |= {b, b.lower()}
    return {o for o in out if len(o) >= 8}


def key_patterns(key):
    raw = key.private_numbers().private_value.to_bytes(32, 'big')
    out = encodings(raw)
    for fmt in (serialization.PrivateFormat.PKCS8, serialization.PrivateFormat.TraditionalOpenSSL):
        args = (fmt, serialization.NoEncryption())
        out.add(key.private_bytes(serialization.Encoding.DER, *args))
        pem = key.private_bytes(serialization.Encoding.PEM, *args)
        # the first two lines have the private value, the others the public one
        out |= set(pem.splitlines()[1:3])
    return out


class Secrets:
    """Searches what leaves the process."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.names = {}
        self.regex = None
        self.log = []
        self.out = io.StringIO()
        for i, k in enumerate(KEYS):
            self.add_key(k, f'key {i}')
        for i, k in enumerate(p24.KEYS[len(KEYS):]):
            self.add_key(k, f'PLC key {i}')
        for name, s in (('REPO_TOKEN', TOKEN), ('REPO_PASSWORD', PASSWORD),
                        ('GETREPO_TOKEN', GETREPO)):
            self.add(name, {s.encode(), s.encode().hex().encode(), base64.b64encode(s.encode())})
        self.add('ENCRYPTED_PROPERTY_KEY', {ENCRYPTION.encode(), base64.b64decode(ENCRYPTION)})

    def add(self, name, pats):
        for p in pats:
            self.names.setdefault(p, name)
        self.regex = None

    def add_key(self, key, name):
        if isinstance(key, ec.EllipticCurvePrivateKey):
            self.add(name, key_patterns(key))

    def find(self, data, allowed=()):
        if self.regex is None:
            self.regex = re.compile(b'|'.join(map(re.escape, self.names)))
        for m in self.regex.finditer(data):
            if (name := self.names[m.group()]) not in allowed:
                return name

    def check(self, where, data, allowed=(), **how):
        if isinstance(data, str):
            data = data.encode(errors='surrogateescape')
        elif not isinstance(data, bytes):
            data = repr(data).encode()
        self.ctx.count('searched')
        name = self.find(data, allowed)
        i = 0
        if name:
            m = next(m for m in self.regex.finditer(data) if self.names[m.group()] == name)
            i = max(m.start() - 60, 0)
        self.ctx.check(not name, f'{where} contains a secret', secret=name,
                       context=repr(data[i:i + 120]) if name else None, **how)

    def error(self, where, e, **how):
        """Everything that a client or a log would see of an exception."""
        seen = set()
        while e is not None and id(e) not in seen:
            seen.add(id(e))
            self.check(f'{where}: error', f'{e} {e!r} {getattr(e, "headers", "")} '
                       f'{getattr(e, "__notes__", "")}', **how)
            e = e.__cause__ or e.__context__

    def logs(self, **how):
        text, self.log[:] = '\n'.join(self.log), []
        self.check('log', text, **how)
        self.ctx.count('log_bytes', len(text))
        if printed := self.out.getvalue():
            self.check('output', printed, **how)
            self.out.seek(0)
            self.out.truncate()

    def request(self, stub, method, request):
        """Datastore stub hook."""
        pb = type(request).pb(request) if hasattr(type(request), 'pb') else request
        self.check(f'Datastore {method}', pb.SerializeToString())

    @contextlib.contextmanager
    def watching(self):
        """Captures arroba's log messages, what is printed, and generated keys."""
        secrets = self

        class Handler(logging.Handler):
            def emit(self, record):
                if os.path.realpath(record.pathname).startswith(SRC):
                    secrets.log.append(f'{self.format(record)} {record.args}')

        generate = ec.generate_private_key
        count = itertools.count()

        def generate_private_key(*args, **kwargs):
            key = generate(*args, **kwargs)
            secrets.add_key(key, f'generated key {next(count)}')
            # the reference directory knows keys
            p24.EXTRA[p24.did_key(key.public_key())] = key.public_key()
            return key

        root, h = logging.getLogger(), Handler(logging.NOTSET)
        level = root.level
        root.addHandler(h)
        root.setLevel(1)
        loggers = [l for n, l in logging.root.manager.loggerDict.items()
                   if n.split('.')[0] == 'arroba' and isinstance(l, logging.Logger)]
        levels = [l.level for l in loggers]
        for l in loggers:
            l.setLevel(1)
        old = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        ec.generate_private_key = generate_private_key
        try:
            with contextlib.redirect_stdout(self.out):
                yield self
        finally:
            ec.generate_private_key = generate
            logging.disable(old)
            for l, v in zip(loggers, levels):
                l.setLevel(v)
            root.setLevel(level)
            root.removeHandler(h)


def same_key(a, b):
    if a is None or b is None:
        return a is b
    return a.private_numbers() == b.private_numbers()


PATTERN = [0, 1, 0]


def menu(w):
    """Next operations: (name, function that takes the world)."""
    ops = []
    if DIDS[1] not in w.repos:
        ops.append(['create', 1])
    m = w.repos[DIDS[0]]
    ops.append(['commit', 0, [['update' if w.keys[0] in m.items else 'create', 0,
                               1 - m.items.get(w.keys[0], 1)]], 'held'])
    ops.append(['commit', 0, [['create', 1, 1], ['delete', 2, None]], 'fresh'])
    ops.append(['commit', 0, [['bad', 0, 0]], 'held'])
    ops += [['deactivate', 0, 'fresh'], ['activate', 0, 'held'], ['tombstone', 0, 'held'],
            ['event', 0, 'identity'], ['reload', 0]]
    return ops


class W(World):
    def write(self, act, k, v):
        if act == 'bad':
            return env.Write(action=env.Action.CREATE, collection='a b', rkey='c',
                             record={'$type': 'x.y.z'})
        return super().write(act, k, v)


def new_world(backend):
    return W(ref.keys_for(PATTERN), backend)


def observe(ctx, sec, w, h):
    """Everything that anyone can read in a state."""
    out = w.last
    sec.logs(**h)
    for what, data in out['calls']:
        sec.check('callback', data, **h)
    if out['error']:
        sec.error(out['op'][0], out['error'], **h)
    sec.check('stored state', w.snapshot() if w.backend == 'datastore' else
              {c: b.encoded for c, b in w.storage.blocks.items()}, **h)
    aserver.storage = w.storage
    cm = w.sys.client.context() if w.backend == 'datastore' else contextlib.nullcontext()
    with cm:
        for event in w.storage.read_events_by_seq(start=0):
            header, payload = firehose.process_event(event)
            sec.check('firehose event', ref.encode(header) + ref.encode(plain(payload)), **h)
        for did, m in w.repos.items():
            keys(ctx, w.storage, did, m.handle, KEYS[m.key], KEYS[3], h)
            if m.status is None:
                ok, car = xrpc.raw_call(w.storage, 'com.atproto.sync.getRepo', {}, did=did)
                ctx.check(ok, 'getRepo fails', error=repr(car), **h)
                sec.check('export', car, **h)
    for r in w.held.values():
        sec.check("repo object's repr", repr(r) + str(r), **h)
    sec.logs(**h)


def plain(o):
    """CIDs to something that the independent encoder takes."""
    if isinstance(o, dict):
        return {k: plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    if isinstance(o, (str, bytes, int, float, type(None))):
        return o
    return str(o)


def keys(ctx, storage, did, handle, signing, rotation, h):
    """The repo has its own keys, however it's loaded."""
    ctx.count('key_checks')
    h = {**h, 'did': did}
    found = [('load_repo by DID', storage.load_repo(did))]
    if handle:
        found.append(('load_repo by handle', storage.load_repo(handle)))
    found.append(('load_repos', next((r for r in storage.load_repos() if r.did == did), None)))
    for how, r in found:
        if ctx.check(r is not None, f'{how} finds nothing', **h):
            ctx.check(same_key(r.signing_key, signing), f'{how} has another signing key',
                      **h)
            ctx.check(same_key(r.rotation_key, rotation), f'{how} has another rotation key',
                      **h)


def start(sec, backend):
    w = new_world(backend)
    if backend == 'datastore':
        w.sys.client.stub.hook = sec.request
    return w


def histories(unit, ctx):
    with Secrets(ctx).watching() as sec:
        def run(w, op):
            w.step(op)
            ctx.step()
            ctx.state()
            h = dict(history=list(w.hist), backend=unit['backend'])
            observe(ctx, sec, w, h)
            ctx.outcome([op[0], w.last['ok'], unit['backend'], type(w.last['error']).__name__])

        def go(w, depth):
            if not depth:
                ctx.execution()
                return
            for op in menu(w):
                c = w.clone()
                if unit['backend'] == 'datastore':
                    c.sys.client.stub.hook = sec.request
                run(c, op)
                go(c, depth - 1)

        w = start(sec, unit['backend'])
        run(w, ['create', 0])
        run(w, ['commit', 0, [['create', 2, 0]], 'held'])
        run(w, menu(w)[unit['first']])
        go(w, unit['depth'] - 1)


FAULTS = {
    'unavailable': gexc.ServiceUnavailable('x'), 'aborted': gexc.Aborted('x'),
    'invalid': gexc.InvalidArgument('x'), 'permission': gexc.PermissionDenied('x'),
}


def faults(unit, ctx):
    """Every Datastore request of an operation fails."""
    kind, after, forever = unit['fault'], unit['after'], unit['forever']
    with Secrets(ctx).watching() as sec:
        base = start(sec, 'datastore')
        for op in ([] if unit['op'] == 0 else
                   [['create', 0], ['commit', 0, [['create', 2, 0]], 'held']]):
            base.step(op)
        op = ['create', 0] if unit['op'] == 0 else menu(base)[unit['op'] - 1]
        for at in itertools.count():
            w = base.clone()
            n = itertools.count()
            fired = []

            def hook(stub, method, request):
                sec.request(stub, method, request)
                i = next(n)
                if i == at or forever and i >= at:
                    fired.append(method)
                    if len(fired) > 60:
                        raise RuntimeError('too many retries')
                    return ('fail_after' if after else 'fail', FAULTS[kind])

            w.sys.client.stub.hook = hook
            err = None
            try:
                w.step(op)
                err = w.last['error']
            except Exception as e:  # while loading the repo
                err = e
            w.sys.client.stub.hook = sec.request
            h = dict(op=op, request=at, fault=kind, after=after, forever=forever)
            sec.logs(**h)
            for what, data in w.calls:
                sec.check('callback', data, **h)
            if err:
                sec.error(op[0], err, **h)
            sec.check('stored state', w.snapshot(), **h)
            ctx.execution()
            ctx.state()
            ctx.step()
            if not fired:
                break
            ctx.count('faults')
            ctx.outcome([op[0], fired[0], kind, type(err).__name__])


DID = env.DID
CID0 = 'bafyreigh2akiscaildcqabsyg3dfr6chu3fgpregiymsck7e7aqa4s52zy'


def calls():
    """Methods and arguments: (nsid, HTTP method, query, body)."""
    rec = {'$type': 'a.b.c', 'x': 1}
    out = []
    for repo in (DID, 'han.dle', 'did:web:nope.com'):
        for extra in ({}, {'rkey': '1'}):
            out.append(('com.atproto.repo.createRecord', 'POST', {},
                        {'repo': repo, 'collection': 'a.b.c', 'record': rec, **extra}))
        for coll in ('a.b.c', 'not a collection'):
            out += [('com.atproto.repo.putRecord', 'POST', {},
                     {'repo': repo, 'collection': coll, 'rkey': '1', 'record': rec}),
                    ('com.atproto.repo.deleteRecord', 'POST', {},
                     {'repo': repo, 'collection': coll, 'rkey': '1'})]
        out += [('com.atproto.repo.getRecord', 'GET',
                 {'repo': repo, 'collection': 'a.b.c', 'rkey': '1'}, None),
                ('com.atproto.repo.listRecords', 'GET', {'repo': repo, 'collection': 'a.b.c'}, None),
                ('com.atproto.repo.describeRepo', 'GET', {'repo': repo}, None)]
        for pw in (PASSWORD, 'wrong', '', None):
            out.append(('com.atproto.server.createSession', 'POST', {},
                        {'identifier': repo, **({'password': pw} if pw is not None else {})}))
        for m in ('getRepo', 'getCheckout', 'getHead', 'getLatestCommit', 'getRepoStatus',
                  'listBlobs'):
            out.append((f'com.atproto.sync.{m}', 'GET', {'did': repo}, None))
        out += [('com.atproto.sync.getRecord', 'GET',
                 {'did': repo, 'collection': 'a.b.c', 'rkey': '1'}, None),
                ('com.atproto.sync.getBlocks', 'GET', {'did': repo, 'cids': [CID0]}, None),
                ('com.atproto.sync.getBlob', 'GET', {'did': repo, 'cid': CID0}, None)]
    out += [('com.atproto.sync.listRepos', 'GET', {}, None),
            ('com.atproto.sync.listRepos', 'GET', {'limit': 0}, None),
            ('com.atproto.server.describeServer', 'GET', {}, None),
            ('com.atproto.server.getSession', 'GET', {}, None),
            ('com.atproto.server.refreshSession', 'POST', {}, None),
            ('com.atproto.server.getAccountInviteCodes', 'GET', {}, None),
            ('com.atproto.server.listAppPasswords', 'GET', {}, None),
            ('com.atproto.repo.importRepo', 'POST', {}, 'car'),
            ('com.atproto.repo.importRepo', 'POST', {}, b'junk'),
            ('com.atproto.repo.applyWrites', 'POST', {}, {'repo': DID, 'writes': []}),
            ('com.atproto.repo.uploadBlob', 'POST', {}, b'blob')]
    known = {c[0] for c in out}
    # methods that are added later
    for nsid in p19.registered():
        if nsid not in known:
            out.append((nsid, 'GET', {}, None))
            out.append((nsid, 'POST', {}, {}))
    return out


AUTHS = (f'Bearer {TOKEN}', f'Bearer {GETREPO}', f'Bearer {TOKEN[:-1]}', f'Basic {TOKEN}', None)


def methods(unit, ctx):
    old = util.DISABLE_GETREPO, util.GETREPO_TOKEN
    with Secrets(ctx).watching() as sec, xrpc.config(
            REPO_PASSWORD=PASSWORD, PDS_HOST='pds.local', PLC_HOST='plc.local'):
        nsid, method, query, body = calls()[unit['call']]
        util.GETREPO_TOKEN = GETREPO
        try:
            for status, auth, disabled, token in itertools.product(
                    (None, 'deactivated', 'tombstoned'), AUTHS, (False, True), (TOKEN, None)):
                util.DISABLE_GETREPO = disabled
                sys = env.make(unit['backend'])
                storage = sys.storage
                if unit['backend'] == 'datastore':
                    sys.client.stub.hook = sec.request
                with (sys.client.context() if unit['backend'] == 'datastore'
                      else contextlib.nullcontext()):
                    repo = env.create_repo(storage, did=DID, handle='han.dle')
                    storage.commit(repo, [env.path_write('create', 'a.b.c/1', 1)])
                    if status == 'deactivated':
                        storage.deactivate_repo(repo)
                    elif status:
                        storage.tombstone_repo(repo)
                    aserver.storage = storage
                    old_validate = aserver.server._validate
                    aserver.server._validate = True
                    kw = {}
                    b = p19.car() if body == 'car' else body
                    if isinstance(b, bytes):
                        kw = {'data': b, 'content_type': 'application/vnd.ipld.car'}
                    elif b is not None:
                        kw = {'json': b}
                    sec.logs()
                    try:
                        with xrpc.config(REPO_TOKEN=token):
                            r = p19.app.test_client().open(
                                p19.PREFIX + nsid, method=method, query_string=query,
                                headers={'Authorization': auth} if auth else {}, **kw)
                    finally:
                        aserver.server._validate = old_validate
                h = dict(nsid=nsid, query=query, body=body, auth=auth, repo_status=status,
                         token=token, status=r.status_code, backend=unit['backend'])
                allowed = ()
                if (nsid == 'com.atproto.server.createSession' and body.get('password') == PASSWORD
                        or auth == f'Bearer {TOKEN}' and nsid == 'com.atproto.server.refreshSession'):
                    allowed = ('REPO_TOKEN',)
                sec.check('response', r.get_data(), allowed, **h)
                sec.check('response headers', str(r.headers), **h)
                sec.logs(**h)
                ctx.execution()
                ctx.step()
                ctx.state()
                ctx.outcome([nsid, r.status_code, bool(auth)])
        finally:
            util.DISABLE_GETREPO, util.GETREPO_TOKEN = old


def plc(unit, ctx):
    """PLC operations, with every request failing."""
    with Secrets(ctx).watching() as sec, xrpc.config(PLC_HOST='plc.local', PDS_HOST='pds.local'):
        def attempt(d, fn, fault, how):
            """Returns result or None."""
            d.n, d.requests, d.fault = 0, [], fault
            sent = []

            def get(url, **kw):
                sent.append(repr((url, kw)))
                return d.get(url, **kw)

            def post(url, **kw):
                sent.append(repr((url, kw)))
                return d.post(url, **kw)

            res = None
            try:
                res = fn(get, post)
            except (Exception, AssertionError) as e:
                sec.error(how[0], e, how=how, fault=fault)
                ctx.outcome([how[0], type(e).__name__, fault])
            d.fault = None
            for s in sent:
                sec.check('HTTP request', s, how=how, fault=fault)
            sec.logs(how=how, fault=fault)
            if res is not None:
                sec.check('DID document', repr((res.did, res.doc)), how=how)
                ctx.outcome([how[0], 'ok', fault])
            ctx.execution()
            ctx.step()
            ctx.state()
            return res

        def create(c, get, post):
            kw = {name: p24.key_arg(c[arg]) for name, arg in (
                ('signing_key', 'sign'), ('rotation_key', 'rot')) if c[arg] is not None}
            return adid.create_plc(c['handle'], post_fn=post, **kw,
                                   **({'also_known_as': c['aka']} if c.get('aka') else {}))

        c = p24.CREATES[unit['create']]
        for fault in [None] + list(itertools.product((1,), p24.FAULTS)):
            d = p24.Directory()
            made = attempt(d, lambda g, p: create(c, g, p), fault, ['create', c])
        d = p24.Directory()
        made = attempt(d, lambda g, p: create(c, g, p), None, ['create', c])
        if not ctx.check(made is not None, 'create_plc fails', create=c):
            return
        did, rot, sign = made.did, made.rotation_key, made.signing_key
        p24.EXTRA[p24.did_key(rot.public_key())] = rot.public_key()
        p24.EXTRA[p24.did_key(p24.pub(sign))] = p24.pub(sign)
        wrong = p24.KEYS[5]

        ops = [('update', lambda key: lambda g, p: adid.update_plc(
                    did, get_fn=g, post_fn=p, rotation_key=key, signing_key=p24.KEYS[4])),
               ('update handle', lambda key: lambda g, p: adid.update_plc(
                    did, handle='new.com', get_fn=g, post_fn=p, rotation_key=key,
                    signing_key=sign)),
               ('new rotation', lambda key: lambda g, p: adid.update_plc(
                    did, get_fn=g, post_fn=p, rotation_key=key, signing_key=sign,
                    new_rotation_key=key)),
               ('rollback', lambda key: lambda g, p: adid.rollback_plc(
                    did, key, get_fn=g, post_fn=p))]
        p256 = env.P256[0]
        sec.add_key(p256, 'P256 key')

        def go(d, hist, depth):
            for name, op in ops:
                for key in (rot, wrong):
                    for fault in [None] + list(itertools.product((1, 2), p24.FAULTS)):
                        c2 = d.clone()
                        attempt(c2, op(key), fault, [name, hist, key is wrong])
                        if depth > 1 and not fault and key is rot:
                            go(c2, hist + [name], depth - 1)
                attempt(d.clone(), op(p256), None, [name, hist, 'P-256'])

        go(d, [], unit['depth'])

        # service tokens
        for kw in ({}, {'aud': did}, {'lxm': 'a.b.c'}):
            token = util.service_jwt('a.com', did, rot, **kw)
            sec.check('service token', token)
            for part in token.split('.'):
                sec.check('service token', base64.urlsafe_b64decode(part + '=='))
            sec.logs()


SCALARS = [1, 2, 0xff, 1 << 255, N - 1, N // 2, N // 2 + 1, (1 << 248) - 1, 1 << 64]


def roundtrip(unit, ctx):
    """Repos keep their keys through everything."""
    scalars = unit['scalars']
    sign = ec.derive_private_key(scalars[0], ec.SECP256K1())
    rot = scalars[1] and ec.derive_private_key(scalars[1], ec.SECP256K1())
    other = KEYS[0]
    for neighbours in ((), ('did:web:a.a', 'did:web:z.z')):
        sys = env.make(unit['backend'])
        cm = (lambda: sys.client.context()) if unit['backend'] == 'datastore' else (
            contextlib.nullcontext)
        storage = sys.storage
        for d in neighbours[:1]:
            Repo.create(storage, d, signing_key=other, rotation_key=KEYS[1])
        with cm():
            repo = Repo.create(storage, DID, handle='han.dle', signing_key=sign, rotation_key=rot)
        for d in neighbours[1:]:
            Repo.create(storage, d, handle='z.z', signing_key=KEYS[2])

        def look(step):
            h = dict(step=step, scalars=[hex(s) if s else None for s in scalars],
                     backend=unit['backend'])
            st = sys.reopen()
            with cm():
                keys(ctx, st, DID, 'han.dle', sign, rot, h)
                if neighbours:
                    keys(ctx, st, neighbours[0], None, other, KEYS[1], h)
                    keys(ctx, st, neighbours[1], 'z.z', KEYS[2], None, h)
            ctx.execution()
            ctx.state()
            ctx.step()
            ctx.outcome([step, bool(rot)])
            return st

        storage = look('create')
        for step in ('commit', 'deactivate', 'activate', 'store', 'create again', 'tombstone'):
            with cm():
                repo = storage.load_repo(DID)
                if step == 'commit':
                    storage.commit(repo, [env.path_write('create', 'a.b.c/1', 1)])
                    raw = repo.head.encoded
                    env.verify_commit(raw, sign.public_key())
                elif step == 'store':
                    storage.store_repo(repo)
                elif step == 'create again':
                    storage.create_repo(repo)
                else:
                    getattr(storage, step + '_repo')(repo)
            storage = look(step)


def imports(unit, ctx):
    """Imported repos have new keys that stay the same, different for each."""
    with Secrets(ctx).watching() as sec, xrpc.config(PLC_HOST='plc.local'):
        sys = env.make(unit['backend'])
        if unit['backend'] == 'datastore':
            sys.client.stub.hook = sec.request
        seen = []
        # each DID's document has the key that signed its export
        key = {f'import{i}.com': KEYS[i] for i in range(3)}

        def get(url, **kw):
            host = url.removeprefix('https://').split('/')[0]
            did = f'did:web:{host}'
            return xrpc.Resp(json={'id': did, 'alsoKnownAs': [f'at://{host}'],
                                   'verificationMethod': [{
                                       'id': f'{did}#atproto', 'type': 'Multikey',
                                       'controller': did,
                                       'publicKeyMultibase': p24.did_key(
                                           key[host].public_key()).removeprefix('did:key:')}]})

        old = webutil.util.session.get
        webutil.util.session.get = get
        try:
            for host, k in key.items():
                did = f'did:web:{host}'
                s = env.make('memory').storage
                repo = Repo.create(s, did, handle=host, signing_key=k, rotation_key=KEYS[3])
                s.commit(repo, [env.path_write('create', 'a.b.c/9', 9)])
                car = p19.xrpc_export(s, did)
                with (sys.client.context() if unit['backend'] == 'datastore'
                      else contextlib.nullcontext()):
                    ok, res = xrpc.raw_call(sys.storage, 'com.atproto.repo.importRepo', car)
                    ctx.check(ok, 'import fails', error=repr(res))
                    sec.check('response', res)
                    r = sys.storage.load_repo(did)
                for kk in (r.signing_key, r.rotation_key):
                    ctx.check(kk is not None, 'an imported repo has no key', did=did)
                    for o in seen + list(KEYS):
                        ctx.check(not same_key(kk, o), 'an imported repo shares a key', did=did)
                    seen.append(kk)
                storage = sys.reopen()
                with (sys.client.context() if unit['backend'] == 'datastore'
                      else contextlib.nullcontext()):
                    keys(ctx, storage, did, host, r.signing_key, r.rotation_key,
                         dict(did=did, backend=unit['backend']))
                sec.logs(did=did)
                sec.check('stored state', {k: v[0].SerializeToString() for k, v in
                                           sys.db.entities.items()}
                          if unit['backend'] == 'datastore' else b'')
                ctx.execution()
                ctx.state()
                ctx.step()
                ctx.outcome(['import', host])
        finally:
            webutil.util.session.get = old


def units(tier, seed):
    q = tier == 'quick'
    out = []
    nops = 9
    for backend, depth in (('memory', 3 if q else 4), ('datastore', 2 if q else 3)):
        for i in range(nops):
            out.append({'kind': 'histories', 'backend': backend, 'first': i, 'depth': depth})
        for i in range(len(calls())):
            out.append({'kind': 'methods', 'backend': backend, 'call': i})
        out.append({'kind': 'imports', 'backend': backend})
        scalars = SCALARS + [int.from_bytes(hashlib.sha256(f'{seed} {i}'.encode()).digest(), 'big')
                             % N for i in range(3 if q else 20)]
        for i, s in enumerate(scalars):
            for r in (None, scalars[-i - 1]):
                out.append({'kind': 'roundtrip', 'backend': backend, 'scalars': [s, r]})
    for op in range(nops + 1):
        for kind in FAULTS:
            for after in (False, True):
                for forever in (False, True):
                    if q and (after and kind not in ('unavailable', 'invalid')
                              or forever and kind in ('unavailable', 'aborted')):
                        continue
                    out.append({'kind': 'faults', 'op': op, 'fault': kind, 'after': after,
                                'forever': forever})
    for c in range(len(p24.CREATES)):
        out.append({'kind': 'plc', 'create': c, 'depth': 2 if q else 3})
    return out


def run_unit(unit, ctx):
    ctx.sample(unit)
    {'histories': histories, 'faults': faults, 'methods': methods, 'plc': plc,
     'roundtrip': roundtrip, 'imports': imports}[unit['kind']](unit, ctx)


def finalize(total, outcomes, tier):
    if total['searched'] < 10000 or total['faults'] < 100 or total['log_bytes'] < 10000:
        return 'vacuous: too little was searched'
