"""P24: did:keys and PLC operations, against a reference directory."""
import base64
import copy
import hashlib
import itertools
import json

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
import requests

from mc import env, ref
from mc.xrpc import Resp, config
from arroba import did

ID = 'P24'
LEVEL = 'model_checking'
CHUNK = 1
TECHNIQUE = ('explicit-state exploration of sequences of PLC operations on the real code against a '
             'reference directory that validates every operation, with every request failing, and '
             'exhaustive enumeration of keys and of malformed did:keys')
RULE = ('every sequence up to the depth bound of updates with every kind of argument, rollbacks of '
        'one and two operations, recoveries by the directory that nullify operations, wrong keys, '
        'and failures of every request before and after it takes effect, from every kind of '
        'creation; public keys of many private keys of both curves including the boundaries, and '
        'every truncation, wrong codec and invalid character')
ASSUMPTIONS = ['the reference directory validates what the did:plc specification asks for',
               "histories don't start with a legacy create operation, and aren't tombstoned"]

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58(data):
    n = int.from_bytes(data, 'big')
    out = ''
    while n:
        n, d = divmod(n, 58)
        out = B58[d] + out
    return '1' * (len(data) - len(data.lstrip(b'\0'))) + out


def point(pub):
    return pub.public_bytes(serialization.Encoding.X962,
                            serialization.PublicFormat.CompressedPoint)


def did_key(pub):
    """Independent encoder."""
    prefix = b'\xe7\x01' if isinstance(pub.curve, ec.SECP256K1) else b'\x80\x24'
    return 'did:key:z' + b58(prefix + point(pub))


KEYS = env.KEYS + [ec.derive_private_key(0x3000 + i, ec.SECP256K1()) for i in range(2)]
BY_DID = {did_key(k.public_key()): k.public_key() for k in KEYS}


def cid(op):
    return ref.b32(ref.cid(op))


class Refused(Exception):
    pass


class Directory:
    """Reference PLC directory."""
    def __init__(self):
        self.logs = {}      # did => [entry]
        self.requests = []
        self.fault = None   # (number of the request, what)
        self.n = 0

    def clone(self):
        d = Directory()
        d.logs = {k: [dict(e) for e in v] for k, v in self.logs.items()}
        return d

    def live(self, did):
        return [e for e in self.logs.get(did, []) if not e['nullified']]

    def validate(self, did, op):
        def need(cond, msg):
            if not cond:
                raise Refused(msg)
        need(isinstance(op, dict) and set(op) == {
            'type', 'rotationKeys', 'verificationMethods', 'alsoKnownAs', 'services', 'prev',
            'sig'}, 'fields')
        need(op['type'] == 'plc_operation', 'type')
        rk = op['rotationKeys']
        need(isinstance(rk, list) and 1 <= len(rk) <= 5 and len(set(rk)) == len(rk), 'rotation')
        vm = op['verificationMethods']
        need(isinstance(vm, dict) and vm, 'verification methods')
        for k in rk + list(vm.values()):
            need(k in BY_DID or k in EXTRA, f'key {k}')
        need(isinstance(op['alsoKnownAs'], list)
             and all(isinstance(a, str) and '://' in a for a in op['alsoKnownAs'])
             and len(set(op['alsoKnownAs'])) == len(op['alsoKnownAs']), 'alsoKnownAs')
        need(isinstance(op['services'], dict) and all(
            isinstance(s, dict) and set(s) == {'type', 'endpoint'}
            and s['endpoint'].startswith('https://') for s in op['services'].values()), 'services')
        need(isinstance(op['sig'], str) and '=' not in op['sig'], 'sig')
        sig = base64.urlsafe_b64decode(op['sig'] + '==')
        need(base64.urlsafe_b64encode(sig).rstrip(b'=').decode() == op['sig'], 'sig encoding')
        log = self.live(did)
        if not log:
            need(op['prev'] is None, 'genesis prev')
            want = base64.b32encode(hashlib.sha256(ref.encode(op)).digest()).decode().lower()[:24]
            need(did == f'did:plc:{want}', 'DID')
            keys = rk
        else:
            need(op['prev'] == log[-1]['cid'], 'prev')
            keys = log[-1]['operation']['rotationKeys']
        unsigned = {k: v for k, v in op.items() if k != 'sig'}
        need(len(sig) == 64, 'sig length')
        r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
        need(0 < s <= env.N // 2, 'high S')
        for k in keys:
            pub = BY_DID.get(k) or EXTRA.get(k)
            try:
                pub.verify(encode_dss_signature(r, s), ref.encode(unsigned),
                           ec.ECDSA(hashes.SHA256()))
                return
            except InvalidSignature:
                pass
        need(False, 'signature')

    def append(self, did, op):
        self.logs.setdefault(did, []).append({
            'did': did, 'operation': op, 'cid': cid(op), 'nullified': False,
            'createdAt': f'2024-01-01T00:00:{len(self.logs.get(did, [])):02}Z'})

    def recover(self, did, n, key):
        """Another party with an earlier rotation key reverts the last n operations."""
        log = self.live(did)
        base = log[-n - 1]
        op = {k: copy.deepcopy(v) for k, v in base['operation'].items() if k != 'sig'}
        op['prev'] = base['cid']
        op['alsoKnownAs'] = op['alsoKnownAs'][:1] + ['https://recovered.com/']
        raw = key.sign(ref.encode(op), ec.ECDSA(hashes.SHA256()))
        from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature
        r, s = decode_dss_signature(raw)
        s = min(s, env.N - s)
        op['sig'] = base64.urlsafe_b64encode(
            r.to_bytes(32, 'big') + s.to_bytes(32, 'big')).rstrip(b'=').decode()
        for e in log[-n:]:
            e['nullified'] = True
        self.append(did, op)

    def doc(self, did):
        op = self.live(did)[-1]['operation']
        return {
            'id': did, 'alsoKnownAs': op['alsoKnownAs'],
            'verificationMethod': [{
                'id': f'{did}#{name}', 'type': 'Multikey', 'controller': did,
                'publicKeyMultibase': k.removeprefix('did:key:')}
                for name, k in op['verificationMethods'].items()],
            'service': [{'id': f'#{name}', 'type': s['type'], 'serviceEndpoint': s['endpoint']}
                        for name, s in op['services'].items()],
        }

    def _fault(self, when):
        if self.fault and self.fault[0] == self.n and self.fault[1].startswith(when):
            what = self.fault[1].split('-')[1]
            if what == 'raise':
                raise requests.ConnectionError('x')
            return Resp(status=int(what), json={'message': 'nope'})

    def get(self, url, **kw):
        self.n += 1
        self.requests.append(('GET', url))
        if f := self._fault('before') or self._fault('after'):
            return f
        d = url.removeprefix('https://plc.local/').removesuffix('/log/audit')
        if url != f'https://plc.local/{d}/log/audit' or d not in self.logs:
            return Resp(status=404, json={'message': 'not registered'})
        return Resp(json=json.loads(json.dumps(self.logs[d])))

    def post(self, url, json=None, **kw):
        self.n += 1
        self.requests.append(('POST', url))
        if f := self._fault('before'):
            return f
        d = url.removeprefix('https://plc.local/')
        op = copy.deepcopy(json)
        try:
            self.validate(d, op)
        except Refused as e:
            self.refusal = str(e)
            return Resp(status=400, json={'message': str(e)})
        self.append(d, op)
        if f := self._fault('after'):
            return f
        return Resp(text='', url=url)


EXTRA = {}      # keys that were generated
PDS = 'https://pds.local'

# create's arguments. sign, rot: key number, None, or negative for the public key
CREATES = [
    dict(handle='han.dle', sign=0, rot=1),
    dict(handle='han.dle', sign=None, rot=None),
    dict(handle='a.b', sign=-1, rot=1, aka='https://x.com/', pds='https://other.pds'),
    dict(handle='han.dle', sign=1, rot=1, aka=['at://b.c', 'https://y.com/']),
]
UPDATES = [
    dict(sign=0),
    dict(sign=2, handle='new.han.dle'),
    dict(sign=-3, newrot=2),
    dict(sign=0, newrot=-1),
    dict(sign=3, handle='other.com', aka=['https://z.com/'], pds='https://pds2.com'),
    dict(sign=0, aka='at://single.com'),
    dict(sign=0, rot='wrong'),
    dict(sign=0, rot='wrong', newrot=1),
    dict(sign=0, aka=[]),
]
FAULTS = ('before-raise', 'before-500', 'before-400', 'after-raise', 'after-500', 'before-404')


def menu():
    ops = [['update', i] for i in range(len(UPDATES))]
    ops += [['rollback', 1], ['rollback', 2], ['rollback', 3], ['rollback', 1, 'wrong']]
    ops += [['recover', 1], ['recover', 2]]
    return ops


def units(tier, seed):
    q = tier == 'quick'
    out = []
    for c in range(len(CREATES)):
        for i in range(len(menu())):
            out.append({'kind': 'history', 'create': c, 'first': i, 'depth': 3 if q else 4})
            out.append({'kind': 'history', 'create': c, 'first': i, 'depth': 2 if q else 3,
                        'faults': True})
        out.append({'kind': 'create', 'create': c})
    out += [{'kind': 'inputs'}]
    for curve in 'kp':
        for lo in range(0, 200 if q else 3000, 50):
            out.append({'kind': 'keys', 'curve': curve, 'lo': lo})
        out.append({'kind': 'malformed', 'curve': curve})
    return out


def run_unit(unit, ctx):
    ctx.sample(unit)
    with config(PLC_HOST='plc.local', PDS_HOST='pds.local'):
        {'history': history, 'create': create, 'inputs': inputs, 'keys': keys,
         'malformed': malformed}[unit['kind']](unit, ctx)


def key_arg(n):
    """A key, or with a negative number its public key."""
    if n is None:
        return None
    return KEYS[n] if n >= 0 else KEYS[-n].public_key()


def pub(k):
    return k if isinstance(k, ec.EllipticCurvePublicKey) else k.public_key()


class World:
    def __init__(self):
        self.dir = Directory()
        self.did = None
        self.states = []    # what each operation that isn't nullified says
        self.hist = []

    def clone(self):
        w = World()
        w.dir, w.did = self.dir.clone(), self.did
        w.states, w.hist = list(self.states), list(self.hist)
        return w


def new_state(ctx, w, res, want):
    """Checks the directory after an operation. want: handle, aka, sign, rot, pds."""
    doc = w.dir.doc(w.did)
    op = w.dir.live(w.did)[-1]['operation']
    h = dict(history=w.hist)
    ctx.check(op['alsoKnownAs'] == [f'at://{want["handle"]}'] + want['aka'],
              'wrong handle or other identities', got=op['alsoKnownAs'], want=want, **h)
    ctx.check(op['services'] == {'atproto_pds': {'type': 'AtprotoPersonalDataServer',
                                                 'endpoint': want['pds']}},
              'wrong service', got=op['services'], want=want['pds'], **h)
    ctx.check(op['verificationMethods'] == {'atproto': want['sign']}, 'wrong signing key',
              got=op['verificationMethods'], **h)
    ctx.check(op['rotationKeys'] == [want['rot']], 'wrong rotation key', got=op['rotationKeys'],
              **h)
    if res is not None:
        ctx.check(isinstance(res, did.DidPlc) and res.did == w.did, 'wrong DID returned',
                  got=repr(res)[:200], **h)
        got = {k: v for k, v in res.doc.items() if k != '@context'}
        ctx.check(got == doc, "the returned document isn't the directory's", got=got, want=doc,
                  **h)
        ctx.check(did.get_handle(res.doc) == want['handle'], 'the document has another handle',
                  got=did.get_handle(res.doc), **h)
        k = did.get_signing_key(res.doc)
        ctx.check(k is not None and did_key(k) == want['sign'],
                  'the document has another signing key', **h)


def attempt(ctx, w, fn, fault, faults_ok=True):
    """Runs an operation. Returns (ok, result or exception, number of requests)."""
    w.dir.n, w.dir.requests, w.dir.fault, w.dir.refusal = 0, [], fault, None
    try:
        return True, fn(), w.dir.n
    except requests.RequestException as e:
        return False, e, w.dir.n
    finally:
        w.dir.fault = None


def do_create(ctx, w, c, fault=None):
    kw = {}
    for name, arg in (('signing_key', 'sign'), ('rotation_key', 'rot'),
                      ('new_rotation_key', 'newrot')):
        if c.get(arg) is not None:
            kw[name] = key_arg(c[arg])
    if c.get('aka'):
        kw['also_known_as'] = c['aka']
    if c.get('pds'):
        kw['pds_url'] = c['pds']
    orig = did.util.new_key
    made = []

    def new_key(*args):
        k = orig(*args)
        made.append(k)
        EXTRA[did_key(k.public_key())] = k.public_key()
        return k
    did.util.new_key = new_key
    try:
        ok, res, n = attempt(ctx, w, lambda: did.create_plc(
            c['handle'], get_fn=w.dir.get, post_fn=w.dir.post, **kw), fault)
    finally:
        did.util.new_key = orig
    if fault:
        return ok, res, n
    if not ctx.check(ok, 'the directory refuses a new DID', why=w.dir.refusal, args=c):
        return ok, res, n
    w.did = res.did
    sign = did_key(pub(res.signing_key))
    rot = did_key(res.rotation_key.public_key())
    for arg, got in (('sign', sign), ('rot', rot)):
        if c.get(arg) is not None:
            ctx.check(got == did_key(pub(key_arg(c[arg]))), 'the returned key is not the given one',
                      args=c)
    ctx.check(sign != rot or c.get('sign') is not None, 'the new keys are the same')
    want = dict(handle=c['handle'], aka=[c['aka']] if isinstance(c.get('aka'), str)
                else c.get('aka') or [], pds=c.get('pds') or PDS, sign=sign,
                rot=did_key(pub(key_arg(c['newrot']))) if c.get('newrot') is not None else rot)
    w.states.append(want)
    w.priv = res.rotation_key
    new_state(ctx, w, res, want)
    return ok, res, n


PRIV = {did_key(k.public_key()): k for k in KEYS}


def private(w):
    """The current rotation key."""
    return PRIV.get(w.states[-1]['rot']) or w.priv


WRONG = KEYS[5]


def step(ctx, w, op, fault=None):
    """Returns the number of requests, or None if the operation isn't possible."""
    before = json.dumps(w.dir.logs)
    cur = w.states[-1]
    if op[0] == 'recover':
        if len(w.states) <= op[1]:
            return None
        key = PRIV.get(w.states[-op[1] - 1]['rot']) or w.priv
        w.dir.recover(w.did, op[1], key)
        base = w.states[-op[1] - 1]
        w.states = w.states[:-op[1]] + [{**base, 'aka': ['https://recovered.com/']}]
        w.hist.append(op)
        return 0
    if op[0] == 'update':
        u = UPDATES[op[1]]
        kw = {'signing_key': key_arg(u['sign'])}
        kw['rotation_key'] = WRONG if u.get('rot') == 'wrong' else private(w)
        if u.get('newrot') is not None:
            kw['new_rotation_key'] = key_arg(u['newrot'])
        if 'handle' in u:
            kw['handle'] = u['handle']
        if 'aka' in u:
            kw['also_known_as'] = u['aka']
        if 'pds' in u:
            kw['pds_url'] = u['pds']
        authorised = u.get('rot') != 'wrong'
        want = dict(
            handle=u.get('handle') or cur['handle'],
            aka=cur['aka'] if 'aka' not in u else [u['aka']] if isinstance(u['aka'], str)
            else u['aka'],
            pds=u.get('pds') or PDS, sign=did_key(pub(key_arg(u['sign']))),
            rot=did_key(pub(key_arg(u['newrot']))) if u.get('newrot') is not None
            else did_key(kw['rotation_key'].public_key()))

        def fn():
            return did.update_plc(w.did, get_fn=w.dir.get, post_fn=w.dir.post, **kw)
    else:
        n = op[1]
        if len(w.states) <= n:
            return None
        key = WRONG if len(op) > 2 else private(w)
        authorised = len(op) == 2
        want = w.states[-n - 1]

        def fn():
            return did.rollback_plc(w.did, key, num_operations=n, get_fn=w.dir.get,
                                    post_fn=w.dir.post)
    w.hist.append(op + ([fault] if fault else []))
    try:
        ok, res, reqs = attempt(ctx, w, fn, fault)
    except AssertionError as e:
        # rollback checks the key itself
        if authorised:
            raise
        ok, res, reqs = False, e, w.dir.n
    ctx.step()
    after = json.dumps(w.dir.logs)
    h = dict(history=w.hist, why=w.dir.refusal, error=repr(res) if not ok else None)
    urls = {u for _, u in w.dir.requests}
    ctx.check(urls <= {f'https://plc.local/{w.did}', f'https://plc.local/{w.did}/log/audit'},
              'asks at the wrong address', urls=sorted(urls), **h)
    if fault and fault[0] <= reqs:
        if not ctx.check(not ok, 'a failed request is ignored', **h):
            return reqs
        took = 'after' in fault[1] and w.dir.requests[fault[0] - 1][0] == 'POST'
        ctx.check((after != before) == (took and authorised), 'a failure has another effect', **h)
        if after != before:
            w.states.append(want)
            new_state(ctx, w, None, want)
        return reqs
    if not authorised:
        ctx.check(not ok and before == after, 'an operation of an unauthorised key succeeds', **h)
        return reqs
    if not ctx.check(ok, 'the directory refuses an operation', **h):
        return reqs
    w.states.append(want)
    ctx.check(len(w.dir.live(w.did)) == len(w.states), 'not exactly one new operation', **h)
    new_state(ctx, w, res, want)
    if op[0] == 'update':
        ctx.check(did_key(pub(res.signing_key)) == want['sign'], 'another signing key is returned',
                  **h)
    return reqs


def history(unit, ctx):
    w0 = World()
    do_create(ctx, w0, CREATES[unit['create']])
    if w0.did is None:
        return
    w0.hist = [unit['create']]
    ops = menu()

    def go(w, depth, first=None):
        if depth == 0 or ctx.expired():
            ctx.execution()
            return
        for i, op in enumerate(ops):
            if first is not None and i != first:
                continue
            w2 = w.clone()
            w2.priv = w.priv
            n = step(ctx, w2, op)
            if n is None:
                continue
            ctx.state()
            ctx.outcome([op, len(w2.states), w2.states[-1]])
            go(w2, depth - 1)
            if unit.get('faults'):
                for at in range(1, n + 1):
                    for f in FAULTS:
                        w3 = w.clone()
                        w3.priv = w.priv
                        step(ctx, w3, op, (at, f))
                        ctx.count('faults')
                        ctx.state()
                        go(w3, depth - 1)
    go(w0, unit['depth'], unit['first'])


def create(unit, ctx):
    c = CREATES[unit['create']]
    for f in FAULTS:
        w = World()
        ok, res, n = do_create(ctx, w, c, (1, f))
        ctx.check(not ok, 'a failed request is ignored', fault=f, args=c)
        ctx.check(n == 1 and bool(w.dir.logs) == ('after' in f), 'a failure has another effect',
                  fault=f, args=c)
        ctx.execution()
        ctx.state()
    # the same arguments twice make two DIDs, unless signatures repeat
    w = World()
    do_create(ctx, w, c)
    ctx.execution()
    ctx.state()
    ctx.outcome([unit['create'], len(w.dir.logs)])


def inputs(unit, ctx):
    """Invalid arguments are refused without a request."""
    w = World()
    do_create(ctx, w, CREATES[0])
    def bad(what, fn):
        w.dir.requests = []
        before = json.dumps(w.dir.logs)
        try:
            fn()
            ctx.violation(f'{what} is accepted')
        except ValueError:
            pass
        ctx.check(not [r for r in w.dir.requests if r[0] == 'POST']
                  and json.dumps(w.dir.logs) == before, f'{what} is sent')
        ctx.execution()
        ctx.state()
        ctx.step()
        ctx.outcome(what)
    net = dict(get_fn=w.dir.get, post_fn=w.dir.post)
    for h in (None, '', 5, b'han.dle', ['han.dle'], {}):
        bad('an invalid handle', lambda: did.create_plc(h, signing_key=KEYS[0],
                                                        rotation_key=KEYS[1], **net))
    p = env.P256[0]
    for kw in (dict(signing_key=p), dict(rotation_key=p), dict(signing_key=p.public_key()),
               dict(new_rotation_key=p), dict(new_rotation_key=p.public_key())):
        args = {'signing_key': KEYS[0], 'rotation_key': KEYS[1], **kw}
        bad('a P-256 key', lambda: did.create_plc('han.dle', **args, **net))
        bad('a P-256 key', lambda: did.update_plc(w.did, **args, **net))
    for arg in (None, {}, {'a': 1}, [], '', 'did:plc:x'):
        pass
    # documents without what's asked for
    for doc, handle in (({}, None), ({'alsoKnownAs': []}, None),
                        ({'alsoKnownAs': ['https://x.com/']}, None),
                        ({'alsoKnownAs': ['https://x.com/', 'at://a.b', 'at://c.d']}, 'a.b'),
                        ({'alsoKnownAs': ['at://', 'at://c.d']}, 'c.d'),
                        ({'alsoKnownAs': ['at://a.b/x.y.z/1']}, 'a.b')):
        ctx.check(did.get_handle(doc) == handle, 'wrong handle of a document', doc=doc,
                  got=did.get_handle(doc))
        ctx.execution()
        ctx.state()
    k = did_key(KEYS[0].public_key()).removeprefix('did:key:')
    k2 = did_key(env.P256[0].public_key()).removeprefix('did:key:')
    D = 'did:plc:x'
    for doc, want in (({}, None), ({'id': D}, None), ({'id': D, 'verificationMethod': []}, None),
                      ({'verificationMethod': [{'id': f'{D}#atproto',
                                                'publicKeyMultibase': k}]}, None),
                      ({'id': D, 'verificationMethod': [{'id': f'{D}#atproto'}]}, None),
                      ({'id': D, 'verificationMethod': [{'publicKeyMultibase': k}]}, None),
                      ({'id': D, 'verificationMethod': [
                          {'id': f'{D}#other', 'publicKeyMultibase': k2},
                          {'id': 'did:plc:y#atproto', 'publicKeyMultibase': k2},
                          {'id': f'{D}#atproto', 'publicKeyMultibase': k}]}, k),
                      ({'id': D, 'verificationMethod': [
                          {'id': f'{D}#atproto', 'publicKeyMultibase': k2}]}, k2)):
        got = did.get_signing_key(doc)
        got = got and did_key(got).removeprefix('did:key:')
        ctx.check(got == want, 'wrong signing key of a document', doc=doc, got=got)
        ctx.execution()
        ctx.state()


def curve_of(unit):
    return ec.SECP256K1() if unit['curve'] == 'k' else ec.SECP256R1()


def keys(unit, ctx):
    from mc.checks.p23 import N
    curve = curve_of(unit)
    n = N[curve.name]
    for i in range(unit['lo'], unit['lo'] + 50):
        for d in (1 + i, n - 1 - i, 2 ** 128 + i, (n // 2) + i):
            p = ec.derive_private_key(d, curve).public_key()
            got = did.encode_did_key(p)
            ctx.check(got == did_key(p), 'a key is encoded wrong', got=got, want=did_key(p))
            for form in (got, got.removeprefix('did:key:')):
                back = did.decode_did_key(form)
                ctx.check(isinstance(back.curve, type(curve)) and point(back) == point(p),
                          'a key is decoded to another one', key=got)
            ctx.execution()
            ctx.step(3)
            ctx.state()
    ctx.outcome([unit['curve'], unit['lo']])


def malformed(unit, ctx):
    curve = curve_of(unit)
    p = KEYS[0].public_key() if unit['curve'] == 'k' else env.P256[0].public_key()
    good = did_key(p)
    other = b'\x80\x24' if unit['curve'] == 'k' else b'\xe7\x01'
    prefix = b'\xe7\x01' if unit['curve'] == 'k' else b'\x80\x24'
    pt = point(p)
    bad = [good[:i] for i in range(len('did:key:'), len(good))]
    bad += [good + c for c in '1zA']
    for i in range(len('did:key:z'), len(good)):
        bad += [good[:i] + c + good[i + 1:] for c in '0OIl+/_- é']
    # not a compressed point of the curve
    bad += ['did:key:z' + b58(prefix + x) for x in (
        b'', pt[:-1], pt + b'\0', b'\0' * 33, b'\x05' + pt[1:], b'\x01' + pt[1:], pt[1:],
        b'\x02' + b'\xff' * 32, b'\x03' + b'\xff' * 32)]
    # another kind of key
    bad += ['did:key:z' + b58(c + pt) for c in (b'\xed\x01', b'\xeb\x01', b'\x81\x24', b'\x12',
                                                b'\xe7', b'\x00', b'\x12\x20')]
    off = off_curve(curve)
    bad += ['did:key:z' + b58(prefix + b'\x02' + x.to_bytes(32, 'big')) for x in off]
    for b in bad + ['', 'did:key:', 'did:key:z', 'did:plc:abc', 'z', 'nope']:
        try:
            got = did.decode_did_key(b)
        except Exception:
            ctx.outcome('refused')
        else:
            ctx.violation('a malformed did:key is accepted', key=b, got=point(got))
        ctx.execution()
        ctx.step()
        ctx.state()
    del other
    for k in (ec.SECP384R1(), ec.SECP521R1(), ec.BrainpoolP256R1()):
        try:
            got = did.encode_did_key(ec.derive_private_key(5, k).public_key())
            ctx.violation('a key of another curve is encoded', got=got)
        except ValueError:
            pass
        except Exception as e:
            if 'nsupported' not in repr(e):
                raise
        ctx.execution()
        ctx.state()


def off_curve(curve):
    """x coordinates that no point has."""
    if isinstance(curve, ec.SECP256K1):
        q, a, b = 2 ** 256 - 2 ** 32 - 977, 0, 7
    else:
        q = 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff
        a, b = -3, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
    return [x for x in range(1, 60) if pow(x ** 3 + a * x + b, (q - 1) // 2, q) == q - 1]


def finalize(total, outcomes, tier):
    if total['faults'] < 500 or len(outcomes) < 50:
        return 'vacuous exploration'
