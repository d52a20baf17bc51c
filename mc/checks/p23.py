"""P23: signatures and service tokens."""
import base64
import copy
import datetime
import itertools
import json

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import (
    decode_dss_signature, encode_dss_signature)
import dag_cbor
import jwt
from multiformats import CID
import webutil.util

from mc import env, ref
from arroba import util

ID = 'P23'
LEVEL = 'model_checking'
CHUNK = 1
TECHNIQUE = ('exhaustive enumeration of single changes to signed objects, signatures, keys and '
             'tokens, and of sequences of signing and changing, against an independent verifier; '
             'the signature\'s random number is replaced by enumerated choices')
RULE = ('every signed object of an alphabet with every key of both curves: every single bit of '
        'the signature, every length, every field changed, removed, added and moved, every other '
        'key; every sequence up to the depth bound of signing with one of three keys, changing '
        'and undoing a change; every boundary value of r and s through signing; every service '
        'token of an alphabet of audiences, expirations and claims, with every single bit changed')
ASSUMPTIONS = ['ECDSA and SHA-256 in the cryptography package are right',
               'whether a high-S signature of somebody else verifies is not specified']

KEYS = env.KEYS[:3] + env.P256
N = {'secp256k1': env.N,
     'secp256r1': 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551}


def objs():
    c = CID.decode(env.rec_cid(1))
    commit = {'version': 3, 'did': env.DID, 'data': c, 'rev': '3jzfcijpj2z2a', 'prev': None}
    op = {'type': 'plc_operation', 'rotationKeys': ['did:key:zA', 'did:key:zB'],
          'verificationMethods': {'atproto': 'did:key:zC'}, 'alsoKnownAs': ['at://han.dle'],
          'services': {'atproto_pds': {'type': 'X', 'endpoint': 'https://p'}}, 'prev': None}
    return [commit, {**commit, 'prev': CID.decode(env.rec_cid(2))}, op,
            {**op, 'prev': 'bafyfoo'}, {}, {'a': b'\x00\xff', 'b': [1, -1, {'c': True}], 'é': '\u2603'}]


def mutations(v):
    """Every value that differs from v in one place."""
    if isinstance(v, dict):
        for k in v:
            yield {x: y for x, y in v.items() if x != k}
            yield {(x + 'x' if x == k else x): y for x, y in v.items()}
            for m in mutations(v[k]):
                yield {**v, k: m}
        yield {**v, 'zz': None}
        yield {**v, '': 1}
    elif isinstance(v, list):
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
            for m in mutations(v[i]):
                yield v[:i] + [m] + v[i + 1:]
        yield v + [None]
        yield v[::-1] if v[::-1] != v else v + v
    elif isinstance(v, str):
        yield v + 'x'
        yield v[1:] if v else 'y'
        yield v.upper() if v.upper() != v else v + 'z'
        yield v.encode()
        yield None
    elif isinstance(v, bytes):
        yield v + b'\x00'
        yield bytes([v[0] ^ 1]) + v[1:] if v else b'1'
    elif isinstance(v, bool):
        yield not v
        yield int(v)
    elif isinstance(v, int):
        yield v + 1
        yield -v - 1
        yield str(v)
    elif v is None:
        yield False
        yield 0
        yield ''
    else:
        yield str(v)
        yield CID.decode(env.rec_cid(7))


def units(tier, seed):
    q = tier == 'quick'
    out = []
    for o in range(len(objs())):
        for k in range(len(KEYS)):
            out.append({'kind': 'object', 'obj': o, 'key': k, 'times': 8 if q else 64})
    for first in range(6):
        out.append({'kind': 'sequences', 'depth': 5 if q else 7, 'first': first})
    out.append({'kind': 'boundaries'})
    for k in range(3):
        out.append({'kind': 'tokens', 'key': k, 'times': 3 if q else 20})
    return out


def run_unit(unit, ctx):
    ctx.sample(unit)
    {'object': one_object, 'sequences': sequences, 'boundaries': boundaries,
     'tokens': tokens}[unit['kind']](unit, ctx)


def verifies(obj, pub):
    """Independent verifier."""
    sig = obj['sig']
    if not isinstance(sig, bytes) or len(sig) != 64:
        return False
    r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
    rest = {k: v for k, v in obj.items() if k != 'sig'}
    try:
        pub.verify(encode_dss_signature(r, s), dag_cbor.encode(rest), ec.ECDSA(hashes.SHA256()))
    except InvalidSignature:
        return False
    return True


def low(sig, curve):
    return 0 < int.from_bytes(sig[32:], 'big') <= N[curve.name] // 2


def one_object(unit, ctx):
    key = KEYS[unit['key']]
    pub = key.public_key()
    for _ in range(unit['times']):
        obj = objs()[unit['obj']]
        plain = copy.deepcopy(obj)
        got = util.sign(obj, key)
        ctx.check(isinstance(got.get('sig'), bytes) and len(got['sig']) == 64
                  and {k: v for k, v in got.items() if k != 'sig'} == plain,
                  'signing changes the content', got=repr(got))
        ctx.check(low(got['sig'], key.curve), 'a signature is not low-S', got=repr(got))
        ctx.check(verifies(got, pub), "a signature doesn't verify independently", got=repr(got))
        ctx.execution()
        ctx.step()
    before = copy.deepcopy(got)
    for i, k in enumerate(KEYS):
        want = i == unit['key']
        res = util.verify_sig(got, k.public_key())
        ctx.check(res is want, 'a signature verifies with another key' if res else
                  "a signature doesn't verify with its key", key=i, got=repr(got))
        ctx.step()
    ctx.check(got == before and 'sig' in got, 'verifying changes the object', got=repr(got))
    ctx.check(util.verify_sig(dict(reversed(list(got.items()))), pub) is True,
              'the order of the fields matters', got=repr(got))
    for bit in range(512):
        sig = bytearray(got['sig'])
        sig[bit // 8] ^= 1 << bit % 8
        ctx.check(util.verify_sig({**got, 'sig': bytes(sig)}, pub) is False,
                  'a changed signature verifies', bit=bit, got=repr(got))
        ctx.step()
        ctx.state()
    sig = got['sig']
    n = N[key.curve.name]
    for other in ([sig[:i] for i in range(64)] + [sig + b'\x00', b'\x00' + sig, sig + sig,
                  bytes(64), b'\xff' * 64, sig[32:] + sig[:32], sig[:32] + bytes(32),
                  bytes(32) + sig[32:], sig[:32] + n.to_bytes(32, 'big'),
                  n.to_bytes(32, 'big') + sig[32:], sig[::-1],
                  encode_dss_signature(*(int.from_bytes(x, 'big')
                                         for x in (sig[:32], sig[32:])))]):
        ctx.check(util.verify_sig({**got, 'sig': other}, pub) is False,
                  'a malformed signature verifies', sig=other, got=repr(got))
        ctx.step()
        ctx.state()
    seen = 0
    for m in mutations(plain):
        if not isinstance(m, dict):
            continue
        try:
            if dag_cbor.encode(m) == dag_cbor.encode(plain):
                continue
        except Exception:
            continue
        ctx.check(util.verify_sig({**m, 'sig': sig}, pub) is False,
                  'a signature verifies for other content', content=repr(m), got=repr(got))
        seen += 1
        ctx.step()
        ctx.state()
    ctx.count('mutations', seen)
    try:
        util.verify_sig(plain, pub)
        ctx.violation('an object without signature is not refused', got=repr(plain))
    except KeyError:
        pass
    ctx.outcome([unit['obj'], unit['key']])


def sequences(unit, ctx):
    """Signing again and again, with changes between."""
    keys = [KEYS[0], KEYS[1], KEYS[3]]
    acts = ['s0', 's1', 's2', 'change', 'undo', 'copy']
    for rest in itertools.product(range(len(acts)), repeat=unit['depth'] - 1):
        if ctx.expired():
            return
        seq = [acts[i] for i in (unit['first'],) + rest]
        if not any(s[0] == 's' and len(s) == 2 for s in seq):
            continue
        obj = objs()[0]
        signed = None       # content, key
        stack = []
        for a in seq:
            if a == 'change':
                stack.append(obj['rev'])
                obj['rev'] += 'x'
            elif a == 'undo':
                if stack:
                    obj['rev'] = stack.pop()
            elif a == 'copy':
                obj = copy.deepcopy(obj)
            else:
                k = int(a[1])
                util.sign(obj, keys[k])
                signed = (obj['rev'], k)
            ctx.step()
        ctx.state()
        ctx.execution()
        for i, k in enumerate(keys):
            want = signed == (obj['rev'], i)
            ctx.check(util.verify_sig(obj, k.public_key()) is want
                      and verifies(obj, k.public_key()) is want,
                      "the last signature isn't the one that verifies", steps=seq, key=i,
                      want=want)
        ctx.outcome([signed[1], obj['rev'] == signed[0]])


class StubKey:
    """Private key with a chosen signature."""
    def __init__(self, curve, r, s):
        self.curve, self.rs = curve, (r, s)
        self.key_size = 256

    def sign(self, data, alg):
        self.data = data
        return encode_dss_signature(*self.rs)


def boundaries(unit, ctx):
    for curve in (ec.SECP256K1(), ec.SECP256R1()):
        n = N[curve.name]
        half = n // 2
        ss = sorted({1, 2, 255, 256, 2 ** 248 - 1, 2 ** 248, half - 1, half, half + 1, half + 2,
                     n - 2 ** 248, n - 256, n - 2, n - 1})
        rs = sorted({1, 127, 128, 255, 256, 2 ** 247, 2 ** 248 - 1, 2 ** 248, 2 ** 255, n - 1})
        for r, s in itertools.product(rs, ss):
            key = StubKey(curve, r, s)
            want_s = s if s <= half else n - s
            got = util.sign({'a': 1}, key)
            ctx.check(got == {'a': 1, 'sig': r.to_bytes(32, 'big') + want_s.to_bytes(32, 'big')},
                      "a signature isn't r and low s, 32 bytes each", r=hex(r), s=hex(s),
                      got=repr(got))
            ctx.check(key.data == dag_cbor.encode({'a': 1}), 'something else is signed')
            der = util.apply_low_s_mitigation(encode_dss_signature(r, s), curve)
            ctx.check(decode_dss_signature(der) == (r, want_s), 'low s is wrong', r=hex(r),
                      s=hex(s))
            ctx.step(2)
            ctx.state()
            ctx.execution()
    ctx.outcome('boundaries')


T0 = datetime.datetime(2024, 1, 2, 3, 4, 5, 999999, tzinfo=datetime.timezone.utc)


def b64(s):
    return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))


def token_ok(tok, pub):
    """Independent verification. Returns the claims, or None."""
    try:
        h, p, s = tok.split('.')
        sig = b64(s)
        if len(sig) != 64 or base64.urlsafe_b64encode(sig).rstrip(b'=').decode() != s:
            return None
        pub.verify(encode_dss_signature(int.from_bytes(sig[:32], 'big'),
                                        int.from_bytes(sig[32:], 'big')),
                   f'{h}.{p}'.encode(), ec.ECDSA(hashes.SHA256()))
        if json.loads(b64(h))['alg'] != 'ES256K' or not low(sig, pub.curve):
            return None
        return json.loads(b64(p))
    except (InvalidSignature, ValueError):
        return None


def tokens(unit, ctx):
    key = KEYS[unit['key']]
    pub = key.public_key()
    webutil.util.now = lambda: T0
    orig = jwt.encode
    n = env.N

    def flipped(*args, **kw):
        # the same with the other s
        tok = orig(*args, **kw)
        head, _, s = tok.rpartition('.')
        sig = b64(s)
        s2 = n - int.from_bytes(sig[32:], 'big')
        sig = sig[:32] + s2.to_bytes(32, 'big')
        return head + '.' + base64.urlsafe_b64encode(sig).rstrip(b'=').decode()

    try:
        for enc in (orig, flipped):
            jwt.encode = enc
            for host, aud, exp, claims in itertools.product(
                    ('bsky.network', 'api.example.com'), (None, 'did:plc:mod', 'did:web:x#y'),
                    (None, 1, 59.5, 600, 86400), ({}, {'lxm': 'a.b.c'}, {'jti': 'é', 'n': 1})):
                kw = {}
                if aud:
                    kw['aud'] = aud
                if exp:
                    kw['expiration'] = datetime.timedelta(seconds=exp)
                want = {'iss': env.DID, 'aud': aud or f'did:web:{host}', 'alg': 'ES256K',
                        'exp': int((T0 + datetime.timedelta(seconds=exp or 600)).timestamp()),
                        **claims}
                for _ in range(unit['times']):
                    tok = util.service_jwt(host, env.DID, key, **kw, **claims)
                    ctx.execution()
                    ctx.step()
                    got = token_ok(tok, pub)
                    ctx.check(got is not None, "a token doesn't verify or is not low-S",
                              token=tok)
                    ctx.check(got == want, 'a token has the wrong claims', got=got, want=want)
                    for i in range(3):
                        if i != unit['key']:
                            ctx.check(token_ok(tok, KEYS[i].public_key()) is None,
                                      'a token verifies with another key', token=tok)
                opts = {'verify_exp': False}
                claims_ = jwt.decode(tok, pub, algorithms=['ES256K'], audience=want['aud'],
                                     issuer=env.DID, options=opts)
                ctx.check(claims_ == want, 'a token is not a JWT', got=claims_)
                ctx.state()
            # every changed character
            for i in range(len(tok)):
                for c in 'A-_9b.=':
                    if tok[i] != c:
                        bad = tok[:i] + c + tok[i + 1:]
                        ctx.check(token_ok(bad, pub) is None, 'a changed token verifies', at=i)
                        ctx.state()
                        ctx.step()
            ctx.outcome([unit['key'], enc is orig])
    finally:
        jwt.encode = orig


def finalize(total, outcomes, tier):
    if total['mutations'] < 100 or len(outcomes) < 30:
        return 'vacuous exploration'
