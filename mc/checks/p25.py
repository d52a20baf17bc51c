"""P25: DID and handle resolution."""
import itertools
import json
from unittest import mock

import dns.message
import dns.name
import dns.resolver
import dns.rrset
from dns.rdataclass import IN
from dns.rdatatype import CNAME, TXT
import requests

from mc import env
from arroba import did as did_mod

ID = 'P25'
LEVEL = 'fault_enumeration'
CHUNK = 1
TECHNIQUE = ('exhaustive enumeration of every combination and sequence of answers and failures of '
             'DNS and HTTP, and of every short identifier, through the real resolvers against an '
             'independent grammar and reference resolver')
RULE = ('every string up to the length bound over the alphabet as a handle, plus every length at '
        'the limits; every pair of a DNS outcome and an HTTPS outcome for every handle of the '
        'alphabet; every HTTP outcome for every DID of the alphabet; every sequence up to the '
        'depth bound of lookups of two identifiers with changing answers through one session')
ASSUMPTIONS = ['which of several conflicting did= TXT records is used is not specified',
               'how long a result may be served from the cache is not specified']

# answers' texts: (text, the DID that it means or None)
TEXTS = [
    ('did:plc:abc', 'did:plc:abc'),
    ('did:web:foo.com', 'did:web:foo.com'),
    ('did:web:foo.com%3A99', 'did:web:foo.com%3A99'),
    ('did:plc:a-b_c.d:e', 'did:plc:a-b_c.d:e'),
    ('', None),
    ('nope', None),
    ('did:', None),
    ('did:plc', None),
    ('did:plc:', None),
    ('did:plc:abc:', None),
    ('did:plc:abc%', None),
    ('did:plc:a c', None),
    ('did:plc:abc\x00', None),
    ('did:plc:abc"', None),
    ('did:plc:"', None),
    ('did:plc:abc/d', None),
    ('did:plc:abc?d', None),
    ('did:plc:abc#d', None),
    ('did:plc:ab\xe9', None),
    ('did:PLC:abc', None),
    ('did:p1c:abc', None),
    ('DID:plc:abc', None),
    ('Did:plc:abc', None),
    ('did::abc', None),
    ('xdid:plc:abc', None),
    ('at://did:plc:abc', None),
    ('@did:plc:abc', None),
    ('did=did:plc:abc', None),
    ('handle did:plc:abc', None),
    ('did:plc:abc\ndid:plc:xyz', None),
    ('did:plc:abc\n\n<html>', None),
    ('{"did":"did:plc:abc"}', None),
    ('<html>did:plc:abc</html>', None),
    ('did plc abc', None),
    ('did.plc.abc', None),
]
RAISES = [dns.resolver.NXDOMAIN, dns.resolver.NoAnswer, dns.resolver.YXDOMAIN,
          dns.resolver.NoNameservers, dns.resolver.LifetimeTimeout, dns.exception.Timeout,
          dns.exception.DNSException, dns.name.LabelTooLong, dns.resolver.NoResolverConfiguration]
HTTP_RAISES = [requests.ConnectionError, requests.Timeout, requests.TooManyRedirects,
               requests.exceptions.SSLError, requests.exceptions.InvalidURL,
               requests.exceptions.ChunkedEncodingError, requests.RequestException]


def dns_outcomes():
    """Yields (description, [records] | exception, canonical, set of acceptable answers).

    A record is a list of strings. None among the answers means to go on to HTTPS.
    """
    for exc in RAISES:
        yield f'raise {exc.__name__}', exc, True, {None}
    yield 'no records', [], True, {None}
    for text, means in TEXTS:
        yield f'did={text!r}', [['did=' + text]], True, {means}
        yield f'alias did={text!r}', [['did=' + text]], False, {None}
        yield f'spf, did={text!r}', [['v=spf1 -all'], ['did=' + text]], True, {means}
        yield f'did={text!r}, spf', [['did=' + text], ['v=spf1 did:plc:x']], True, {means}
        yield (f'bad did, did={text!r}', [['did=nope'], ['did=' + text]], True, {means, None})
    for text in ('did:plc:abc', 'DID=did:plc:abc', ' did=did:plc:abc', 'xdid=did:plc:abc',
                 'did:did:plc:abc', 'did =did:plc:abc', 'did=', '', '"did=did:plc:abc"',
                 'did==did:plc:abc', 'd=did:plc:abc'):
        yield repr(text), [[text]], True, {None}
    # trailing space isn't a DID, but many resolvers strip it
    yield 'did=did:plc:abc ', [['did=did:plc:abc ']], True, {None, 'did:plc:abc'}
    # one value in multiple strings
    text = 'did=did:plc:abcdef'
    for i in range(len(text) + 1):
        yield (f'{text[:i]!r} {text[i:]!r}', [[text[:i], text[i:]]], True, {'did:plc:abcdef'})
    yield 'split', [['did=', 'did:', 'plc:', 'abc']], True, {'did:plc:abc'}
    yield 'split bad', [['did=did:plc:abc', ' x']], True, {None}
    long = 'did:web:' + '.'.join(['a' * 60] * 6) + '.com'
    yield 'split long', [[('did=' + long)[:255], ('did=' + long)[255:]]], True, {long}
    two = {'did:plc:abc', 'did:plc:xyz', None}
    yield 'two', [['did=did:plc:abc'], ['did=did:plc:xyz']], True, two
    yield 'same twice', [['did=did:plc:abc']] * 2, True, {'did:plc:abc'}


def http_outcomes():
    """Yields (description, exception | (status, body bytes), answer)."""
    for exc in HTTP_RAISES:
        yield f'raise {exc.__name__}', exc, None
    for text, means in TEXTS:
        yield repr(text), (200, text.encode()), means
    for status in 400, 401, 403, 404, 410, 429, 500, 502, 503, 504, 599:
        yield f'{status}', (status, b'did:plc:abc'), None
    for pre, post in itertools.product(('', ' ', '\n', '\r\n', '\t '), repeat=2):
        yield f'{pre!r} {post!r}', (200, f'{pre}did:plc:abc{post}'.encode()), 'did:plc:abc'
    yield 'bytes', (200, b'\xff\xfe\x00'), None
    yield 'bytes did', (200, b'did:plc:\xff\xfe\x00'), None
    yield 'large', (200, b'x' * 100000), None


HANDLES = ['foo.com', 'a.b', 'x-y.z0.co', 'Foo.COM', 'a.b.c.d.e.f', 'xn--ls8h.la']


class World:
    """The network: DNS and HTTP."""
    def __init__(self):
        self.dns = dns.resolver.NXDOMAIN
        self.canonical = True
        self.http = (404, b'')
        self.log = []

    def resolve(self, name, rdtype='A', *args, **kw):
        self.log.append(('dns', str(name), rdtype))
        if isinstance(self.dns, type):
            raise self.dns()
        qname = owner = dns.name.from_text(str(name))
        resp = dns.message.make_response(dns.message.make_query(qname, rdtype=TXT))
        if not self.canonical:
            owner = dns.name.from_text('alias.other.com.')
            resp.answer.append(dns.rrset.from_text(qname, 300, IN, CNAME, owner.to_text()))
        if self.dns:
            resp.answer.append(dns.rrset.from_rdata_list(owner, 300, [
                dns.rdtypes.ANY.TXT.TXT(IN, TXT, [s.encode() for s in strings])
                for strings in self.dns]))
        resp = dns.message.from_wire(resp.to_wire())
        return dns.resolver.Answer(qname=qname, rdtype=TXT, rdclass=IN, response=resp)

    def get(self, url, *args, **kw):
        self.log.append(('http', url))
        if isinstance(self.http, type):
            raise self.http('x')
        resp = requests.Response()
        resp.status_code, resp._content = self.http
        resp.url = url
        resp.headers['Content-Type'] = 'text/plain; charset=utf-8'
        return resp


def call(fn, *args, **kw):
    try:
        return ('ok', fn(*args, **kw))
    except Exception as e:
        return ('raise', e)


import dns.rdtypes.ANY.TXT  # noqa

ALPHABET = 'aZ0-._'


def units(tier, seed):
    q = tier == 'quick'
    out = []
    n = 6 if q else 7
    for first in itertools.product(ALPHABET, repeat=2):
        out.append({'kind': 'grammar', 'first': ''.join(first), 'len': n})
    out.append({'kind': 'limits'})
    for i in range(len(HANDLES)):
        for part in range(4):
            out.append({'kind': 'handle', 'handle': i, 'part': part})
    out.append({'kind': 'plc'})
    out.append({'kind': 'web'})
    out.append({'kind': 'did_grammar', 'len': 4 if q else 5})
    for first in range(len(SEQ_STEPS)):
        for fn in 'handle', 'plc', 'web':
            out.append({'kind': 'sequence', 'fn': fn, 'first': first, 'depth': 4 if q else 5})
    return out


def run_unit(unit, ctx):
    ctx.sample(unit)
    globals()[unit['kind']](unit, ctx)


# --- handles ---

def is_handle(s):
    """Independent grammar, https://atproto.com/specs/handle"""
    if not isinstance(s, str) or len(s) > 253:
        return False
    labels = s.split('.')
    if len(labels) < 2:
        return False
    for label in labels:
        if not 1 <= len(label) <= 63:
            return False
        if not all(c.isascii() and (c.isalnum() or c == '-') for c in label):
            return False
        if label[0] == '-' or label[-1] == '-':
            return False
    return labels[-1][0].isalpha()


def one_grammar(s, ctx):
    w = World()
    with mock.patch('dns.resolver.resolve', w.resolve):
        got = call(did_mod.resolve_handle, s, get_fn=w.get)
    ctx.execution()
    ctx.step()
    if is_handle(s):
        ctx.count('valid')
        ctx.check(got == ('ok', None), 'a handle that nobody claims resolves to something, or fails',
                  handle=s, got=str(got))
        check_requests(w, s, ctx)
    else:
        ctx.check(got[0] == 'raise' and isinstance(got[1], ValueError),
                  'a malformed handle is not refused with ValueError', handle=repr(s), got=str(got))
        ctx.check(not w.log, 'a malformed handle causes a request', handle=repr(s), log=w.log)


def check_requests(w, handle, ctx, dns_answered=False):
    """DNS exactly once, then HTTPS exactly once unless DNS was conclusive."""
    want = [('dns', f'_atproto.{handle}.', TXT)]
    if not dns_answered:
        want.append(('http', f'https://{handle}/.well-known/atproto-did'))
    got = [(a[0], a[1], TXT if a[2] in (TXT, 'TXT') else a[2]) if a[0] == 'dns' else a
           for a in w.log]
    ctx.check(got == want, 'the lookups are not DNS TXT, then HTTPS well-known, at the standard '
              'locations', handle=handle, got=str(got), want=str(want))


def grammar(unit, ctx):
    first = unit['first']
    for n in range(unit['len'] - 1):
        for rest in itertools.product(ALPHABET, repeat=n):
            ctx.state()
            one_grammar(first + ''.join(rest), ctx)


def limits(unit, ctx):
    cases = ['', 'a', '.', '..', 'foo', 'did:plc:x', 'did:web:foo.com', 'foo.com.', '.foo.com',
             'foo..com', 'foo.com\n', '\nfoo.com', 'foo.com ', ' foo.com', 'foo com', 'foo.com/x',
             'foo.com?x', 'foo.com#x', 'foo.com:80', 'user@foo.com', '@foo.com', 'foo@com',
             'https://foo.com', 'foo.com\x00', 'foo.com\t', 'f\xf6o.com', 'foo.c\xf6m', 'foo\u3002com',
             '\u0661.com', 'foo.\u0661', 'foo.com\\', 'foo%2ecom', '1.2.3.4', 'foo.1', 'foo.1a', 'foo.a1',
             '1.a', '[::1]', 'foo.com,bar.com', 'foo\n.com', 'foo.com\r\nHost: x', '*.foo.com',
             'a.\uff41', 'ſ.com', 'K.com']
    for n in (1, 2, 61, 62, 63, 64, 65, 100):
        cases += ['a' * n + '.com', 'com.' + 'a' * n, 'x.' + 'a' * n + '.com',
                  'a' * (n - 1) + '-.com', '-' * n + '.com',
                  ('a' + '-' * (n - 2) + 'a' if n > 1 else 'a') + '.com']
    for n in range(250, 258):
        s = ('a' * 49 + '.') * 6
        cases.append(s[:n - 4].rstrip('.').ljust(n - 4, 'b') + '.com')
    for c in map(chr, range(256)):
        cases += [f'fo{c}o.com', f'{c}foo.com', f'foo{c}.com', f'foo.{c}com', f'foo.com{c}']
    for s in dict.fromkeys(cases):
        ctx.state()
        one_grammar(s, ctx)
    for bad in (None, 0, 1, True, 1.5, b'foo.com', ('foo.com',), frozenset(['foo.com'])):
        w = World()
        with mock.patch('dns.resolver.resolve', w.resolve):
            got = call(did_mod.resolve_handle, bad, get_fn=w.get)
        ctx.execution()
        ctx.check(got[0] == 'raise' and isinstance(got[1], ValueError),
                  'a non-string handle is not refused with ValueError', handle=repr(bad), got=str(got))
        ctx.check(not w.log, 'a non-string handle causes a request', handle=repr(bad), log=w.log)


def handle(unit, ctx):
    h = HANDLES[unit['handle']]
    for i, (ddesc, recs, canonical, want) in enumerate(dns_outcomes()):
        if i % 4 != unit['part']:
            continue
        ctx.state()
        for hdesc, http, hwant in http_outcomes():
            w = World()
            w.dns, w.canonical, w.http = recs, canonical, http
            with mock.patch('dns.resolver.resolve', w.resolve):
                got = call(did_mod.resolve_handle, h, get_fn=w.get)
            ctx.execution()
            ctx.step()
            allowed = {hwant if a is None else a for a in want}
            if not ctx.check(
                    got[0] == 'ok' and got[1] in allowed,
                    'a handle resolves to a DID other than the one that DNS or else HTTPS gives',
                    handle=h, dns=ddesc, http=hdesc, got=str(got), allowed=str(allowed)):
                continue
            ctx.outcome([ddesc, got[1]])
            if len(want) == 1:
                check_requests(w, h, ctx, dns_answered=None not in want)


# --- DIDs ---

DOC = {'id': 'x', 'alsoKnownAs': ['at://foo.com'], 'n': [1, {'a': None}]}


def doc_outcomes():
    for exc in HTTP_RAISES:
        yield f'raise {exc.__name__}', exc, None
    for status in 400, 401, 403, 404, 410, 429, 500, 502, 503, 504, 599:
        yield f'{status}', (status, json.dumps(DOC).encode()), None
    for body in b'', b'nope', b'{', b'{"id": "x"', b'<html></html>', b'{"a": 1} x', b'\xff\x00':
        yield repr(body), (200, body), None
    for doc in DOC, {}, {'id': 'did:plc:other'}, {'a': '\u2603\u00e9'}:
        yield json.dumps(doc), (200, json.dumps(doc).encode()), doc


def web_url(d):
    """Independent https://w3c-ccg.github.io/did-method-web/#read-resolve"""
    parts = d.split(':')[2:]
    host = parts[0].replace('%3A', ':').replace('%3a', ':')
    path = '/'.join(parts[1:]) if len(parts) > 1 else '.well-known'
    return f'https://{host}/{path}/did.json'


PLCS = ['did:plc:123', 'did:plc:z72i7hdynmk6r22z27h6tvur', 'did:plc:a.b-c_d']
WEBS = ['did:web:foo.com', 'did:web:a.b.c.foo.com', 'did:web:localhost', 'did:web:foo.com%3A99',
        'did:web:foo.com:user', 'did:web:foo.com:user:alice', 'did:web:foo.com:u:a:b:c',
        'did:web:foo.com%3A99:user', 'did:web:foo.com%3A99:user:alice', 'did:web:x-y.z:a.b',
        'did:web:foo.com%3a99', 'did:web:did', 'did:web:web', 'did:web:plc:did:web:x']
NOT_DIDS = ['', 'foo', 'did', 'did:', 'did:plc', 'did:web', 'did:key:zQ3x', 'did:plcx:abc',
            'did:webx:abc', 'did:webplus:abc', 'plc:abc', 'web:abc', 'foo.com', 'Did:plc:abc',
            'DID:WEB:foo.com', 'did:PLC:abc', 'did:Web:foo.com', ' did:plc:abc', '\ndid:web:foo.com',
            'xdid:plc:abc', 'at://did:plc:abc', 'https://foo.com', 'did-plc-abc', 'did:plc:',
            'did:web:', 'did:plc:a b', 'did:plc:abc\n', 'did:web:foo.com\n', 'did:web:foo com',
            'did:plc:abc/../x', 'did:plc:../x', 'did:web:foo.com/x', 'did:web:foo.com?x=y',
            'did:web:foo.com#x', 'did:plc:abc#x', 'did:plc:abc?x', 'did:web:foo@bar.com',
            'did:web:foo.com\\x', 'did:plc:\u2603', 'did:web:f\xf6o.com', 'did:web:foo.com:',
            'did:plc:abc:', 'did:web:foo.com%']


def one_did(fns, d, url, ctx, outcomes):
    for name, fn in fns:
        for desc, http, want in outcomes:
            w = World()
            w.http = http
            with mock.patch('dns.resolver.resolve', w.resolve):
                got = call(fn, d, get_fn=w.get)
            ctx.execution()
            ctx.step()
            if url is None:
                ctx.check(got[0] == 'raise' and isinstance(got[1], ValueError)
                          and not isinstance(got[1], requests.RequestException),
                          'an identifier of another kind, or a malformed one, is not refused with '
                          'ValueError', fn=name, did=repr(d), got=str(got))
                ctx.check(not w.log, 'an identifier of another kind, or a malformed one, causes a '
                          'request', fn=name, did=repr(d), log=w.log)
                continue
            ctx.check(w.log == [('http', url)], 'resolving a DID does not fetch exactly its '
                      'standard location', fn=name, did=d, got=w.log, want=url)
            if want is None:
                ctx.check(got[0] == 'raise' and isinstance(got[1], requests.RequestException),
                          'a failed or malformed HTTP answer does not raise RequestException',
                          fn=name, did=d, http=desc, got=str(got))
                # and it doesn't stay: the next lookup asks again
                w.http = (200, json.dumps(DOC).encode())
                got = call(fn, d, get_fn=w.get)
                ctx.check(got == ('ok', DOC), 'a failed lookup is remembered', fn=name, did=d,
                          http=desc, got=str(got))
            else:
                ctx.check(got == ('ok', want), 'the resolved document is not the one fetched',
                          fn=name, did=d, http=desc, got=str(got))
            ctx.outcome([name, d, desc, got[0]])


def plc(unit, ctx):
    fns = [('resolve', did_mod.resolve), ('resolve_plc', did_mod.resolve_plc)]
    outs = list(doc_outcomes())
    for d in PLCS:
        ctx.state()
        one_did(fns, d, f'https://plc.local/{d}', ctx, outs)
        with mock.patch.dict('os.environ', PLC_HOST='other.plc:88'):
            one_did(fns, d, f'https://other.plc:88/{d}', ctx, outs)
    for d in NOT_DIDS + WEBS:
        one_did(fns[1:] if d in WEBS else fns, d, None, ctx, outs[-1:])
    for d in (None, 0, 1, True, b'did:plc:abc', ('did:plc:abc',)):
        one_did(fns[1:], d, None, ctx, outs[-1:])
    one_did(fns, None, None, ctx, outs[-1:])


def web(unit, ctx):
    fns = [('resolve', did_mod.resolve), ('resolve_web', did_mod.resolve_web)]
    outs = list(doc_outcomes())
    for d in WEBS:
        ctx.state()
        one_did(fns, d, web_url(d), ctx, outs)
    for d in NOT_DIDS + PLCS:
        one_did(fns[1:] if d in PLCS else fns, d, None, ctx, outs[-1:])
    for d in (None, 0, 1, True, b'did:web:foo.com', ('did:web:foo.com',)):
        one_did(fns[1:], d, None, ctx, outs[-1:])


def did_grammar(unit, ctx):
    """Every short method-specific id."""
    outs = list(doc_outcomes())[-1:]
    for n in range(1, unit['len'] + 1):
        for chars in itertools.product('a:.-_/ %', repeat=n):
            s = ''.join(chars)
            ctx.state()
            if '%' in s and '/' not in s and ' ' not in s and s[-1] not in ':%':
                continue        # percent encoding
            bad = '/' in s or ' ' in s or s[-1] in ':%'
            one_did([('resolve_plc', did_mod.resolve_plc), ('resolve', did_mod.resolve)],
                    'did:plc:' + s, None if bad else 'https://plc.local/did:plc:' + s, ctx, outs)
            if not bad and (not s[0].isalnum() or '::' in s):
                continue        # unspecified
            one_did([('resolve_web', did_mod.resolve_web), ('resolve', did_mod.resolve)],
                    'did:web:' + s, None if bad else web_url('did:web:' + s), ctx, outs)


# --- sequences: two identifiers, changing answers, one session with its cache ---

# (which identifier, answer)
SEQ_STEPS = [(who, ans) for who in range(2) for ans in ('one', 'two', '500', 'raise', 'junk')]


def sequence(unit, ctx):
    fn = unit['fn']
    ids = {'handle': ['foo.com', 'bar.com'], 'plc': ['did:plc:foo', 'did:plc:bar'],
           'web': ['did:web:foo.com', 'did:web:bar.com']}[fn]
    urls = {'handle': ['https://foo.com/.well-known/atproto-did',
                       'https://bar.com/.well-known/atproto-did'],
            'plc': ['https://plc.local/did:plc:foo', 'https://plc.local/did:plc:bar'],
            'web': ['https://foo.com/.well-known/did.json', 'https://bar.com/.well-known/did.json'],
            }[fn]
    real = {'handle': did_mod.resolve_handle, 'plc': did_mod.resolve_plc,
            'web': did_mod.resolve_web}[fn]

    def answer(who, ans):
        if fn == 'handle':
            return {'one': (200, f'did:plc:one{who}'.encode()),
                    'two': (200, f'did:plc:two{who}'.encode()), '500': (500, b'did:plc:x'),
                    'raise': requests.ConnectionError, 'junk': (200, b'junk')}[ans]
        return {'one': (200, json.dumps({'id': ids[who], 'n': 'one'}).encode()),
                'two': (200, json.dumps({'id': ids[who], 'n': 'two'}).encode()),
                '500': (500, b'{}'), 'raise': requests.ConnectionError, 'junk': (200, b'junk')}[ans]

    def want(who, ans):
        if fn == 'handle':
            return ('ok', f'did:plc:{ans}{who}' if ans in ('one', 'two') else None)
        return ('ok', {'id': ids[who], 'n': ans}) if ans in ('one', 'two') else ('raise', None)

    for rest in itertools.product(range(len(SEQ_STEPS)), repeat=unit['depth'] - 1):
        steps = [SEQ_STEPS[i] for i in (unit['first'], *rest)]
        w = World()
        seen = [[], []]
        ctx.state()
        with mock.patch('dns.resolver.resolve', w.resolve):
            for who, ans in steps:
                w.http = answer(who, ans)
                before = len(w.log)
                got = call(real, ids[who], get_fn=w.get)
                ctx.execution()
                ctx.step()
                new = [e[1] for e in w.log[before:] if e[0] == 'http']
                ok = got[0] if got[0] == 'raise' and isinstance(
                    got[1], requests.RequestException) else got[0]
                this = (got[0], None if got[0] == 'raise' else got[1])
                allowed = [want(who, ans)] if new else seen[who]
                ctx.check(this in allowed and (got[0] == 'ok' or isinstance(
                    got[1], requests.RequestException)),
                    'a lookup returns something other than what the network says now, or said '
                    'earlier, about this identifier', steps=steps, got=str(got),
                    allowed=str(allowed))
                ctx.check(new in ([], [urls[who]]), 'a lookup fetches another location',
                          steps=steps, got=new)
                if new:
                    seen[who].append(this)
                if fn != 'handle' and got[0] == 'raise' and not new:
                    ctx.violation('a failed lookup is remembered', steps=steps)
        ctx.outcome([fn, str(seen)])


def finalize(total, outcomes, tier):
    if not total['valid'] > 100:
        return 'too few valid handles'
