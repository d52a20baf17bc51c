"""P32: only records that fit their lexicon are stored, and those unchanged."""
import contextlib
import copy
import itertools

from lexrpc.base import Base, ValidationError
from multiformats import CID

from mc import env, ref, xrpc
from mc.hist import DIDS, World, obj_state
from arroba import server as aserver
from arroba.repo import Repo, Write
from arroba.storage import Action

ID = 'P32'
LEVEL = 'model_checking'
CHUNK = 1
TECHNIQUE = ('exhaustive enumeration of every single departure (thorough: and pair) from valid records '
             "of many lexicons, through every API and at every position of a batch of the real code, "
             'with the whole stored state compared after a refusal and the stored bytes compared after '
             'a success; the verdicts are cross-checked between hand-written rules and the lexicons')
RULE = ('every property, at every depth, of every base record removed, nulled, replaced with a value of '
        'every other type, with strings and lists of every length around every limit, and with every '
        'near miss of its format; each through commits of one to three writes at every position as '
        'create and update, and through createRecord and putRecord with every value of validate')
ASSUMPTIONS = ["lexrpc's validator decides which records fit; for a hand-written list of valid and "
               'invalid records it must agree with the AT Protocol specification',
               'records without $type or with a $type that has no lexicon are documented to be allowed',
               'Datastore storages run on the in-process model of Datastore']

TIME = '2024-01-02T03:04:05.678Z'
LINK = CID.decode('bafyreigh2akiscaildcqabsyg3dfr6chu3fgpregiymsck7e7aqa4s52zy')
BLOB = {'$type': 'blob', 'ref': CID.decode(
    'bafkreigh2akiscaildcqabsyg3dfr6chu3fgpregiymsck7e7aqa4s52zy'), 'mimeType': 'image/png', 'size': 3}
SUBJECT = {'uri': 'at://did:web:a.com/app.bsky.feed.post/3jzfcijpj2z2a',
           'cid': 'bafyreigh2akiscaildcqabsyg3dfr6chu3fgpregiymsck7e7aqa4s52zy'}

BASES = {
    'post': {'$type': 'app.bsky.feed.post', 'text': 'hi', 'createdAt': TIME},
    'post full': {
        '$type': 'app.bsky.feed.post', 'text': 'hi ☃ there', 'createdAt': TIME,
        'langs': ['en', 'pt-BR'], 'tags': ['a', 'b'],
        'reply': {'root': SUBJECT, 'parent': SUBJECT},
        'facets': [{'index': {'byteStart': 0, 'byteEnd': 2},
                    'features': [{'$type': 'app.bsky.richtext.facet#link', 'uri': 'https://x.com/'},
                                 {'$type': 'app.bsky.richtext.facet#mention', 'did': 'did:web:x.com'},
                                 {'$type': 'x.y.z', 'other': 1}]}],
        'embed': {'$type': 'app.bsky.embed.images',
                  'images': [{'alt': 'x', 'image': BLOB, 'aspectRatio': {'width': 1, 'height': 2}}]},
    },
    'like': {'$type': 'app.bsky.feed.like', 'subject': SUBJECT, 'createdAt': TIME},
    'repost': {'$type': 'app.bsky.feed.repost', 'subject': SUBJECT, 'createdAt': TIME},
    'follow': {'$type': 'app.bsky.graph.follow', 'subject': 'did:plc:abc', 'createdAt': TIME},
    'block': {'$type': 'app.bsky.graph.block', 'subject': 'did:plc:abc', 'createdAt': TIME},
    'profile': {'$type': 'app.bsky.actor.profile', 'displayName': 'x', 'description': 'y',
                'avatar': BLOB, 'createdAt': TIME,
                'labels': {'$type': 'com.atproto.label.defs#selfLabels', 'values': [{'val': 'z'}]}},
    'list': {'$type': 'app.bsky.graph.list', 'purpose': 'app.bsky.graph.defs#modlist', 'name': 'x',
             'createdAt': TIME},
    'threadgate': {'$type': 'app.bsky.feed.threadgate', 'post': SUBJECT['uri'],
                   'allow': [{'$type': 'app.bsky.feed.threadgate#mentionRule'}], 'createdAt': TIME},
    'generator': {'$type': 'app.bsky.feed.generator', 'did': 'did:web:x.com', 'displayName': 'x',
                  'createdAt': TIME},
    'unknown': {'$type': 'x.y.z', 'a': 1, 'b': ['c', {'d': None}], 'e': b'f', 'g': LINK},
}

# by hand, from https://atproto.com/specs/lexicon and the lexicons
HAND = [
    ('post', {}, True),
    ('post', {'text': ''}, True),
    ('post', {'text': None}, False),
    ('post', {'text': 3}, False),
    ('post', {'text': ['x']}, False),
    ('post', {'text': ...}, False),
    ('post', {'createdAt': ...}, False),
    ('post', {'createdAt': 'yesterday'}, False),
    ('post', {'createdAt': '2024-01-02'}, False),
    ('post', {'createdAt': 1704164645}, False),
    ('post', {'text': 'x' * 300}, True),
    ('post', {'text': 'x' * 301}, False),
    ('post', {'text': '\u00e9' * 300}, True),
    ('post', {'text': '\U0001f468\u200d\U0001f469\u200d\U0001f467' * 166}, True),
    ('post', {'text': '\U0001f468\u200d\U0001f469\u200d\U0001f467' * 167}, False),
    ('post', {'langs': ['en']}, True),
    ('post', {'langs': ['en', 'fr', 'de', 'es']}, False),
    ('post', {'langs': 'en'}, False),
    ('post', {'langs': ['e!']}, False),
    ('post', {'other': 1}, True),
    ('post', {'reply': {'root': SUBJECT}}, False),
    ('post', {'reply': {'root': SUBJECT, 'parent': {**SUBJECT, 'uri': 'x'}}}, False),
    ('post', {'facets': [{'index': {'byteStart': 0}, 'features': []}]}, False),
    ('post', {'facets': [{'index': {'byteStart': -1, 'byteEnd': 1}, 'features': []}]}, False),
    ('like', {'subject': ...}, False),
    ('like', {'subject': SUBJECT['uri']}, False),
    ('like', {'subject': {'uri': SUBJECT['uri']}}, False),
    ('follow', {'subject': 'x.com'}, False),
    ('follow', {'subject': 'did:'}, False),
    ('follow', {'subject': 'did:web:x.com'}, True),
    ('follow', {'subject': {}}, False),
    ('profile', {'displayName': 'x' * 65}, False),
    ('profile', {'displayName': 'x' * 64}, True),
    ('list', {'name': ''}, False),
    ('list', {'name': 'x' * 64}, True),
    ('list', {'name': 'x' * 65}, False),
    ('generator', {'did': 'x'}, False),
    ('unknown', {'anything': [1, 'x', None]}, True),
]

ORACLE = Base(validate=True, require_lexicons=False)


def valid(rec):
    try:
        ORACLE.validate(rec['$type'], 'record', copy.deepcopy(rec))
        return True
    except ValidationError:
        return False
    except (AttributeError, TypeError, KeyError, ValueError):
        return None  # a nested $type that isn't a string, say


VALUES = [None, 0, 3, -1, True, '', 'x', 'x.com', 'did:web:x.com', 'https://x.com/', TIME, [], ['x'],
          [{}], {}, {'a': 1}, {'$type': 'x.y.z'}, b'x', LINK]
LENGTHS = [1, 3, 63, 64, 65, 100, 101, 255, 256, 257, 299, 300, 301, 640, 641, 2560, 2561, 3000, 3001]
FORMATS = {
    TIME: ['2024-01-02T03:04:05Z', '2024-01-02T03:04:05+00:00', '2024-01-02 03:04:05Z', '2024-01-02',
           '2024-13-02T03:04:05Z', '2024-01-02T03:04:05', '20240102T030405Z', TIME + ' ', ' ' + TIME],
    SUBJECT['uri']: ['at://x', 'at://', 'at://did:web:a.com', 'http://x.com', SUBJECT['uri'] + '/',
                     SUBJECT['uri'][1:], SUBJECT['uri'].upper()],
    SUBJECT['cid']: [SUBJECT['cid'][:-1], SUBJECT['cid'].upper(), 'bafy', SUBJECT['cid'] + ' '],
    'did:plc:abc': ['did:plc:', 'did:plc', 'did', 'plc:abc', 'DID:plc:abc', 'did:plc:abc:', '@did:plc:abc'],
    'did:web:x.com': ['did:web:', 'x.com', 'did:x'],
    'en': ['e', 'english-in-a-long-form', '1', 'en_US', ''],
}


def departures(val):
    """Yields val with one departure."""
    if isinstance(val, dict):
        for k in val:
            yield {a: b for a, b in val.items() if a != k}
            for new in departures(val[k]):
                yield {**val, k: new}
        yield {**val, 'unknownProperty': 1}
    elif isinstance(val, list):
        for i, item in enumerate(val):
            for new in departures(item):
                yield val[:i] + [new] + val[i + 1:]
        for n in range(10):
            yield (val * 10)[:n]
    elif isinstance(val, str):
        yield from FORMATS.get(val, [])
        for n in LENGTHS:
            yield 'a' * n
            yield '\u00e9' * n
            if n < 700:
                yield '\U0001f468\u200d\U0001f469\u200d\U0001f467' * n
    elif isinstance(val, int):
        yield from (-1, 0, 1, 2, 2 ** 53)
    for new in VALUES:
        yield copy.deepcopy(new)


def variants(base):
    """Different records, each with the base's $type."""
    seen = set()
    for v in itertools.chain([base], departures(base)):
        if not isinstance(v, dict) or v.get('$type') != base['$type']:
            continue
        key = ref.encode(v)
        if key not in seen and valid(v) is not None:
            seen.add(key)
            yield v


APIS = ['create', 'create first', 'create middle', 'create last', 'update', 'update after delete',
        'update last', 'createRecord', 'createRecord no rkey', 'createRecord validate',
        'createRecord no validate', 'putRecord', 'putRecord existing', 'putRecord no validate',
        'other collection', 'twice', 'rkey self']
CHUNKS = 4


def units(tier, seed):
    q = tier == 'quick'
    out = [{'kind': 'hand', 'backend': b} for b in ('memory', 'datastore')]
    for name in BASES:
        full = name == 'post full'
        for api in range(len(APIS)):
            for part in range(CHUNKS if full else 1):
                out.append({'kind': 'single', 'base': name, 'api': api, 'backend': 'memory',
                            'part': part, 'of': CHUNKS if full else 1,
                            'every': 3 if q and full else 1})
            out.append({'kind': 'single', 'base': name, 'api': api, 'backend': 'datastore',
                        'part': 0, 'of': 1, 'every': (23 if full else 5) if q else 2})
    for a, b in itertools.product(['post', 'like', 'profile', 'unknown'], repeat=2):
        out.append({'kind': 'pairs', 'a': a, 'b': b, 'every': 17 if q else 5})
    return out


@contextlib.contextmanager
def config():
    s = aserver.server
    old = s._validate, s._truncate, s._require_lexicons
    s._validate, s._truncate, s._require_lexicons = env.ORIGINAL_CONFIG
    try:
        yield
    finally:
        s._validate, s._truncate, s._require_lexicons = old


def run_unit(unit, ctx):
    ctx.sample(unit)
    with config():
        globals()[unit['kind']](unit, ctx)


GOOD = {'$type': 'app.bsky.feed.like', 'subject': SUBJECT, 'createdAt': TIME}
GOOD2 = {'$type': 'x.y.z', 'other': [1]}
LIKE = 'app.bsky.feed.like'


class Sys:
    """A storage with one repo that has a few records."""
    def __init__(self, ctx, backend):
        self.w = World(['x.y.z/a', 'x.y.z/b'], backend)
        self.w.step(['create', 0])
        self.w.step(['commit', 0, [['create', 'x.y.z/a', 1], ['create', 'x.y.z/b', 2]], 'held'])
        self.did = DIDS[0]
        self.n = 0

    @property
    def storage(self):
        return self.w.storage

    def rkey(self):
        self.n += 1
        return f'r{self.n:06}'

    def repo(self):
        return self.storage.load_repo(self.did)


def attempt(fn):
    try:
        return True, fn()
    except (Exception, AssertionError) as e:
        return False, e


def xcall(s, nsid, **input):
    """With the app's own validation setting."""
    return xrpc.call(s.w, nsid, input, validate=aserver.server._validate)


def do(s, api, rec, coll):
    """Stores rec. Returns (ok, result or error, paths => record that must exist if it's ok,
    and paths that must be gone)."""
    rk, k1, k2 = s.rkey(), s.rkey(), s.rkey()
    st = s.storage
    w = lambda action, c, r, record=None: Write(action=action, collection=c, rkey=r, record=record)
    C, U, D = Action.CREATE, Action.UPDATE, Action.DELETE
    commit = lambda *ws: attempt(lambda: st.commit(s.repo(), list(ws)))
    want = {(coll, rk): rec}
    if api in ('update', 'update last', 'update after delete', 'putRecord existing'):
        st.commit(s.repo(), [w(C, coll, rk, copy.deepcopy(GOOD)), w(C, LIKE, k1, copy.deepcopy(GOOD))])
        s.before = s.w.snapshot(), obj_state(s.repo())
    if api == 'create':
        return *commit(w(C, coll, rk, rec)), want
    if api == 'create first':
        return *commit(w(C, coll, rk, rec), w(C, LIKE, k1, GOOD)), {**want, (LIKE, k1): GOOD}
    if api == 'create middle':
        return *commit(w(C, LIKE, k1, GOOD), w(C, coll, rk, rec), w(C, 'x.y.z', k2, GOOD2)), {
            **want, (LIKE, k1): GOOD, ('x.y.z', k2): GOOD2}
    if api == 'create last':
        return *commit(w(C, LIKE, k1, GOOD), w(C, coll, rk, rec)), {**want, (LIKE, k1): GOOD}
    if api == 'update':
        return *commit(w(U, coll, rk, rec)), want
    if api == 'update after delete':
        return *commit(w(D, LIKE, k1), w(U, coll, rk, rec)), {**want, (LIKE, k1): None}
    if api == 'update last':
        return *commit(w(C, 'x.y.z', k2, GOOD2), w(U, coll, rk, rec)), {**want, ('x.y.z', k2): GOOD2}
    if api == 'other collection':
        other = LIKE if coll != LIKE else 'app.bsky.feed.post'
        return *commit(w(C, other, rk, rec)), {(other, rk): rec}
    if api == 'rkey self':
        if s.repo().get_record(coll, 'self') is not None:
            st.commit(s.repo(), [w(D, coll, 'self')])
            s.before = s.w.snapshot(), obj_state(s.repo())
        return *commit(w(C, coll, 'self', rec)), {(coll, 'self'): rec}
    if api == 'twice':
        first = commit(w(C, coll, rk, rec))
        if first[0]:
            return *first, want
        # refused again, in the same way
        return *commit(w(C, coll, rk, rec)), want
    kw = {}
    if api.endswith('no validate'):
        kw['validate'] = False
    elif api.endswith(' validate'):
        kw['validate'] = True
    if api == 'createRecord no rkey':
        ok, out = xcall(s, 'com.atproto.repo.createRecord', repo=s.did, collection=coll, record=rec)
        if ok:
            want = {(coll, out['uri'].rsplit('/', 1)[-1]): rec}
        return ok, out, want
    nsid = 'com.atproto.repo.' + api.split()[0]
    return *xcall(s, nsid, repo=s.did, collection=coll, rkey=rk, record=rec, **kw), want


def one(s, api, rec, expect, ctx, what):
    rec = copy.deepcopy(rec)
    orig = copy.deepcopy(rec)
    s.before = s.w.snapshot(), obj_state(s.repo())
    ok, out, want = do(s, api, rec, rec['$type'])
    ctx.execution()
    ctx.state()
    ctx.step()
    ctx.count('valid' if expect else 'invalid')
    ctx.outcome([api, what, bool(expect), type(out).__name__])
    info = dict(api=api, record=repr(orig)[:600], what_=what, result=repr(out)[:300])
    ctx.check(rec == orig and ref.encode(rec) == ref.encode(orig),
              'storing a record changes the record it was given', **info)
    if not ctx.check(ok == expect, 'a record that fits its lexicon is refused' if expect else
                     "a record that doesn't fit its lexicon is stored", **info):
        return
    if not ok:
        ctx.check(isinstance(out, (ValidationError, ValueError)),
                  "a record that doesn't fit its lexicon isn't refused as invalid", **info)
        ctx.check((s.w.snapshot(), obj_state(s.repo())) == s.before,
                  'a refused record changes something', **info)
        return
    repo = s.repo()
    for (coll, rkey), r in want.items():
        cid = repo.mst.get(f'{coll}/{rkey}')
        if r is None:
            ctx.check(cid is None, 'a delete in the same commit is lost', **info)
            continue
        r = orig if r is rec else r
        ctx.check(cid is not None and bytes(cid) == ref.cid(r)
                  and s.storage.read(cid).encoded == ref.encode(r)
                  and repo.get_record(coll, rkey) == r,
                  'a stored record is not the one that was given', path=f'{coll}/{rkey}', **info)


def hand(unit, ctx):
    s = Sys(ctx, unit['backend'])
    for i, (base, changes, expect) in enumerate(HAND):
        rec = {**BASES[base], **changes}
        rec = {k: v for k, v in rec.items() if v is not ...}
        assert valid(rec) == expect, (base, changes)
        for api in APIS:
            one(s, api, rec, expect, ctx, f'by hand {i}')
        if i % 4 == 3:
            s = Sys(ctx, unit['backend'])


def single(unit, ctx):
    api = APIS[unit['api']]
    s = None
    for i, rec in enumerate(variants(BASES[unit['base']])):
        if i % unit['of'] != unit['part'] or i // unit['of'] % unit['every']:
            continue
        if s is None or s.n > 60:
            s = Sys(ctx, unit['backend'])
        one(s, api, rec, valid(rec), ctx, unit['base'])


def pairs(unit, ctx):
    """Two records in one commit, in both orders of create."""
    s = None
    As = list(variants(BASES[unit['a']]))[::unit['every']]
    Bs = list(variants(BASES[unit['b']]))[::unit['every']]
    for a, b in itertools.product(As, Bs):
        if s is None or s.n > 60:
            s = Sys(ctx, 'memory')
        expect = valid(a) and valid(b)
        before = s.w.snapshot(), obj_state(s.repo())
        ka, kb = s.rkey(), s.rkey()
        ok, out = attempt(lambda: s.storage.commit(s.repo(), [
            Write(action=Action.CREATE, collection=r['$type'], rkey=k, record=copy.deepcopy(r))
            for r, k in ((a, ka), (b, kb))]))
        ctx.execution()
        ctx.state()
        ctx.step()
        info = dict(a=repr(a)[:400], b=repr(b)[:400], result=repr(out)[:300])
        if not ctx.check(ok == expect, 'a record that fits its lexicon is refused' if expect else
                         "a record that doesn't fit its lexicon is stored", **info):
            continue
        if not ok:
            ctx.check((s.w.snapshot(), obj_state(s.repo())) == before,
                      'a refused record changes something', **info)
            continue
        repo = s.repo()
        ctx.check(repo.get_record(a['$type'], ka) == a and repo.get_record(b['$type'], kb) == b,
                  'a stored record is not the one that was given', **info)


def finalize(total, outcomes, tier):
    if total['valid'] < 1000 or total['invalid'] < 1000:
        return 'vacuous: too few valid or invalid records'
    if len(outcomes) < 300:
        return 'vacuous: too few outcomes'
