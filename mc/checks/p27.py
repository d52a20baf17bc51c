"""P27: remote blobs."""
import base64
import datetime
import hashlib
import io
import itertools

import google.api_core.exceptions as gexc
import requests
import urllib3.exceptions
import webutil.util

from mc import env, fakeds, sched, xrpc
from mc.hist import DIDS
from arroba import datastore_storage as dsmod
from arroba.datastore_storage import AtpRemoteBlob, AtpRepo
from lexrpc.base import ValidationError
from lexrpc.server import Redirect

ID = 'P27'
LEVEL = 'model_checking'
CHUNK = 1
TECHNIQUE = ('explicit-state exploration of histories of fetches, content changes, failures and clock '
             'steps, every step executed on the real code over an in-process Datastore and compared '
             'with a reference model; stateless exploration of interleavings of several processes; '
             'crash and error at every Datastore request')
RULE = ('every history up to the depth bound of get_or_create with every kind of answer, repo and '
        'limit, getBlob of every known CID with every kind of answer, and clock steps, for two URLs '
        'and two repos; in every state listBlobs of every repo with every page size; every '
        'interleaving up to the preemption bound of two or three processes that use the same URL; '
        'every crash point and every single failed request of one call, followed by another call; getBlob '
        'when any one of up to 12 URLs with the same bytes, or none, still works')
ASSUMPTIONS = ['Datastore transactions are atomic and serializable, as in the in-process model',
               'whether getBlob still redirects once when its re-check finds other bytes is not '
               'specified (the tests ask for it)',
               'whether listBlobs lists inactive blobs is not specified',
               'media metadata extraction is replaced by a stand-in with known answers']

MAX = 40
URLS = ['http://a.com/x.png', 'http://b.com/y']
REPOS = DIDS[:2]
BOUND_DAYS = 7


class Body:
    """An HTTP answer."""
    def __init__(self, content=b'', type=None, length=None, status=200, exc=None, read_exc=None):
        self.body, self.type, self.length = content, type, length
        self.status, self.exc, self.read_exc = status, exc, read_exc

    def serve(self, url):
        if self.exc:
            raise self.exc('x')
        r = requests.Response()
        r.status_code, r.url = self.status, url
        if self.type is not None:
            r.headers['Content-Type'] = self.type
        if self.length is not None:
            r.headers['Content-Length'] = str(self.length)
        raw = io.BytesIO(self.body)
        if self.read_exc:
            exc = self.read_exc

            class Raw:
                def read(self, *a, **k):
                    raise exc('x')
                stream = read
            raw = Raw()
        r.raw = raw
        return r


IMG, IMG2, VID3, VIDLONG = b'I10x20 first', b'I30x40 second!', b'V180000', b'V180001'
ANSWERS = {
    'img': Body(IMG, 'image/png'),
    'img2': Body(IMG2, 'image/jpeg', len(IMG2)),
    'same bytes': Body(IMG, 'image/gif'),
    'text': Body(b'some text', 'text/plain', 9),
    'no type': Body(b'untyped'),
    'empty type': Body(b'untyped', ''),
    'lie': Body(b'I1x1 lie', 'image/png', 3),
    'junk length': Body(b'I1x1 junk', 'image/png', 'nope'),
    'negative length': Body(b'I1x1 neg', 'image/png', -1),
    'empty': Body(b'', 'image/png', 0),
    'at max': Body(b'I' + b'x' * (MAX - 1), 'image/png', MAX),
    'over header': Body(IMG, 'image/png', MAX + 1),
    'over body': Body(b'I' + b'x' * MAX, 'image/png'),
    'at limit video': Body(VID3, 'video/mp4'),
    'long video': Body(VIDLONG, 'image/vid'),
    'broken media': Body(b'X', 'image/png'),
    '400': Body(IMG, 'image/png', status=400),
    '404': Body(b'none', status=404),
    '410': Body(b'', status=410),
    '429': Body(b'', status=429),
    '500': Body(IMG, 'image/png', status=500),
    '503': Body(b'', status=503),
    'refused': Body(exc=requests.ConnectionError),
    'timeout': Body(exc=requests.Timeout),
    'redirects': Body(exc=requests.TooManyRedirects),
    'os error': Body(exc=ConnectionResetError),
    'cut off': Body(IMG, 'image/png', read_exc=urllib3.exceptions.ProtocolError),
    'cut off text': Body(IMG, 'text/plain', read_exc=urllib3.exceptions.ProtocolError),
}
GUESS = {URLS[0]: 'image/png', URLS[1]: 'application/octet-stream'}
OPTS = {'': {}, 'max': {'max_size': 12}, 'over': {'max_size': 11}, 'image': {'accept_types': ['image/*']},
        'text': {'accept_types': ['text/plain']}, 'any': {'accept_types': ['*/*']},
        'exact': {'accept_types': ['text/html', 'image/png']}}


def cid_of(body):
    raw = bytes([1, 0x55, 0x12, 0x20]) + hashlib.sha256(body).digest()
    return 'b' + base64.b32encode(raw).decode().lower().rstrip('=')


class Track:
    def __init__(self, w, h, d):
        self.width, self.height, self.duration = w, h, d


class FakeMediaInfo:
    """Stands in for pymediainfo."""
    def __init__(self, video=(), image=()):
        self.video_tracks, self.image_tracks = list(video), list(image)

    @staticmethod
    def parse(f, *args, **kw):
        c = f.read()
        if c.startswith(b'X'):
            raise RuntimeError('broken')
        m = meta(c)
        if c.startswith(b'V'):
            return FakeMediaInfo(video=[Track(m[0], m[1], str(float(m[2])))])
        if c.startswith(b'I') and m[0]:
            return FakeMediaInfo(image=[Track(m[0], m[1], None)])
        return FakeMediaInfo()


def meta(c):
    """(width, height, duration) that FakeMediaInfo reports."""
    if c.startswith(b'V'):
        return 640, 480, int(c[1:])
    if c.startswith(b'I') and b'x' in c[1:6] and c[1:2].isdigit():
        w, h = c[1:].split(b' ')[0].split(b'x')
        return int(w), int(h), None
    return None, None, None


dsmod.MediaInfo = FakeMediaInfo
dsmod.BLOB_MAX_BYTES = MAX
BASE_NOW = env.now()
DAYS = [0.0]


def now():
    return BASE_NOW + datetime.timedelta(days=DAYS[0])


webutil.util.now = now

_base = None


def base():
    """A database with two repos."""
    global _base
    if not _base:
        s = env.DS()
        for i, d in enumerate(REPOS):
            env.create_repo(s.storage, d, handle=f'h{i}.com', key=i)
        _base = s.db
    return _base.snapshot()


# --- the reference model ---

class Blob:
    """Model of one URL's blob."""
    def __init__(self):
        self.cid = self.last = self.status = self.size = None
        self.mime = 'application/octet-stream'
        self.meta = (None, None, None)
        self.repos = frozenset()

    def copy(self):
        b = Blob()
        b.__dict__.update(self.__dict__)
        return b

    def due(self, t):
        if self.cid or self.last is not None:
            if self.mime.split('/')[0] != 'image':
                return False
        return self.last is None or t - self.last > BOUND_DAYS

    def fetch(self, url, ans, t):
        """Returns None, or which error: 'http' or 'invalid'."""
        a = ANSWERS[ans]
        self.last = t
        if a.exc or a.status >= 400 or a.read_exc and not over(a):
            if not self.cid or a.status // 100 == 4:
                self.status = 'inactive'
            return 'http'
        self.mime = a.type or GUESS.get(url, 'application/octet-stream')
        if over(a):
            self.cid, self.size = None, a.length
            return 'invalid'
        self.cid, self.size, self.meta = cid_of(a.body), len(a.body), meta(a.body)
        self.status = None
        return None

    def invalid(self, max_size=None, accept_types=None):
        if accept_types and '*/*' not in accept_types and self.mime not in accept_types and (
                self.mime.split('/')[0] + '/*') not in accept_types:
            return True
        return (self.size or 0) > min(MAX, max_size or MAX) or (self.meta[2] or 0) > 180000

    def key(self, t):
        return (self.cid, None if self.last is None else t - self.last, self.status, self.size,
                self.mime, self.meta, tuple(sorted(self.repos)))


def over(a):
    return isinstance(a.length, int) and a.length > MAX


class Model:
    def __init__(self):
        self.t = 0
        self.blobs = {}
        self.order = []     # of last updates

    def copy(self):
        m = Model()
        m.t, m.order = self.t, list(self.order)
        m.blobs = {u: b.copy() for u, b in self.blobs.items()}
        return m

    def key(self):
        return (tuple((u, b.key(self.t)) for u, b in sorted(self.blobs.items())), tuple(self.order))


def stored(db):
    """URL => what's stored about it."""
    out = {}
    for k, (e, _) in db.entities.items():
        if k[-1][0] != 'AtpRemoteBlob':
            continue
        p = e.properties

        def get(name, field):
            if name not in p or p[name].WhichOneof('value_type') == 'null_value':
                return None
            return getattr(p[name], field)
        last = get('last_fetched', 'timestamp_value')
        if last is not None:
            last = (last.ToDatetime(tzinfo=datetime.timezone.utc) - BASE_NOW
                    ) / datetime.timedelta(days=1)
        b = Blob()
        b.cid, b.size = get('cid', 'string_value'), get('size', 'integer_value')
        b.status, b.mime = get('status', 'string_value'), get('mime_type', 'string_value')
        b.meta = tuple(get(n, 'integer_value') for n in ('width', 'height', 'duration'))
        b.repos = frozenset(v.key_value.path[-1].name for v in p['repos'].array_value.values)
        if len(b.repos) != len(p['repos'].array_value.values):
            raise AssertionError('a repo is registered twice')
        b.last = last
        out[get('url', 'string_value') or k[-1][1]] = b
    return out


# --- running the real code ---

class Net:
    """HTTP."""
    def __init__(self, answers):
        self.answers, self.log = answers, []

    def get(self, url, *args, **kw):
        self.log.append(url)
        if url not in self.answers:
            raise requests.ConnectionError(f'unexpected fetch of {url}')
        return ANSWERS[self.answers[url]].serve(url)


def goc(client, url, repo, net, opts=''):
    """get_or_create in a new request's context. Returns (kind, value)."""
    with client.context():
        try:
            b = AtpRemoteBlob.get_or_create(
                url=url, repo=repo and AtpRepo(id=repo), get_fn=net.get, name='n', **OPTS[opts])
            obj = b.as_object()
            return 'ok', (obj and {**obj, 'ref': obj['ref'].encode('base32')},
                          (b.width, b.height, b.duration))
        except ValidationError as e:
            return 'invalid', e
        except requests.RequestException as e:
            return 'http', e


def blob_of(b):
    return {'$type': 'blob', 'ref': b.cid, 'mimeType': b.mime, 'size': b.size}


class Run:
    def __init__(self, ctx, db, model, trace):
        self.ctx, self.db, self.model, self.trace = ctx, db, model, trace

    def fork(self, op):
        return Run(self.ctx, self.db.snapshot(), self.model.copy(), self.trace + [op])

    def check(self, cond, what, **kw):
        return self.ctx.check(cond, what, history=self.trace, **kw)

    def step(self, op):
        self.ctx.step()
        self.ctx.execution()
        DAYS[0] = self.model.t
        kind, *args = op
        if kind == 'tick':
            self.model.t += args[0]
            DAYS[0] = self.model.t
            return
        getattr(self, 'op_' + kind)(*args)
        self.compare()

    def compare(self):
        got = stored(self.db)
        self.check(set(got) == set(self.model.blobs), 'other blobs are stored than were registered',
                   got=sorted(got), want=sorted(self.model.blobs))
        for u, b in self.model.blobs.items():
            g = got[u]
            fields = ['cid', 'status', 'repos', 'last'] + (['size', 'mime', 'meta'] if b.cid else [])
            for f in fields:
                if f == 'last' and b.last is not None and g.last is not None:
                    same = abs(g.last - b.last) < 1e-6
                else:
                    same = getattr(g, f) == getattr(b, f)
                if not self.check(same, f"a blob's stored {f} is wrong", url=u,
                                  got=str(getattr(g, f)), want=str(getattr(b, f))):
                    return

    def op_goc(self, url, repo, ans, opts):
        m = self.model
        b = m.blobs.setdefault(url, Blob())
        before = b.key(m.t)
        if repo:
            b.repos |= {repo}
        net = Net({url: ans})
        if b.status:
            want, fetched = 'http', []
        else:
            want, fetched = None, []
            if b.due(m.t):
                fetched = [url]
                want = b.fetch(url, ans, m.t)
            want = want or ('invalid' if b.invalid(**OPTS[opts]) else 'ok')
        if b.key(m.t) != before or fetched:
            m.order = [u for u in m.order if u != url] + [url]
        got, val = goc(fakeds.client(self.db), url, repo, net, opts)
        self.ctx.outcome([ans if fetched else None, opts, got, len(fetched)])
        self.check(net.log == fetched, 'a blob is fetched when it need not be, or not fetched when '
                   'it should be', got=net.log, want=fetched)
        if not self.check(got == want, 'wrong result of get_or_create', got=f'{got} {val}', want=want):
            return
        if got == 'ok':
            self.check(val == (blob_of(b), b.meta), 'the blob does not describe the bytes that its '
                       'URL returned', got=val, want=(blob_of(b), b.meta))

    def xrpc(self, method, **kw):
        s = env.DS(self.db)
        with s.client.context():
            return xrpc.raw_call(s.storage, f'com.atproto.sync.{method}', {}, **kw)

    def op_blob(self, cid, answers):
        m = self.model
        net = Net({u: a for u, a in zip(URLS, answers) if a})
        cands = [u for u, b in m.blobs.items() if b.cid == cid and not b.status]
        due = {u for u in cands if m.blobs[u].due(m.t)}
        old = webutil.util.session.get
        webutil.util.session.get = net.get
        try:
            ok, val = self.xrpc('getBlob', did=REPOS[0], cid=cid)
        finally:
            webutil.util.session.get = old
        errs = {}
        for u in net.log:
            if not self.check(u in due and u not in errs, 'getBlob fetches a URL that is not '
                              'registered for the CID, or that need not be re-checked', got=net.log):
                return
            errs[u] = m.blobs[u].fetch(u, net.answers[u], m.t)
            m.order = [x for x in m.order if x != u] + [u]
        self.ctx.outcome(['getBlob', len(cands), sorted(map(str, errs.values())), type(val).__name__])
        if not self.check(not ok and isinstance(val, (Redirect, ValueError)),
                          'getBlob neither redirects nor says that there is no blob', got=repr(val)):
            return
        if isinstance(val, Redirect):
            u = val.to
            self.check(u in cands, 'getBlob redirects to a URL that is not registered for the CID, '
                       'or is inactive', got=u, want=cands)
            if u in due:
                self.check(u in errs and errs[u] is None, 'getBlob redirects to a URL whose '
                           're-check failed or is due', got=u)
        else:
            for u in cands:
                self.check(u in errs and (errs[u] or m.blobs[u].cid != cid),
                           'getBlob does not find a blob that is registered and working', url=u,
                           got=repr(val))
        cc = (val.headers or {}).get('Cache-Control') if hasattr(val, 'headers') else None
        self.check(cc, 'no Cache-Control header', got=repr(val))

    def observe(self):
        """listBlobs of every repo, with every page size."""
        m = self.model
        for d in REPOS:
            mine = [(u, b) for u, b in sorted(m.blobs.items()) if d in b.repos]
            all_ = [b.cid for u, b in mine if b.cid]
            must = [b.cid for u, b in mine if b.cid and not b.status]
            for limit in (None, 1, 2, 3):
                got, cursor, n = [], None, 0
                while True:
                    kw = {k: v for k, v in dict(limit=limit, cursor=cursor).items() if v is not None}
                    ok, val = self.xrpc('listBlobs', did=d, **kw)
                    self.ctx.execution()
                    if not self.check(ok, 'listBlobs fails', repo=d, limit=limit, error=repr(val)):
                        return
                    if not self.check(len(val['cids']) <= (limit or 500), 'a page is too long',
                                      got=val):
                        return
                    got += val['cids']
                    cursor = val.get('cursor')
                    n += 1
                    if cursor is None or not self.check(n <= len(mine) + 1, 'listBlobs never ends'):
                        break
                self.check(got in (all_, must), 'listBlobs does not list exactly the blobs that are '
                           'registered for the repo', repo=d, limit=limit, got=got, want=all_)
        for c in sorted({b.cid for b in m.blobs.values() if b.cid}) + [cid_of(b'unknown')]:
            if not any(b.cid == c and not b.status for b in m.blobs.values()):
                self.fork(['blob', c, [None, None]]).step(['blob', c, [None, None]])


# --- sequential histories ---

MAIN = ['img', 'img2', 'text', 'over header', 'over body', '404', '503', 'cut off']
ALL = list(ANSWERS)


def ops(model, tier, first=False):
    """Every operation in this state."""
    for i, u in enumerate(URLS):
        b = model.blobs.get(u) or Blob()
        fetches = not b.status and b.due(model.t)
        answers = (ALL if i == 0 else MAIN[:2] + ['503']) if fetches else ['img']
        for a in answers:
            yield ['goc', u, REPOS[0], a, '']
        for r in [REPOS[1], None]:
            for a in (answers if tier != 'quick' else answers[:2]):
                yield ['goc', u, r, a, '']
        if i == 0:
            for o in list(OPTS)[1:]:
                for a in (['img', 'text', 'empty type'] if fetches else ['img']):
                    yield ['goc', u, None, a, o]
    for c in sorted({b.cid for b in model.blobs.values() if b.cid}):
        due = [u in model.blobs and model.blobs[u].cid == c and not model.blobs[u].status
               and model.blobs[u].due(model.t) for u in URLS]
        sets = [(MAIN + ['same bytes', 'refused', 'long video'] if d and i == 0 else
                 ['img', '404', '503'] if d else [None])
                for i, d in enumerate(due)]
        for answers in itertools.product(*sets):
            yield ['blob', c, list(answers)]
    if model.blobs:
        yield ['tick', 6]
        yield ['tick', 8]


def explore(run, depth, seen, tier):
    ctx = run.ctx
    key = run.model.key()
    if seen.get(key, -1) >= depth:
        return
    if key not in seen:
        ctx.state()
        run.observe()
    seen[key] = depth
    if not depth or ctx.expired():
        return
    for op in ops(run.model, tier):
        nxt = run.fork(op)
        nxt.step(op)
        explore(nxt, depth - 1, seen, tier)


def histories(unit, ctx):
    run = Run(ctx, base(), Model(), [])
    for op in unit['prefix']:
        run = run.fork(op)
        run.step(op)
    explore(run, unit['depth'], {}, ctx.tier)


# --- concurrency ---

# start: operations; days: clock advance; procs: [url, repo, answer, opts] or ['blob', cid]
OLD = [['goc', URLS[0], REPOS[0], 'img', '']]
SCENARIOS = {
    'new': dict(procs=[[URLS[0], REPOS[0], 'img'], [URLS[0], REPOS[1], 'img']]),
    'new text': dict(procs=[[URLS[0], REPOS[0], 'text'], [URLS[0], REPOS[1], 'text']]),
    'new changing': dict(procs=[[URLS[0], REPOS[0], 'img'], [URLS[0], REPOS[1], 'img2']]),
    'new failing': dict(procs=[[URLS[0], REPOS[0], 'img'], [URLS[0], REPOS[1], '503']]),
    'new too big': dict(procs=[[URLS[0], REPOS[0], 'img'], [URLS[0], REPOS[1], 'over header']]),
    'recent': dict(start=OLD, procs=[[URLS[0], REPOS[1], 'img2'], [URLS[0], REPOS[0], 'img2']]),
    'due': dict(start=OLD, days=8, procs=[[URLS[0], REPOS[1], 'img2'], [URLS[0], REPOS[0], 'img2']]),
    'due failing': dict(start=OLD, days=8,
                        procs=[[URLS[0], REPOS[1], 'img2'], [URLS[0], REPOS[0], '503']]),
    'due getBlob': dict(start=OLD, days=8, procs=[[URLS[0], REPOS[1], 'img'], ['blob', IMG, 'img']]),
    'due getBlob failing': dict(start=OLD, days=8,
                                procs=[[URLS[0], REPOS[1], 'img'], ['blob', IMG, '503']]),
    'other urls': dict(procs=[[URLS[0], REPOS[0], 'img'], [URLS[1], REPOS[1], 'img']]),
    'three': dict(procs=[[URLS[0], REPOS[0], 'img'], [URLS[0], REPOS[1], 'img'],
                         [URLS[0], None, 'img']], bounds=(1, 2)),
    'three due': dict(start=OLD, days=8, procs=[
        [URLS[0], REPOS[1], 'img2'], [URLS[0], None, 'img2'], ['blob', IMG, 'img2']], bounds=(1, 2)),
}


def concurrent(unit, ctx):
    sc = SCENARIOS[unit['scenario']]
    start = Run(ctx, base(), Model(), [])
    for op in sc.get('start', []):
        start.step(op)
    t = start.model.t + sc.get('days', 0)

    def run(choices):
        db = start.db.snapshot()
        DAYS[0] = t
        s = sched.Sched(choices)
        done = []

        class YieldNet(Net):
            def get(self, url, *args, **kw):
                sched.point('http')
                return super().get(url, *args, **kw)

        def task(p):
            client = fakeds.client(db)

            def hook(stub, method, req):
                sched.point(f'db {method}')
            client.stub.hook = hook

            def go():
                if p[0] == 'blob':
                    net = YieldNet({URLS[0]: p[2]})
                    with client.context():
                        for b in AtpRemoteBlob.query(AtpRemoteBlob.cid == cid_of(p[1])):
                            try:
                                b.maybe_fetch(get_fn=net.get)
                            except (requests.RequestException, ValidationError):
                                pass
                    done.append((p, 'blob', None))
                else:
                    done.append((p, *goc(client, p[0], p[1], YieldNet({p[0]: p[2]}))))
            return go

        for i, p in enumerate(sc['procs']):
            s.spawn(f'proc{i}', task(p))
        s.run()
        what = {**unit, 'procs': sc['procs'], 'choices': list(s.taken)}
        ctx.check(not s.truncated and not s.blocked, 'a call never ends', what_=what)
        for task_ in s.tasks:
            if task_.error:
                raise task_.error
        s.kill()
        got = stored(db)
        hist = [[p, kind, str(v)] for p, kind, v in done]
        ctx.outcome([unit['scenario'], hist, sorted((u, str(b.key(t))) for u, b in got.items())])
        bodies = {}
        for p in sc['procs']:
            bodies.setdefault(URLS[0] if p[0] == 'blob' else p[0], set()).add(p[2])
        if sc.get('start'):
            bodies[URLS[0]].add('img')
        for u, b in got.items():
            if b.cid:
                ctx.check(any(cid_of(ANSWERS[a].body) == b.cid and len(ANSWERS[a].body) == b.size
                              and ANSWERS[a].type == b.mime and meta(ANSWERS[a].body) == b.meta
                              for a in bodies[u]),
                          'a stored blob does not describe any bytes that its URL returned',
                          what_=what, got=str(b.key(t)), history=hist)
        for p, kind, v in done:
            if p[0] == 'blob':
                continue
            bad = bool({'503', '404', 'over header'} & bodies[p[0]])
            ctx.check(kind == 'ok' or bad, 'a call for a working URL fails', what_=what,
                      history=hist)
            if kind == 'ok':
                ctx.check(v[0] and v[0]['ref'] in {cid_of(ANSWERS[a].body) for a in bodies[p[0]]}
                          and v[0]['size'] in {len(ANSWERS[a].body) for a in bodies[p[0]]},
                          'a call returns a blob that does not describe any bytes that its URL '
                          'returned', what_=what, history=hist)
                ctx.check(got[p[0]].cid or bad, 'a blob that was returned is stored without its CID',
                          what_=what, history=hist)
            if p[1] and kind == 'ok':
                ctx.check(p[1] in got[p[0]].repos, 'a repo that a blob was registered for is lost',
                          what_=what, history=hist, got=sorted(got[p[0]].repos))
        for op in sc.get('start', []):
            ctx.check(op[2] in got[op[1]].repos, 'a repo that a blob was registered for is lost',
                      what_=what, history=hist)
        return s

    sched.explore(ctx, run, unit['bound'])


# --- crashes and errors ---

FAULTS = {
    'crash': lambda: (_ for _ in ()).throw(fakeds.Crash()),
    'crash after': lambda: ('crash_after',),
    'fail': lambda: ('fail', gexc.InvalidArgument('x')),
    'fail after': lambda: ('fail_after', gexc.InvalidArgument('x')),
    'unavailable': lambda: ('fail', gexc.ServiceUnavailable('x')),
    'unavailable after': lambda: ('fail_after', gexc.ServiceUnavailable('x')),
    'aborted': lambda: ('fail', gexc.Aborted('x')),
}


def crashes(unit, ctx):
    """One call with a fault at every request, or a crash during the fetch; then another."""
    url = URLS[0]
    for due in (False, True):
        start = Run(ctx, base(), Model(), [])
        if due:
            start.step(OLD[0])
        t = start.model.t + (8 if due else 0)
        n = 0
        while True:
            db = start.db.snapshot()
            DAYS[0] = t
            client = fakeds.client(db)
            count = [0]

            def hook(stub, method, req):
                count[0] += 1
                if count[0] == n:
                    return FAULTS[unit['fault']]()

            client.stub.hook = hook
            net = Net({url: unit['answer']})
            if n == 0:
                def boom(*a, **k):
                    raise fakeds.Crash()
                net.get = boom
            try:
                kind, val = goc(client, url, REPOS[1], net)
            except fakeds.Crash:
                kind, val = 'crash', None
            except gexc.GoogleAPIError as e:
                kind, val = 'error', e
            except Exception as e:
                kind, val = 'error', e
            hit = n == 0 or count[0] >= n
            ctx.state()
            ctx.execution()
            ctx.step(count[0])
            what = {**unit, 'due': due, 'request': n}
            first = kind
            ctx.outcome([unit, due, n, kind])
            if kind == 'ok':
                ctx.check(stored(db)[url].cid == cid_of(ANSWERS[unit['answer']].body),
                          'a blob that was returned is stored without its CID', what_=what)
                ctx.check(REPOS[1] in stored(db)[url].repos,
                          'a repo that a blob was registered for is lost', what_=what)
            # again, after everything works
            net = Net({url: unit['answer']})
            kind, val = goc(fakeds.client(db), url, REPOS[0], net)
            a = ANSWERS[unit['answer']]
            want = {'$type': 'blob', 'ref': cid_of(a.body), 'mimeType': a.type, 'size': len(a.body)}
            ctx.check(kind == 'ok' and val[0] == want, 'after a failed call, the next one does not '
                      'return a working blob', what_=what, first=first, got=f'{kind} {val}')
            if kind == 'ok':
                b = stored(db)[url]
                ctx.check((b.cid, b.size, b.mime, b.meta, b.status) ==
                          (cid_of(a.body), len(a.body), a.type, meta(a.body), None)
                          and REPOS[0] in b.repos, 'wrong stored blob', what_=what,
                          got=str(b.key(t)))
            if not hit:
                break
            n += 1


# --- URLs at the limit of a key's length ---

def long_urls(unit, ctx):
    for n in (1498, 1499, 1500, 1501, 1502, 1600, 3000):
        url = 'http://a.com/' + 'a' * (n - 13)
        db = base()
        DAYS[0] = 0
        net = Net({url: 'text'})
        ctx.state()
        for i in range(2):
            kind, val = goc(fakeds.client(db), url, REPOS[i], net)
            ctx.execution()
            ctx.step()
            ctx.check(kind == 'ok' and val[0]['ref'] == cid_of(b'some text'),
                      'a long URL does not work', length=n, got=f'{kind} {val}')
        ctx.check(net.log == [url], 'a long URL is not fetched once', length=n, got=len(net.log))
        r = Run(ctx, db, Model(), [['long', n]])
        ok, val = r.xrpc('getBlob', did=REPOS[0], cid=cid_of(b'some text'))
        ctx.check(isinstance(val, Redirect) and val.to == url,
                  'getBlob does not redirect to the full URL', length=n, got=repr(val)[:200])
        for d in REPOS:
            ok, val = r.xrpc('listBlobs', did=d)
            ctx.check(ok and val == {'cids': [cid_of(b'some text')]}, 'wrong listBlobs', got=repr(val))
        # another URL with the same beginning
        for m in (1400, 1500):
            if n <= m:
                continue
            other = url[:m] + 'b' * (n - m + 1)
            net = Net({other: 'img2'})
            kind, val = goc(fakeds.client(db.snapshot()), other, REPOS[0], net)
            ctx.check(kind == 'ok' and val[0]['ref'] == cid_of(IMG2),
                      "the blob does not describe its own URL's bytes",
                      sig={'collision': m == 1500},
                      length=n, common=m, got=f'{kind} {val}')


# --- many URLs with the same bytes ---

def many_urls(unit, ctx):
    """getBlob and listBlobs when one of many URLs of the same blob still works."""
    n = unit['n']
    urls = [f'http://many.com/{chr(97 + i * 7 % 26)}{i}' for i in range(n)]
    db = base()
    DAYS[0] = 0
    for u in urls:
        DAYS[0] += .001
        kind, val = goc(fakeds.client(db), u, REPOS[0], Net({u: 'img'}))
        ctx.check(kind == 'ok', 'get_or_create fails', got=repr(val))
    for limit in range(1, n + 2):
        got, cursor, pages = [], {}, 0
        while pages <= n + 1:
            ok, val = Run(ctx, db, Model(), []).xrpc('listBlobs', did=REPOS[0], limit=limit, **cursor)
            ctx.step()
            pages += 1
            if not ctx.check(ok and len(val['cids']) <= limit, 'listBlobs fails', got=repr(val)):
                break
            got += val['cids']
            if not val.get('cursor'):
                break
            cursor = {'cursor': val['cursor']}
        ctx.check(got == [cid_of(IMG)] * n and pages <= n // limit + 1, 'listBlobs does not page through every '
                  'blob once', limit=limit, got=len(got), pages=pages)
    DAYS[0] = 30
    for bad in ('404', '503', 'img2'):
        for good in [None, *range(n)]:
            net = Net({u: 'img' if i == good else bad for i, u in enumerate(urls)})
            r = Run(ctx, db.snapshot(), Model(), [])
            old = webutil.util.session.get
            for again in (False, True):
                webutil.util.session.get = net.get
                try:
                    ok, val = r.xrpc('getBlob', did=REPOS[0], cid=cid_of(IMG))
                finally:
                    webutil.util.session.get = old
                ctx.state()
                ctx.execution()
                where = dict(n=n, bad=bad, good=good, again=again, got=repr(val))
                ctx.outcome([n, bad, good, type(val).__name__])
                if isinstance(val, Redirect) and bad == 'img2' and val.to in net.log:
                    continue  # see ASSUMPTIONS
                if good is None:
                    # after a failed re-check, other than 4xx, a blob may still be used
                    if not again or bad != '503':
                        ctx.check(isinstance(val, ValueError), 'getBlob redirects to a URL that '
                                  'does not work', **where)
                else:
                    ctx.check(isinstance(val, Redirect) and
                              (val.to == urls[good] or again and bad == '503'),
                              'getBlob does not find the blob that works', **where)


def units(tier, seed):
    q = tier == 'quick'
    out = [{'kind': 'long_urls'}] + [{'kind': 'many_urls', 'n': n} for n in (1, 2, 3, 7, 12)]
    m = Model()
    for op in ops(m, tier):
        out.append({'kind': 'histories', 'prefix': [op], 'depth': 2 if q else 3})
    # deeper when there's an old blob
    for a in ('img',) if q else ('img', 'text', 'over header', 'at max'):
        prefix = [['goc', URLS[0], REPOS[0], a, ''], ['tick', 8]]
        for a2 in ('img', 'img2', '503') if q else ALL:
            out.append({'kind': 'histories', 'depth': 2 if q else 3,
                        'prefix': prefix + [['goc', URLS[0], REPOS[0], a2, '']]})
        out.append({'kind': 'histories', 'depth': 2 if q else 3,
                    'prefix': [*prefix[:1], ['goc', URLS[1], REPOS[1], a, ''], prefix[1]]})
    for name, sc in SCENARIOS.items():
        b = sc.get('bounds', (3, None))
        out.append({'kind': 'concurrent', 'scenario': name, 'bound': b[not q]})
    for f in FAULTS:
        for a in 'img', 'img2', 'text':
            out.append({'kind': 'crashes', 'fault': f, 'answer': a})
    return out


def run_unit(unit, ctx):
    ctx.sample(unit)
    fakeds.install()
    globals()[unit['kind']](unit, ctx)


def finalize(total, outcomes, tier):
    if total['states'] < 1000 or len(outcomes) < 50:
        return 'vacuous exploration'
