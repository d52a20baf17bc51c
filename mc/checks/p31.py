"""P31: resolved DIDs and handles are remembered, for a bounded time, and never mixed up."""
import copy
import itertools
import json
import sys
import threading
import time
from unittest import mock

assert 'cachetools' not in sys.modules
_REAL = {'monotonic': time.monotonic, 'time': time.time}
FROZEN = None  # seconds, or None to use the real clock


def _monotonic():
    return _REAL['monotonic']() if FROZEN is None else 5000.0 + FROZEN


def _time():
    return _REAL['time']() if FROZEN is None else 1700000000.0 + FROZEN


# caches capture the clock when they're made
time.monotonic, time.time = _monotonic, _time

import requests

from mc import env, ref
from mc.checks import p25
from arroba import did as did_mod, server as aserver
from mc import hist, xrpc
from mc.hist import World
import webutil.util

time.monotonic, time.time = _REAL['monotonic'], _REAL['time']

ID = 'P31'
LEVEL = 'model_checking'
CHUNK = 1
TECHNIQUE = ('explicit-state exploration of every sequence of lookups, changing answers, failures '
             'and clock steps through the real resolvers and their caches with a controlled clock, '
             'against an exact model of what may be served; and of every interleaving of '
             'concurrent lookups at the points where requests are sent and answered')
RULE = ('every sequence up to the depth bound of lookups of every identifier of the alphabet, each '
        'answered with a new document, refused or failing, and of clock steps from just below to '
        'just above six hours; every interleaving of the request and answer events of up to three '
        'concurrent lookups; every operation of arroba that uses a resolved document, after which '
        'the remembered document must be what was fetched')
ASSUMPTIONS = ['the clock is replaced: time.monotonic and time.time',
               'at exactly six hours both a remembered and a new answer are right',
               'whether a handle that resolved to nothing is looked up again within six hours is not '
               'specified',
               'more than 5000 identifiers within six hours: any may be looked up again']

H = 3600
STEPS = [H, 3 * H, 6 * H - 1, 6 * H + 1]
TTL = 6 * H
PLC = ['did:plc:abc', 'did:plc:Abc', 'did:plc:abcd', 'did:plc:ab']
WEB = ['did:web:abc.com:p', 'did:web:abc.com:P', 'did:web:abc.com', 'did:web:abc.com%3A99']
HANDLES = ['abc.com', 'abcd.com', 'www.abc.com', 'abc.co']
# identifiers that are different, whatever they have in common
CONFUSABLE = {
    'did:plc': ['did:plc:' + x for x in (
        'abc', 'Abc', 'ABC', 'abcd', 'ab', 'abc1', 'abc:1', '1abc', 'abc-', 'abc_', 'abc.', 'a-bc',
        'abcabc', 'cba', 'a%62c', 'web', 'plc')],
    'did:web': ['did:web:' + x for x in (
        'abc.com', 'abc.co', 'www.abc.com', 'abc.com%3A99', 'abc.com%3A9', 'abc.com:99', 'abc.com:p',
        'abc.com:P', 'abc.com:pp', 'abc.com:p:p', 'abc.com:p:P', 'abc.com:p:q', 'abc.com:q:p',
        'abc.com:p%2Fq', 'abc.com%3A99:p', 'abc.com:p_q', 'abc.com:p-q', 'abc.com:p.q', 'bc.com',
        'com.abc', 'abc-com', 'abc.com.abc.com')],
    'handle': ['abc.com', 'abc.co', 'abcd.com', 'www.abc.com', 'a.bc.com', 'ab.c.com', 'a-bc.com',
               'com.abc', 'abc.com.com', 'bc.com', 'abc.com.abc.com', 'abc.org', 'a.b.c.com',
               'abccom.com', 'atproto.abc.com', 'abc1.com'],
}


def unit_clock(fn):
    def run(unit, ctx):
        global FROZEN
        FROZEN = 0
        time.monotonic, time.time = _monotonic, _time
        try:
            return fn(unit, ctx)
        finally:
            FROZEN = None
            time.monotonic, time.time = _REAL['monotonic'], _REAL['time']
    return run


class Net:
    """DNS and HTTP. Every answer is new. Requests are counted per kind and identifier."""
    def __init__(self):
        self.n = 0
        self.mode = 'ok'
        self.dns_mode = 'none'
        self.log = []
        self.last = None

    def new_did(self):
        self.n += 1
        self.last = f'did:plc:answer{self.n}'
        return self.last

    def dns(self, name, rdtype='A', *args, **kw):
        self.log.append(('dns', str(name)))
        w = p25.World()
        if self.dns_mode == 'did' and self.mode == 'ok':
            w.dns = [['did=' + self.new_did()]]
        return w.resolve(name, rdtype)

    def get(self, url, *args, **kw):
        self.log.append(('http', url))
        if self.mode == 'raise':
            raise requests.ConnectionError('nope')
        r = requests.Response()
        r.url = url
        r.headers['Content-Type'] = 'text/plain; charset=utf-8'
        if self.mode == 'refuse':
            r.status_code, r._content = 503, b'{}'
        elif url.endswith('/.well-known/atproto-did'):
            r.status_code, r._content = 200, self.new_did().encode()
        else:
            self.n += 1
            self.last = {'id': url, 'n': self.n, 'alsoKnownAs': [f'at://h{self.n}.com', 'at://x.y'],
                         'deep': [{'a': [self.n]}]}
            r.status_code, r._content = 200, json.dumps(self.last).encode()
            self.last = copy.deepcopy(self.last)
        return r


def lookup(net, q, fn=None):
    if fn is None:
        fn = did_mod.resolve if q.startswith('did:') else did_mod.resolve_handle
    try:
        return ('ok', fn(q, get_fn=net.get))
    except Exception as e:
        return ('raise', e)


def fresh(step=TTL * 10):
    """Forgets everything, by waiting."""
    global FROZEN
    FROZEN += step


def units(tier, seed):
    q = tier == 'quick'
    out = []
    n = len(alphabet(0))
    for a, b in itertools.product(range(n), repeat=2):
        for which in range(4):
            out.append({'kind': 'histories', 'which': which, 'first': [a, b],
                        'depth': 5 if q else 6})
    for which in range(4):
        out.append({'kind': 'boundary', 'which': which})
    for n in (2, 3) if q else (2, 3, 4):
        for same in range(3):
            for kind in 'did:plc', 'did:web', 'handle':
                out.append({'kind': 'concurrent', 'n': n, 'same': same, 'resolver': kind})
    out += [{'kind': 'confusable', 'resolver': r, 'len': 2 if q else 3} for r in CONFUSABLE]
    out += [{'kind': 'many', 'resolver': r} for r in ('did:plc', 'did:web', 'handle')]
    out += [{'kind': 'uses', 'method': m} for m in USES]
    return out


def run_unit(unit, ctx):
    ctx.sample(unit)
    unit_clock(globals()[unit['kind']])(unit, ctx)


# --- histories ---

def idents(which):
    return [PLC, WEB, HANDLES, ['did:plc:abc', 'did:web:abc.com', 'abc.com']][which]


def alphabet(which):
    out = [('look', q, mode) for q in range(3) for mode in ('ok', 'raise', 'refuse')]
    return out + [('wait', s) for s in STEPS]


def histories(unit, ctx):
    ops = alphabet(unit['which'])
    names = idents(unit['which'])
    for dns_mode in (('none', 'did') if unit['which'] >= 2 else ('none',)):
        for n in range(unit['depth'] - 1):
            for rest in itertools.product(range(len(ops)), repeat=n):
                seq = [ops[i] for i in (*unit['first'], *rest)]
                if seq[-1][0] == 'wait':
                    continue  # shows nothing new
                run_history(seq, names, dns_mode, ctx)


def run_history(seq, names, dns_mode, ctx):
    global FROZEN
    fresh()
    net = Net()
    net.dns_mode = dns_mode
    known = {}  # identifier => (answer, when)
    ctx.execution()
    with mock.patch('dns.resolver.resolve', net.dns):
        for i, op in enumerate(seq):
            ctx.step()
            if op[0] == 'wait':
                FROZEN += op[1]
                continue
            q = names[op[1]]
            net.mode = op[2]
            net.log, net.last = [], None
            got = lookup(net, q)
            step(ctx, net, q, got, known, seq[:i + 1])


def step(ctx, net, q, got, known, history):
    """Checks one lookup against the model and updates it."""
    answer, when = known.get(q, (None, None))
    age = None if when is None else FROZEN - when
    info = dict(identifier=q, got=str(got), age=age, history=str(history))
    if net.log:
        ctx.count('fetched')
        ctx.check(answer is None or age >= TTL, 'an identifier that was resolved less than six '
                  'hours ago is looked up again', **info)
        known.pop(q, None)
        if net.last is not None:
            ctx.check(got == ('ok', net.last), 'a lookup returns something other than the answer',
                      want=str(net.last), **info)
            known[q] = (copy.deepcopy(net.last), FROZEN)
        elif q.startswith('did:'):
            ctx.check(got[0] == 'raise', "a lookup that failed doesn't fail", **info)
        else:
            ctx.check(got == ('ok', None), 'a handle that nobody answers for resolves', **info)
            known[q] = (None, FROZEN)
    else:
        ctx.count('remembered')
        if not ctx.check(when is not None, "an answer that was never given is served, or none was "
                         'asked for', **info):
            return
        ctx.check(age <= TTL, 'an answer that is more than six hours old is served', **info)
        ctx.check(got == ('ok', answer), 'a remembered answer is not the one that was given',
                  want=str(answer), **info)
    ctx.state()
    if ctx.counts['states'] % 64 == 1:
        ctx.outcome([q, str(age), bool(net.log), got[0]])


def boundary(unit, ctx):
    """Every number of hits in between, and times around the limit."""
    global FROZEN
    names = idents(unit['which'])
    for eps in (-60, -1, -0.001, 0.001, 1, 60, H, 24 * H, 365 * 24 * H):
        for hits in range(4):
            for dns_mode in (('none', 'did') if unit['which'] >= 2 else ('none',)):
                for others in range(3):
                    fresh()
                    net = Net()
                    net.dns_mode = dns_mode
                    known = {}
                    ctx.execution()
                    start = FROZEN
                    with mock.patch('dns.resolver.resolve', net.dns):
                        for i in range(hits + 2):
                            if i == hits + 1:
                                FROZEN = start + TTL + eps
                            else:
                                FROZEN = start + TTL * i / (hits + 1)
                            for q in names[:1] + (names[1:1 + others] if i else []):
                                net.log, net.last = [], None
                                ctx.step()
                                got = lookup(net, q)
                                step(ctx, net, q, got, known, [eps, hits, others, i])


# --- identifiers that look alike ---

def confusable(unit, ctx):
    """Every sequence of lookups of different identifiers; then all again."""
    names = CONFUSABLE[unit['resolver']]
    if unit['len'] == 3:
        names = names[:18]
    for dns_mode in ('none', 'did') if unit['resolver'] == 'handle' else ('none',):
        for seq in [*itertools.permutations(names, unit['len']), names, names[::-1]]:
            fresh()
            net = Net()
            net.dns_mode = dns_mode
            known = {}
            ctx.execution()
            with mock.patch('dns.resolver.resolve', net.dns):
                for i, name in enumerate([*seq, *seq]):
                    net.log, net.last = [], None
                    ctx.step()
                    step(ctx, net, name, lookup(net, name), known, [*seq, i])
                    if i < len(seq):
                        ctx.check(net.log, "an identifier that wasn't looked up before is served "
                                  'from memory', identifier=name, history=str(seq))


# --- many identifiers ---

def ident(resolver, i):
    return {'did:plc': f'did:plc:{i:x}a', 'did:web': f'did:web:h{i}.com',
            'handle': f'h{i}.com'}[resolver]


def many(unit, ctx):
    """Thousands of identifiers within six hours."""
    global FROZEN
    fresh()
    net = Net()
    known = {}
    ctx.execution()
    r = unit['resolver']
    with mock.patch('dns.resolver.resolve', net.dns):
        for rnd in range(2):
            for i in range(4900):
                net.log, net.last = [], None
                ctx.step()
                step(ctx, net, ident(r, i), lookup(net, ident(r, i)), known, [rnd, i])
        # over the limit: anything may be forgotten, but nothing may be mixed up
        for i in itertools.chain(range(12000), range(0, 12000, 7)):
            net.log, net.last = [], None
            ctx.step()
            got = lookup(net, ident(r, i))
            if net.log:
                known.pop(ident(r, i), None)
            step(ctx, net, ident(r, i), got, known, ['over', i])
        FROZEN += TTL + 1
        for i in range(11900, 12000):
            net.log, net.last = [], None
            step(ctx, net, ident(r, i), lookup(net, ident(r, i)), known, ['late', i])


# --- concurrency ---

class Gate(Net):
    """Holds every request back until it's told to go on."""
    def __init__(self):
        super().__init__()
        self.arrived = {}
        self.go = {}
        self.answers = {}
        self.lock = threading.Lock()
        self.tls = threading.local()

    def gate(self, url):
        me = self.tls.me
        self.arrived[me].set()
        self.go[me].wait(20)

    def get(self, url, *args, **kw):
        self.gate(url)
        with self.lock:
            r = super().get(url, *args, **kw)
            self.answers[self.tls.me] = self.last
        return r


def concurrent(unit, ctx):
    """Every interleaving of starting and answering lookups.

    An implementation may make a lookup wait for another one; then it's started, but its
    request doesn't arrive, and it's let go once the others have ended.
    """
    n = unit['n']
    base = {'did:plc': PLC, 'did:web': WEB, 'handle': HANDLES}[unit['resolver']]
    # 0: all the same, 1: all different, 2: the first two the same
    names = [base[0]] * n if unit['same'] == 0 else base[:n] if unit['same'] == 1 \
        else ([base[0]] * 2 + base[1:])[:n]
    events = sorted(['s%d' % i for i in range(n)] + ['e%d' % i for i in range(n)])
    for order in itertools.permutations(events):
        if any(order.index(f's{i}') > order.index(f'e{i}') for i in range(n)):
            continue
        for modes in itertools.product(('ok', 'raise'), repeat=n):
            one_concurrent(names, order, modes, ctx)


def one_concurrent(names, order, modes, ctx):
    fresh()
    net = Gate()
    n = len(names)
    results = {}
    threads = []
    ctx.execution()
    ctx.state()

    def run(i):
        net.tls.me = i
        results[i] = lookup(net, names[i])

    for i in range(n):
        net.arrived[i], net.go[i] = threading.Event(), threading.Event()
        threads.append(threading.Thread(target=run, args=(i,), daemon=True))
    started, ended, waiting = set(), set(), set()

    def settle(i):
        """Waits until i sends its request, ends, or seems to wait for another one."""
        for _ in range(400):
            if net.arrived[i].wait(.0005) or not threads[i].is_alive():
                waiting.discard(i)
                return
            if len(started - ended) > 1 and _ > 100:
                break
        waiting.add(i)

    def end(i):
        net.mode = modes[i]
        net.go[i].set()
        threads[i].join(2 if i in waiting else 20)

    with mock.patch('dns.resolver.resolve', net.dns):
        for ev in order:
            ctx.step()
            i = int(ev[1:])
            if ev[0] == 's':
                started.add(i)
                threads[i].start()
                settle(i)
            elif i in waiting and threads[i].is_alive() and not net.arrived[i].is_set():
                net.go[i].set()  # later
            else:
                end(i)
                ended.add(i)
        for i in range(n):
            net.go[i].set()
        for t in threads:
            t.join(20)
        stuck = [i for i in range(n) if threads[i].is_alive()]
        info = dict(names=names, order=order, modes=modes,
                    results=str(results), answers=str(net.answers))
        if not ctx.check(not stuck, 'concurrent lookups never end', **info):
            return
        for i in range(n):
            kind, val = results[i]
            # some answer that was given for this identifier in this execution
            ok = [a for j, a in net.answers.items() if names[j] == names[i] and a is not None]
            if kind == 'ok' and val is not None:
                ctx.check(val in ok, 'a concurrent lookup returns an answer for something else',
                          lookup=i, **info)
            elif kind == 'raise':
                ctx.check(isinstance(val, requests.RequestException),
                          'a concurrent lookup fails in an unexpected way', lookup=i, **info)
            # the first one to end is the one that's remembered
            nothing = names[i] in HANDLES and any(m != 'ok' and names[j] == names[i]
                                                  for j, m in enumerate(modes))
            if modes[i] == 'ok' and i in net.answers and not nothing:
                ctx.check(kind == 'ok' and val is not None,
                          'a concurrent lookup that was answered fails', lookup=i, **info)
        # afterward, with the same fetcher
        before = dict(net.answers)
        net.tls.me = n
        net.arrived[n], net.go[n] = threading.Event(), threading.Event()
        net.go[n].set()
        net.mode = 'ok'
        for name in dict.fromkeys(names):
            net.log, net.answers = [], {}
            got = lookup(net, name)
            ok = [a for j, a in before.items() if names[j] == name and a is not None]
            if net.log:
                ctx.check(not ok or any(m != 'ok' for m in modes),
                          'an identifier that was resolved less than six hours ago is looked '
                          'up again', identifier=name, **info)
                ok = [net.answers.get(n)]
            if name in HANDLES and got == ('ok', None):
                continue  # resolved to nothing before
            ctx.check(got[0] == 'ok' and got[1] in ok, 'after concurrent lookups, an '
                      'identifier has an answer that was given for something else, or none',
                      identifier=name, got=str(got), **info)


# --- uses of resolved documents ---

USES = ['describeRepo', 'describeRepo twice', 'get_handle', 'get_signing_key', 'importRepo',
        'resolve']


def uses(unit, ctx):
    """What arroba does with a document doesn't change the remembered one."""
    from arroba.xrpc_repo import import_repo  # noqa
    for backend in 'memory', 'datastore':
        fresh()
        ctx.execution()
        docs = {}

        def get(url, *args, **kw):
            host = url.removeprefix('https://').split('/')[0]
            ctx.count('fetched')
            doc = {'id': f'did:web:{host}', 'n': ctx.counts['fetched'],
                   'alsoKnownAs': ['https://x', 'at://han.a', 'at://han.b'],
                   'verificationMethod': [
                       {'id': f'did:web:{host}#other', 'publicKeyMultibase': 'zzz'},
                       {'id': f'did:web:{host}#atproto',
                        'publicKeyMultibase': did_mod.encode_did_key(
                            env.KEYS[0].public_key()).removeprefix('did:key:')}]}
            docs.setdefault(doc['id'], []).append(copy.deepcopy(doc))
            return xrpc.Resp(json=doc, url=url)

        w = World(ref.keys_for([0, 1], ctx.seed), backend)
        w.step(['create', 0])
        with mock.patch.object(webutil.util.session, 'get', get):
            getter = webutil.util.session.get
            target = hist.DIDS[0]
            m = unit['method']
            if m == 'importRepo':
                src = World(ref.keys_for([0, 1], ctx.seed), 'memory')
                src.step(['create', 1])
                ok, car = xrpc.call(src, 'com.atproto.sync.getRepo', did=hist.DIDS[1])
                assert ok, car
                target = hist.DIDS[1]
            want = did_mod.resolve(target, get_fn=getter)
            want = copy.deepcopy(want)
            for _ in range(2):
                ctx.step()
                if m.startswith('describeRepo'):
                    ok, out = xrpc.call(w, 'com.atproto.repo.describeRepo', {}, repo=target)
                    ctx.check(ok and out['didDoc'] == want, 'describeRepo returns a document '
                              'other than the resolved one', got=str(out), want=want)
                elif m == 'get_handle':
                    did_mod.get_handle(did_mod.resolve(target, get_fn=getter))
                elif m == 'get_signing_key':
                    did_mod.get_signing_key(did_mod.resolve(target, get_fn=getter))
                elif m == 'importRepo':
                    xrpc.call(w, 'com.atproto.repo.importRepo', car)
                else:
                    did_mod.resolve(target, get_fn=getter)
                got = did_mod.resolve(target, get_fn=getter)
                ctx.check(got == want and len(docs[target]) == 1, 'using a resolved document '
                          'changes the remembered one, or looks it up again', method=m,
                          got=got, want=want, lookups=len(docs[target]))
            global FROZEN
            FROZEN += TTL + 1
            if m.startswith('describeRepo'):
                ok, out = xrpc.call(w, 'com.atproto.repo.describeRepo', {}, repo=target)
                ctx.check(ok and len(docs[target]) == 2 and out['didDoc'] == docs[target][1],
                          'describeRepo returns a document that is more than six hours old',
                          got=str(out), docs=docs[target])
            ctx.state()


def finalize(total, outcomes, tier):
    if not total['fetched'] or not total['remembered']:
        return 'vacuous: nothing was fetched or remembered'
