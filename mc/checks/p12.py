"""P12: sequence numbers."""
import copy
import threading

import google.api_core.exceptions as gexc
from google.cloud import ndb

from mc import env, fakecache, fakeds, sched
import arroba.storage
from arroba import datastore_storage
from arroba.datastore_storage import DatastoreSequences, MemcacheSequences
from arroba.storage import MemorySequences

ID = 'P12'
LEVEL = 'model_checking'
CHUNK = 1
TECHNIQUE = ('stateless exploration of all interleavings of real allocators under a controlled '
             'scheduler, with crashes, failures, restarts and cache evictions as further choices')
RULE = ('every schedule of two to three allocators, up to the stated number of preemptions, in the '
        'same and in different simulated processes, with scheduling points at every source line '
        '(in memory) or every lock, cache request and database request (Datastore, memcache); '
        'with at most one crash, transient failure before or after taking effect, or retry of a '
        'transaction, at every request; with up to two cache evictions at every point; with '
        'restarted processes and other namespaces; over small batch sizes')
ASSUMPTIONS = ['cache and database requests are atomic',
               'fewer allocations than the memcache buffer are in progress at once',
               'a cache loses numbers by evicting them, and never goes back to an older value']

fakeds.install()
NS = 'com.atproto.sync.subscribeRepos'
FAULTS = ('now-unavailable', 'after-unavailable', 'now-aborted', 'crash', 'after-crash')


# name => kind, tasks: process => list of threads' actions. a: allocate, l: last,
# b: allocate in another namespace, A: allocate, in a restarted process, from then on
# (quick, thorough) preemption bounds; None is unlimited, 'no' isn't run
SCENARIOS = {
    'mem 2': dict(kind='memory', procs=[['aa', 'aa']], bounds=(3, 5)),
    'mem 3': dict(kind='memory', procs=[['a', 'a', 'a']], bounds=(2, 4)),
    'mem last': dict(kind='memory', procs=[['aa', 'al', 'l']], bounds=(2, 4)),
    'mem names': dict(kind='memory', procs=[['ab', 'ba']], bounds=(3, 5)),
    'ds 2': dict(kind='ds', procs=[['aa'], ['aa']], bounds=(2, 4)),
    'ds threads': dict(kind='ds', procs=[['aa', 'aa']], bounds=(2, 3)),
    'ds 3': dict(kind='ds', procs=[['a'], ['a'], ['a']], bounds=(2, 3)),
    'ds old': dict(kind='ds', procs=[['a'], ['a']], start=7, bounds=(None, None)),
    'ds last': dict(kind='ds', procs=[['al'], ['la']], bounds=(2, 4)),
    'ds names': dict(kind='ds', procs=[['ab'], ['ba']], bounds=(1, 3)),
    'ds faults': dict(kind='ds', procs=[['aa'], ['a']], faults=True, bounds=(1, 2)),
    'ds restart': dict(kind='ds', procs=[['aAa'], ['a']], faults=True, bounds=(0, 1)),
    'mc 1': dict(kind='mc', procs=[['aaaaaaaaaaaa']], evict=1, bounds=(1, 1)),
    'mc 1 twice': dict(kind='mc', procs=[['aaaaaaa']], evict=2, bounds=(2, 2)),
    'mc restart': dict(kind='mc', procs=[['aaAaaAaa']], evict=1, bounds=(1, 1)),
    'mc 2': dict(kind='mc', procs=[['aaa'], ['aaa']], bounds=(2, 3)),
    'mc 2 evict': dict(kind='mc', procs=[['aa'], ['aa']], evict=1, bounds=(2, 3)),
    'mc 2 twice': dict(kind='mc', procs=[['aa'], ['aa']], evict=2, bounds=(2, 3)),
    'mc threads': dict(kind='mc', procs=[['aa', 'aa']], bounds=(2, 3)),
    'mc threads evict': dict(kind='mc', procs=[['aa', 'aa']], evict=1, bounds=(2, 3)),
    'mc 3 evict': dict(kind='mc', procs=[['a', 'a'], ['a']], evict=1, bounds=(1, 2)),
    'mc old': dict(kind='mc', procs=[['aa'], ['aa']], start=7, evict=1, bounds=(2, 3)),
    'mc end of batch': dict(kind='mc', procs=[['aa'], ['aa']], start=7, at=3, bounds=(2, 3)),
    'mc end of batch evict': dict(kind='mc', procs=[['aa'], ['a']], start=7, at=3, evict=1,
                                  bounds=(2, 3)),
    'mc last': dict(kind='mc', procs=[['al'], ['la']], evict=1, bounds=(1, 2)),
    'mc names': dict(kind='mc', procs=[['ab'], ['ba']], evict=1, bounds=(1, 2)),
    'mc faults': dict(kind='mc', procs=[['aaa'], ['a']], faults=True, bounds=(1, 2)),
    'mc faults evict': dict(kind='mc', procs=[['aa']], faults=True, evict=1, bounds=(1, 1)),
    'mc restart faults': dict(kind='mc', procs=[['aaAaa']], faults=True, evict=1, bounds=(1, 1)),
}
BATCH, BUFFER = 6, 4


def units(tier, seed):
    out = []
    for name, sc in SCENARIOS.items():
        bound = sc['bounds'][tier != 'quick']
        if bound == 'no':
            continue
        if sc.get('faults'):
            # shards over which task and request has the fault
            for p in range(len(sc['procs'])):
                out += [{'scenario': name, 'bound': bound, 'fault': [p, f]} for f in FAULTS]
        else:
            out.append({'scenario': name, 'bound': bound})
    return out


def own_state(cls):
    """A simulated process's copy of a class, with its own class level state."""
    attrs = {}
    for k, v in vars(cls).items():
        if isinstance(v, (dict, list, set)) and not k.startswith('__'):
            attrs[k] = type(v)()
        elif isinstance(v, type(threading.Lock())):
            attrs[k] = sched.Lock()
        elif isinstance(v, type(threading.RLock())):
            attrs[k] = sched.RLock()
    return type(cls.__name__, (cls,), attrs)


class World:
    def __init__(self, sc, fault):
        self.sc, self.fault = sc, fault
        self.db = fakeds.DB()
        self.server = fakecache.Server()
        self.n = 0
        self.events = []     # (start, end, nsid, number)
        self.lasts = []      # (start, end, nsid, number)
        self.requests = 0
        self.fired = False
        self.errors = []
        self.mem = MemorySequences()
        if sc.get('start'):
            # numbers below this are taken
            with self.plain().context():
                datastore_storage.AtpSequence(id=NS, next=sc['start']).put()
            if sc.get('at'):
                self.server.data[f'{NS}-last-seq'.encode()] = (str(sc['at']).encode(), None)

    def plain(self):
        return fakeds.client(self.db)

    def tick(self):
        self.n += 1
        return self.n

    def process(self, p):
        """(Re)starts process p. Returns its sequences."""
        if self.sc['kind'] == 'memory':
            return self.mem
        alive = [True]

        def todo(method):
            if not alive[0]:
                raise fakeds.Crash('process is dead')
            if not self.fault or self.fault[0] != p or self.fired:
                return None
            self.requests += 1
            if self.requests != self.fault[2]:
                return None
            self.fired = True
            if 'crash' in self.fault[1]:
                alive[0] = False
            return self.fault[1]

        def ds_hook(stub, method, req):
            sched.point(f'db {method}')
            f = todo(method)
            if f == 'crash':
                return ('crash',)
            if f == 'after-crash':
                return ('crash_after',)
            if f:
                exc = gexc.Aborted('x') if 'aborted' in f else gexc.ServiceUnavailable('x')
                return ('fail_after' if f.startswith('after') else 'fail', exc)

        def cache_hook(method, key):
            sched.point(f'cache {method}')
            f = todo(method)
            if f == 'crash':
                raise fakeds.Crash()
            if f == 'after-crash':
                return ('after', fakeds.Crash())
            if f:
                exc = ConnectionError('x')
                return ('after', exc) if f.startswith('after') else exc

        client = fakeds.client(self.db, hook=ds_hook)
        if self.sc['kind'] == 'ds':
            return DatastoreSequences(ndb_client=client)
        return own_state(MemcacheSequences)(ndb_client=client,
                                            memcache=fakecache.Cache(self.server, cache_hook))

    def thread(self, p, seqs, actions):
        def go():
            s = seqs
            for a in actions:
                if a == 'A':
                    s = self.process(p)
                    continue
                ns = 'other.ns' if a == 'b' else NS
                start = self.tick()
                try:
                    if a == 'l':
                        n = s.last(ns)
                        self.lasts.append((start, self.tick(), ns, n))
                    else:
                        n = s.allocate(ns)
                        self.events.append((start, self.tick(), ns, n))
                except fakeds.Crash:
                    # goes on as a restarted process
                    s = self.process(p)
                except sched.Kill:
                    raise
                except Exception as e:
                    self.errors.append(e)
                    if not self.fired and not self.sc.get('evict'):
                        raise
        return go

    def evictor(self):
        for _ in range(self.sc['evict']):
            sched.point('evict')
            self.server.evict()


def run_unit(unit, ctx):
    ctx.sample(unit)
    sc = SCENARIOS[unit['scenario']]
    files = [arroba.storage.__file__] if sc['kind'] == 'memory' else ()
    undo = sched.shim(arroba.storage)
    datastore_storage.MEMCACHE_SEQUENCE_BATCH = BATCH
    datastore_storage.MEMCACHE_SEQUENCE_BUFFER = BUFFER

    def explore(fault):
        fired = [False]

        def run(choices):
            w = World(sc, fault)
            s = sched.Sched(choices, trace_files=files)
            for p, threads in enumerate(sc['procs']):
                seqs = w.process(p)
                for t, actions in enumerate(threads):
                    s.spawn(f'{p}.{t}', w.thread(p, seqs, actions))
            if sc.get('evict'):
                s.spawn('evictor', w.evictor)
            s.run()
            fired[0] = fired[0] or w.fired
            check(ctx, s, w, sc, {**unit, 'choices': list(s.taken), 'fault': fault})
            s.kill()
            return s
        sched.explore(ctx, run, unit['bound'])
        return fired[0]

    try:
        if not unit.get('fault'):
            explore(None)
        else:
            n = 1
            while explore(unit['fault'] + [n]) and not ctx.expired():
                n += 1
            ctx.count('fault_positions', n - 1)
    finally:
        undo()


def check(ctx, s, w, sc, what):
    ctx.check(not s.truncated and not s.blocked, 'an allocation never ends', what_=what,
              blocked=s.blocked)
    for t in s.tasks:
        ctx.check(t.error is None, f'an allocation fails: {type(t.error).__name__}', what_=what,
                  error=repr(t.error))
    lasts = [x for x in w.lasts if x[3] is not None]
    hist = {'allocated': w.events, 'last': w.lasts, 'what_': what,
            'cache': w.server.history}
    ctx.outcome([what['scenario'], w.events, w.lasts])
    # a counter was initialized to less than an earlier one
    values = [v for k, v in w.server.adds if k.startswith(NS.encode())]
    sig = {'stale': any(b < a for a, b in zip(values, values[1:]))}
    for i, (start, end, ns, n) in enumerate(w.events):
        first = sc.get('at', sc.get('start', 1) - 1) if ns == NS else 0
        if not ctx.check(isinstance(n, int) and n > first,
                         'a number that was taken before is given again', **hist):
            return
        for start2, end2, ns2, n2 in w.events[:i]:
            if ns2 != ns:
                continue
            ctx.check(n2 != n, 'a number is given twice', sig, **hist)
            if end2 < start:
                ctx.check(n2 < n, 'a number is not larger than one that was given before', sig,
                          **hist)
        for start2, end2, ns2, n2 in lasts:
            if ns2 == ns and end < start2:
                ctx.check(n2 >= n, 'last is smaller than a number that was given before', sig,
                          **hist)
    if sc['kind'] != 'mc' and not what['fault']:
        for ns in {e[2] for e in w.events}:
            got = sorted(e[3] for e in w.events if e[2] == ns)
            first = sc.get('start', 1) if ns == NS else 1
            ctx.check(got == list(range(first, first + len(got))),
                      'numbers have gaps without a failure', **hist)


def finalize(total, outcomes, tier):
    if total['fault_positions'] < 30 or len(outcomes) < 50:
        return 'vacuous exploration'
