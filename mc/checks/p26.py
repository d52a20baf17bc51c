"""P26: memcache leases."""
import datetime
import itertools

from mc import env, fakecache, sched
import webutil.util
from arroba import memcache

ID = 'P26'
LEVEL = 'model_checking'
CHUNK = 1
TECHNIQUE = ('stateless exploration of all interleavings of real lease holders and of the passing '
             'of time under a controlled scheduler, on a model of memcached')
RULE = ('every schedule, up to the stated number of preemptions, of two to three holders that '
        'take, hold and release leases, with scheduling points at every cache request, clock '
        'reading and sleep, and every placement of a clock task that lets less than, almost, and '
        'more than the expiration pass; with leases that are never released, expirations below '
        'and between whole seconds, several names, retries, and one failing cache request at '
        'every position')
ASSUMPTIONS = ['cache requests are atomic, and clocks agree with the cache server\'s',
               'the cache does not evict leases']
T0 = datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc)

# tasks: name of the lease, and what's done with it. r: release, c: as context manager,
# e: as context manager, with an exception, x: never release it
# then (expiration, retries, delay), and the clock's advances
SCENARIOS = []
for actions in itertools.product(['r', 'c', 'x', 'e'], repeat=2):
    for exp in (30, 0.5, 1.5):
        for adv in ([exp * .6, exp * .6], [exp + 1.5], [exp * .6, exp + 1.5]):
            SCENARIOS.append(dict(tasks=[('k', actions[0]), ('k', actions[1])], exp=exp,
                                  retries=1, delay=exp * .7, adv=adv, bounds=(3, None)))
for actions in itertools.product(['r', 'x'], repeat=3):
    SCENARIOS.append(dict(tasks=[('k', a) for a in actions], exp=2, retries=1, delay=1.5,
                          adv=[1.5, 3], bounds=(3, 4)))
for names in (['k', 'kk'], ['k', 'K'], ['k/1', 'k/2'], ['k', 'k2', 'k']):
    for actions in itertools.product(['r', 'x'], repeat=2):
        SCENARIOS.append(dict(tasks=[(n, actions[i % 2]) for i, n in enumerate(names)], exp=5,
                              retries=0, delay=1, adv=[6], bounds=(3, 4)))
# names that someone may want to normalize. memcache refuses some of them
for names in (['k k', 'k_k'], ['k k', 'k%20k'], ['k ', 'k'], ['k:1', 'k_1'], ['k/1', 'k_1'],
              ['k-1', 'k_1'], ['k.1', 'k_1'], ['k1', 'k_1'], ['k\u00e9', 'ke'], ['k\u00e9', 'k'],
              ['k\u00e9', 'k?'], ['k\n', 'k'], ['a' * 249 + 'x', 'a' * 249 + 'y'],
              ['a' * 250 + 'x', 'a' * 250 + 'y'], ['a' * 250, 'a' * 251],
              ['x' + 'a' * 249, 'y' + 'a' * 249], ['did:plc:x', 'did:plc:X'], ['did:plc:x', 'x'],
              ['1', '01'], ['0', '-0'], ['a', 'locked'], ['k', 'k\x00'], ['https://k/', 'https://k']):
    for actions in ('rr', 'xx'):
        SCENARIOS.append(dict(tasks=[(n, a) for n, a in zip(names, actions)], exp=5, retries=0,
                              delay=1, adv=[], bounds=(1, 3)))
# the same task again and again
SCENARIOS += [dict(tasks=[('k', 'rr'), ('k', 'rr')], exp=2, retries=1, delay=1, adv=adv,
                   bounds=(3, 4)) for adv in ([], [1.2], [3], [1.2, 1.2])]
SCENARIOS += [dict(tasks=[('k', 'xr'), ('k', 'cr')], exp=2, retries=r, delay=1, adv=[3],
                   bounds=(2, 3)) for r in (0, 2, 4)]
for fault in ('fail', 'after'):
    for actions in itertools.product(['r', 'c'], repeat=2):
        SCENARIOS.append(dict(tasks=[('k', actions[0]), ('k', actions[1])], exp=5, retries=2,
                              delay=4, adv=[6], bounds=(2, 3), fault=fault))


def units(tier, seed):
    return [{'scenario': i, 'bound': sc['bounds'][tier != 'quick'],
             **{k: v for k, v in sc.items() if k != 'bounds'}}
            for i, sc in enumerate(SCENARIOS)]


class World:
    def __init__(self, unit, fault_at):
        self.unit, self.fault_at = unit, fault_at
        self.t = 0.0
        self.server = fakecache.Server(lambda: self.t)
        self.cache = fakecache.Cache(self.server, self.hook)
        self.requests = 0
        self.fired = False
        self.held = {}      # lease => (task, name)
        self.bad = []
        self.exempt = False
        self.sending = {}   # task => lease that it's releasing
        self.was_valid = {}  # task => whether it had the lease when it last looked
        self.last = None    # task that sent the last request
        self.log = []
        self.keys = {}      # task => key of its last add

    def hook(self, method, key):
        self.point(f'cache {method}')
        me = sched.current()
        self.log.append((me.name, method, round(self.t, 3)))
        self.last = me
        if method == 'add':
            self.keys[me] = key
        self.requests += 1
        if self.fault_at == self.requests:
            self.fired = True
            exc = ConnectionError('x')
            return exc if self.unit['fault'] == 'fail' else ('after', exc)

    def point(self, label):
        self.verify()
        sched.point(label)

    def verify(self):
        """Checks that the leases that are held are still in the cache."""
        for lease, (task, name, entry, key) in list(self.held.items()):
            if self.now_raw() < lease.expires_at and (
                    self.server.live(key) is not entry):
                del self.held[lease]
                if self.was_valid.get(self.last):
                    # see known findings
                    self.exempt = True
                    self.bad.append(('a lease that another holds is released by a request that '
                                     'was sent before and arrived after its own expired',
                                     'delayed delete'))
                else:
                    self.bad.append(('a lease that another holds is released', 'released'))

    def now_raw(self):
        return T0 + datetime.timedelta(seconds=self.t)

    def now(self):
        self.point('now')
        self.t = round(self.t + 1e-3, 3)      # time always passes
        n = self.now_raw()
        lease = self.sending.get(sched.current())
        if lease:
            self.was_valid[sched.current()] = n <= lease.expires_at
        return n

    def sleep(self, secs):
        until = self.t + secs
        self.point('sleep')
        self.t = max(self.t, until)

    def clock(self):
        for dt in self.unit['adv']:
            self.point('clock')
            self.t += dt

    def others(self, lease, name):
        """Leases of this name that others hold."""
        n = self.now_raw()
        return [x for x, (_, nm, _, _) in self.held.items()
                if x is not lease and nm == name and n < x.expires_at]

    def task(self, ctx, name, actions):
        def go():
            for a in actions:
                self.one(name, a)
        return go

    def one(self, name, action):
        u = self.unit
        lease = memcache.Lease(self.cache, name, retries=u['retries'],
                               expiration=datetime.timedelta(seconds=u['exp']),
                               initial_retry_delay=datetime.timedelta(seconds=u['delay']))
        me = sched.current()
        start = self.now_raw()
        before = len(self.server.history)
        entry = [None]

        def got():
            end = self.now_raw()
            exp = datetime.timedelta(seconds=u['exp'])
            if not lease.expires_at or not (start + exp <= lease.expires_at <= end + exp):
                self.bad.append(("expires_at isn't the expiration after the time it was taken",
                                 'expires_at'))
            elif not self.exempt and self.others(lease, name):
                self.bad.append(('two hold the same lease', 'two holders'))
            if not self.keys.get(me):
                self.bad.append(('a lease is taken without asking the cache', 'not asked'))
                return
            entry[0] = self.server.live(self.keys[me])
            self.held[lease] = (me, name, entry[0], self.keys[me])
            self.verify()
            self.log.append((me.name, 'holds', round(self.t, 3)))
            self.point('holding')

        def letting_go():
            self.held.pop(lease, None)
            self.sending[me] = lease
            self.was_valid[me] = None

        n = sum(1 for _ in self.log)
        try:
            if action in 'ce':
                class Err(Exception):
                    pass
                try:
                    with lease as l:
                        if l is not lease:
                            self.bad.append(('with does not give the lease', 'with'))
                        got()
                        try:
                            if action == 'e':
                                raise Err()
                        finally:
                            letting_go()
                    if action == 'e':
                        self.bad.append(('an exception is swallowed', 'swallowed'))
                except Err:
                    pass
            else:
                lease.acquire()
                got()
                if action == 'r':
                    letting_go()
                    lease.release()
        except RuntimeError:
            mine = [e for e in self.log[n:] if e[0] == me.name and e[1] == 'add']
            if len(mine) != u['retries'] + 1:
                self.bad.append((f'gave up after {len(mine)} attempts instead of '
                                 f'{u["retries"] + 1}', 'attempts'))
            if lease.expires_at:
                self.bad.append(('a lease that was not taken has an expiration', 'not taken'))
            self.log.append((me.name, 'refused', round(self.t, 3)))
            if not any(h[0] == 'add' and not h[2] for h in self.server.history[before:]):
                self.bad.append(('refused although it was free', 'refused'))
            elif all(n != name for i, (n, _) in enumerate(u['tasks']) if str(i) != me.name):
                self.bad.append(('refused although only other leases were taken', 'other name'))
            return
        except ValueError:
            # memcache doesn't allow this name, so nobody can hold this lease
            if fakecache.legal(name):
                raise
            return
        except ConnectionError:
            if not self.fired:
                raise
            self.held.pop(lease, None)
            return
        finally:
            self.verify()
            self.sending.pop(me, None)
        if action != 'x' and self.was_valid.get(me, True) and not self.fired:
            if entry[0] and self.server.live(self.keys[me]) is entry[0]:
                self.bad.append(("a released lease isn't free", 'not released'))

    def finish(self):
        """Whether the leases can be taken again after everything."""
        self.verify()
        self.t += self.unit['exp'] + 1.01
        if any(self.server.live(key) is not None for key in list(self.server.data)):
            self.bad.append(("a lease never expires", 'never expires'))


def run_unit(unit, ctx):
    ctx.sample(unit)
    undo = sched.shim(memcache)
    saved = webutil.util.now, sched.time_shim.sleep
    sleeps = [k for k, v in vars(memcache).items() if v is sched.sleep]

    def explore(fault_at):
        fired = [False]

        def run(choices):
            w = World(unit, fault_at)
            webutil.util.now = w.now
            sched.time_shim.sleep = w.sleep
            for name in sleeps:
                setattr(memcache, name, w.sleep)
            s = sched.Sched(choices)
            for i, (name, actions) in enumerate(unit['tasks']):
                s.spawn(str(i), w.task(ctx, name, actions))
            if unit['adv']:
                s.spawn('clock', w.clock)
            s.run()
            how = {'choices': list(s.taken), 'log': w.log, 'fault_at': fault_at}
            for t in s.tasks:
                ctx.check(t.error is None, f'a lease fails: {t.error!r}', how=how)
            ctx.check(not s.blocked, 'a lease is never decided', how=how)
            if not fault_at:
                w.finish()
            for msg, kind in w.bad:
                ctx.check(False, msg, {'kind': kind}, how=how)
            fired[0] = fired[0] or w.fired
            ctx.outcome([e[:2] for e in w.log])
            s.kill()
            return s
        sched.explore(ctx, run, unit['bound'])
        return fired[0]

    try:
        if not unit.get('fault'):
            explore(None)
        else:
            n = 1
            while explore(n) and not ctx.expired():
                n += 1
            ctx.count('fault_positions', n - 1)
    finally:
        webutil.util.now, sched.time_shim.sleep = saved
        undo()
