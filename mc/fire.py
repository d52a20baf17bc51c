"""Runs the real firehose (collector, subscribe, subscribeRepos) under the scheduler.

Events are made by the real storage beforehand, and become visible one by one during an
execution, like a database's transactions: a writer first allocates the number, later
stores the event, and later still calls the repo's callback.
"""
import datetime
import gc

from . import env, sched
from .hist import World, CB, DIDS
from arroba.mst import MST
from arroba.repo import Repo
from arroba.storage import Block, CommitData
from multiformats import CID
from arroba import firehose, server as aserver, xrpc_sync
from arroba.storage import MemoryStorage, Sequences

NSID = env.NSID


class LogSequences(Sequences):
    def __init__(self, log):
        super().__init__()
        self.log = log

    def last(self, nsid):
        sched.point('last')
        if self.log.bad_last and sched.current() and sched.current().name == 'collector' \
                and firehose.started.is_set():
            self.log.bad_last -= 1
            return None
        return self.log.allocated or None


class LogStorage(MemoryStorage):
    """A log of prepared events, of which some are visible."""
    def __init__(self, source, live=False):
        super().__init__(sequences=LogSequences(self))
        self.blocks = source.blocks
        self.repos = source.repos
        self.visible = set()
        self.allocated = 0
        self.live = live
        self.fail_reads = 0
        self.first_read = None
        self.fail_at = {}       # number => how many more times reading it fails
        self.bad_last = 0       # how many more times last returns None
        self.on_read = self.on_error = lambda: None

    def read_blocks_by_seq(self, start=0, repo=None):
        sched.point('read log')
        if self.first_read is None and sched.current() and sched.current().name == 'collector':
            self.first_read = set(self.visible)
        self.on_read()
        if self.fail_reads:
            self.fail_reads -= 1
            self.on_error()
            raise OSError('injected')
        if not self.live:
            # one consistent result
            blocks = self._read(start, repo, set(self.visible))
            return self._failing(blocks) if self.fail_at else iter(blocks)
        return self._stream(start, repo)

    def _failing(self, blocks):
        for b in blocks:
            if self.fail_at.get(b.seq):
                self.fail_at[b.seq] -= 1
                self.on_error()
                raise OSError('injected')
            yield b

    def _read(self, start, repo, visible):
        return [b for b in MemoryStorage.read_blocks_by_seq(self, start, repo)
                if b.seq in visible]

    def _stream(self, start, repo):
        """Like a query that is fetched in batches: later ones see newer events."""
        cur = start
        while True:
            left = sorted(s for s in self.visible if s >= cur)
            if not left:
                return
            cur = left[0]
            for b in MemoryStorage.read_blocks_by_seq(self, cur, repo):
                if b.seq == cur:
                    yield b
            cur += 1
            sched.point('read batch')


_SOURCE = {}


def source(n, commits=(), base=0):
    """A storage with n events, numbered base+1..base+n. Those in commits are commits,
    others identity events."""
    key = (n, tuple(commits), base)
    if key not in _SOURCE:
        s = MemoryStorage()
        if base:
            s.sequences.sequences[NSID] = base + 1
        repo = env.Repo(storage=s, mst=env.arroba.mst.MST.create(storage=s),
                        signing_key=env.KEYS[0], handle='han.dle')
        repo.callback = None
        for i in range(1, n + 1):
            if i in commits:
                s.commit(repo, [] if repo.head is None else
                         [env.path_write('create', f'c/k{i}', i)],
                         repo_did=env.DID if repo.head is None else None)
                s.repos[env.DID] = repo
            else:
                class R:
                    did = env.DID
                    callback = None
                s.write_event(R, 'identity', handle=f'h{i}')
        _SOURCE[key] = s
    return _SOURCE[key]


class Fire:
    """One execution."""
    def __init__(self, sch, src, live=False, visible=(), allocated=0, rollback=50, preload=50,
                 delay=120, window=300, batch=0):
        self.s = sch
        self.log = LogStorage(src, live)
        self.log.visible |= set(visible)
        self.log.allocated = allocated
        self.emitted = None
        f = firehose
        f.ROLLBACK_WINDOW, f.PRELOAD_WINDOW = rollback, preload
        f.SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY = datetime.timedelta(seconds=delay)
        f.SUBSCRIBE_REPOS_SKIPPED_SEQ_WINDOW = window
        f.SUBSCRIBE_REPOS_BATCH_DELAY = datetime.timedelta(seconds=batch)
        f.collector = None
        f.reset()
        aserver.storage = self.log
        self.delay = delay
        self.collectors = 0
        self.subs = {}
        self.emissions = []

    def collector_task(self):
        return next(t for t in self.s.tasks if t.name == 'collector')

    def start(self):
        """As an app does."""
        firehose.start()

    def shared(self):
        """What tasks can see, for merging states."""
        return [_globals(firehose), self.log, self.subs]

    # writers, as documented in subscribe_repos

    @staticmethod
    def callback(data=None, lost_seq=None):
        if data:
            firehose.send_events()
        elif lost_seq:
            firehose.mark_seq_lost(lost_seq)

    def alloc(self):
        sched.point('alloc')
        self.log.allocated += 1
        return self.log.allocated

    def publish(self, seq, notify=True):
        sched.point('publish')
        self.log.visible.add(seq)
        if notify:
            self.callback(data={'seq': seq})

    def lost(self, seq):
        sched.point('lost')
        self.callback(lost_seq=seq)

    # subscribers

    def subscriber(self, name, cursor=None, limit=None, pause=None, slow=False, when=None):
        """Returns a function for a task. Records what it receives."""
        rec = self.subs[name] = {'got': [], 'frames': [], 'registered': None, 'error': None,
                                 'cursor': cursor, 'closed': False, 'ended': False}

        def run():
            if when:
                sched.point('sub starts', when, mover=True)
            rec['last'] = self.log.allocated
            gen = xrpc_sync.subscribe_repos(cursor=cursor)
            rec['gen'] = gen
            sched.current().local['sub'] = rec
            try:
                for header, payload in gen:
                    rec['frames'].append((header, payload))
                    if 'seq' in payload:
                        rec['got'].append(payload['seq'])
                    if limit is not None and len(rec['got']) >= limit:
                        break
                    if slow and rec['registered'] is None:
                        sched.point('yielded')
                    if pause and len(rec['got']) == pause[0]:
                        sched.sleep(pause[1])
                else:
                    rec['ended'] = True
                gen.close()
                rec['closed'] = True
            except sched.Kill:
                raise
            except BaseException as e:
                rec['error'] = e
                rec['window'] = [e[1]['seq'] for e in firehose.rollback or ()]
        return run


def _on_get(queue, task):
    if task is not None and 'sub' in task.local:
        rec = task.local['sub']
        if rec['registered'] is None:
            rec['registered'] = set(aserver.storage.visible)


class Env:
    """Installs the shims for a whole unit."""
    def __enter__(self):
        self.undo = sched.shim(firehose)
        self.orig = firehose.Collector.start
        sched.Queue.on_get = staticmethod(_on_get)

        def start(thread):
            sched.current().sched.spawn('collector', thread.run)
        firehose.Collector.start = start
        self.alive = firehose.Collector.is_alive
        firehose.Collector.is_alive = lambda self: False
        self.old = (aserver.storage, {k: getattr(firehose, k) for k in (
            'ROLLBACK_WINDOW', 'PRELOAD_WINDOW', 'SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY',
            'SUBSCRIBE_REPOS_SKIPPED_SEQ_WINDOW', 'SUBSCRIBE_REPOS_BATCH_DELAY')})
        gc.disable()
        return self

    def __exit__(self, *a):
        gc.enable()
        firehose.Collector.start = self.orig
        firehose.Collector.is_alive = self.alive
        sched.Queue.on_get = None
        firehose.collector = None
        self.undo()
        firehose.reset()
        aserver.storage = self.old[0]
        for k, v in self.old[1].items():
            setattr(firehose, k, v)
        gc.collect()


def _globals(module):
    return {k: v for k, v in vars(module).items()
            if not k.startswith('__') and not isinstance(v, sched._NAMED)}


sched.DIGESTERS.update({
    LogStorage: lambda o: (o.visible, o.allocated, o.live, o.fail_reads, o.first_read,
                           o.fail_at, o.bad_last),
    LogSequences: lambda o: None,
    Fire: lambda o: None,
    Block: lambda o: o.cid,
    CommitData: lambda o: (o.commit, len(o.blocks)),
    CID: lambda o: (o.hashfun.name, bytes(o)),
    MST: lambda o: o.pointer,
    Repo: lambda o: (o.did, o.head),
})


def rolled():
    return [p['seq'] for h, p in firehose.rollback or ()]
