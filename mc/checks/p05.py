"""P05: commit events can be verified inductively from their own blocks."""
import itertools

from mc import env, ref
from mc.hist import DIDS, World, explore
from mc.msttools import patterns
from arroba import firehose, server as aserver

ID = 'P05'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of commits on the real storage; every emitted commit event '
             'is verified by an independent partial-tree inverter that only sees the event')
RULE = ('(a) every tree over every key layer pattern, and on each every batch of up to two (thorough: '
        'three) creates, updates and deletes; (b) every history of single and batched commits up to '
        'the depth bound, where every event is emitted live and again from the log in every later '
        'state')
ASSUMPTIONS = ['operations are undone in reverse order, as a commit may have more than one for a path',
               'the tree builder and inverter in mc/ref.py follow the AT Protocol repository '
               'specification (checked against the interop vectors by P02)']


def check_payload(ctx, got, e, hist):
    header, p = got
    sig = {}
    roots, blocks = ref.read_car(p['blocks'])
    bd = {}
    for c, b in blocks:
        ctx.check(ref.cid_of(b) == c, 'a block in an event does not match its CID', sig,
                  history=hist)
        bd[c] = b
    ctx.check(roots == [e['cid']], "the event's CAR root is not the commit", sig, history=hist)
    if not ctx.check(e['cid'] in bd, "the commit is not in the event's blocks", sig, history=hist):
        return
    commit = ref.decode(bd[e['cid']])
    root = commit['data'].b
    ctx.check(root == e['data'], 'wrong data root', sig, history=hist)
    ops = [(o['action'], o['path'], env.cidb(o['cid']), env.cidb(o.get('prev')))
           for o in p['ops']]
    for a, path, c, _ in ops:
        if a != 'delete':
            ctx.check(c in bd, f"a record of a {a} is not in the event's blocks", sig,
                      history=hist, path=path)
    if e['prev_data'] is None:
        ctx.check('prevData' not in p, 'first commit has prevData', sig, history=hist)
        return
    if not ctx.check(p.get('prevData') is not None, 'prevData is missing', sig, history=hist):
        return
    prev = bytes(p['prevData'])
    ctx.check(prev == e['prev_data'], 'wrong prevData', sig, history=hist)
    try:
        inv = ref.invert(root, bd, list(reversed(ops)))
    except ref.Missing as err:
        ctx.violation("the event's blocks are not enough to undo its operations", sig,
                      history=hist, ops=[(a, x) for a, x, _, _ in ops], reason=str(err))
        return
    except ValueError as err:
        ctx.violation("the event's operations do not fit its tree", sig, history=hist,
                      ops=[(a, x) for a, x, _, _ in ops], reason=str(err))
        return
    ctx.check(inv == prev, 'undoing the operations does not give the announced previous root', sig,
              history=hist, ops=[(a, x) for a, x, _, _ in ops])
    ctx.count('inverted')


def emit(w, e):
    """The event as the log gives it and the firehose emits it."""
    aserver.storage = w.storage
    for ev in w.storage.read_events_by_seq(start=e['seq']):
        return firehose.process_event(ev)
    raise AssertionError('event is not in the log')


def batch_ops(w, m, n):
    """Every valid sequence of n writes."""
    def rec(items, n):
        if n == 0:
            yield []
            return
        for k, path in enumerate(w.keys):
            if path in items:
                v = items[path]
                nexts = [(['update', k, 1 - v], {**items, path: 1 - v}),
                         (['delete', k, None], {p: x for p, x in items.items() if p != path})]
            else:
                nexts = [(['create', k, 0], {**items, path: 0})]
            for op, new in nexts:
                for rest in rec(new, n - 1):
                    yield [op] + rest
    return list(rec(m.items, n))


def units(tier, seed):
    q = tier == 'quick'
    out = []
    for p in patterns(4, [0, 1, 2]):
        out.append({'mode': 'batch', 'pattern': p, 'max': 2})
    # deeper trees, whose chains of nodes without records have several levels
    for p in patterns(3, [0, 1, 2, 3] if q else [0, 1, 2, 3, 4]):
        if max(p) > 2:
            out.append({'mode': 'batch', 'pattern': p, 'max': 2})
    if not q:
        for p in patterns(4, [0, 1, 2, 3]):
            out.append({'mode': 'batch', 'pattern': p, 'max': 3 if max(p) < 3 else 2})
        for p in patterns(5, [0, 1, 2]):
            out.append({'mode': 'batch', 'pattern': p, 'max': 2})
    else:
        for p in [[0, 1, 0, 2, 0, 1], [1, 0, 0, 0, 3, 0], [0, 2, 0, 0, 2, 0], [3, 0, 1, 1, 0, 0]]:
            out.append({'mode': 'batch', 'pattern': p, 'max': 1})
    for p in [[0, 1, 0], [1, 0, 2], [0, 2, 1], [2, 0, 0]]:
        for first in range(3):
            out.append({'mode': 'history', 'pattern': p, 'depth': 3 if q else 5, 'first': first,
                        'batches': False})
            out.append({'mode': 'history', 'pattern': p, 'depth': 2 if q else 3, 'first': first,
                        'batches': True})
    if not q:
        for p in patterns(6, [0, 1, 2]):
            out.append({'mode': 'batch', 'pattern': p, 'max': 1})
    return out


def run_unit(unit, ctx):
    w0 = World(ref.keys_for(unit['pattern'], ctx.seed))
    w0.step(['create', 0])
    n = len(w0.keys)
    if unit['mode'] == 'batch':
        for size in range(n + 1):
            for sub in itertools.combinations(range(n), size):
                w1 = w0.clone()
                if sub:
                    w1.step(['commit', 0, [['create', k, 0] for k in sub], 'held'])
                ctx.state()
                m = w1.repos[DIDS[0]]
                for cnt in range(unit['max'] + 1):
                    for writes in batch_ops(w1, m, cnt):
                        w = w1.clone()
                        r = w.step(['commit', 0, writes, 'held'])
                        ctx.step()
                        if not ctx.check(r['ok'], 'commit failed', history=w.hist,
                                         error=repr(r['error'])):
                            return
                        e = r['event']
                        check_payload(ctx, emit(w, e), e, w.hist)
                        ctx.execution()
        ctx.outcome(unit['pattern'])
        ctx.sample({'unit': unit, 'history': w.hist})
        return

    def menu(w):
        m = w.repos[DIDS[0]]
        out = [['commit', 0, b, 'held'] for b in batch_ops(w, m, 1)]
        if unit['batches']:
            out += [['commit', 0, b, 'held'] for b in batch_ops(w, m, 2)]
        return out

    def on_step(w, op):
        r = w.step(op)
        ctx.check(r['ok'], 'commit failed', history=w.hist, error=repr(r['error']))
        aserver.storage = w.storage
        # every event again, from the log
        evs = {(x['seq'] if isinstance(x, dict) else x.commit.seq): x
               for x in w.storage.read_events_by_seq()}
        for e in w.log:
            if e['kind'] == 'commit':
                check_payload(ctx, firehose.process_event(evs[e['seq']]), e, w.hist)
        ctx.outcome([ref.b32(e['data']) for e in w.log if e['kind'] == 'commit'])

    ops = menu(w0)
    op = ops[unit['first']]
    on_step(w0, op)
    explore(ctx, w0, menu, unit['depth'], on_step)


def finalize(total, outcomes, tier):
    if total['inverted'] < 10000:
        return 'vacuous exploration'
