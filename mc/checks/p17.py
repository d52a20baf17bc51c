"""P17: firehose events state what happened."""
import dag_cbor
from lexrpc.base import Base

from mc import env, ref
from mc.checks import p13
from mc.hist import DIDS, World, explore
from arroba import firehose, server as aserver
from arroba.storage import CommitData

ID = 'P17'
# tombstone events aren't in the lexicon any more
LEXICONS = Base(validate=True)
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of histories on the real storages; every event of every '
             'history is emitted by the real firehose code and compared field by field with a '
             'reference log')
RULE = ('every history of commits (single and batched), account, identity, sync and tombstone events, '
        'status changes, unused sequence numbers and imported blocks of two repos up to the depth '
        'bound; every event is emitted with and without a prefetched previous commit')
ASSUMPTIONS = ['histories are sequential', '"since" is always null, as documented in the code',
               'Datastore histories run on the in-process model of Datastore']


def units(tier, seed):
    q = tier == 'quick'
    out = [u for u in p13.units(tier, seed)
           if 'special' not in u and not (q and u['depth'] == 4 and u['pattern'][0] == 1)]
    for b in 'memory', 'datastore':
        out.append({'nohandle': True, 'backend': b})
    out.append({'batches': True, 'backend': 'memory'})
    out.append({'batches': True, 'backend': 'datastore'})
    return out


def expected(e):
    """Header type, fields of the payload apart from blocks."""
    if e['kind'] != 'commit':
        p = {'seq': e['seq'], 'did': e['did'], 'time': e['time']}
        if e['kind'] == 'sync' and e['extra'] is None:
            p['rev'] = e['rev']
        else:
            p.update({k: v for k, v in e['extra'].items() if k != 'blocks'})
        return '#' + e['kind'], p
    ops = []
    for a, path, c, prev in e['ops']:
        op = {'action': a, 'path': path, 'cid': ref.Link(c) if c else None}
        if a != 'create':
            op['prev'] = ref.Link(prev)
        ops.append(op)
    p = {'repo': e['did'], 'ops': ops, 'commit': ref.Link(e['cid']), 'time': e['time'],
         'seq': e['seq'], 'rev': env.rev_of(e['seq']), 'since': None, 'rebase': False,
         'blobs': [], 'tooBig': False}
    if e['prev_data'] is not None:
        p['prevData'] = ref.Link(e['prev_data'])
    return '#commit', p


def check_frame(ctx, got, e, hist):
    header, payload = got
    # the server validates every message before it sends it
    s = aserver.server
    s._validate = True
    try:
        s.validate(env.NSID, 'message', payload)
        # lexrpc thinks that TIDs can't start with letters
        if (e['kind'] != 'tombstone' and (e.get('extra') or {}).get('rev') != 'x'
                and not payload.get('rev', '').startswith('b')):
            LEXICONS._validate_schema(name='message', val=payload, type_name=e['kind'],
                                      lexicon=env.NSID,
                                      schema=LEXICONS._get_def(f'{env.NSID}#{e["kind"]}'))
            ctx.count('fits')
    except Exception as err:
        ctx.violation(f'{e["kind"]} event does not match its lexicon', history=hist,
                      error=repr(err), payload=repr(payload)[:500])
    finally:
        s._validate = False
    # the frame as it goes over the wire, decoded independently
    frame = dag_cbor.encode(header) + dag_cbor.encode(payload)
    h, i = ref.decode_prefix(frame)
    p, i = ref.decode_prefix(frame, i)
    ctx.check(i == len(frame), 'trailing bytes in frame', history=hist)
    t, want = expected(e)
    if not ctx.check(h == {'op': 1, 't': t}, f'wrong header of a {e["kind"]} event', history=hist,
                     got=h):
        return
    blocks = p.pop('blocks', None)
    ctx.check((blocks is not None) == (e['kind'] in ('commit', 'sync')),
              f'{e["kind"]}: blocks present or missing', history=hist)
    for k in sorted(set(p) | set(want)):
        ctx.check(k in p and k in want and same(p[k], want[k]),
                  f'{e["kind"]} event: wrong {k}', history=hist, got=repr(p.get(k, 'missing')),
                  want=repr(want.get(k, 'missing')))
    if e['kind'] == 'commit':
        roots, bl = ref.read_car(blocks)
        bl = dict(bl)
        ctx.check(roots == [e['cid']] and e['cid'] in bl, 'commit event: CAR is not rooted at '
                  'the commit', history=hist)
        for c, b in bl.items():
            ctx.check(ref.cid_of(b) == c, 'commit event: block does not match its CID', history=hist)
        c = ref.decode(bl[e['cid']])
        ctx.check(c['rev'] == p['rev'] and c['did'] == p['repo'] and c['data'].b == e['data']
                  and (c['prev'].b if c['prev'] else None) == e['prev'],
                  "commit event: its fields don't match its commit block", history=hist)
        ctx.check(e['data'] in bl, 'commit event: tree root block missing', history=hist)
        ctx.check(e['blocks'] <= set(bl), "commit event: a new block is missing", history=hist)
    elif e['kind'] == 'sync' and e['extra'] is None:
        roots, bl = ref.read_car(blocks)
        ctx.check(roots == [e['head']] and [c for c, _ in bl] == [e['head']]
                  and ref.cid_of(bl[0][1]) == e['head'],
                  'sync event: CAR is not exactly the commit', history=hist)
        ctx.check(ref.decode(bl[0][1])['rev'] == p['rev'], 'sync event: wrong rev', history=hist)
    elif e['kind'] == 'sync':
        ctx.check(blocks == e['extra']['blocks'], 'sync event: wrong blocks', history=hist)
    ctx.count('events')


def same(a, b):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, ref.Link) or isinstance(b, ref.Link):
        return isinstance(a, ref.Link) and isinstance(b, ref.Link) and a.b == b.b
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def check_all(ctx, w):
    aserver.storage = w.storage
    evs = list(w.storage.read_events_by_seq())
    if not ctx.check(len(evs) == len(w.log), 'the log has the wrong number of events',
                     history=w.hist):
        return
    for ev, e in zip(evs, w.log):
        pc = None
        if isinstance(ev, CommitData) and ev.prev and e['seq'] % 2:
            pc = w.storage.read(ev.prev)
        check_frame(ctx, firehose.process_event(ev, prev_commit=pc), e, w.hist)


def run_unit(unit, ctx):
    if unit.get('batches'):
        return run_batches(unit, ctx)
    if unit.get('nohandle'):
        w = World(ref.keys_for([0], ctx.seed), backend=unit['backend'])
        for op in (['create', 0, ''], ['create', 1], ['commit', 0, [['create', 0, 0]], 'held'],
                   ['deactivate', 0, 'held'], ['activate', 0, 'held'], ['tombstone', 0, 'held']):
            w.step(op)
            check_all(ctx, w)
            ctx.step()
        ctx.state()
        ctx.execution()
        return
    w = p13.start(unit, ctx.seed)
    menu = p13.menu_for(unit)
    check_all(ctx, w)

    def on_step(w, op):
        w.step(op)
        check_all(ctx, w)
        ctx.outcome([(e['kind'], e['seq'], e['did'], len(e.get('ops', ()))) for e in w.log])

    for i in unit['first']:
        on_step(w, menu(w)[i])
        ctx.step()
    ctx.state()
    ctx.execution()
    if unit['depth'] > len(unit['first']):
        explore(ctx, w, menu, unit['depth'] - len(unit['first']), on_step)
    ctx.sample({'unit': unit, 'history': w.hist})


def run_batches(unit, ctx):
    """Every batch of up to three operations from every tree of three keys."""
    from mc.checks import p05
    w0 = World(ref.keys_for([0, 1, 0], ctx.seed), backend=unit['backend'])
    w0.step(['create', 0])
    big = unit['backend'] == 'memory'
    for first in [[]] + ([[0], [1], [0, 2]] if big else []) + [[0, 1, 2]]:
        w1 = w0.clone()
        if first:
            w1.step(['commit', 0, [['create', k, 0] for k in first], 'held'])
        for n in range(4 if big else 3):
            for ops in p05.batch_ops(w1, w1.repos[DIDS[0]], n):
                # and no-op updates
                variants = [ops]
                if ops and ops[0][0] == 'update':
                    variants.append([['update', ops[0][1], 1 - ops[0][2]]] + ops[1:])
                for o in variants:
                    w = w1.clone()
                    w.step(['commit', 0, o, 'held'])
                    ctx.step()
                    ctx.state()
                    ctx.execution()
                    check_all(ctx, w)


def finalize(total, outcomes, tier):
    if total['events'] < 10000 or total['fits'] < 5000:
        return 'vacuous exploration'
