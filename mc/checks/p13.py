"""P13: the event log reads back complete and in order."""
from mc import env, ref
from mc.hist import DIDS, EV, World, check_event, explore, val

ID = 'P13'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of histories on the real storages; in every state the '
             'log is read from every start position and compared with a reference log')
RULE = ('every history of commits, account, identity, sync and tombstone events, status changes, '
        'unused sequence numbers and imported blocks of two repos up to the depth bound; in every '
        'state reading from every start with and without a repo filter, for every result page size '
        'on the Datastore')
ASSUMPTIONS = ['histories are sequential', 'a block belongs to the event that first stored it, and '
               'in addition to every commit that has it as tree root or as the record of a create '
               'or update', 'Datastore histories run on the in-process model of Datastore']

# a record with exactly the fields of a commit
COMMITLIKE = {'version': 3, 'did': 'x', 'rev': 'x', 'prev': None, 'data': None, 'sig': b'x'}


# sequence numbers don't have to be small
BASES = [2 ** 31 - 7, 2 ** 32 - 7, 2 ** 40, 2 ** 53 - 16]


def menu_for(unit):
    def menu(w):
        ops = []
        for d in (0, 1):
            if DIDS[d] not in w.repos:
                ops.append(['create', d])
                continue
            m = w.repos[DIDS[d]]
            if m.status:
                ops.append(['activate', d, 'held'])
                if m.status == 'deactivated':
                    ops.append(['tombstone', d, 'held'])
                ops.append(['commit', d, [['create', 1, 0]], 'held'])
            else:
                for k in range(2):
                    path = w.keys[k]
                    if path in m.items:
                        ops.append(['commit', d, [['update', k, 1 - m.items[path]]], 'held'])
                        ops.append(['commit', d, [['delete', k, None]], 'held'])
                    else:
                        ops.append(['commit', d, [['create', k, 0]], 'held'])
                if w.keys[0] in m.items and w.keys[1] not in m.items:
                    ops.append(['commit', d, [['delete', 0, None], ['create', 1, 0]], 'held'])
                if not unit.get('narrow'):
                    ops.append(['commit', d, [['create', 2, 2], ['delete', 2, None]], 'held'])
                    ops.append(['commit', d, [['bad', 0, None]], 'held'])
                ops.append(['deactivate', d, 'held'])
                if not unit.get('narrow'):
                    ops.append(['tombstone', d, 'held'])
                    for t in ('identity', 'sync'):
                        ops.append(['event', d, t])
        ops.append(['alloc'])
        if not unit.get('narrow'):
            ops.append(['import', len(w.hist)])
        return [o for o in ops if not (o[0] == 'commit' and o[2][0][0] == 'bad')] + \
            [['commit', o[1], [['delete', 3, None]], 'held'] for o in ops
             if o[0] == 'commit' and o[2][0][0] == 'bad']
    return menu


def start(unit, seed, backend=None):
    w = World(ref.keys_for(unit['pattern'], seed), backend=backend or unit['backend'])
    if unit.get('base'):
        w.start_at(unit['base'])
    w.step(['create', 0])
    return w


def units(tier, seed):
    q = tier == 'quick'
    out = []
    pats = [[0, 1, 0, 2], [1, 0, 2, 0]] if q else [[0, 1, 0, 2], [1, 0, 2, 0], [0, 0, 0, 0], [2, 1, 0, 0]]
    for p in pats:
        out.append({'pattern': p, 'depth': 3 if q else 4, 'backend': 'memory'})
        out.append({'pattern': p, 'depth': 4 if q else 5, 'backend': 'memory', 'narrow': True})
        out.append({'pattern': p, 'depth': 2, 'backend': 'datastore',
                    'narrow': q, 'page': 2})
    for base in BASES:
        out.append({'pattern': pats[0], 'depth': 2 if q else 3, 'backend': 'memory',
                    'base': base})
        if not q or base == BASES[1]:
            out.append({'pattern': pats[0], 'depth': 2, 'backend': 'datastore',
                        'narrow': True, 'page': 2, 'base': base})
    split = []
    for u in out:
        w = start(u, seed, 'memory')
        menu = menu_for(u)
        for i, op in enumerate(menu(w)):
            if u['depth'] > 2 and not q or u['depth'] > 3:
                w2 = w.clone()
                w2.step(op)
                split += [{**u, 'first': [i, j]} for j in range(len(menu(w2)))]
            else:
                split.append({**u, 'first': [i]})
    for sp in ('commitlike', 'realcommitlike', 'oddtype', 'eventlike'):
        for b in ('memory', 'datastore'):
            split.append({'special': sp, 'backend': b})
    return split


def all_starts(w):
    first = w.log[0]['seq']
    return [*range(0, min(first, 3)), *range(first, w.seq + 3)]


def check_log(ctx, w, starts=None):
    for repo in (None, *DIDS[:2]):
        log = [e for e in w.log if repo in (None, e['did'])]
        for st in all_starts(w) if starts is None else starts:
            want = [e for e in log if e['seq'] >= st]
            got = list(w.storage.read_events_by_seq(start=st, repo=repo))
            ctx.count('reads')
            gs = [g['seq'] if isinstance(g, dict) else g.commit.seq for g in got]
            if not ctx.check(gs == [e['seq'] for e in want],
                             'reading the log gives the wrong events', history=w.hist, start=st,
                             repo=repo, got=gs, want=[e['seq'] for e in want]):
                return
            for g, e in zip(got, want):
                err = check_event(ctx, g, e, w.hist)
                if err:
                    ctx.violation(err, history=w.hist, start=st, repo=repo, seq=e['seq'])
        if starts is None or 0 in starts:
            dflt = list(w.storage.read_events_by_seq(repo=repo))
            ctx.check(len(dflt) == len(log), 'reading the log without a start is incomplete',
                      history=w.hist)


def check_blocks(ctx, w):
    """read_blocks_by_seq: exactly the stored blocks, in order."""
    for st in (0, 1, w.seq // 2, w.seq):
        got = [(bytes(b.cid), b.seq) for b in w.storage.read_blocks_by_seq(start=st)]
        seqs = [s for _, s in got]
        ctx.check(seqs == sorted(seqs) and all(s >= st for s in seqs),
                  'blocks are not in order', history=w.hist, start=st)
        ctx.check(len(set(got)) == len(got), 'a block is read twice', history=w.hist)
        for c, s in got:
            if c in w.stored:
                ctx.check(w.stored[c] == s, 'a block has another number than it was stored with',
                          history=w.hist, got=s, want=w.stored[c])
        have = {c for c, _ in got}
        for c, s in w.stored.items():
            if s >= st:
                ctx.check(c in have, 'a stored block is not read back', history=w.hist)


def check_lost_context(ctx, w):
    """The ndb context is lost between any two blocks, and again after the next ones."""
    for repo in (None, DIDS[0]):
        want = [(bytes(b.cid), b.seq) for b in w.storage.read_blocks_by_seq(repo=repo)]
        log = [e for e in w.log if repo in (None, e['did'])]
        for start in sorted({0, want[len(want) // 2][1]}):
            blocks = [x for x in want if x[1] >= start]
            for i in range(1, len(blocks) + 1):
                for again in (0, 1, 2):
                    lose = {i, i + again}
                    got = []
                    for b in w.storage.read_blocks_by_seq(start=start, repo=repo):
                        got.append((bytes(b.cid), b.seq))
                        if len(got) in lose:
                            lose.discard(len(got))
                            lose_context()
                    ctx.step()
                    ctx.count('lost_contexts')
                    # the order of blocks with the same number doesn't matter
                    ctx.check(sorted(got) == sorted(blocks)
                              and [s for _, s in got] == sorted(s for _, s in got),
                              'reading blocks is wrong after the ndb context is lost',
                              history=w.hist, start=start, repo=repo, lost_after=[i, i + again])
            events = [e for e in log if e['seq'] >= start]
            for i in range(len(events)):
                got = []
                for e in w.storage.read_events_by_seq(start=start, repo=repo):
                    got.append(e['seq'] if isinstance(e, dict) else e.commit.seq)
                    if len(got) == i + 1:
                        lose_context()
                ctx.check(got == [e['seq'] for e in events],
                          'reading the log is wrong after the ndb context is lost',
                          history=w.hist, start=start, repo=repo, lost_after_event=i)


def lose_context():
    from google.cloud.ndb import context
    context._state.context = context._state.toplevel_context = None


def run_unit(unit, ctx):
    if 'special' in unit:
        return run_special(unit, ctx)
    w = start(unit, ctx.seed)
    if unit.get('page'):
        w.sys.client.stub.page = unit['page']
    check_log(ctx, w)
    menu = menu_for(unit)

    def on_step(w, op):
        if unit.get('page'):
            w.sys.client.stub.page = unit['page']
        r = w.step(op)
        ctx.check(r['ok'] == r['expect'], f'{op[0]}: unexpected outcome', history=w.hist,
                  error=repr(r['error']))
        check_log(ctx, w)
        check_blocks(ctx, w)
        ctx.check(w.last_seq() == w.seq, 'wrong last sequence number', history=w.hist)
        if unit['backend'] == 'datastore':
            check_lost_context(ctx, w)
        ctx.outcome([(e['kind'], e['seq'], e['did'], len(e.get('blocks', ()))) for e in w.log])

    for i in unit['first']:
        on_step(w, menu(w)[i])
        ctx.step()
    ctx.state()
    ctx.execution()
    depth = unit['depth'] - len(unit['first'])
    if depth > 0:
        explore(ctx, w, menu, depth, on_step)
    ctx.sample({'unit': unit, 'history': w.hist})


def run_special(unit, ctx):
    """Records that look like commits or events."""
    what = unit['special']
    w = World(ref.keys_for([0, 1, 0, 2], ctx.seed), backend=unit['backend'])
    w.step(['create', 0])
    # several values, so that their CIDs are both before and after the commit's
    for i in range(6):
        rec = {
            'commitlike': {**COMMITLIKE, 'rev': str(i)},
            'realcommitlike': {**COMMITLIKE, 'rev': env.rev_of(w.seq + 1), 'did': DIDS[0],
                               'n': i},
            # others are refused
            'oddtype': {'$type': ['', '#', 'x', EV[:-1], EV.upper() + 'commit', ' ' + EV + 'account'][i]},
            'eventlike': {'$type': EV + ['account', 'identity', 'sync', 'tombstone', 'commit',
                                         'info'][i],
                          'seq': w.seq + 1, 'did': DIDS[0], 'active': False},
        }[what]
        if what == 'realcommitlike':
            del rec['n']
            rec['sig'] = bytes([i]) * 64
        before = w.clone() if what == 'eventlike' else None
        if what == 'eventlike':
            # such a record can't be told apart from an event, so it has to be refused
            r = w.step(['commit', 0, [['create', f'c/x{i}', rec], ['bad', 0, None]][:1], 'held'])
            ctx.check(not r['ok'], 'a record that is a subscribeRepos event is accepted',
                      history=w.hist)
            seq = w.seq
            w = before
            w.step(['alloc'])
        else:
            r = w.step(['commit', 0, [['create', f'c/x{i}', rec]], 'held'])
            ctx.check(r['ok'], 'commit failed', history=w.hist, error=repr(r['error']))
        ctx.step()
        ctx.state()
    ctx.execution()
    check_log(ctx, w)


def finalize(total, outcomes, tier):
    if len(outcomes) < 100 or total['reads'] < 1000:
        return 'vacuous exploration'
