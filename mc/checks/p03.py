"""P03: persisting a tree and loading it back."""
from mc import ref
from mc.msttools import VALS, cid, clone, contents, patterns, put_raw
from mc.mstcheck import State, apply, chain, copy_store, explore, fresh, menu
from arroba.mst import MST
from arroba.storage import MemoryStorage, Block

ID = 'P03'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state search over real MST objects with a save and lazy reload at every point'
RULE = ('every history of add/update/delete with a save+reload possible at every point; in '
        'every state the reported new blocks plus the stored ones are walked from the root by '
        'an independent reader, loaded back lazily, each further operation is compared on the '
        'in-memory and on the loaded tree, and every single node block in turn is removed')
ASSUMPTIONS = ['the storage given to a tree is closed under reachability before the history '
               'starts', 'MemoryStorage as the block store']
WIDE = [[0, 1, 0, 1, 0], [0, 1, 0, 1, 0, 1, 0], [0, 2, 1, 0, 2, 0], [0, 0, 1, 0, 0, 1, 0]]
RAW = {v: ref.encode({'v': i}) for i, v in enumerate(VALS)}


def units(tier, seed):
    if tier == 'quick':
        out = [{'pattern': p, 'depth': 2, 'ops': ['put', 'update', 'reload'], 'init': [0, 1, 2]}
               for p in patterns(4, [0, 1, 2])]
        out += [{'pattern': p, 'depth': 3, 'ops': ['put', 'pointer', 'reload'], 'init': []}
                for p in patterns(3, [0, 1, 2, 3])]
        out += [{'pattern': p, 'depth': 1, 'ops': ['put', 'update', 'reload'], 'init': [0, 1, 2, 3, 4]}
                for p in patterns(5, [0, 1, 2])]
        # wide nodes: changes in several children of a stored node
        out += [{'pattern': p, 'depth': 2, 'ops': ['put', 'update'], 'init': list(range(len(p))),
                 'stored': True} for p in WIDE]
    else:
        out = [{'pattern': p, 'depth': 3, 'ops': ['put', 'update', 'reload'], 'init': [0, 1, 2, 3]}
               for p in patterns(4, [0, 1, 2, 3])]
        out += [{'pattern': p, 'depth': 5, 'ops': ['put', 'pointer', 'reload'], 'init': []}
                for p in patterns(3, [0, 1, 2, 3])]
        out += [{'pattern': p, 'depth': 2, 'ops': ['put', 'update', 'reload'], 'init': [0, 1, 2, 3, 4]}
                for p in patterns(5, [0, 1, 2, 3])]
        out += [{'pattern': p, 'depth': 3, 'ops': ['put', 'update'], 'init': list(range(len(p))),
                 'stored': True} for p in WIDE + patterns(5, [0, 1])]
    return out


def on_state(ctx, st):
    hist = chain(st)
    t = st.tree
    other = fresh(st)          # untouched copy, for the differential part
    want_root, want_blocks = ref.build(st.items)
    stored = {bytes(c): b.encoded for c, b in st.store.blocks.items()}

    root, unstored = t.get_unstored_blocks()
    raw = dict(stored)
    for c, b in unstored.items():
        enc = b.encoded
        ctx.check(bytes(c) == ref.cid_of(enc) and bytes(b.cid) == bytes(c),
                  'a new block is reported under a CID that is not its own', history=hist)
        raw[bytes(c)] = enc
    try:
        items, nodes = ref.walk(bytes(root), lambda c: raw[c])
    except KeyError as e:
        ctx.violation('a reachable node is neither stored nor reported as new', history=hist,
                      missing=e.args[0])
        return
    ctx.check(items == st.items, 'the persisted tree has other contents', history=hist,
              got=items, want=st.items)

    # load back, lazily
    store = MemoryStorage()
    put_raw(store, raw)
    put_raw(store, RAW)
    for b in store.blocks.values():
        b.seq = 5
    loaded = MST.load(storage=store, cid=root)
    ctx.check(contents(MST.load(storage=store, cid=root)) == st.items,
              'the loaded tree has other contents', history=hist)
    ctx.check(loaded.get_unstored_blocks()[1] == {}, 'a freshly loaded tree reports new blocks',
              history=hist)

    # export: every reachable node and record exactly once
    for start in (0, 5):
        got = [(bytes(c), bytes(e)) for c, e in MST.load(storage=store, cid=root).load_all(start=start)]
        want = {c: raw[c] for c in nodes}
        want.update({v: RAW[v] for v in items.values()})
        ctx.check(dict(got) == want and len(got) == len(want),
                  'exporting the tree gives wrong blocks', history=hist,
                  got=[ref.b32(c) for c, _ in got], want=[ref.b32(c) for c in want])

    # each further operation: in memory vs loaded
    keys = _keys(ctx)
    for op in menu(st, keys, ['put', 'update']):
        a = apply(ctx, fresh(other), op)
        b = State(MST.load(storage=store, cid=root), store, dict(st.items), st.hist)
        b = apply(ctx, b, op)
        ctx.step(2)
        ra, rb = bytes(a.tree.get_pointer()), bytes(b.tree.get_pointer())
        ctx.check(ra == rb, 'an operation on the loaded tree gives another root than on the '
                  'in-memory tree', history=hist, op=list(op))
        ctx.check(contents(a.tree) == contents(b.tree) == a.items,
                  'an operation on the loaded tree gives other contents', history=hist, op=list(op))
        _, new = b.tree.get_unstored_blocks()
        have = dict(raw)
        have.update({bytes(c): x.encoded for c, x in new.items()})
        try:
            items2, _ = ref.walk(rb, lambda c: have[c])
            ctx.check(items2 == a.items, 'the re-persisted tree has other contents',
                      history=hist, op=list(op))
        except KeyError:
            ctx.violation('after an operation on a loaded tree a reachable node is neither '
                          'stored nor new', history=hist, op=list(op))

    # a missing node is never silently skipped
    for c in nodes:
        del store.blocks[cid(c)]
        for name, fn in (('leaves', lambda: MST.load(storage=store, cid=root).leaves()),
                         ('list', lambda: MST.load(storage=store, cid=root).list()),
                         ('list_with_prefix', lambda: MST.load(storage=store, cid=root).list_with_prefix('c')),
                         ('load_all', lambda: list(MST.load(storage=store, cid=root).load_all()))):
            ctx.step()
            try:
                got = fn()
            except Exception:
                ctx.count('missing_node_refused')
            else:
                ctx.violation(f'{name}() succeeded although a node is missing', history=hist,
                              missing=ref.b32(c), got=len(got))
        put_raw(store, {c: raw[c]})
        store.blocks[cid(c)].seq = 5


def _keys(ctx):
    return ref.keys_for(ctx.unit['pattern'], ctx.seed, coll='c')


def run_unit(unit, ctx):
    explore(unit, ctx, on_state)
    ctx.sample({'unit': unit})


def finalize(total, outcomes, tier):
    if len(outcomes) < 50 or not total['missing_node_refused']:
        return 'vacuous exploration'
