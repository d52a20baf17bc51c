"""P02: the root CID depends only on the contents, and is the canonical one."""
from mc import ref
from mc.msttools import clone, patterns, put
from mc.mstcheck import explore, chain
from arroba.mst import MST

ID = 'P02'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state search over real MST objects against an independent canonical builder'
RULE = ('every history of add/update/delete (and pointer computation, save+reload) up to the '
        'depth bound, for every assignment of tree layers to the ordered keys; states are '
        'merged only if their complete object graphs are equal; in every state the root and '
        'all node blocks are compared with the ones an independent implementation builds '
        'from the contents; also for keys that share a prefix of every possible length, in the '
        'collection or the record key, for every pair of layers, and for layers up to 8')
ASSUMPTIONS = ['record values are opaque CIDs', 'SHA-256 and the key search find keys of the wanted layers']


def units(tier, seed):
    out = []
    out += [{'kind': 'prefix', 'part': i, 'depth': 3 if tier == 'quick' else 4} for i in range(16)]
    tall = [[0, 6], [6, 0], [5, 1, 7], [8, 0], [0, 8, 0], [4, 0, 4], [1, 6, 3]]
    out += [{'pattern': p, 'depth': 3 if tier == 'quick' else 5, 'ops': ['put', 'reload'], 'init': []}
            for p in tall]
    if tier == 'quick':
        out += [{'pattern': p, 'depth': 4, 'ops': ['put'], 'init': []} for p in patterns(4, [0, 1, 2])]
        out += [{'pattern': p, 'depth': 3, 'ops': ['put', 'pointer', 'reload'], 'init': [0, 1, 2]}
                for p in patterns(3, [0, 1, 2, 3])]
        out += [{'pattern': p, 'depth': 2, 'ops': ['put', 'update', 'reload'], 'init': [0, 1, 2, 3, 4]}
                for p in patterns(5, [0, 1, 2])]
    else:
        out += [{'pattern': p, 'depth': 5, 'ops': ['put'], 'init': []} for p in patterns(5, [0, 1, 2, 3])]
        out += [{'pattern': p, 'depth': 4, 'ops': ['put', 'update', 'pointer', 'reload'], 'init': [0, 1, 2]}
                for p in patterns(3, [0, 1, 2, 3, 4])]
        out += [{'pattern': p, 'depth': 2, 'ops': ['put', 'update', 'reload'], 'init': [0, 1, 2, 3, 4, 5]}
                for p in patterns(6, [0, 1, 2, 3])]
    return out


def on_state(ctx, st):
    root, blocks = ref.build(st.items)
    got = bytes(st.tree.get_pointer())
    ctx.check(got == root, 'tree root differs from the canonical root of its contents',
              history=chain(st), items={k: v for k, v in st.items.items()},
              got=ref.b32(got), want=ref.b32(root))
    _, unstored = st.tree.get_unstored_blocks()
    for c, b in unstored.items():
        c = bytes(c)
        if c not in blocks:
            ctx.violation('a node block of the tree is not canonical', history=chain(st),
                          block=b.encoded)
        elif b.encoded != blocks[c]:
            ctx.violation('node block bytes differ from the canonical encoding',
                          history=chain(st), got=b.encoded, want=blocks[c])
    stored = {bytes(c) for c in st.store.blocks}
    missing = set(blocks) - {bytes(c) for c in unstored} - stored
    ctx.check(not missing, 'canonical node blocks are missing from the tree',
              history=chain(st), missing=[ref.b32(m) for m in missing])


def prefix_keys(n, layers, in_coll, seed):
    """Ordered keys that share a prefix of n characters, or None if there are none.

    Tries to find ones with the given layers.
    """
    alpha = '-0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz'
    fill = (alpha[1:11] * 26)[seed % 10:]
    prefix = 'c' + fill[:n - 1] if in_coll else 'c/' + fill[:n - 2]
    tail = '/r' if in_coll else ''
    room = 256 - n - len(tail)
    if room < 1:
        return None
    cands = ([a for a in alpha] if room < 2 else
             [a + b for a in alpha for b in alpha if a != b])
    out = []
    for want in layers:
        ks = [prefix + c + tail for c in cands]
        ks = [k for k in ks if not any(k[n] == o[n] for o in out)]
        out.append(next((k for k in ks if ref.layer(k) == want), ks[0]))
    return sorted(out)


def run_unit(unit, ctx):
    if unit.get('kind') == 'prefix':
        for n in range(3 + unit['part'], 256, 16):
            for layers in ((0, 0), (0, 1), (0, 0, 0)):
                for in_coll in (False, True):
                    keys = prefix_keys(n, layers, in_coll, ctx.seed)
                    if keys:
                        explore({'keys': keys, 'depth': min(unit['depth'], len(keys)),
                                 'ops': ['put'] if len(keys) > 2 else ['put', 'reload'],
                                 'init': []}, ctx, on_state)
        ctx.sample({'unit': unit})
        return
    explore(unit, ctx, on_state)
    ctx.sample({'unit': unit})


def finalize(total, outcomes, tier):
    if len(outcomes) < 50:
        return 'vacuous exploration'
