"""P04: a diff of two trees is exactly their difference."""
import itertools

from mc import ref
from mc.msttools import VALS, build_tree, cid, patterns, put_raw
from arroba.diff import Diff, mst_diff, null_diff
from arroba.mst import MST
from arroba.storage import MemoryStorage

ID = 'P04'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of tree pairs against set difference'
RULE = ('every ordered pair of trees over the ordered keys (each absent, or with one of the '
        'values), for every assignment of layers to keys, each tree in memory or freshly '
        'loaded; plus every chain of three trees for accumulated diffs of adds and deletes')
ASSUMPTIONS = ['record values are opaque CIDs']


def units(tier, seed):
    out = []
    if tier == 'quick':
        out += [{'pattern': p, 'vals': 2, 'forms': ['ll', 'mm', 'ml', 'lm']} for p in patterns(3, [0, 1, 2, 3])]
        out += [{'pattern': p, 'vals': 1, 'forms': ['ll', 'mm']} for p in patterns(4, [0, 1, 2, 3])]
        out += [{'pattern': p, 'vals': 1, 'forms': ['ll']} for p in patterns(5, [0, 1])]
        out += [{'pattern': p, 'vals': 1, 'forms': ['ll'], 'near': 2} for p in patterns(5, [0, 1, 2])]
    else:
        out += [{'pattern': p, 'vals': 2, 'forms': ['ll', 'mm', 'ml', 'lm']} for p in patterns(4, [0, 1, 2])]
        out += [{'pattern': p, 'vals': 1, 'forms': ['ll', 'mm']} for p in patterns(5, [0, 1, 2, 3])]
        out += [{'pattern': p, 'vals': 1, 'forms': ['ll'], 'near': 3} for p in patterns(6, [0, 1, 2])]
    return out


def run_unit(unit, ctx):
    keys = ref.keys_for(unit['pattern'], ctx.seed, coll='c')
    store = MemoryStorage()
    states = []
    for combo in itertools.product(range(unit['vals'] + 1), repeat=len(keys)):
        items = {k: VALS[v - 1] for k, v in zip(keys, combo) if v}
        root, raw = ref.build(items)
        for c, b in raw.items():
            if cid(c) not in store.blocks:
                put_raw(store, {c: b})
        states.append((items, root, set(raw), build_tree(store, items)))
        ctx.state()

    def tree(s, form):
        if form == 'l':
            return MST.load(storage=store, cid=cid(s[1]))
        # a copy whose pointers are still to be computed
        return build_tree(store, s[0]) if unit['vals'] > 1 else s[3]

    def nulls(s, t):
        d = null_diff(t)
        check(ctx, unit, d, {}, s[0], set(), s[2], 'null_diff')
        d = Diff.of(t)
        check(ctx, unit, d, {}, s[0], set(), s[2], 'Diff.of(cur)')

    for s in states:
        for form in sorted(set(''.join(unit['forms']))):
            nulls(s, tree(s, form) if form == 'l' else _pointed(build_tree(store, s[0])))

    for a in states:
        for b in states:
            if unit.get('near') and len(set(a[0].items()) ^ set(b[0].items())) > unit['near']:
                continue
            for form in unit['forms']:
                d = mst_diff(tree(b, form[1]), tree(a, form[0]))
                ctx.step()
                ctx.execution()
                check(ctx, unit, d, a[0], b[0], a[2], b[2], form)
    ctx.sample({'unit': unit, 'keys': keys})


def _pointed(t):
    t.get_pointer()
    return t


def check(ctx, unit, d, a, b, anodes, bnodes, form):
    adds = {k: bytes(c.cid) for k, c in d.adds.items()}
    updates = {k: (bytes(c.prev), bytes(c.cid)) for k, c in d.updates.items()}
    deletes = {k: bytes(c.cid) for k, c in d.deletes.items()}
    ctx.outcome([len(adds), len(updates), len(deletes), len(d.new_cids), len(d.removed_cids)])
    info = dict(old=a, new=b, form=form)
    ctx.check(adds == {k: v for k, v in b.items() if k not in a}, 'wrong adds', got=adds, **info)
    ctx.check(updates == {k: (a[k], v) for k, v in b.items() if k in a and a[k] != v},
              'wrong updates', got=updates, **info)
    ctx.check(deletes == {k: v for k, v in a.items() if k not in b}, 'wrong deletes',
              got=deletes, **info)
    ctx.check(all(c.key == k for x in (d.adds, d.updates, d.deletes) for k, c in x.items()),
              'a change has the wrong key', **info)
    new = {bytes(c) for c in d.new_cids}
    removed = {bytes(c) for c in d.removed_cids}
    need = (bnodes | set(b.values())) - anodes - set(a.values())
    ctx.check(need <= new, 'new_cids lacks a CID that is only in the new tree',
              missing=[ref.b32(c) for c in need - new], **info)
    used = bnodes | set(b.values())
    ctx.check(not (removed & used), 'removed_cids contains a CID that the new tree uses',
              cids=[ref.b32(c) for c in removed & used], **info)
    known = used | anodes | set(a.values())
    ctx.check(new <= used, 'new_cids contains a CID that the new tree does not have',
              cids=[ref.b32(c) for c in new - used], **info)
    ctx.check(removed <= known, 'removed_cids contains an unknown CID', **info)


def finalize(total, outcomes, tier):
    if len(outcomes) < 20:
        return 'vacuous exploration'
