"""P01: an MST is an ordered map from record path to CID."""
import itertools

from mc import ref
from mc.msttools import VALS, cid, clone, contents, patterns
from mc.mstcheck import explore, chain, contents_of
from arroba.mst import MST, Leaf
from arroba.storage import MemoryStorage

ID = 'P01'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state search over real MST objects against a sorted dictionary'
RULE = ('every history of add/update/delete/save+reload up to the depth bound for every '
        'assignment of layers to ordered keys; states merged only if the complete object '
        'graphs are equal; every state is compared with a dictionary on get, list with every '
        'after/before bound, every prefix, leaves, count; plus every refused operation and '
        'every key over a small alphabet of characters and lengths')
ASSUMPTIONS = ['record values are opaque CIDs', 'keys drawn from the searched alphabet']


def units(tier, seed):
    out = [{'kind': 'keys', 'part': i} for i in range(8)]
    if tier == 'quick':
        out += [{'pattern': p, 'depth': 2, 'ops': ['put', 'update', 'reload'], 'init': [0, 1, 2, 3]}
                for p in patterns(4, [0, 1, 2])]
        out += [{'pattern': p, 'depth': 4, 'ops': ['put'], 'init': []} for p in patterns(3, [0, 1, 2, 3])]
        out += [{'pattern': p, 'depth': 2, 'ops': ['put'], 'init': [0, 1, 2, 3, 4]} for p in patterns(5, [0, 1, 3])]
        out += [{'keys': ks, 'depth': 3, 'ops': ['put', 'update', 'reload'], 'init': []}
                for ks in nested_keys()]
    else:
        out += [{'pattern': p, 'depth': 3, 'ops': ['put', 'update', 'reload'], 'init': [0, 1, 2, 3]}
                for p in patterns(4, [0, 1, 2, 3])]
        out += [{'pattern': p, 'depth': 6, 'ops': ['put'], 'init': []} for p in patterns(4, [0, 1, 2, 3])]
        out += [{'pattern': p, 'depth': 3, 'ops': ['put'], 'init': [0, 1, 2, 3, 4, 5]} for p in patterns(6, [0, 1, 2])]
        out += [{'keys': ks, 'depth': 5, 'ops': ['put', 'update', 'reload'], 'init': []}
                for ks in nested_keys()]
    return out


def nested_keys():
    """Keys that are prefixes of each other, and collections that are."""
    return [
        ['a/b', 'a/bb', 'a/bbb'],
        ['a.b/c', 'a.b.c/d', 'a/b'],
        ['a/B', 'a/b', 'a/_'],
        ['x-y/1', 'x-y/10', 'x-y/2', 'x.y/1'],
        ['app.bsky.feed.like/3', 'app.bsky.feed.post/3', 'app.bsky.feed.post/self', 'a:b/c:d'],
    ]


def bounds(items, keys):
    """Probe keys: present, absent, between, before all and after all."""
    out = set(keys)
    for k in keys:
        out.add(k[:-1])
        out.add(k + '0')
    out |= {'A/0', 'zz/zz'}
    return sorted(out)


def on_state(ctx, st):
    t, items = st.tree, st.items
    ks = sorted(items)
    hist = chain(st)

    def same(got, want, what):
        got = [(l.key, bytes(l.value)) for l in got]
        ctx.check(got == want, f'{what} is wrong', history=hist, got=got, want=want)

    allk = [(k, items[k]) for k in ks]
    same(t.leaves(), allk, 'leaves()')
    ctx.check(t.leaf_count() == len(ks), 'leaf_count() is wrong', history=hist,
              got=t.leaf_count(), want=len(ks))
    probes = bounds(items, _unit_keys(ctx))
    for p in probes:
        got = t.get(p)
        want = items.get(p)
        ctx.check((bytes(got) if got is not None else None) == want, f'get({p}) is wrong',
                  history=hist, got=got, want=want)
    same(t.list(), allk, 'list()')
    for a in probes:
        same(t.list(after=a), [x for x in allk if x[0] > a], f'list(after={a})')
        same(t.list(before=a), [x for x in allk if x[0] < a], f'list(before={a})')
        same(t.walk_leaves_from(a), [x for x in allk if x[0] >= a], f'walk_leaves_from({a})')
    for a, b in itertools.combinations(probes, 2):
        same(t.list(after=a, before=b), [x for x in allk if a < x[0] < b],
             f'list(after={a}, before={b})')
    prefixes = {''}
    for k in _unit_keys(ctx):
        prefixes |= {k[:i] for i in range(1, len(k) + 1)}
        prefixes |= {k[:i] + 'zz' for i in (1, len(k))}
    for p in sorted(prefixes):
        same(t.list_with_prefix(p), [x for x in allk if x[0].startswith(p)],
             f'list_with_prefix({p})')
    # walk() and all_nodes() visit every leaf once, in order
    same([n for n in t.all_nodes() if isinstance(n, Leaf)], allk, 'all_nodes()')

    # refused operations, and none of them changes anything
    for k in _unit_keys(ctx):
        calls = [('add', lambda: t.add(k, cid(VALS[2])))] if k in items else [
            ('update', lambda: t.update(k, cid(VALS[2]))),
            ('delete', lambda: t.delete(k))]
        for name, fn in calls:
            ctx.step()
            try:
                fn()
            except (ValueError, KeyError):
                pass
            else:
                ctx.violation(f'{name} of {"a present" if name == "add" else "an absent"} '
                              'key was not refused', history=hist, key=k)
    same(t.leaves(), allk, 'leaves() after refused operations')


_KEYS = {}


def _unit_keys(ctx):
    u = ctx.unit
    if 'keys' in u:
        return u['keys']
    kk = (tuple(u['pattern']), ctx.seed)
    if kk not in _KEYS:
        _KEYS[kk] = ref.keys_for(u['pattern'], ctx.seed, coll=u.get('coll', 'c'))
    return _KEYS[kk]


def on_step(ctx, parent, before, new, op):
    after = contents(parent)
    ctx.check(after == before, 'an operation changed a tree that existed before it',
              history=chain(new), op=list(op), before=before, after=after)
    if op[0] in ('add', 'update', 'delete'):
        # with all caches filled as well
        parent.get_pointer()
        ctx.check(contents(parent) == before, 'computing the pointer changed a tree',
                  history=chain(new))
        root, _ = ref.build(before)
        ctx.check(bytes(parent.get_pointer()) == root,
                  'an operation changed the root of the tree it was called on',
                  history=chain(new), op=list(op))


GOOD = 'abzAZ059_-:.'


def valid(key):
    parts = key.split('/')
    return (len(key) <= 256 and len(parts) == 2
            and all(p and all(c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-:.'
                              for c in p) for p in parts))


def key_cases():
    out = []
    # every string over a small alphabet up to length 5
    for n in range(0, 6):
        for t in itertools.product('a/ .', repeat=n):
            out.append(''.join(t))
    # every character in every position
    chars = [chr(i) for i in range(0, 256)] + ['Ā', 'é', '漢', '😀', '\u2028', '٣', 'ª']
    for c in chars:
        for k in (f'{c}/a', f'a/{c}', f'a{c}b/x', f'x/a{c}b', f'{c}a/b', f'a/b{c}', f'ab{c}'):
            out.append(k)
    for n in range(250, 262):
        out.append('a/' + 'b' * (n - 2))
        out.append('a' * (n - 2) + '/b')
        out.append('a' * (n // 2) + '/' + 'b' * (n - n // 2 - 1))
    out += ['a//b', '/a/b', 'a/b/', 'a/b/c', '//', 'a/b\n', '\na/b', 'a\n/b', 'a/.', 'a/..']
    return out


def run_keys(unit, ctx):
    store = MemoryStorage()
    base = MST.create(storage=store).add('m/m', cid(VALS[0]))
    empty = MST.create(storage=store)
    for i, k in enumerate(key_cases()):
        if i % 8 != unit['part']:
            continue
        want = valid(k)
        ctx.execution()
        ctx.outcome([want, len(k) > 256, k.count('/')])
        for name, fn in (('add', lambda: base.add(k, cid(VALS[1]))),
                         ('add to empty', lambda: empty.add(k, cid(VALS[1])))):
            ctx.step()
            if k == 'm/m':
                continue
            try:
                t = fn()
            except ValueError:
                ctx.check(not want, f'{name} refused a valid key', key=k)
            else:
                if ctx.check(want, f'{name} accepted an invalid key', key=k):
                    got = contents(t)
                    exp = dict(contents(base) if name == 'add' else {}, **{k: VALS[1]})
                    ctx.check(got == exp, f'{name} of a valid key gives wrong contents', key=k, got=got)
        for name, fn in (('update', lambda: base.update(k, cid(VALS[1]))),
                         ('delete', lambda: base.delete(k))):
            if k == 'm/m':
                continue
            ctx.step()
            try:
                fn()
            except (ValueError, KeyError):
                pass
            else:
                ctx.violation(f'{name} of an absent key was accepted', key=k)
        ctx.check(contents(base) == {'m/m': VALS[0]}, 'a refused operation changed the tree', key=k)
        ctx.state()


def run_unit(unit, ctx):
    if unit.get('kind') == 'keys':
        return run_keys(unit, ctx)
    explore(unit, ctx, on_state, on_step)
    ctx.sample({'unit': unit, 'keys': _unit_keys(ctx)})


def finalize(total, outcomes, tier):
    if len(outcomes) < 50:
        return 'vacuous exploration'
