"""Breadth-first exploration of real MST objects, shared by P01, P02 and P03."""
from arroba.mst import MST
from arroba.storage import MemoryStorage

from . import ref
from .msttools import (VALS, canon, cid, clone, contents, put)
from .core import StopUnit


class State:
    __slots__ = ('tree', 'store', 'items', 'hist')

    def __init__(self, tree, store, items, hist):
        self.tree, self.store, self.items, self.hist = tree, store, items, hist


def copy_store(store):
    s = MemoryStorage()
    s.blocks = dict(store.blocks)
    return s


def fresh(st):
    """A copy of the state that can be explored without touching the original."""
    store = copy_store(st.store)
    t = clone(st.tree, keep=[st.store])
    _rebind(t, st.store, store, set())
    return State(t, store, dict(st.items), st.hist)


def _rebind(o, old, new, seen):
    if id(o) in seen:
        return
    if isinstance(o, (list, tuple)):
        for x in o:
            _rebind(x, old, new, seen)
    elif hasattr(o, '__dict__') and type(o).__module__ == 'arroba.mst':
        seen.add(id(o))
        for k, v in o.__dict__.items():
            if v is old:
                o.__dict__[k] = new
            else:
                _rebind(v, old, new, seen)


def explore(unit, ctx, on_state, on_step=None):
    """BFS over all states reachable with at most unit['depth'] operations.

    Args:
      unit (dict): pattern, depth, ops (subset of 'put', 'update', 'pointer', 'reload')
      on_state: callable (ctx, State), called on a fresh copy of every reached state
    """
    if 'keys' in unit:
        keys = unit['keys']
    else:
        keys = ref.keys_for(unit['pattern'], ctx.seed, coll=unit.get('coll', 'c'))
    kinds = unit['ops']
    store = MemoryStorage()
    init_items = {keys[i]: VALS[0] for i in unit.get('init', [])}
    tree = MST.create(storage=store)
    for k in init_items:
        tree = tree.add(k, cid(init_items[k]))
    if unit.get('stored'):
        put(store, tree.get_unstored_blocks()[1])
        tree = MST.load(storage=store, cid=tree.get_pointer())
    start = State(tree, store, init_items, [('init', list(init_items))])
    # unstored states differ only by the tree object; key includes what's stored
    def key(st):
        return (canon(st.tree), tuple(sorted(st.items.items())),
                frozenset(bytes(c) for c in st.store.blocks) if 'reload' in kinds else 0)

    seen = {key(start)}
    frontier = [start]
    ctx.state()
    on_state(ctx, fresh(start))
    for depth in range(unit['depth']):
        nxt = []
        for st in frontier:
            for op in menu(st, keys, kinds):
                new = fresh(st)
                before = contents_of(new)
                parent = new.tree
                new = apply(ctx, new, op)
                ctx.step()
                if on_step:
                    on_step(ctx, parent, before, new, op)
                k = key(new)
                if k in seen:
                    continue
                seen.add(k)
                ctx.state()
                ctx.execution()
                ctx.outcome(repr(sorted(new.items.items())))
                on_state(ctx, fresh(new))
                nxt.append(new)
        frontier = nxt
        if not frontier:
            ctx.count('patterns_closed')
            break


def contents_of(st):
    return contents(clone(st.tree, keep=[st.store]))


def menu(st, keys, kinds):
    for k in keys:
        if k in st.items:
            yield ('delete', k)
            if 'update' in kinds:
                yield ('update', k)
        else:
            yield ('add', k)
    if 'pointer' in kinds:
        yield ('pointer',)
    if 'reload' in kinds:
        yield ('reload',)


def apply(ctx, st, op):
    items = dict(st.items)
    t = st.tree
    if op[0] == 'add':
        t = t.add(op[1], cid(VALS[0]))
        items[op[1]] = VALS[0]
    elif op[0] == 'delete':
        t = t.delete(op[1])
        del items[op[1]]
    elif op[0] == 'update':
        v = VALS[1] if items[op[1]] == VALS[0] else VALS[0]
        t = t.update(op[1], cid(v))
        items[op[1]] = v
    elif op[0] == 'pointer':
        t.get_pointer()
    elif op[0] == 'reload':
        root, blocks = t.get_unstored_blocks()
        put(st.store, blocks)
        t = MST.load(storage=st.store, cid=root)
    return State(t, st.store, items, st.hist + [op])


def chain(st):
    return [list(h) for h in st.hist]
