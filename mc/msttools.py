"""Explicit-state exploration of real MST objects.

States are real :class:`arroba.mst.MST` objects; two are merged only if their complete
object graphs (every attribute, cached or not) are equal, so merged states have the same
futures. Transitions call the real public operations.
"""
import copy

from multiformats import CID

from . import speed

import arroba.mst
from arroba.mst import MST, Leaf
from arroba.storage import MemoryStorage, Block
from . import ref

_CIDS = {}


def cid(b):
    if b not in _CIDS:
        _CIDS[b] = CID.decode(b)
    return _CIDS[b]


VALS = [ref.cid({'v': i}) for i in range(4)]


def _is_node(o):
    return (type(o).__module__ == 'arroba.mst' and not isinstance(o, tuple)
            and hasattr(o, '__dict__'))


def clone(o, keep, memo=None):
    """Deep copy of a tree object graph. Anything in keep (storage) is shared."""
    if memo is None:
        memo = {}
    if id(o) in memo:
        return memo[id(o)]
    if any(o is k for k in keep):
        return o
    if _is_node(o):
        n = type(o).__new__(type(o))
        memo[id(o)] = n
        n.__dict__.update({k: clone(v, keep, memo) for k, v in o.__dict__.items()})
        return n
    if type(o) is list:
        n = []
        memo[id(o)] = n
        n.extend(clone(x, keep, memo) for x in o)
        return n
    if type(o) is dict:
        n = {k: clone(v, keep, memo) for k, v in o.items()}
        return n
    if type(o) is tuple:
        return tuple(clone(x, keep, memo) for x in o)
    return o


def canon(o):
    """Hashable canonical form of a tree object graph."""
    if _is_node(o):
        return ('N',) + tuple((k, canon(v)) for k, v in sorted(o.__dict__.items())
                              if k != 'storage')
    if isinstance(o, tuple):
        return ('T',) + tuple(canon(x) for x in o)
    if isinstance(o, list):
        return ('L',) + tuple(canon(x) for x in o)
    if isinstance(o, dict):
        return ('D',) + tuple(sorted((repr(k), canon(v)) for k, v in o.items()))
    if isinstance(o, CID):
        return bytes(o)
    if isinstance(o, (str, bytes, int, bool, type(None), float)):
        return o
    return repr(type(o))


def contents(tree):
    """Contents of a tree via its public API."""
    return {l.key: bytes(l.value) for l in tree.leaves()}


class Store(MemoryStorage):
    """A MemoryStorage that can be cheaply copied."""


def new_store():
    return MemoryStorage()


def put(store, blocks):
    """Stores blocks that a tree reported as new."""
    for c, b in blocks.items():
        store.blocks[c] = b


def put_raw(store, raw):
    """Stores raw blocks, dict CID bytes => bytes."""
    for c, enc in raw.items():
        b = Block(cid=cid(c), encoded=enc)
        store.blocks[cid(c)] = b


def build_tree(store, items):
    t = MST.create(storage=store)
    for k, v in items.items():
        t = t.add(k, cid(v))
    return t


def loaded(store, items):
    """Canonical tree for items, stored by the reference and lazily loaded."""
    root, raw = ref.build(items)
    put_raw(store, raw)
    return MST.load(storage=store, cid=cid(root))


def patterns(n, layers):
    import itertools
    return [list(p) for p in itertools.product(layers, repeat=n)]
