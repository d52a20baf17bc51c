"""Independent, boring reference implementation of the AT Protocol data formats:
DAG-CBOR, CIDs, CARs, Merkle search trees. Shares no code with arroba.

CIDs are raw bytes (36 bytes for sha-256 DAG-CBOR CIDv1).
"""
import hashlib
import struct


class Link:
    """A CID inside decoded DAG-CBOR."""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = bytes(b)

    def __eq__(self, o):
        return isinstance(o, Link) and o.b == self.b

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        return f'Link({b32(self.b)})'


def b32(b):
    import base64
    return 'b' + base64.b32encode(b).decode().lower().rstrip('=')


def unb32(s):
    import base64
    assert s[0] == 'b'
    s = s[1:].upper()
    return base64.b32decode(s + '=' * (-len(s) % 8))


def _head(major, n):
    if n < 24:
        return bytes([major << 5 | n])
    if n < 1 << 8:
        return bytes([major << 5 | 24, n])
    if n < 1 << 16:
        return bytes([major << 5 | 25]) + struct.pack('>H', n)
    if n < 1 << 32:
        return bytes([major << 5 | 26]) + struct.pack('>I', n)
    return bytes([major << 5 | 27]) + struct.pack('>Q', n)


def encode(v):
    if v is None:
        return b'\xf6'
    if v is True:
        return b'\xf5'
    if v is False:
        return b'\xf4'
    if isinstance(v, int):
        return _head(0, v) if v >= 0 else _head(1, -1 - v)
    if isinstance(v, bytes):
        return _head(2, len(v)) + v
    if isinstance(v, str):
        e = v.encode()
        return _head(3, len(e)) + e
    if isinstance(v, Link):
        return b'\xd8\x2a' + encode(b'\0' + v.b)
    if isinstance(v, (list, tuple)):
        return _head(4, len(v)) + b''.join(encode(x) for x in v)
    if isinstance(v, dict):
        items = sorted(((k.encode(), x) for k, x in v.items()),
                       key=lambda kx: (len(kx[0]), kx[0]))
        return _head(5, len(v)) + b''.join(encode(k.decode()) + encode(x)
                                           for k, x in items)
    if isinstance(v, float):
        return b'\xfb' + struct.pack('>d', v)
    if type(v).__name__ == 'CID':  # multiformats
        return encode(Link(bytes(v)))
    raise TypeError(type(v))


def decode_prefix(b, i=0):
    """Decodes one value, returns (value, next index)."""
    ib = b[i]
    major, info = ib >> 5, ib & 31
    i += 1
    if major == 7:
        if ib == 0xf6:
            return None, i
        if ib == 0xf5:
            return True, i
        if ib == 0xf4:
            return False, i
        if ib == 0xfb:
            return struct.unpack('>d', b[i:i + 8])[0], i + 8
        raise ValueError('bad simple value')
    if info < 24:
        n = info
    elif info <= 27:
        w = 1 << (info - 24)
        n = int.from_bytes(b[i:i + w], 'big')
        i += w
    else:
        raise ValueError('indefinite length')
    if major == 0:
        return n, i
    if major == 1:
        return -1 - n, i
    if major in (2, 3):
        raw = bytes(b[i:i + n])
        if len(raw) != n:
            raise ValueError('truncated')
        return (raw if major == 2 else raw.decode()), i + n
    if major == 4:
        out = []
        for _ in range(n):
            x, i = decode_prefix(b, i)
            out.append(x)
        return out, i
    if major == 5:
        out = {}
        for _ in range(n):
            k, i = decode_prefix(b, i)
            x, i = decode_prefix(b, i)
            out[k] = x
        return out, i
    if major == 6:
        x, i = decode_prefix(b, i)
        if n != 42 or x[:1] != b'\0':
            raise ValueError('bad tag')
        return Link(x[1:]), i


def decode(b):
    v, i = decode_prefix(b)
    if i != len(b):
        raise ValueError('trailing bytes')
    return v


def cid_of(encoded):
    return b'\x01\x71\x12\x20' + hashlib.sha256(encoded).digest()


def cid(v):
    return cid_of(encode(v))


# CAR

def _varint(b, i):
    n = s = 0
    while True:
        x = b[i]
        i += 1
        n |= (x & 127) << s
        s += 7
        if not x & 128:
            return n, i


def read_car(b):
    """Returns (list of root CID bytes, list of (CID bytes, block bytes))."""
    n, i = _varint(b, 0)
    header = decode(b[i:i + n])
    i += n
    assert header['version'] == 1, header
    blocks = []
    while i < len(b):
        n, i = _varint(b, i)
        assert i + n <= len(b), 'truncated CAR'
        blocks.append((bytes(b[i:i + 36]), bytes(b[i + 36:i + n])))
        i += n
    return [r.b for r in header['roots']], blocks


def _to_varint(n):
    out = b''
    while n >= 128:
        out += bytes([n & 127 | 128])
        n >>= 7
    return out + bytes([n])


def write_car(roots, blocks):
    h = encode({'version': 1, 'roots': [Link(r) for r in roots]})
    out = _to_varint(len(h)) + h
    for c, b in blocks:
        out += _to_varint(len(c) + len(b)) + c + b
    return out


# MST

_LAYERS = {}


def layer(key):
    """Number of leading pairs of zero bits of the key's SHA-256."""
    if key not in _LAYERS:
        n = int.from_bytes(hashlib.sha256(key.encode()).digest(), 'big')
        _LAYERS[key] = (256 - n.bit_length()) // 2
    return _LAYERS[key]


def _node(left, entries):
    """entries: list of (key, value CID, right subtree CID or None)."""
    es = []
    prev = b''
    for k, v, t in entries:
        kb = k.encode()
        p = 0
        while p < len(prev) and p < len(kb) and prev[p] == kb[p]:
            p += 1
        es.append({'p': p, 'k': kb[p:], 'v': Link(v), 't': Link(t) if t else None})
        prev = kb
    enc = encode({'l': Link(left) if left else None, 'e': es})
    return cid_of(enc), enc


def build(items):
    """Builds the canonical tree.

    Args:
      items (dict): str key => CID bytes

    Returns:
      (root CID bytes, dict CID bytes => block bytes)
    """
    blocks = {}

    def sub(ks, lay):
        if not ks:
            return None
        # split at keys of this layer
        left, entries, cur = None, [], []
        groups = []
        for k in ks:
            if layer(k) == lay:
                groups.append(cur)
                groups.append(k)
                cur = []
            else:
                cur.append(k)
        groups.append(cur)
        left = sub(groups[0], lay - 1)
        for i in range(1, len(groups), 2):
            entries.append((groups[i], items[groups[i]], sub(groups[i + 1], lay - 1)))
        c, enc = _node(left, entries)
        blocks[c] = enc
        return c

    ks = sorted(items)
    if not ks:
        c, enc = _node(None, [])
        return c, {c: enc}
    root = sub(ks, max(layer(k) for k in ks))
    return root, blocks


def walk(root, get):
    """Walks a stored tree from its root.

    Args:
      root (bytes)
      get: callable, CID bytes => block bytes, raises KeyError if missing

    Returns:
      (dict key => value CID bytes, set of node CIDs)
    """
    items, nodes = {}, set()

    def rec(c):
        nodes.add(c)
        n = decode(get(c))
        if n['l']:
            rec(n['l'].b)
        prev = b''
        for e in n['e']:
            prev = prev[:e['p']] + e['k']
            items[prev.decode()] = e['v'].b
            if e['t']:
                rec(e['t'].b)

    rec(root)
    return items, nodes


class Missing(Exception):
    pass


def partial(root, blocks):
    """Flattens a partial tree into in-order items: ('leaf', key, value) and
    ('stub', CID, layer). Stubs are subtrees whose block isn't in blocks."""
    out = []

    def node_layer(n):
        if n['e']:
            return layer(n['e'][0]['k'].decode())
        return None

    def rec(c, lay):
        if c not in blocks:
            if lay is None:
                raise Missing('unknown layer')
            out.append(('stub', c, lay))
            return lay
        n = decode(blocks[c])
        l = node_layer(n)
        if l is not None:
            if lay is not None and l != lay:
                raise ValueError('layer mismatch')
            lay = l
        mark = len(out)
        if n['l']:
            sub = rec(n['l'].b, lay - 1 if lay is not None else None)
            if lay is None:
                lay = sub + 1
        prev = b''
        for e in n['e']:
            prev = prev[:e['p']] + e['k']
            out.append(('leaf', prev.decode(), e['v'].b))
            if e['t']:
                rec(e['t'].b, lay - 1)
        return lay if lay is not None else 0

    if root not in blocks:
        raise Missing('root')
    rec(root, None)
    return out


def invert(root, blocks, ops):
    """Undoes operations on a partial tree, with only the given blocks.

    Args:
      root (bytes)
      blocks (dict): CID bytes => bytes
      ops: list of (action, path, new CID bytes or None, prev CID bytes or None)

    Returns:
      bytes, previous root

    Raises:
      Missing if the blocks aren't enough
      ValueError if the operations don't fit the tree
    """
    items = partial(root, blocks)
    for action, path, new, prev in ops:
        # leaves on each side
        idx = next((i for i, it in enumerate(items)
                    if it[0] == 'leaf' and it[1] == path), None)
        if action in ('create', 'update'):
            if idx is None:
                raise Missing(f'{path} is not in the partial tree')
            if items[idx][2] != new:
                raise ValueError(f'{path} has the wrong value')
            if action == 'update':
                items[idx] = ('leaf', path, prev)
            else:
                del items[idx]
        elif action == 'delete':
            if idx is not None:
                raise ValueError(f'deleted {path} is in the tree')
            pos = len(items)
            for i, it in enumerate(items):
                if it[0] == 'leaf' and it[1] > path:
                    pos = i
                    break
            if pos > 0 and items[pos - 1][0] == 'stub':
                raise Missing(f'{path} may be inside an unknown subtree')
            items.insert(pos, ('leaf', path, prev))
        else:
            raise ValueError(action)

    # rebuild
    if not items:
        return build({})[0]

    def lay_of(it):
        return layer(it[1]) if it[0] == 'leaf' else it[2]

    def sub(its, lay):
        if not its:
            return None
        if len(its) == 1 and its[0][0] == 'stub' and its[0][2] == lay:
            return its[0][1]
        left, groups, cur = None, [], []
        for it in its:
            if it[0] == 'leaf' and layer(it[1]) == lay:
                groups += [cur, it]
                cur = []
            elif it[0] == 'stub' and it[2] >= lay:
                raise Missing('a subtree needs to be merged with its neighbour')
            else:
                cur.append(it)
        groups.append(cur)
        left = sub(groups[0], lay - 1)
        es = []
        for i in range(1, len(groups), 2):
            es.append((groups[i][1], groups[i][2], sub(groups[i + 1], lay - 1)))
        return _node(left, es)[0]

    top = max(lay_of(i) for i in items)
    # trim: a top that's only one stub
    if len(items) == 1 and items[0][0] == 'stub':
        return items[0][1]
    if not any(i[0] == 'leaf' and layer(i[1]) == top for i in items):
        raise Missing('the new root is an unknown subtree')
    return sub(items, top)


# keys

def keys_for(pattern, seed=1, coll='c', salt='', width=3):
    """Finds ordered keys ``coll/xyz`` with the given layers.

    Args:
      pattern: sequence of int, layer of each key in ascending key order

    Returns: list of str
    """
    alpha = '0123456789abcdefghijklmnopqrstuvwxyz'
    n = len(alpha) ** width
    out = []
    per = n // len(pattern)
    for pos, want in enumerate(pattern):
        # seed picks the representative
        start = (seed * 2654435761 + pos * 40503) % (per // 4)
        for off in range(per):
            i = pos * per + (start + off) % per
            s, x = '', i
            for _ in range(width):
                s = alpha[x % len(alpha)] + s
                x //= len(alpha)
            k = f'{coll}/{salt}{s}'
            if layer(k) == want:
                out.append(k)
                break
        else:
            if width < 5:
                return keys_for(pattern, seed, coll, salt, width + 1)
            raise ValueError(f'no key of layer {want}')
    assert out == sorted(out)
    return out
