"""Reads what's stored in the simulated Datastore, without any code under test."""
from . import env, ref


class Bad(Exception):
    pass


class RepoState:
    """A stored repo: did, head, chain (commit CIDs, oldest first), revs, seqs, items,
    status, handle."""

    def same(self, o):
        return (o is not None and (self.did, self.head, self.items, self.status, self.handle)
                == (o.did, o.head, o.items, o.status, o.handle))


def blocks(db):
    """CID bytes => (encoded, seq, ops)"""
    out = {}
    for k, (e, v) in db.entities.items():
        if k[-1][0] == 'AtpBlock':
            p = e.properties
            out[ref.unb32(k[-1][1])] = (p['encoded'].blob_value, p['seq'].integer_value)
    return out


def read_repo(db, did, key, chain=True):
    """Returns a :class:`RepoState`, or None. Raises Bad if anything's missing or wrong.

    chain: whether all earlier commits must be stored. They're not for imported repos.
    """
    ent = db.entities.get((('AtpRepo', did),))
    if ent is None:
        return None
    p = ent[0].properties
    st = RepoState()
    st.did = did
    st.head = ref.unb32(p['head'].string_value)
    st.status = p['status'].string_value or None
    hs = [v.string_value for v in p['handles'].array_value.values]
    st.handle = hs[0] if hs else None
    all_blocks = blocks(db)
    for c, (enc, _) in all_blocks.items():
        if ref.cid_of(enc) != c:
            raise Bad(f"block {ref.b32(c)} doesn't match its CID")

    def get(c):
        if c not in all_blocks:
            raise Bad(f'block {ref.b32(c)} is not stored')
        return all_blocks[c][0]

    st.chain, st.revs, st.seqs, st.trees = [], [], [], []
    c = st.head
    while c:
        if c in st.chain:
            raise Bad('cycle in the commit chain')
        st.chain.insert(0, c)
        d = env.verify_commit(get(c), key.public_key())
        if d['did'] != did or d['version'] != 3:
            raise Bad("wrong DID or version in commit")
        st.revs.insert(0, d['rev'])
        st.seqs.insert(0, all_blocks[c][1])
        items, _ = ref.walk(d['data'].b, get)
        for r in items.values():
            get(r)
        st.trees.insert(0, items)
        c = d['prev'].b if d['prev'] else None
        if c not in all_blocks and not chain:
            break
    st.items = st.trees[-1]
    return st


def canon(db):
    """A form of everything stored that's equal for databases that only differ in random
    signatures, and times."""
    names = {}
    blks = blocks(db)

    def name(c):
        if c is None or c not in blks:
            return repr(c)
        if c not in names:
            d = ref.decode(blks[c][0])
            if isinstance(d, dict) and 'sig' in d:
                prev = d['prev'].b if d['prev'] else None
                names[c] = ('commit', d['did'], d['rev'], d['data'].b, name(prev))
            elif isinstance(d, dict) and str(d.get('$type')).endswith('#sync'):
                names[c] = ('sync', d['did'], d['seq'], d['rev'])
            else:
                names[c] = c
        return names[c]

    out = []
    for k, (e, v) in db.entities.items():
        p = e.properties
        if k[-1][0] == 'AtpBlock':
            c = ref.unb32(k[-1][1])
            ops = []
            if 'ops' in p:
                ops = [x.SerializeToString(deterministic=True)
                       for x in p['ops'].array_value.values]
            out.append(('block', name(c), p['seq'].integer_value, tuple(ops)))
        elif k[-1][0] == 'AtpRepo':
            out.append((k, name(ref.unb32(p['head'].string_value)), p['status'].string_value,
                        p['handles'].SerializeToString(deterministic=True)))
        elif k[-1][0] == 'AtpSequence':
            out.append((k, p['next'].integer_value))
        else:
            out.append((k, e.SerializeToString(deterministic=True)))
    return hash(tuple(sorted(out, key=repr)))
