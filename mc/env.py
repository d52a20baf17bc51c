"""Builds the system under test: storages, repos, deterministic keys and clock."""
import base64
import datetime
import itertools
import logging
import os

os.environ.setdefault('DATASTORE_EMULATOR_HOST', 'localhost:1')
os.environ.setdefault('GOOGLE_CLOUD_PROJECT', 'app')
os.environ.setdefault('PLC_HOST', 'plc.local')
os.environ.setdefault('PDS_HOST', 'pds.local')
# test key for ndb's EncryptedProperty
os.environ.setdefault('ENCRYPTED_PROPERTY_KEY', base64.b64encode(b'k' * 32).decode())

from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
from multiformats import CID

from . import speed
import webutil.util
import arroba.mst
import arroba.storage
from arroba.repo import Repo, Write
from arroba.server import server
from arroba.storage import Action, CommitData, MemoryStorage, SUBSCRIBE_REPOS_NSID
from . import ref

logging.disable(logging.CRITICAL)

# records here don't need to match lexicons, like in the repo's own tests
ORIGINAL_CONFIG = (server._validate, server._truncate, server._require_lexicons)
server._validate = server._truncate = False

NSID = SUBSCRIBE_REPOS_NSID
KEYS = [ec.derive_private_key(0x1000 + i, ec.SECP256K1()) for i in range(4)]
P256 = [ec.derive_private_key(0x2000 + i, ec.SECP256R1()) for i in range(2)]
DID = 'did:web:user.com'
DID2 = 'did:web:other.com'
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


TICK = 0  # minutes; the number of operations so far


def now():
    return (datetime.datetime(2024, 1, 2, 3, 4, 5, 678000, tzinfo=datetime.timezone.utc)
            + datetime.timedelta(minutes=TICK))


webutil.util.now = now


def rec(i, coll=None):
    """Record number i."""
    return {'$type': coll or 'x.y.z', 'n': i, 's': f'record {i}'}


def rec_cid(i, coll=None):
    return ref.cid(rec(i, coll))


class Mem:
    """MemoryStorage backend."""
    name = 'memory'

    def __init__(self):
        self.storage = MemoryStorage()

    def reopen(self):
        """A fresh process on the same data: only for backends that persist."""
        return self.storage

    def close(self):
        pass


class DS:
    """DatastoreStorage backend on the in-process Datastore."""
    name = 'datastore'

    def __init__(self, db=None, hook=None, page=None, sequences=None, ctx=True):
        from . import fakeds
        fakeds.install()
        from arroba.datastore_storage import DatastoreStorage
        self.db = db or fakeds.DB()
        self.client = fakeds.client(self.db, hook=hook, page=page)
        seqs = sequences(self.client) if sequences else None
        self.storage = DatastoreStorage(sequences=seqs, ndb_client=self.client)
        self.hook = hook

    def reopen(self):
        """A fresh process on the same data."""
        new = DS(self.db)
        self.client, self.storage = new.client, new.storage
        return self.storage

    def close(self):
        pass


def make(backend):
    return Mem() if backend == 'memory' else DS()


def create_repo(storage, did=DID, handle='han.dle', key=0, callback=None):
    return Repo.create(storage, did, handle=handle, signing_key=KEYS[key],
                       rotation_key=KEYS[3], callback=callback)


def path_write(action, path, n=None):
    coll, rkey = path.split('/')
    act = {'create': Action.CREATE, 'update': Action.UPDATE, 'delete': Action.DELETE}[action]
    if act == Action.DELETE:
        return Write(action=act, collection=coll, rkey=rkey)
    return Write(action=act, collection=coll, rkey=rkey, record=rec(n))


def cidb(c):
    return bytes(c) if c is not None else None


def raw_get(storage):
    def get(c):
        b = storage.read(CID.decode(c))
        if b is None:
            raise KeyError(ref.b32(c))
        return b.encoded
    return get


def verify_commit(raw, pubkey):
    """Independent signature check of an encoded commit. Returns the decoded commit."""
    c = ref.decode(raw)
    sig = c['sig']
    if len(sig) != 64:
        raise ValueError('signature is not 64 bytes')
    r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
    if isinstance(pubkey.curve, ec.SECP256K1) and s > N // 2:
        raise ValueError('high-S signature')
    unsigned = {k: v for k, v in c.items() if k != 'sig'}
    pubkey.verify(encode_dss_signature(r, s), ref.encode(unsigned), ec.ECDSA(hashes.SHA256()))
    return c


TID_ALPHA = '234567abcdefghijklmnopqrstuvwxyz'


def tid_int(t):
    assert len(t) == 13, t
    n = 0
    for ch in t:
        n = n * 32 + TID_ALPHA.index(ch)
    return n


def rev_of(seq):
    n = seq << 10
    s = ''
    for _ in range(13):
        s = TID_ALPHA[n & 31] + s
        n >>= 5
    return s


def op_of(o):
    return (o.action.name.lower(), o.path, cidb(o.cid), cidb(o.prev_cid))
