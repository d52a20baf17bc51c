"""Memoizes runtime type validation inside third party libraries (multiformats, dag_cbor).

For values that aren't containers, whether a value fits a type depends only on the
value's class, unless the type is a Literal. This only saves time.
"""
import sys

import dag_cbor
import multiformats
import multiformats.cid
import typing_validation

_orig = typing_validation.validate
_ok = set()
_SIMPLE = (str, bytes, int, bool, type(None), float)
_lits = {}


def validate(val, t, **kw):
    c = val.__class__
    if c in _SIMPLE or c.__module__.startswith('multiformats'):
        key = (c, id(t))
        if key in _ok:
            return True
        res = _orig(val, t, **kw)
        if 'Literal' not in repr(t) and 'Protocol' not in repr(t):
            _ok.add(key)
            _lits[id(t)] = t  # keep alive, so that the id stays unique
        return res
    return _orig(val, t, **kw)


for name, m in list(sys.modules.items()):
    if name.split('.')[0] in ('multiformats', 'dag_cbor', 'bases') and m:
        for k, v in list(vars(m).items()):
            if v is _orig:
                setattr(m, k, validate)

# CIDs are immutable, and decoding and encoding them are pure functions
_dec = multiformats.CID.decode
_enc = multiformats.CID.encode
_decoded, _encoded = {}, {}


def decode(cid):
    if cid.__class__ not in (str, bytes):
        return _dec(cid)
    got = _decoded.get(cid)
    if got is None:
        got = _dec(cid)
        if len(_decoded) > 50000:
            _decoded.clear()
        _decoded[cid] = got
    return got


def encode(self, base=None):
    if base is not None and base.__class__ is not str:
        return _enc(self, base)
    key = (self.version, self.codec.name, bytes(self.digest), self.base.name, base)
    got = _encoded.get(key)
    if got is None:
        got = _enc(self, base)
        if len(_encoded) > 50000:
            _encoded.clear()
        _encoded[key] = got
    return got


multiformats.CID.decode = staticmethod(decode)
multiformats.CID.encode = encode
