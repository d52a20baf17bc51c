"""In-process model of memcached behind pymemcache's client interface.

Every request is one atomic step. Values are bytes, like in real memcached. ``add``,
``set`` and ``delete`` return True without an answer unless they're called with
``noreply=False``, which is pymemcache's default.
"""
import math

from . import sched


class Server:
    """A cache server. clock: seconds, for expirations."""
    def __init__(self, clock=None):
        self.data = {}      # key bytes => (value bytes, expiration or None)
        self.clock = clock or (lambda: 0)
        self.history = []
        self.adds = []      # those that took effect

    def live(self, key):
        got = self.data.get(key)
        if got is None:
            return None
        if got[1] is not None and self.clock() >= got[1]:
            del self.data[key]
            return None
        return got

    def put(self, key, value, expire):
        # memcached: 0 never expires, negative is expired at once
        if not isinstance(expire, int) or isinstance(expire, bool):
            raise TypeError(f'expire must be int, got {expire!r}')
        until = None if expire == 0 else self.clock() + expire
        if expire < 0:
            self.data.pop(key, None)
        else:
            self.data[key] = (value, until)

    def evict(self, key=None):
        if key is None:
            self.data.clear()
        else:
            self.data.pop(key if isinstance(key, bytes) else key.encode(), None)


def legal(key):
    """Whether memcache allows a key."""
    if isinstance(key, str):
        if not key.isascii():
            return False
        key = key.encode()
    return bool(0 < len(key) <= 250 and not any(c <= 32 or c == 127 for c in key))


class Cache:
    """One process's client.

    hook (callable): (method, key) => None, or an exception to raise without effect, or
      ('after', exception)
    """
    def __init__(self, server, hook=None):
        self.server, self.hook = server, hook

    def _do(self, method, key, fn, noreply):
        if not legal(key):
            raise ValueError(f'illegal key {key!r}')
        if isinstance(key, str):
            key = key.encode('ascii')
        todo = self.hook(method, key) if self.hook else None
        if isinstance(todo, Exception):
            raise todo
        ret = fn(key)
        self.server.history.append((method, key, ret))
        if todo:
            raise todo[1]
        return True if noreply else ret

    @staticmethod
    def _bytes(v):
        return v if isinstance(v, bytes) else str(v).encode()

    def get(self, key, default=None):
        def go(key):
            got = self.server.live(key)
            return default if got is None else got[0]
        return self._do('get', key, go, False)

    def get_many(self, keys):
        return {k: v for k in keys if (v := self.get(k)) is not None}

    get_multi = get_many

    def gets(self, key, default=None, cas_default=None):
        def go(key):
            got = self.server.live(key)
            return (default, cas_default) if got is None else (got[0], repr(got).encode())
        return self._do('gets', key, go, False)

    def cas(self, key, value, cas, expire=0, noreply=False):
        def go(key):
            got = self.server.live(key)
            if got is None:
                return None
            if repr(got).encode() != cas:
                return False
            self.server.put(key, self._bytes(value), expire)
            return True
        return self._do('cas', key, go, noreply)

    def set(self, key, value, expire=0, noreply=None, flags=None):
        def go(key):
            self.server.put(key, self._bytes(value), expire)
            return True
        return self._do('set', key, go, noreply is not False)

    def add(self, key, value, expire=0, noreply=None, flags=None):
        def go(key):
            if self.server.live(key) is not None:
                return False
            self.server.put(key, self._bytes(value), expire)
            self.server.adds.append((key, value))
            return True
        return self._do('add', key, go, noreply is not False)

    def replace(self, key, value, expire=0, noreply=None, flags=None):
        def go(key):
            if self.server.live(key) is None:
                return False
            self.server.put(key, self._bytes(value), expire)
            return True
        return self._do('replace', key, go, noreply is not False)

    def delete(self, key, noreply=None):
        def go(key):
            had = self.server.live(key) is not None
            self.server.data.pop(key, None)
            return had
        return self._do('delete', key, go, noreply is not False)

    def touch(self, key, expire=0, noreply=None):
        def go(key):
            got = self.server.live(key)
            if got is None:
                return False
            self.server.put(key, got[0], expire)
            return True
        return self._do('touch', key, go, noreply is not False)

    def _incr(self, method, key, n, noreply):
        def go(key):
            got = self.server.live(key)
            if got is None:
                return None
            v = max(int(got[0]) + n, 0) % 2 ** 64
            self.server.data[key] = (str(v).encode(), got[1])
            return v
        ret = self._do(method, key, go, False)
        return None if noreply else ret

    def incr(self, key, value, noreply=False):
        return self._incr('incr', key, value, noreply)

    def decr(self, key, value, noreply=False):
        return self._incr('decr', key, -value, noreply)

    def flush_all(self, delay=0, noreply=None):
        def go(key):
            self.server.data.clear()
            return True
        return self._do('flush_all', b'-', go, noreply is not False)


def stepping(method, key):
    """Hook that makes every request a scheduling point."""
    sched.point(f'cache {method}')
