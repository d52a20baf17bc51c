"""Calls XRPC methods of the real server in process, with lexicon validation on."""
import contextlib
import os

from flask import Flask

from . import env
import webutil.util
from arroba import server as aserver
from arroba import xrpc_repo, xrpc_server, xrpc_sync  # registers the methods
from arroba import util
from lexrpc.base import ValidationError, XrpcError
from lexrpc.server import Redirect

TOKEN = 'towkin'
app = Flask('mc', static_folder=None)
util.DISABLE_GETREPO = False
util.GETREPO_TOKEN = None


ENVIRONS = {}


class Resp:
    def __init__(self, status=200, json=None, text=None, headers=None, content=None, url=None):
        self.status_code, self._json, self.text = status, json, text
        self.ok = status < 400
        self.headers = headers or {}
        self.content = content if content is not None else (text or '').encode()
        self.url = url

    def json(self):
        if self._json is None:
            raise ValueError('not JSON')
        return self._json

    def raise_for_status(self):
        if not self.ok:
            import requests
            raise requests.HTTPError(f'{self.status_code}', response=self)


def did_doc_get(url, **kw):
    """Answers DID document fetches of did:web DIDs."""
    host = url.removeprefix('https://').split('/')[0]
    return Resp(json={'id': f'did:web:{host}'}, url=url)


webutil.util.session.get = did_doc_get


@contextlib.contextmanager
def config(**kw):
    """Sets (or with None unsets) environment variables."""
    old = {k: os.environ.get(k) for k in kw}
    try:
        for k, v in kw.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def raw_call(storage, nsid, input=None, auth=f'Bearer {TOKEN}', server_token=TOKEN, validate=True,
             **params):
    """Calls a method. Returns (True, output) or (False, exception)."""
    aserver.storage = storage
    s = aserver.server
    old = s._validate
    s._validate = validate
    if auth not in ENVIRONS:
        headers = {'Authorization': auth} if auth is not None else {}
        with app.test_request_context('/', headers=headers) as c:
            ENVIRONS[auth] = {k: v for k, v in c.request.environ.items()
                              if not k.startswith('werkzeug.request')}
    try:
        with config(REPO_TOKEN=server_token), app.request_context(dict(ENVIRONS[auth])):
            return True, s.call(nsid, input, **params)
    except (Exception, AssertionError) as e:
        return False, e
    finally:
        s._validate = old


def call(w, nsid, input=None, **kw):
    """Calls a method on a world's storage, in an ndb context as in an app."""
    sys = w.sys
    if sys.name == 'datastore':
        with sys.client.context():
            return raw_call(sys.storage, nsid, input, **kw)
    return raw_call(sys.storage, nsid, input, **kw)


def err_name(e):
    """Error name of an exception as the client sees it."""
    if isinstance(e, XrpcError):
        return e.name
    if isinstance(e, ValidationError):
        return 'ValidationError'
    return type(e).__name__
