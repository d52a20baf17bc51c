"""Conformance check of mc/fakeds.py: runs the repo's own Datastore emulator tests on it.

Usage: /opt/venv/bin/python -B tools/conformance_fakeds.py arroba.tests.test_datastore_storage ...
"""
import sys, os, unittest
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[VERIF, os.environ.get('VERIF_REPO', '/repo')]
os.environ.update(DATASTORE_EMULATOR_HOST='localhost:1', GOOGLE_CLOUD_PROJECT='app')
from mc import fakeds
fakeds.install()
import requests
_post = requests.post
from google.cloud import ndb
import importlib
import arroba.tests.testutil as tu
from webutil import appengine_config
cur = {}
def post(url, *a, **k):
    if url.endswith('/reset'):
        cur['db'] = fakeds.DB()
        appengine_config.ndb_client.stub = fakeds.FakeStub(cur['db'])
        class R:
            status_code=200
            ok=True
            text=''
            def raise_for_status(self): pass
        return R()
    return _post(url,*a,**k)
requests.post = post
names = sys.argv[1:]
s = unittest.defaultTestLoader.loadTestsFromNames(names)
r = unittest.TextTestRunner(verbosity=1, failfast=False).run(s)
sys.exit(not r.wasSuccessful())
