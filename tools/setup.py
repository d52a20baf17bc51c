"""Nothing to build: checks that the interpreter and the code under test import."""
import subprocess
import sys
import os

env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', DATASTORE_EMULATOR_HOST='localhost:1')
sys.exit(subprocess.call(['/opt/venv/bin/python', '-c', 'import sys; sys.path.insert(0, "/repo"); import arroba.mst, arroba.storage'], env=env))
