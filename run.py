#!/usr/bin/env python3
"""Runs one check: ``run.py PNN quick|thorough`` or ``run.py PNN replay FILE``."""
import os
import sys

VENV = '/opt/venv/bin/python'
ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'TZ': 'XYZ3:30',
       'DATASTORE_EMULATOR_HOST': 'localhost:1', 'GOOGLE_CLOUD_PROJECT': 'app'}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:])

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
repo = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, repo)


def run():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    replay = sys.argv[3] if tier == 'replay' else None
    os.chdir(here)
    from mc import core
    return core.main(f'mc.checks.{prop.lower()}', 'quick' if replay else tier, replay)


if __name__ == '__main__':
    rc = run()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
