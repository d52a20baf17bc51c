"""Shared machinery of all checks: work units, parallel exploration, evidence,
violations, known findings, replay.

A check is a module ``mc.checks.pNN`` with

* ``ID``, ``TECHNIQUE``, ``LEVEL`` ('model_checking', 'exploration' or
  'fault_enumeration')
* ``units(tier, seed)``: list of JSON-able work units. Together they are the bounded
  space that this run enumerates completely.
* ``run_unit(unit, ctx)``: explores one unit on the real code, exhaustively. Counts with
  ``ctx.state()``, ``ctx.step()``, ``ctx.execution()`` and reports with ``ctx.violation()``.
* ``ASSUMPTIONS`` and ``RULE``: text for the evidence file.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
KNOWN_FILE = os.path.join(VERIF, 'known_findings.json')
REPLAYS = os.path.join(VERIF, 'replays')


class StopUnit(Exception):
    """Raised to abandon a unit after its first unlisted violations."""


class Known:
    """The committed list of known findings.

    Each entry: {"property", "id", "match": {field: value or regex}, "what"}. An entry
    matches a violation if every field of ``match`` fully matches the str of the same
    field of the violation's signature.
    """
    def __init__(self, prop):
        try:
            entries = json.load(open(KNOWN_FILE))['findings']
        except FileNotFoundError:
            entries = []
        self.entries = [e for e in entries if e['property'] == prop]

    def find(self, sig):
        for e in self.entries:
            if all(re.fullmatch(str(v), str(sig.get(k, '')), re.S)
                   for k, v in e['match'].items()):
                return e
        return None


class Ctx:
    """Collects what exploring one unit covered and found."""
    MAX_VIOLATIONS = 2

    def __init__(self, prop, tier, seed, known, deadline=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.known = known
        self.deadline = deadline
        self.counts = collections.Counter()
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.outcomes = set()
        self.unit = None
        self.capped = False

    # counting
    def state(self, n=1):
        self.counts['states'] += n

    def step(self, n=1):
        self.counts['transitions'] += n

    def execution(self, n=1):
        self.counts['executions'] += n

    def count(self, name, n=1):
        self.counts[name] += n

    def outcome(self, key):
        """Records one distinct observed outcome (hashed)."""
        if not isinstance(key, str):
            key = json.dumps(key, sort_keys=True, default=str)
        self.outcomes.add(hashlib.sha1(key.encode()).hexdigest()[:12])

    def sample(self, obj, every=1):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def violation(self, what, sig=None, **detail):
        """Reports a violation of the property.

        Args:
          what (str): one line
          sig (dict): identifies the input, call site or history; matched against the
            known findings
          detail: anything that helps replay it
        """
        sig = {'what': what, **(sig or {})}
        entry = self.known.find(sig)
        if entry:
            self.known_hits[entry['id']] = entry['what']
            self.counts['known_finding_occurrences'] += 1
            return entry
        self.violations.append({
            'property': self.prop, 'what': what, 'sig': sig, 'unit': self.unit,
            'detail': detail,
        })
        if len(self.violations) >= self.MAX_VIOLATIONS:
            raise StopUnit()

    def check(self, cond, what, sig=None, **detail):
        if not cond:
            self.violation(what, sig, **detail)
        return cond

    def expired(self):
        if self.deadline and time.time() > self.deadline:
            self.capped = True
            return True
        return False


def short_tb(e):
    """Short traceback: exception plus the frames in arroba."""
    frames = [f'{os.path.basename(f.filename)}:{f.lineno} {f.name}'
              for f in traceback.extract_tb(e.__traceback__)]
    return f'{type(e).__name__}: {e} @ ' + ' < '.join(reversed(frames[-6:]))


_MOD = None
_ARGS = None


def _init_worker(modname, args):
    global _MOD, _ARGS
    sys.stdout = sys.stderr
    _MOD = importlib.import_module(modname)
    _ARGS = args


def _run_one(arg):
    idx, unit = arg
    prop, tier, seed, deadline = _ARGS
    ctx = Ctx(prop, tier, seed, Known(prop), deadline)
    ctx.unit = unit
    err = None
    if ctx.expired():
        ctx.counts['units_not_run'] += 1
    else:
        try:
            _MOD.run_unit(unit, ctx)
            ctx.counts['units'] += 1
        except StopUnit:
            pass
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            # every unit runs without exceptions on code that has the property, so if an
            # expectation of the harness itself fails, the code under test broke it
            tb = traceback.format_exc()
            try:
                ctx.violation(f'unexpected exception {type(e).__name__}: {str(e)[:300]}',
                              sig={'exception': type(e).__name__, 'where': short_tb(e)},
                              traceback=tb)
            except StopUnit:
                pass
    return {
        'idx': idx, 'counts': dict(ctx.counts), 'samples': ctx.samples,
        'violations': ctx.violations, 'known': ctx.known_hits, 'error': err,
        'outcomes': list(ctx.outcomes), 'capped': ctx.capped,
    }


def _to_json(o):
    if isinstance(o, bytes):
        return o.hex()
    if isinstance(o, (set, frozenset)):
        return sorted(o, key=str)
    return str(o)


def main(modname, tier, replay=None, workers=None):
    seed = int(os.environ.get('VERIF_SEED') or 1)
    mod = importlib.import_module(modname)
    prop = mod.ID
    start = time.time()
    limit = float(os.environ.get('VERIF_LIMIT_S') or
                  (getattr(mod, 'QUICK_LIMIT_S', 600) if tier == 'quick'
                   else getattr(mod, 'THOROUGH_LIMIT_S', 3000)))
    deadline = start + limit

    if replay:
        rec = json.load(open(replay))
        units = [rec['unit']]
        seed = rec.get('seed', seed)
        tier = rec.get('tier', tier)
    else:
        units = mod.units(tier, seed)

    args = (prop, tier, seed, deadline)
    total = collections.Counter()
    samples, violations, known, errors, outcomes = [], [], {}, [], set()
    capped = False
    workers = workers or int(os.environ.get('VERIF_WORKERS') or
                             getattr(mod, 'WORKERS', 8))

    def absorb(r):
        nonlocal capped
        total.update(r['counts'])
        if len(samples) < 5:
            samples.extend(r['samples'][:5 - len(samples)])
        violations.extend(r['violations'])
        known.update(r['known'])
        outcomes.update(r['outcomes'])
        capped = capped or r['capped']
        if r['error']:
            errors.append(r['error'])

    jobs = list(enumerate(units))
    if workers <= 1 or len(jobs) <= 1:
        _init_worker(modname, args)
        for j in jobs:
            absorb(_run_one(j))
            if len(violations) >= 4:
                break
    else:
        mp = multiprocessing.get_context('fork')
        chunk = max(1, min(getattr(mod, 'CHUNK', 8), len(jobs) // (workers * 4) or 1))
        pool = mp.Pool(workers, _init_worker, (modname, args),
                       maxtasksperchild=getattr(mod, 'MAXTASKS', None))
        try:
            for r in pool.imap_unordered(_run_one, jobs, chunk):
                absorb(r)
                if len(violations) >= 4:
                    break
        finally:
            pool.terminate()
            pool.join()
    sys.stdout = sys.__stdout__

    final = getattr(mod, 'finalize', None)
    if final and not violations and not errors and not replay:
        # checks on the whole run, eg that the exploration was not vacuous
        msg = final(total, outcomes, tier)
        if msg:
            errors.append(msg)

    wall = time.time() - start
    cov = {
        'units_total': len(units),
        'exhaustive': not capped and not violations and not errors,
        'rule': mod.RULE,
        'samples': samples or ['(none)'],
        'distinct_outcomes': len(outcomes),
        **{k: v for k, v in sorted(total.items())},
    }
    cov.setdefault('states', 0)
    cov.setdefault('transitions', 0)
    if mod.LEVEL == 'model_checking':
        # every model step was executed against the implementation
        cov.setdefault('traces_validated_against_impl', total.get('executions', 0))
    else:
        cov.setdefault('evaluations', total.get('executions', 0))
        cov.setdefault('distinct_nontrivial', len(outcomes))
    evidence = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
        'assumptions': list(mod.ASSUMPTIONS), 'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', f'{prop}.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1, default=_to_json)
        os.replace(path + '.tmp', path)

    print(f'{prop} {tier}: units={total["units"]}/{len(units)} states={total["states"]} '
          f'transitions={total["transitions"]} executions={total["executions"]} '
          f'outcomes={len(outcomes)} capped={capped} wall={wall:.1f}s')
    for kid in sorted(known):
        print(f'KNOWN-FINDING: property={prop} {kid}: {known[kid]}')

    if violations:
        os.makedirs(REPLAYS, exist_ok=True)
        violations.sort(key=lambda v: len(json.dumps(v, default=_to_json)))
        for i, v in enumerate(violations[:3]):
            v['seed'], v['tier'] = seed, tier
            rp = os.path.join(REPLAYS, f'{prop}-{i}.json')
            if replay:
                rp = replay
            else:
                with open(rp, 'w') as f:
                    json.dump(v, f, indent=1, default=_to_json)
            print(f'  {v["what"]}')
            for k, val in v['detail'].items():
                s = json.dumps(val, default=_to_json)
                print(f'    {k}: {s[:1500]}')
            print(f'VIOLATION property={prop} replay={rp}')
        sys.stdout.flush()
        return 1
    if errors:
        print('CHECK ERROR:\n' + errors[0], file=sys.stderr)
        return 3
    sys.stdout.flush()
    return 0
