"""
Runtime-monitoring harness.

A check is a set of *families*; a family is a function `f(ctx)` that generates
one hostile workload from `ctx.rng`, runs the real zounds code on it and judges
what it observed with an independent oracle.  Oracles report through
`ctx.expect/eq/close/...`, which count every observation they judge; the
counters go to the evidence file and a run in which a required counter stayed
at zero ends inconclusive (exit 3), never "held".
"""
import collections
import hashlib
import json
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

from . import reach

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FAIL_FAST = bool(os.environ.get('VZ_FAIL_FAST'))


class Violation(Exception):
    def __init__(self, key, msg):
        super(Violation, self).__init__('[%s] %s' % (key, msg))
        self.key = key
        self.msg = msg


class Inconclusive(Exception):
    pass


class NoProgress(Exception):
    """CPU budget of one case exhausted"""


def _short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:  # a broken repr must not hide the finding
        s = '<unreprable %s: %r>' % (type(x).__name__, e)
    return s if len(s) <= n else s[:n] + '...'


class Ctx(object):
    def __init__(self, check, family, idx, seed, tier):
        import numpy as np
        self.check = check
        self.family = family
        self.idx = idx
        self.seed = seed
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.entropy = [seed & 0xffffffff, zlib.crc32(family.encode()), idx]
        self.rng = np.random.default_rng(self.entropy)
        self.counters = collections.Counter()
        self.sigs = set()
        self.desc = []
        self.trivial = False
        self.findings = []
        self._scratch = None

    # -- workload helpers -------------------------------------------------
    def seed_global(self):
        """seed the global generators the code under test draws from"""
        import random
        import numpy as np
        s = zlib.crc32(json.dumps(self.entropy).encode())
        np.random.seed(s)
        random.seed(s)
        if 'torch' in sys.modules:
            sys.modules['torch'].manual_seed(s)

    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix='case-', dir=SCRATCH)
        return self._scratch

    def choice(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def integer(self, lo, hi):
        """inclusive"""
        return int(self.rng.integers(lo, hi + 1))

    def coin(self, p=0.5):
        return bool(self.rng.random() < p)

    def say(self, *parts):
        """describe the case (goes to samples, signatures and replays)"""
        self.desc.append(' '.join(p if isinstance(p, str) else _short(p, 200)
                                  for p in parts))

    def count(self, name, n=1):
        self.counters[name] += n

    # -- oracles ----------------------------------------------------------
    def fail(self, key, *msg):
        raise Violation(key, ' '.join(
            m if isinstance(m, str) else _short(m) for m in msg))

    def expect(self, cond, key, *msg):
        self.counters['judged'] += 1
        self.counters['judged:' + key] += 1
        if not cond:
            self.fail(key, *msg)

    def eq(self, actual, expected, key, *msg):
        """exact equality of arrays / scalars (NaN == NaN), shapes included"""
        import numpy as np
        a, e = np.asarray(actual), np.asarray(expected)
        self.counters['judged'] += 1
        self.counters['judged:' + key] += 1
        if a.shape != e.shape:
            self.fail(key, 'shape', a.shape, 'expected', e.shape, *msg)
        ok = (a == e)
        if a.dtype.kind in 'fc' and e.dtype.kind in 'fc':
            ok = ok | ((a != a) & (e != e))
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))[:3].tolist()
            self.fail(key, 'values differ at', bad, 'got', a, 'expected', e, *msg)

    def close(self, actual, expected, key, *msg, **kw):
        import numpy as np
        rtol, atol = kw.get('rtol', 1e-7), kw.get('atol', 1e-9)
        a, e = np.asarray(actual), np.asarray(expected)
        self.counters['judged'] += 1
        self.counters['judged:' + key] += 1
        if a.shape != e.shape:
            self.fail(key, 'shape', a.shape, 'expected', e.shape, *msg)
        ok = np.isclose(a, e, rtol=rtol, atol=atol, equal_nan=kw.get('nan', False))
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))[:3].tolist()
            with np.errstate(all='ignore'):
                worst = np.nanmax(np.abs(np.asarray(a - e, dtype=np.complex128)))
            self.fail(key, 'values differ at', bad, 'max abs diff %g' % worst,
                      'got', a, 'expected', e, *msg)

    def finite(self, a, key, *msg):
        import numpy as np
        self.expect(bool(np.all(np.isfinite(np.asarray(a)))), key,
                    'non-finite values', a, *msg)

    def raises(self, fn, key, *msg, **kw):
        """fn must refuse; `types` restricts how.  Returns the exception."""
        types = kw.get('types', Exception)
        self.counters['judged'] += 1
        self.counters['judged:' + key] += 1
        try:
            r = fn()
        except types as e:
            return e
        self.fail(key, 'expected an error, got', r, *msg)

    def finding(self, key, *msg):
        """record a violation but let the case go on"""
        self.counters['judged:' + key] += 1
        self.findings.append((key, ' '.join(
            m if isinstance(m, str) else _short(m) for m in msg)))

    def probe(self, key, cond, *msg):
        """like expect, but recorded without ending the case"""
        self.counters['judged'] += 1
        self.counters['judged:' + key] += 1
        if not cond:
            self.finding(key, *msg)


class Family(object):
    def __init__(self, fn, quick, thorough, name, cpu, need):
        self.fn, self.quick, self.thorough = fn, quick, thorough
        self.name, self.cpu, self.need = name, cpu, need


class Check(object):
    """Registry for one property"""

    def __init__(self, pid, rule, level='exploration', technique='', note='',
                 require=(), assumptions=(), workers=None, setup=None,
                 native=False, soft_quick=420, soft_thorough=3000):
        self.pid, self.rule, self.level = pid, rule, level
        self.technique, self.note = technique, note
        self.require = list(require)
        self.assumptions = list(assumptions)
        self.workers = workers
        self.setup = setup
        self.native = native
        self.soft = dict(quick=soft_quick, thorough=soft_thorough)
        self.families = collections.OrderedDict()

    def family(self, quick, thorough=None, cpu=120, need=None):
        """need: oracle keys this family must have judged at least once"""
        def deco(fn):
            name = fn.__name__
            self.families[name] = Family(
                fn, quick, thorough if thorough is not None else quick * 10,
                name, cpu, need or [])
            return fn
        return deco


SCRATCH = None


def make_scratch():
    global SCRATCH
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and _free('/dev/shm') > 2 << 30 \
        else tempfile.gettempdir()
    SCRATCH = tempfile.mkdtemp(prefix='vz-', dir=base)
    return SCRATCH


def _free(path):
    try:
        s = os.statvfs(path)
        return s.f_bavail * s.f_frsize
    except OSError:
        return 0


def _available():
    with open('/proc/meminfo') as f:
        for line in f:
            if line.startswith('MemAvailable:'):
                return int(line.split()[1]) << 10
    return 0


def _repo_frame(tb):
    frames = traceback.extract_tb(tb)
    for f in reversed(frames):
        if f.filename.startswith(REPO + '/'):
            return '%s:%s' % (os.path.relpath(f.filename, REPO), f.name)
    return None


def _on_prof(signum, frame):
    raise NoProgress()


def run_case(check, fam, idx, seed, tier):
    """returns dict(kind=..., ...)"""
    ctx = Ctx(check, fam.name, idx, seed, tier)
    ctx.seed_global()
    out = dict(family=fam.name, idx=idx, violations=[], error=None)
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, min(fam.cpu, 40) if FAIL_FAST else fam.cpu)
    try:
        fam.fn(ctx)
    except Violation as v:
        out['violations'].append((v.key, v.msg, _tail(sys.exc_info()[2])))
    except Inconclusive as e:
        out['error'] = 'inconclusive: %s' % e
    except NoProgress:
        out['violations'].append((
            'no-termination', 'no result within %d s of CPU time' % fam.cpu,
            _tail(sys.exc_info()[2])))
    except MemoryError as e:
        if _repo_frame(sys.exc_info()[2]) and _available() > 4 << 30:
            # nothing that a case needs comes anywhere near this
            out['violations'].append((
                'crash:MemoryError', 'an unreasonable amount of memory: %s' % str(e)[:300],
                _tail(sys.exc_info()[2])))
        else:
            out['error'] = traceback.format_exc()
    except ImportError as e:
        out['error'] = traceback.format_exc()
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = sys.exc_info()[2]
        where = _repo_frame(tb)
        if isinstance(e, OSError) and e.errno in (12, 24, 28):
            out['error'] = traceback.format_exc()
        elif where:
            out['violations'].append((
                'crash:%s' % type(e).__name__,
                'unexpected %s: %s (raised in %s)' % (
                    type(e).__name__, str(e)[:300], where), _tail(tb)))
        else:
            # the oracle could not make sense of the returned value
            out['violations'].append((
                'malformed:%s' % type(e).__name__,
                'oracle could not interpret the result: %s: %s' % (
                    type(e).__name__, str(e)[:300]), _tail(tb)))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        if ctx._scratch:
            shutil.rmtree(ctx._scratch, ignore_errors=True)
    for k, m in ctx.findings:
        out['violations'].append((k, m, ''))
    out['counters'] = ctx.counters
    out['desc'] = '; '.join(ctx.desc)
    out['trivial'] = ctx.trivial
    return out


def _tail(tb):
    return ''.join(traceback.format_tb(tb)[-8:])


def worker(check, jobs, seed, tier, path, deadline, known):
    """runs in a forked child; writes one pickle with the merged result"""
    import pickle
    res = dict(counters=collections.Counter(), sigs=collections.defaultdict(set),
               cases=collections.Counter(), violations=[], errors=[],
               samples=[], skipped=0, slow=[])
    marker = path + '.cur'
    mfd = os.open(marker, os.O_CREAT | os.O_RDWR, 0o600)
    if check.setup:
        check.setup()
    reach.start(REPO)
    seen = collections.Counter()
    for fname, idx in jobs:
        if time.monotonic() > deadline:
            res['skipped'] += 1
            continue
        os.pwrite(mfd, ('%-200s' % ('%s %d' % (fname, idx))).encode(), 0)
        t0 = time.monotonic()
        out = run_case(check, check.families[fname], idx, seed, tier)
        dt = time.monotonic() - t0
        if dt > 5:
            res['slow'].append((round(dt, 1), fname, idx))
        res['cases'][fname] += 1
        res['counters'].update(out['counters'])
        if not out['trivial']:
            res['sigs'][fname].add(zlib.crc32(out['desc'].encode()) if out['desc'] else idx)
        if len(res['samples']) < 4 and out['desc'] and (idx < 3):
            res['samples'].append(dict(family=fname, case=idx, input=out['desc'][:600],
                                       observed=dict(out['counters'])))
        if out['error']:
            res['errors'].append((fname, idx, out['error']))
            if len(res['errors']) > 5:
                break
        for key, msg, tb in out['violations']:
            if key in known:
                res['counters']['known:' + key] += 1
                continue
            seen[(fname, key)] += 1
            if seen[(fname, key)] <= 2:
                res['violations'].append(dict(
                    family=fname, idx=idx, key=key, msg=msg, tb=tb,
                    case=out['desc'][:2000]))
        if sum(seen.values()) > 40:
            break
        if FAIL_FAST:
            # (for campaigns over many changes: stop all workers at the first violation)
            if seen:
                open(os.path.join(os.path.dirname(path), 'stop'), 'w').close()
            if os.path.exists(os.path.join(os.path.dirname(path), 'stop')):
                break
    res['lines'] = reach.stop()
    with open(path, 'wb') as f:
        pickle.dump(res, f)
