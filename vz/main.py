import argparse
import collections
import importlib
import json
import os
import pickle
import shutil
import signal
import sys
import time

from . import core, known as knownmod
from .core import VERIF

BAD_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


def load_check(pid):
    names = [f[:-3] for f in sorted(os.listdir(os.path.join(VERIF, 'vz', 'checks')))
             if f.lower().startswith(pid.lower() + '_') and f.endswith('.py')]
    if len(names) != 1:
        raise SystemExit('no unique check module for %s: %s' % (pid, names))
    return importlib.import_module('vz.checks.' + names[0]).CHECK


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--family')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--verbose', action='store_true')
    args = ap.parse_args()
    pid = args.property
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    scratch = core.make_scratch()
    os.chdir(scratch)
    os.environ['TMPDIR'] = scratch
    import tempfile
    tempfile.tempdir = scratch
    rc = 4
    try:
        rc = _run(args, pid, tier, seed, t0, scratch)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def _run(args, pid, tier, seed, t0, scratch):
    from . import native
    native.ensure_countbits(scratch)
    check = load_check(pid)
    known = knownmod.load(pid)

    if args.replay:
        rep = json.load(open(args.replay))
        fam = check.families[rep['family']]
        if check.setup:
            check.setup()
        out = core.run_case(check, fam, rep['idx'], rep['seed'], rep['tier'])
        print(json.dumps(dict(case=out['desc'], violations=out['violations'],
                              error=out['error']), indent=1, default=repr))
        for key, msg, tb in out['violations']:
            if key not in known:
                print('VIOLATION property=%s replay=%s' % (pid, args.replay))
                return 1
        return 0 if not out['error'] else 3

    jobs = []
    for f in check.families.values():
        if args.family and f.name != args.family:
            continue
        n = f.quick if tier == 'quick' else f.thorough
        n = max(1, int(n * args.scale))
        jobs += [(k / float(n), f.name, k) for k in range(n)]
    jobs.sort()
    jobs = [(f, k) for _, f, k in jobs]
    nw = args.workers or check.workers or min(8, os.cpu_count() or 1)
    nw = max(1, min(nw, len(jobs)))
    deadline = t0 + check.soft[tier]

    # import the code under test once, in the parent (counts as an error when it
    # cannot be imported at all)
    import zounds  # noqa
    sys.stdout.flush()
    pids = {}
    for w in range(nw):
        path = os.path.join(scratch, 'w%d' % w)
        p = os.fork()
        if p == 0:
            try:
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                errfd = os.open(path + '.err', os.O_CREAT | os.O_WRONLY, 0o600)
                os.dup2(errfd, 2)
                core.worker(check, jobs[w::nw], seed, tier, path, deadline, known)
                os._exit(0)
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(5)
        pids[p] = (w, path)

    merged = dict(counters=collections.Counter(), sigs=collections.defaultdict(set),
                  cases=collections.Counter(), violations=[], errors=[], samples=[],
                  skipped=0, slow=[], lines=set())
    hard = (deadline - t0) * 1.6 + 60
    status, quiet = {}, {}
    while len(status) < len(pids):
        for p in list(pids):
            if p in status:
                continue
            r, st = os.waitpid(p, os.WNOHANG)
            if r:
                status[p] = st
        stuck = _stuck(pids, status, quiet)
        if stuck:
            # asleep without end, and waiting for nobody else's work
            fam, _, idx = stuck.partition(' ')
            merged['violations'].append(dict(
                family=fam, idx=int(idx or 0), key='no-termination',
                msg='asleep for %d s without a result' % ASLEEP, tb='', case=stuck))
            for p in pids:
                if p not in status:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    status[p] = -1
            break
        if time.monotonic() - t0 > hard:
            for p in pids:
                if p not in status:
                    w, path = pids[p]
                    merged['errors'].append((
                        _cur(path), -1, 'watchdog: worker still running after %d s' % hard))
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    status[p] = -1
            break
        time.sleep(0.02)
    for p, (w, path) in pids.items():
        st = status[p]
        if os.path.exists(path):
            r = pickle.load(open(path, 'rb'))
            merged['counters'].update(r['counters'])
            for k, v in r['sigs'].items():
                merged['sigs'][k] |= v
            merged['cases'].update(r['cases'])
            for k in ('violations', 'errors', 'samples', 'slow'):
                merged[k] += r[k]
            merged['skipped'] += r['skipped']
            merged['lines'] |= r['lines']
        elif st != -1:
            cur = _cur(path)
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) in BAD_SIGNALS:
                fam, _, idx = cur.partition(' ')
                merged['violations'].append(dict(
                    family=fam, idx=int(idx or 0), key='native-crash',
                    msg='process died with signal %d' % os.WTERMSIG(st), tb='', case=cur))
            else:
                err = open(path + '.err', errors='replace').read()[-3000:] \
                    if os.path.exists(path + '.err') else ''
                merged['errors'].append((cur, -1, 'worker ended with status %r\n%s' % (st, err)))
        if os.path.exists(path + '.err') and args.verbose:
            sys.stderr.write(open(path + '.err', errors='replace').read()[-2000:])

    # -- verdict ------------------------------------------------------------
    lacking = []
    if not args.family:
        for f in check.families.values():
            n = f.quick if tier == 'quick' else f.thorough
            if merged['cases'][f.name] < max(1, min(n, 3)):
                lacking.append('family %s ran %d cases' % (f.name, merged['cases'][f.name]))
            for key in f.need:
                if not merged['counters']['judged:' + key]:
                    lacking.append('oracle %s never reached' % key)
        for key in check.require:
            if not merged['counters'][key]:
                lacking.append('monitor counter %s is zero' % key)

    viol = []
    seen = set()
    rdir = os.path.join(VERIF, 'replays')
    for v in sorted(merged['violations'], key=lambda v: (v['family'], v['idx'])):
        k = (v['family'], v['key'])
        if k in seen:
            continue
        seen.add(k)
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s-%s-%d-s%d-%s.json' % (pid, v['family'], v['idx'], seed, tier))
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, family=v['family'], idx=v['idx'], seed=seed, tier=tier,
                           key=v['key'], message=v['msg'], traceback=v['tb'], case=v['case'],
                           replay_cmd='./run.sh %s --replay %s' % (pid, rp)), f, indent=1)
        viol.append((v, rp))

    evaluations = sum(merged['cases'].values())
    distinct = sum(len(s) for s in merged['sigs'].values())
    cov = dict(
        evaluations=evaluations, distinct_nontrivial=distinct, rule=check.rule,
        samples=merged['samples'][:8],
        judged_observations=merged['counters']['judged'],
        cases_per_family=dict(merged['cases']),
        observed={k: v for k, v in sorted(merged['counters'].items()) if k != 'judged'},
        cases_not_run_for_time=merged['skipped'])
    if merged['lines']:
        cov['code_reached'] = _reached(merged['lines'], pid)
    if os.environ.get('VZ_LINES'):
        pickle.dump(merged['lines'], open(os.path.join(os.environ['VZ_LINES'], pid), 'wb'))
    ev = dict(property=pid, tier=tier, seed=seed, level=check.level, coverage=cov,
              assumptions=check.assumptions, wall_s=round(time.monotonic() - t0, 2),
              violations=len(viol))
    if not args.family:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)

    print('%s %s seed=%d: %d cases (%d distinct), %d judged observations, %d skipped, %.1f s' % (
        pid, tier, seed, evaluations, distinct, merged['counters']['judged'],
        merged['skipped'], time.monotonic() - t0))
    if args.verbose:
        for k, v in sorted(merged['counters'].items()):
            print('   ', k, v)
        print('   slow', sorted(merged['slow'])[-10:])
    for key, text in known.items():
        if merged['counters']['known:' + key]:
            print('KNOWN-FINDING: property=%s key=%s %s' % (pid, key, text))
        else:
            print('note: known finding %s was not reproduced in this run' % key)
    for v, rp in viol[:12]:
        print('  %s/%d [%s] %s\n    case: %s' % (
            v['family'], v['idx'], v['key'], v['msg'][:1500], v['case'][:500]))
        if args.verbose:
            print(v['tb'])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    if viol:
        return 1
    if merged['errors']:
        for e in merged['errors'][:5]:
            print('ERROR %s/%s: %s' % tuple(e))
        return 2
    if lacking:
        print('INCONCLUSIVE: ' + '; '.join(lacking))
        return 3
    return 0


ASLEEP = 200


def _stuck(pids, status, quiet):
    """the case of a worker which has done nothing at all for a long time, if there is one"""
    now = time.monotonic()
    if now - quiet.get('looked', 0) < 2:
        return None
    quiet['looked'] = now
    try:
        stats = {}
        for p in os.listdir('/proc'):
            if p.isdigit():
                try:
                    with open('/proc/%s/stat' % p) as f:
                        # state, parent, ..., user time, system time
                        stats[int(p)] = f.read().rpartition(')')[2].split()
                except OSError:
                    pass
        parents = {int(x[1]) for x in stats.values()}
    except (OSError, IndexError, ValueError):
        return None
    for p, (w, path) in pids.items():
        if p in status or p not in stats:
            continue
        x = stats[p]
        cur, used = _cur(path), int(x[11]) + int(x[12])
        was = quiet.get(p)
        # a server's idle loop wakes up now and then
        if was is None or was[0] != cur or p in parents or x[0] != 'S' or \
                used - was[1] > 5 + (now - was[2]) * 2:
            quiet[p] = (cur, used, now)
        elif cur and now - was[2] > ASLEEP:
            return cur
    return None


def _reached(lines, pid):
    """how much of the property's own files the cases went through"""
    from . import reach
    out = {}
    try:
        files = [p['anchors']['files'] for p in map(json.loads, open(os.path.join(VERIF, 'properties.jsonl')))
                 if p['id'] == pid][0]
        for f in files:
            path = os.path.join(core.REPO, f)
            if f.endswith('.py') and os.path.isfile(path):
                body = reach.executable(path)
                hit = {n for g, n in lines if 'zounds/' + g == f}
                out[f] = '%d of %d lines in functions' % (len(body & hit), len(body))
    except Exception as e:
        out['unknown'] = repr(e)
    return out


def _cur(path):
    try:
        return open(path + '.cur').read().strip()
    except OSError:
        return '?'


if __name__ == '__main__':
    main()
