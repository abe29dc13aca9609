"""development helper: confirm a planted bug and lay it down in /verif/seeded/<id>.
plant.py SPEC.py...   each spec defines ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO (python source)
--check also runs the quick checks (of PROP, or those in CHECKS) with the bug applied"""
import json
import os
import re
import subprocess
import sys

REPO, SEEDED, PY = '/repo', '/verif/seeded', '/opt/venv/bin/python'
BASE = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def original_lines(diff):
    """removed lines that the base commit wrote"""
    n = 0
    path, line = None, 0
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            path = l[6:]
        elif l.startswith('@@'):
            line = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            b = sh('git -C %s blame -l -s -L %d,%d HEAD -- %s' % (REPO, line, line, path)).stdout
            n += b.lstrip('^').startswith(BASE[:30])
            line += 1
        elif l.startswith(' '):
            line += 1
    return n


def plant(spec, check):
    g = {}
    exec(compile(open(spec).read(), spec, 'exec'), g)
    d = os.path.join(SEEDED, g['ID'])
    assert not sh('git -C %s status --short' % REPO).stdout.strip(), 'repo dirty'
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(g['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(
        '#!/bin/bash\nexec env PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 %s -B -W ignore "$(dirname "$0")/demo.py"\n' % PY)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    ok = True
    try:
        for f, old, new in g['EDITS']:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C %s diff' % REPO).stdout
        open(d + '/patch.diff', 'w').write(diff)
        n = original_lines(diff)
        native = any(f.endswith('.pyx') for f, _, _ in g['EDITS'])
        if native:
            sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/plant.json | tail -1').stdout.strip()
        r = sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)
        bad = r.returncode
        caught = []
        if check:
            for c in g.get('CHECKS', [g['PROP']]):
                r2 = sh('cd /verif && ./run.sh %s' % c)
                v = [l for l in r2.stdout.splitlines() if l.startswith('VIOLATION')]
                caught.append('%s:%s%s' % (c, 'CAUGHT' if r2.returncode == 1 and v else 'MISSED', '' if r2.returncode in (0, 1) else ' rc=%d' % r2.returncode))
                if '-v' in sys.argv:
                    print(r2.stdout[-1500:])
    finally:
        sh('git -C %s checkout -- .' % REPO)
        if native:
            sh('bash /opt/vp/build.sh')
    r3 = sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)
    ok = n > 0 and t.endswith(', 0 failed') and bad != 0 and r3.returncode == 0
    print('%s %s  orig=%d tests[%s] demo: patched=%d clean=%d  %s' % (
        g['ID'], 'OK ' if ok else 'BAD', n, t, bad, r3.returncode, ' '.join(caught)))
    if not ok:
        print(sh('cat /tmp/plant.json | %s -c "import json,sys; print(json.load(sys.stdin)[\'failed\'][:5])"' % PY).stdout)
        print('   demo patched:', (r.stdout + r.stderr)[-300:], '\n   clean:', (r3.stdout + r3.stderr)[-600:])
        if '--keep' not in sys.argv:
            sh('rm -r %s' % d)
    sys.stdout.flush()


for a in sys.argv[1:]:
    if not a.startswith('-'):
        plant(a, '--check' in sys.argv)
