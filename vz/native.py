"""Makes sure `countbits` is the one of /repo's current source.

/repo/countbits*.so is only rebuilt by the project's build; a check must judge
the current .pyx.  If the build stamp does not match the sources, the extension
is compiled into the run's scratch directory and takes precedence."""
import hashlib
import os
import subprocess
import sys

REPO = '/repo'
INPUTS = ['setup.py', 'zounds/__init__.py', 'zounds/nputil/countbits.pyx']


def _sum():
    h = hashlib.sha256()
    for f in INPUTS:
        with open(os.path.join(REPO, f), 'rb') as fd:
            h.update(fd.read())
    return h.hexdigest()


def up_to_date():
    try:
        stamp = open(os.path.join(REPO, 'build', '.countbits.sha256')).read().split()[0]
    except (OSError, IndexError):
        return False
    return stamp == _sum() and any(
        n.startswith('countbits.cpython-312') for n in os.listdir(REPO))


def build(outdir, cflags=(), ldflags=(), cc='gcc', name='countbits'):
    """compile the current .pyx into outdir; returns the .so path"""
    import sysconfig
    import numpy as np
    os.makedirs(outdir, exist_ok=True)
    src = os.path.join(outdir, 'countbits.pyx')
    with open(os.path.join(REPO, 'zounds/nputil/countbits.pyx'), 'rb') as fd:
        data = fd.read()
    with open(src, 'wb') as fd:
        fd.write(data)
    c = os.path.join(outdir, 'countbits.c')
    subprocess.run([sys.executable, '-B', '-m', 'cython', '-2', src, '-o', c],
                   check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                   cwd=outdir)
    so = os.path.join(outdir, name + sysconfig.get_config_var('EXT_SUFFIX'))
    cmd = [cc, '-shared', '-fPIC', '-O1', '-g', '-fwrapv', '-w'] + list(cflags) + [
        '-I' + sysconfig.get_paths()['include'], '-I' + np.get_include(), c, '-o', so
    ] + list(ldflags)
    subprocess.run(cmd, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return so


def ensure_countbits(scratch):
    if up_to_date():
        return None
    out = os.path.join(scratch, 'ext')
    so = build(out)
    sys.path.insert(0, out)
    return so
