import json
import os
import subprocess
import sys
from ..core import Check, Inconclusive
from ..gen import *
from .. import core, native
from zounds.nputil import packed_hamming_distance, hamming_distance
import countbits

CHECK = Check(
    'C20', 'a case is a batch of word arrays (random / all-ones / single-bit contents, zero to thousands of words, contiguous, strided, '
           'reversed and column-major) counted in-process, or one run of an AddressSanitizer/UndefinedBehaviourSanitizer build of the current '
           'extension over several hundred such arrays',
    technique='AddressSanitizer and UndefinedBehaviorSanitizer build of the extension under a stress driver; monitor comparing every count with a table look-up per byte')

TABLE = np.array([bin(i).count('1') for i in range(256)])


def bits(a):
    a = np.ascontiguousarray(a)
    return TABLE[a.view(np.uint8)].reshape(a.shape + (8,)).sum(axis=-1)


def words(ctx, *shape):
    n = int(np.prod(shape))
    a = np.frombuffer(ctx.rng.bytes(8 * n), dtype=np.uint64).reshape(shape).copy()
    k = ctx.choice(['random', 'random', 'ones', 'single', 'sparse', 'zero', 'edge'])
    if k == 'ones':
        a[...] = np.uint64(0xffffffffffffffff)
    elif k == 'zero':
        a[...] = 0
    elif k == 'single':
        a[...] = np.uint64(1) << ctx.rng.integers(0, 64, shape).astype(np.uint64)
    elif k == 'sparse':
        a &= np.frombuffer(ctx.rng.bytes(8 * n), dtype=np.uint64).reshape(shape)
    elif k == 'edge':
        a[...] = ctx.rng.choice(np.array([0x8000000000000000, 0x7fffffffffffffff, 0xffffffff, 0xffffffff00000000, 0x5555555555555555], dtype=np.uint64), shape)
    return a


@CHECK.family(600, 8000, need=['count', 'packed', 'distance', 'scalar', 'unmodified', 'dtype', 'unpacked'])
def counts(ctx):
    l = ctx.choice([0, 1, 2, ctx.integer(1, 100), ctx.integer(1, 5000)])
    w = ctx.integer(1, 10)
    ctx.say('counts', l, w)
    a, t, q = words(ctx, l), words(ctx, l, w), words(ctx, w)
    keep = [x.copy() for x in (a, t, q)]
    s = ctx.integer(1, 3)
    for v in (a, a[::s], a[::-1], a[s:]):
        got = countbits.count_bits(v)
        ctx.eq(got, bits(v), 'count')
    for v in (t, t[::s], t[:, ::s], t[::-1], np.asfortranarray(t)):
        ctx.eq(countbits.count_packed_bits(v), bits(v).sum(axis=1), 'packed')
        qq = words(ctx, v.shape[1])
        got = packed_hamming_distance(qq, v)
        ctx.eq(got, bits(v ^ qq[None]).sum(axis=1), 'distance')
        ctx.expect(got.dtype.kind in 'iu' and got.dtype.itemsize >= 4, 'dtype', got.dtype)
    # agrees with unpacking the bits, is symmetric and zero only for equal codes
    d = packed_hamming_distance(q, t)
    if l:
        ub = np.unpackbits(t.view(np.uint8), axis=1)
        ctx.eq(d, (ub != np.unpackbits(q.view(np.uint8))[None]).sum(axis=1), 'unpacked')
        i = ctx.integer(0, l - 1)
        ctx.eq(packed_hamming_distance(t[i], q[None])[0], d[i], 'distance', 'symmetry')
        ctx.eq(packed_hamming_distance(t[i].copy(), t)[i], 0, 'distance', 'self')
        sc = words(ctx, 1)[0]
        ctx.eq(hamming_distance(sc, a), bits(a ^ sc), 'scalar')
        b8 = np.frombuffer(ctx.rng.bytes(8 * w), dtype=np.uint64)       # read-only memory
        ctx.eq(packed_hamming_distance(b8, t), bits(t ^ b8[None]).sum(axis=1), 'distance', 'read-only query')
    for x, y in zip((a, t, q), keep):
        ctx.eq(x, y, 'unmodified')


@CHECK.family(80, 500, need=['refused'])
def refuses(ctx):
    """arrays of other word sizes or ranks are refused, not reinterpreted"""
    ctx.say('refuses')
    dt = ctx.choice(['u1', 'u2', 'u4', 'i4', 'f8', 'f4', '>u8', 'c16'])
    n = ctx.integer(1, 20)
    ctx.raises(lambda: countbits.count_bits(np.zeros(n, dt)), 'refused', dt, types=(ValueError, TypeError))
    ctx.raises(lambda: countbits.count_packed_bits(np.zeros((n, 2), dt)), 'refused', dt, types=(ValueError, TypeError))
    ctx.raises(lambda: countbits.count_bits(np.zeros((n, 2), 'u8')), 'refused', types=(ValueError, TypeError))
    ctx.raises(lambda: countbits.count_packed_bits(np.zeros(n, 'u8')), 'refused', types=(ValueError, TypeError))


BUILDS = {
    'gcc-asan': dict(cc='gcc', cflags=['-fsanitize=address', '-fno-omit-frame-pointer'], lib='libasan.so'),
    'gcc-asan-ubsan': dict(cc='gcc', cflags=['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'], lib='libasan.so'),
}


@CHECK.family(4, 16, cpu=600, need=['sanitizer-clean', 'sanitized-counts'])
def sanitized(ctx):
    name = sorted(BUILDS)[ctx.idx % len(BUILDS)]
    b = BUILDS[name]
    out = os.path.join(ctx.scratch(), name)
    try:
        native.build(out, cflags=b['cflags'] + (['-fsanitize=address'] if False else []), ldflags=b['cflags'][:1], cc=b['cc'])
        lib = subprocess.run([b['cc'], '-print-file-name=' + b['lib']], stdout=subprocess.PIPE, check=True).stdout.decode().strip()
    except (subprocess.CalledProcessError, OSError) as e:
        raise Inconclusive('sanitizer build failed: %s %s' % (e, (getattr(e, 'output', b'') or b'')[-800:]))
    env = dict(os.environ, LD_PRELOAD=os.path.realpath(lib), PYTHONMALLOC='malloc', OPENBLAS_NUM_THREADS='1',
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1',
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=77', PYTHONWARNINGS='ignore')
    rounds = 400 if not ctx.thorough else 4000
    ctx.say('sanitized', name, rounds)
    seed = ctx.integer(0, 2 ** 31)
    r = subprocess.run([sys.executable, '-B', os.path.join(os.path.dirname(native.__file__), 'native_driver.py'), out,
                        os.path.join(core.REPO, 'zounds/nputil/npx.py'), str(seed), str(rounds)],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=ctx.scratch(), timeout=550)
    err = r.stderr.decode('utf8', 'replace')
    reported = 'AddressSanitizer' in err or 'runtime error:' in err or r.returncode == 77 or r.returncode < 0
    ctx.expect(not reported, 'sanitizer-clean', name, 'exit', r.returncode, err[:1500])
    try:
        stats = json.loads(r.stdout.decode().strip().splitlines()[-1])
    except (ValueError, IndexError):
        if 'Error' in err and 'npx' in err or 'countbits' in err:
            ctx.fail('sanitized-run', 'driver failed', err[-1500:])
        raise Inconclusive('sanitized driver gave no answer: %s' % err[-800:])
    ctx.count('sanitized-calls', stats['calls'])
    ctx.count('sanitized-words', stats['words'])
    ctx.count('sanitized-refusals', stats['refused'])
    ctx.expect(stats['calls'] > 0 and not stats['mismatches'], 'sanitized-counts', stats)
