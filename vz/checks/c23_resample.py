import ctypes
import mmap

from ..core import Check
from ..gen import *
from ..nodes import run, cuts
from zounds.soundfile.resample import Resample, Resampler
from zounds.soundfile import resample

CHECK = Check(
    'C23', 'a case is one signal (tones, noise, pulses; mono or several channels; varied memory layout), one pair of rates and one chunking, '
           'resampled through the real node and the one-shot function; inputs sit right before an unmapped page',
    technique='runtime monitor: chunked output compared with the one-shot output, tones fitted, native reads fenced with guard pages')

_libc = ctypes.CDLL(None, use_errno=True)


class Guarded(object):
    """float32 buffers that end exactly at a PROT_NONE page: any native read past the end faults"""

    def __init__(self):
        self.maps = []

    def array(self, x):
        page = mmap.PAGESIZE
        x = np.ascontiguousarray(x, dtype=np.float32)
        size = -(-max(x.nbytes, 1) // page) * page
        m = mmap.mmap(-1, size + page)
        base = ctypes.addressof(ctypes.c_char.from_buffer(m))
        if _libc.mprotect(ctypes.c_void_p(base + size), ctypes.c_size_t(page), 0):
            raise OSError('mprotect')
        out = np.frombuffer(m, dtype=np.float32, count=x.size, offset=size - x.nbytes).reshape(x.shape)
        out[...] = x
        self.maps.append(m)
        return out


def signal(ctx, n, sr, ch, kind):
    t = np.arange(n)[:, None] / sr
    c = np.arange(ch)[None, :]
    if kind == 'tone':
        return .5 * np.sin(2 * np.pi * (300 + 170 * c) * t + c)
    if kind == 'noise':
        return ctx.rng.uniform(-.5, .5, (n, ch))
    if kind == 'pulse':
        return np.exp(-((t - (n / sr) * (.3 + .1 * c)) / .004) ** 2)
    return np.full((n, ch), .25) * (1 + c)


def layout(ctx, x):
    """the same values in another memory layout"""
    k = ctx.choice(['c', 'c', 'f', 'strided', 'reversed'])
    if k == 'f':
        return np.asfortranarray(x), k
    if k == 'strided':
        big = ctx.rng.uniform(-1, 1, (len(x), x.shape[1] * 2)).astype(x.dtype)
        big[:, ::2] = x
        return big[:, ::2], k
    if k == 'reversed':
        return np.ascontiguousarray(x[::-1])[::-1], k
    return x, k


def node(chunks, target):
    kw = dict(samplerate=target)
    if int(target) == 44100 and len(chunks) % 2:
        # the default rate
        kw = dict()
    outs = [o for o in run(lambda s: Resampler(needs=s, **kw), chunks) if o is not None]
    return outs


@CHECK.family(90, 1500, cpu=200, need=['chunks:same', 'length', 'rate'])
def chunkings(ctx):
    a, b = samplerate(ctx), samplerate(ctx)
    ra, rb = int(a), int(b)
    ch = ctx.choice([1, 1, 2, 2, 3])
    n = ctx.choice([ctx.integer(1, 400), ctx.integer(400, ra), ctx.integer(ra // 2, 2 * ra)])
    kind = ctx.choice(['tone', 'noise', 'noise', 'pulse', 'const'])
    dt = ctx.choice([np.float32, np.float64])
    x = signal(ctx, n, ra, ch, kind).astype(dt)
    flat = ch == 1 and ctx.coin(.8)
    keep = x.copy()
    x, lay = layout(ctx, x)
    bounds = cuts(ctx, n)
    ctx.say('%d -> %d Hz, %d samples x%d %s %s %s, chunks %s' % (
        ra, rb, n, ch, kind, np.dtype(dt).name, lay, [q - p for p, q in bounds[:8]]))
    wrap = lambda v: z.AudioSamples(v[:, 0] if flat else v, a)
    one = node([wrap(keep)], b)
    outs = node([wrap(x[p:q]) for p, q in bounds], b)
    ctx.expect(np.array_equal(x, keep), 'input:unmodified', lay)
    for o in outs + one:
        ctx.expect(isinstance(o, z.AudioSamples), 'type', type(o))
        ctx.eq(int(o.samplerate), rb, 'rate')
        ctx.eq(o.channels, ch, 'channels')
        ctx.finite(np.asarray(o), 'finite')
    shape = lambda o: np.asarray(o).reshape(-1, ch)
    got = np.concatenate([shape(o) for o in outs]) if outs else np.zeros((0, ch))
    ref = np.concatenate([shape(o) for o in one]) if one else np.zeros((0, ch))
    ctx.count('chunks resampled', len(bounds))
    if ra == rb:
        ctx.expect(np.array_equal(got, keep), 'same-rate', 'not passed through')
    exact = n * rb / ra
    # the converter may hold back the very last frame
    ctx.expect(-1 <= len(got) - int(np.round(exact)) <= 0, 'length', len(got), exact)
    ctx.eq(len(got), len(ref), 'chunks:same', 'lengths')
    m = min(len(got), len(ref))
    ctx.close(got[:m], ref[:m], 'chunks:same', rtol=1e-4, atol=1e-5)


@CHECK.family(60, 800, cpu=200, need=['tone:frequency', 'tone:level'])
def tones(ctx):
    """each channel keeps its own tone, at its own level"""
    a, b = samplerate(ctx), samplerate(ctx)
    ra, rb = int(a), int(b)
    ch = ctx.choice([1, 2, 2])
    n = ctx.integer(ra // 2, 2 * ra)
    lim = .35 * min(ra, rb)
    fs = [float(ctx.rng.uniform(100, lim)) for _ in range(ch)]
    t = np.arange(n) / ra
    amps = [float(ctx.rng.uniform(.1, .9)) for _ in range(ch)]
    x = np.stack([amp * np.sin(2 * np.pi * f * t) for f, amp in zip(fs, amps)], axis=1)
    v, lay = layout(ctx, x)
    ctx.say('%d -> %d Hz, %d samples, tones %s at %s, %s' % (ra, rb, n, fs, amps, lay))
    s = z.AudioSamples(v[:, 0] if ch == 1 else v, a)
    y = resample(s, b) if ctx.coin() else np.concatenate([np.asarray(o) for o in node(
        [s[p:q] for p, q in cuts(ctx, n)], b)])
    y = np.asarray(y).reshape(-1, ch)
    ctx.expect(abs(len(y) - n * rb / ra) < 2, 'length', len(y), n * rb / ra)
    edge = int(.02 * rb)
    mid = y[edge:-edge]
    tt = np.arange(len(y))[edge:-edge] / rb
    for c in range(ch):
        basis = np.stack([np.sin(2 * np.pi * fs[c] * tt), np.cos(2 * np.pi * fs[c] * tt)], axis=1)
        w, *_ = np.linalg.lstsq(basis, mid[:, c], rcond=None)
        amp = float(np.hypot(*w))
        res = float(np.sqrt(np.mean((mid[:, c] - basis @ w) ** 2)))
        ctx.expect(abs(amp - amps[c]) < .03 * amps[c], 'tone:level', c, amp, amps[c])
        ctx.expect(res < .01 * amps[c], 'tone:frequency', c, 'residue', res, amps[c])


@CHECK.family(40, 500, cpu=200, need=['position'])
def positions(ctx):
    """events stay where they are in time, to within the converter's latency"""
    a, b = samplerate(ctx), samplerate(ctx)
    ra, rb = int(a), int(b)
    n = ctx.integer(ra // 2, 2 * ra)
    at = ctx.rng.uniform(.1, .9) * n / ra
    t = np.arange(n) / ra
    x = np.exp(-((t - at) / .003) ** 2)
    ctx.say('%d -> %d Hz, pulse at %.4f s of %.4f s' % (ra, rb, at, n / ra))
    y = np.concatenate([np.asarray(o) for o in node([z.AudioSamples(x[p:q], a) for p, q in cuts(ctx, n)], b)])
    w = np.maximum(y, 0) ** 2
    got = float((w * np.arange(len(y))).sum() / w.sum() / rb)
    ctx.expect(abs(got - at) < .006, 'position', got, at)


@CHECK.family(60, 800, cpu=200, need=['direct:length', 'direct:tail'])
def direct(ctx):
    """the native wrapper itself, fed from memory that ends at an unmapped page"""
    ra, rb = int(samplerate(ctx)), int(samplerate(ctx))
    ch = ctx.choice([1, 2, 3])
    n = ctx.choice([ctx.integer(1, 50), ctx.integer(50, ra), 1024])
    ctx.say('%d -> %d Hz, %d frames x%d' % (ra, rb, n, ch))
    g = Guarded()
    x = signal(ctx, n, ra, ch, ctx.choice(['noise', 'tone'])).astype(np.float32)
    x = x[:, 0] if ch == 1 else x
    arr = g.array(x)
    r = Resample(ra, rb, nchannels=ch, converter_type=ctx.choice([0, 1, 2]))
    # fenced fortran and strided views: what the wrapper reads has to stay inside
    view = ctx.choice(['plain', 'fortran', 'reversed', 'columns'])
    if view == 'fortran' and ch > 1:
        arr = g.array(x.T).T
    elif view == 'reversed':
        arr = g.array(x[::-1])[::-1]
    elif view == 'columns' and ch == 1 and n > 1:
        wide = g.array(np.stack([np.full(n, 7.), x], axis=1))
        arr = wide[:, 1]
    bounds = cuts(ctx, n)
    outs = []
    for i, (p, q) in enumerate(bounds):
        before = arr.copy()
        outs.append(np.asarray(r(arr[p:q], end_of_input=i == len(bounds) - 1)))
        ctx.expect(np.array_equal(arr, before), 'direct:unmodified')
        ctx.eq(outs[-1].ndim, arr.ndim, 'direct:shape')
        ctx.count('native calls')
    y = np.concatenate(outs)
    ctx.expect(-1 <= len(y) - int(np.round(n * rb / ra)) <= 0, 'direct:length', len(y), n * rb / ra)
    whole = np.asarray(Resample(ra, rb, nchannels=ch, converter_type=r.converter_type)(x, end_of_input=True))
    m = min(len(whole), len(y))
    ctx.eq(len(whole), len(y), 'direct:length')
    ctx.close(y[:m], whole[:m], 'direct:tail', rtol=1e-4, atol=2e-5)


@CHECK.family(20, 200, need=['refused'])
def refused(ctx):
    r = ctx.choice([300, 1000, 100000])
    base = ctx.integer(1, 20)
    ctx.say('%d -> %d' % (base, base * r * 2))
    ctx.raises(lambda: Resample(base, base * r * 2), 'refused', types=(ValueError,))
