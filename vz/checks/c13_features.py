from ..core import Check
from ..gen import *
from ..nodes import run, chunked, joined
from zounds.spectral import (
    Chroma, BarkBands, SpectralCentroid, SpectralFlatness, BFCC, HanningWindowingFunc,
    OggVorbisWindowingFunc, AWeighting)
from zounds.segment import MeasureOfTransience, ComplexDomain
from zounds.segment.onset import Flux

CHECK = Check(
    'C13', 'a case is one spectrogram (real or complex, 1-60 frames, 4-300 bins, with silent, single-bin and constant frames mixed in), '
           'one feature with random parameters and one cut of the frames into chunks, run through the real processing graph',
    technique='runtime monitor: each emitted frame observed against the per-frame definition of the feature, and against the unchunked run')


def spectrogram(ctx, least=4, kinds=('real', 'complex'), most=300):
    n = ctx.integer(1, 60)
    k = ctx.integer(least, most)
    raw = np.abs(ctx.rng.normal(0, 1, (n, k))) * np.exp(ctx.rng.normal(0, 3, (n, 1)))
    if ctx.choice(kinds) == 'complex':
        raw = raw * np.exp(1j * ctx.rng.uniform(-np.pi, np.pi, (n, k)))
    elif ctx.coin(.4):
        raw = raw * ctx.rng.choice([-1., 1.], (n, k))
    for i in range(n):
        t = ctx.rng.random()
        if t < .12:
            raw[i] = 0
        elif t < .2:
            keep = ctx.integer(0, k - 1)
            v = raw[i, keep]
            raw[i] = 0
            raw[i, keep] = v
        elif t < .28:
            raw[i] = ctx.rng.normal()
        elif t < .35:
            raw[i, ctx.rng.random(k) < .5] = 0
    td = time_dim(ctx, ctx.choice(['window', 'ms', 'sec', 'overlap']))
    sr = samplerate(ctx)
    s = LinearScale.from_sample_rate(sr, k) if ctx.coin(.8) else scale(ctx, k, kinds=('linear', 'geometric'))
    return ArrayWithUnits(raw.copy(), [td, FrequencyDimension(s)]), raw, td, s


def frames(ctx, make, arr, raw, key):
    """run chunked and whole; same frames, same labels; returns the frames"""
    chunks = chunked(ctx, arr)
    ctx.count('chunks', len(chunks))
    outs = run(make, chunks)
    got = joined(outs)
    whole = joined(run(make, [arr]))
    ctx.expect(got.shape[0] == len(raw), key, 'one value per frame', got.shape, raw.shape)
    ctx.close(got, whole, 'chunking', key, rtol=1e-9, atol=1e-300, nan=True)
    td = arr.dimensions[0]
    for o in outs:
        ctx.expect(isinstance(o, ArrayWithUnits) and len(o.dimensions) == o.ndim and
                   ps(o.dimensions[0].frequency) == ps(td.frequency) and
                   ps(o.dimensions[0].duration) == ps(td.duration), 'time-axis', key, getattr(o, 'dimensions', type(o)))
    ctx.eq(np.asarray(arr), raw, 'pure', key)
    ctx.finite(got, 'finite', key)
    ctx.count('frames', len(raw))
    return got, outs


def window(ctx):
    k = ctx.choice(['hann', 'ogg', 'one', 'default'])
    if k == 'hann':
        return HanningWindowingFunc(), np.hanning
    if k == 'one':
        c = float(ctx.choice([1, .5, 2]))
        return c, lambda n: np.full(n, c)

    def ogg(w):
        i = np.sin((np.arange(w) + .5) / w * np.pi) ** 2
        f = np.sin(.5 * np.pi * i)
        return f / f.max() if w else f
    if k == 'ogg':
        return OggVorbisWindowingFunc(), ogg
    return None, np.hanning


def tuned(scale_, bands):
    """columns each band selects; None when a band edge coincides with a bin edge (either answer is right)"""
    out = []
    for a, b in bands:
        r = band_run(scale_, a, b)
        if r is None:
            out.append(None)
            continue
        (l0, l1), (h0, h1) = r
        if l0 != l1 or h0 != h1:
            return None
        out.append(slice(l0, h0))
    return out


@CHECK.family(500, 6000, need=['bark', 'chunking', 'time-axis', 'bark-scale', 'pure'])
def bark(ctx):
    arr, raw, td, s = spectrogram(ctx)
    lo = float(ctx.choice([20.5, 100.25, 350.125]))
    hi = lo + float(ctx.choice([200.3, 1500.7, 4000.1, 9000.9]))
    nb = ctx.integer(2, 100)
    w, ref = window(ctx)
    kw = {} if w is None else dict(window=w)
    if ctx.coin(.1):
        nb, kw2 = 100, {}
    else:
        kw2 = dict(n_bands=nb)
    ctx.say('bark', raw.shape, s, lo, hi, nb, w)
    fb = FrequencyBand(lo, hi)
    # the bands, from the definition of the scale
    to_bark = lambda hz: 6 * math.asinh(hz / 600.)
    cs = [600. * math.sinh(b / 6) for b in np.linspace(to_bark(lo), to_bark(hi), nb)]
    bands = [(c - (.108 * c + 24.7) / 2, c + (.108 * c + 24.7) / 2) for c in cs]
    cols = tuned(s, bands)
    got, outs = frames(ctx, lambda x: BarkBands(fb, needs=x, **dict(kw, **kw2)), arr, raw, 'bark')
    ctx.expect(outs[0].dimensions[1].scale == BarkScale(fb, nb), 'bark-scale', outs[0].dimensions[1])
    if cols is None or any(c is None for c in cols):
        ctx.count('ambiguous')
        if cols is None:
            return
    want = np.zeros((len(raw), nb))
    for i, c in enumerate(cols):
        if c is None:
            continue
        want[:, i] = (np.abs(raw[:, c]) * ref(c.stop - c.start)).sum(axis=1)
    keep = [i for i, c in enumerate(cols) if c is not None]
    ctx.close(got[:, keep], want[:, keep], 'bark', rtol=1e-6, atol=1e-9 * (1 + np.abs(raw).max()))


@CHECK.family(400, 5000, need=['chroma', 'chunking', 'time-axis', 'chroma-axis'])
def chroma(ctx):
    arr, raw, td, s = spectrogram(ctx)
    lo = float(ctx.choice([25.7, 60.3, 110.9, 300.1]))
    hi = min(lo * float(ctx.choice([2.1, 4.3, 8.7, 17.9])), float(s.stop_hz) * .9)
    lo = min(lo, hi / 2)
    w, ref = window(ctx)
    kw = {} if w is None else dict(window=w)
    ctx.say('chroma', raw.shape, s, lo, hi, w)
    fb = FrequencyBand(lo, hi)
    got, outs = frames(ctx, lambda x: Chroma(fb, needs=x, **kw), arr, raw, 'chroma')
    ctx.expect(got.shape[1] == 12 and isinstance(outs[0].dimensions[1], IdentityDimension),
               'chroma-axis', got.shape, outs[0].dimensions)
    # two-semitone-wide bands at every semitone, folded onto twelve classes
    semi = lambda hz: 12 * math.log2(hz / 440.)
    first, last = int(np.round(semi(lo))), int(np.round(semi(hi)))
    hz = lambda k: 440. * 2 ** (k / 12.)
    starts = list(range(first - 1, last - 2))
    cols = tuned(s, [(hz(k), hz(k + 2)) for k in starts])
    if cols is None:
        ctx.count('ambiguous')
        return
    if any(c is None for c in cols):
        ctx.count('ambiguous')
        return
    basis = np.zeros((12, raw.shape[1]))
    for k, c in zip(starts, cols):
        basis[k % 12, c] += ref(c.stop - c.start)
    weighted = np.abs(raw) * AWeighting().weights(s)
    ctx.close(got, weighted.dot(basis.T), 'chroma', rtol=1e-6, atol=1e-9 * (1 + weighted.max()))


@CHECK.family(500, 6000, need=['centroid', 'flatness', 'scale-free', 'range', 'chunking', 'time-axis', 'finite', 'silent'])
def centroid_and_flatness(ctx):
    arr, raw, td, s = spectrogram(ctx)
    mag = np.abs(raw)
    ctx.say('centroid/flatness', raw.shape, raw.dtype)
    gain = float(ctx.choice([1e-3, .5, 3., 1e3]))
    loud = ArrayWithUnits(raw * gain, arr.dimensions)
    silent = mag.sum(axis=1) == 0
    got, _ = frames(ctx, lambda x: SpectralCentroid(needs=x), arr, raw, 'centroid')
    bins = np.arange(1, raw.shape[1] + 1)
    want = np.array([float(np.dot(m, bins) / m.sum()) if m.sum() else 0. for m in mag])
    ctx.close(got, want, 'centroid', rtol=1e-7)
    ctx.expect(np.all((got[~silent] >= 1 - 1e-9) & (got[~silent] <= raw.shape[1] * (1 + 1e-9))), 'range', got)
    ctx.close(joined(run(lambda x: SpectralCentroid(needs=x), [loud])), got, 'scale-free', 'centroid', rtol=1e-7)

    got, _ = frames(ctx, lambda x: SpectralFlatness(needs=x), arr, raw, 'flatness')
    want = []
    for m in mag:
        if np.any(m == 0):
            want.append(0.)
        else:
            want.append(math.exp(math.fsum(math.log(v) for v in m) / len(m)) / m.mean())
    ctx.close(got, np.array(want), 'flatness', rtol=1e-6, atol=1e-9)
    ctx.expect(np.all((got >= -1e-9) & (got <= 1 + 1e-6)), 'range', got)
    ctx.close(joined(run(lambda x: SpectralFlatness(needs=x), [loud])), got, 'scale-free', 'flatness', rtol=1e-6, atol=1e-9)
    if silent.any():
        ctx.eq(np.abs(got[silent]), np.zeros(silent.sum()), 'silent')


@CHECK.family(300, 4000, need=['bfcc', 'bfcc-axis', 'chunking', 'time-axis', 'finite'])
def bfcc(ctx):
    arr, raw, td, s = spectrogram(ctx, most=150)
    k = raw.shape[1]
    kw = {}
    n_coeffs, exclude = 13, 1
    if ctx.coin(.7):
        n_coeffs, exclude = ctx.integer(1, k), ctx.integer(0, 4)
        kw = dict(n_coeffs=n_coeffs, exclude=exclude)
    ctx.say('bfcc', raw.shape, kw)
    got, outs = frames(ctx, lambda x: BFCC(needs=x, **kw), arr, raw, 'bfcc')
    logs = np.log(np.abs(raw) + 1e-12)
    # DCT-II by its definition
    cs = np.arange(exclude, min(k, exclude + n_coeffs))
    basis = 2 * np.cos(np.pi * cs[:, None] * (2 * np.arange(k)[None, :] + 1) / (2. * k))
    ctx.close(got, logs.dot(basis.T), 'bfcc', rtol=1e-6, atol=1e-6)
    ctx.expect(isinstance(outs[0].dimensions[1], IdentityDimension), 'bfcc-axis')


@CHECK.family(400, 5000, need=['transience', 'chunking', 'time-axis', 'finite'])
def transience(ctx):
    arr, raw, td, s = spectrogram(ctx)
    ctx.say('transience', raw.shape)
    got, _ = frames(ctx, lambda x: MeasureOfTransience(needs=x), arr, raw, 'transience')
    power = np.abs(raw)[:, 2:] ** 2
    energy = power.sum(axis=1)
    hfc = (power * np.arange(3, raw.shape[1] + 1)).sum(axis=1)
    energy[energy == 0] = 1e-12
    hfc[hfc == 0] = 1e-12
    prev = np.concatenate([hfc[:1], hfc[:-1]])
    ctx.close(got, hfc / prev * hfc / energy, 'transience', rtol=1e-6, atol=0)


@CHECK.family(300, 4000, need=['flux', 'flux-norm', 'chunking', 'time-axis'])
def flux(ctx):
    arr, raw, td, s = spectrogram(ctx)
    unit = ctx.coin()
    ctx.say('flux', raw.shape, unit)
    got, outs = frames(ctx, lambda x: Flux(unit_norm=unit, needs=x), arr, raw, 'flux')
    x = raw
    if unit:
        n = np.sqrt((np.abs(raw) ** 2).sum(axis=1, keepdims=True))
        n[n == 0] = 1
        x = raw / n
    prev = np.concatenate([x[:1], x[:-1]])
    ctx.close(got, np.sqrt((np.abs(x - prev) ** 2).sum(axis=1)), 'flux-norm' if unit else 'flux',
              rtol=1e-6, atol=1e-9 * (1 + np.abs(x).max()))


@CHECK.family(300, 4000, need=['complex-domain', 'complex-axis', 'chunking', 'steady'])
def complex_domain(ctx):
    """per triple of frames: distance between the last frame and the one extrapolated from the
    first two (same magnitude as the second, phase advancing steadily)"""
    n, k = ctx.integer(1, 40), ctx.integer(1, 60)
    m = ctx.integer(3, 4)
    raw = ctx.rng.normal(0, 1, (n, m, k)) + 1j * ctx.rng.normal(0, 1, (n, m, k))
    steady = ctx.coin(.3)
    if steady:
        # stationary partials: nothing to detect
        amp = np.abs(raw[:, :1])
        start = ctx.rng.uniform(-3, 3, (n, 1, k))
        adv = ctx.rng.uniform(-3, 3, (n, 1, k))
        raw = amp * np.exp(1j * (start + adv * np.arange(m)[None, :, None]))
    if ctx.coin(.3):
        raw[ctx.integer(0, n - 1)] = 0
    td = time_dim(ctx, 'ms')
    inner = time_dim(ctx, 'ms')
    sr = samplerate(ctx)
    arr = ArrayWithUnits(raw.copy(), [td, inner, FrequencyDimension(LinearScale.from_sample_rate(sr, k))])
    ctx.say('complex domain', raw.shape, 'steady' if steady else '')
    outs = run(lambda x: ComplexDomain(needs=x), chunked(ctx, arr))
    got = joined(outs)
    ctx.close(got, joined(run(lambda x: ComplexDomain(needs=x), [arr])), 'chunking', rtol=1e-9)
    first, second, third = raw[:, 0], raw[:, 1], raw[:, 2]
    # |target - actual| with target = |x1| * exp(i (2 phi1 - phi0))
    phase = 2 * np.angle(second) - np.angle(first)
    target = np.abs(second) * np.exp(1j * phase)
    want = np.abs(target - third).sum(axis=1)
    ctx.close(got, want, 'complex-domain', rtol=1e-5, atol=1e-6 * k)
    if steady:
        ctx.close(got, np.zeros(n), 'steady', atol=1e-5 * k)
    for o in outs:
        ctx.expect(isinstance(o, ArrayWithUnits) and o.ndim == 1 and
                   ps(o.dimensions[0].frequency) == ps(td.frequency) and
                   ps(o.dimensions[0].duration) == ps(inner.duration), 'complex-axis', o.dimensions)
    ctx.eq(np.asarray(arr), raw, 'pure')
