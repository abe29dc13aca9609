"""C31: differentiable transforms, layers and losses"""
import scipy.fft
import torch
from torch import nn
from torch.nn import functional as F

from ..core import Check
from ..gen import *
from zounds.learn import (
    BandLoss, CategoricalLoss, Conv1d, Conv2d, ConvTranspose1d, ConvTranspose2d, DctTransform, FilterBank,
    GatedConvLayer, GatedConvTransposeLayer, GatedLinearLayer, LearnedWassersteinLoss, MultiResolutionConvLayer,
    PerceptualLoss, SincLayer, WassersteinCriticLoss, WassersteinGradientPenaltyLoss, batchwise_mean_std_normalization,
    batchwise_unit_norm, feature_map_size, sample_norm)
from zounds.spectral import (
    AWeighting, FrequencyBand, FrequencyDimension, GeometricScale, HanningWindowingFunc, IdentityWindowingFunc,
    LinearScale, OggVorbisWindowingFunc, MelScale, WindowingFunc, fir_filter_bank, morlet_filter_bank)
from zounds.timeseries import AudioSamples, SR11025, SR22050, SR44100

CHECK = Check(
    'C31',
    'Layers and losses are run on random signals, shapes and axes and compared with scipy\'s cosine transforms, with '
    'correlations written out in numpy in double precision, and with the frequency responses their parameters promise; '
    'gradients are compared with finite differences.',
    technique='differential runtime monitoring against independent numpy/scipy transforms and finite differences',
    require=['transforms', 'short time transforms', 'filters', 'responses', 'losses', 'gradients', 'layers'])

TOL = dict(rtol=1e-3, atol=2e-4)


def n(x):
    return x.detach().numpy()


def t(x):
    return torch.from_numpy(np.ascontiguousarray(x, dtype=np.float32))


def signal(ctx, shape):
    kind = ctx.choice(['noise', 'noise', 'zeros', 'impulse', 'constant'])
    if kind == 'noise':
        x = ctx.rng.normal(0, 1, shape)
    elif kind == 'zeros':
        x = np.zeros(shape)
    elif kind == 'constant':
        x = np.ones(shape) * ctx.rng.normal()
    else:
        x = np.zeros(shape)
        x.reshape(-1)[ctx.integer(0, x.size - 1)] = 1
    return x.astype(np.float32)


def ortho(x, axis, inverse=False):
    return scipy.fft.dct(np.asarray(x, dtype=np.float64), type=2 if inverse else 3, axis=axis, norm='ortho')


def cut(x, axis, a, b):
    s = [slice(None)] * x.ndim
    s[axis] = slice(a, b)
    return x[tuple(s)]


@CHECK.family(300, 15000, need=['dct'])
def transforms(ctx):
    """the cosine transform, any axis"""
    shape = tuple(ctx.integer(1, 6) for _ in range(ctx.integer(0, 2)))
    axis = ctx.integer(0, len(shape))
    size = ctx.choice([1, 2, 8, 64, ctx.integer(1, 100)])
    shape = shape[:axis] + (size,) + shape[axis:]
    axis = ctx.choice([axis, axis - len(shape)])
    ctx.say(shape, axis)
    d = DctTransform()
    for _ in range(2):
        x = signal(ctx, shape)
        keep = x.copy()
        c = d.dct(t(x), axis=axis)
        ctx.eq(c.shape, shape, 'dct', 'shape')
        ctx.close(n(c), ortho(x, axis), 'dct', **TOL)
        ctx.close(n(d.idct(c, axis=axis)), x, 'dct', 'there and back', **TOL)
        ctx.close(n(d.dct(d.idct(t(x), axis=axis), axis=axis)), x, 'dct', 'back and there', **TOL)
        ctx.close((n(c) ** 2).sum(), (x.astype(float) ** 2).sum(), 'dct', 'energy', rtol=1e-3, atol=1e-4)
        y = signal(ctx, shape)
        ctx.close(n(d.dct(t(x) * 2 - t(y), axis=axis)), 2 * n(c) - n(d.dct(t(y), axis=axis)), 'dct', 'linear', **TOL)
        ctx.eq(x, keep, 'dct', 'input changed')
        ctx.count('transforms')
    # other rates: coefficients kept, left out or filled up with nothing
    factor = ctx.choice([0.5, 0.25, 1, 2, 1.5, 0.75])
    m = int(factor * size)
    if m:
        got = d.dct_resample(t(x), factor, axis=axis)
        co = ortho(x, axis)
        want = np.zeros([m if i == axis % len(shape) else s for i, s in enumerate(shape)])
        k = min(m, size)
        cut(want, axis, 0, k)[...] = cut(co, axis, 0, k)
        ctx.close(n(got), ortho(want, axis, True), 'resample', 'by', factor, **TOL)
        a = ctx.integer(0, m)
        b = ctx.integer(a, m)
        got = d.dct_resample(t(x), factor, axis=axis, zero_slice=slice(a, b))
        cut(want, axis, a, b)[...] = 0
        ctx.close(n(got), ortho(want, axis, True), 'resample', 'by', factor, 'without', a, b, **TOL)
    # bands
    if size >= 8:
        factors = [0.125, 0.25, 0.5, 1][ctx.integer(0, 2):]
        given = list(factors)
        ctx.rng.shuffle(given)
        kept = list(given)
        bands = d.frequency_decomposition(t(x), given, axis=axis)
        ctx.eq(given, kept, 'bands', 'factors changed')
        ctx.eq(len(bands), len(factors), 'bands', 'number')
        co, start, energy = ortho(x, axis), 0, 0
        for f, band in zip(factors, bands):
            stop = int(f * size)
            want = cut(co, axis, 0, stop).copy()
            cut(want, axis, 0, start)[...] = 0
            ctx.close(n(band), ortho(want, axis, True), 'bands', 'up to', f, **TOL)
            energy += (n(band).astype(float) ** 2).sum()
            start = stop
        ctx.close(energy, (x.astype(float) ** 2).sum(), 'bands', 'energy', rtol=1e-3, atol=1e-4)


@CHECK.family(100, 5000, need=['short'])
def short_time(ctx):
    """short time transforms, with several windows"""
    d = DctTransform()
    batch, length = ctx.integer(1, 4), ctx.integer(16, 200)
    for _ in range(5):
        size = ctx.choice([8, 16, 16, ctx.integer(1, 16)])
        step = ctx.integer(1, size)
        own = ctx.rng.uniform(0.5, 2, size)
        w = ctx.choice([HanningWindowingFunc(), IdentityWindowingFunc(), OggVorbisWindowingFunc(),
                        WindowingFunc(lambda l, own=own: own[:l])])
        x = signal(ctx, (batch, 1, length))
        ctx.say(w.__class__.__name__, size, step)
        if isinstance(w, IdentityWindowingFunc):
            wd = np.ones(size)
        else:
            wd = np.asarray(w * np.ones(size))
        try:
            got = d.short_time_dct(t(x), size, step, w)
        except TypeError:
            if isinstance(w, IdentityWindowingFunc):     # which has no values of its own
                continue
            raise
        frames = (length - size) // step + 1
        ctx.eq(got.shape, (batch, size, frames), 'short', 'shape')
        for i in range(frames):
            want = ortho(x[:, 0, i * step: i * step + size] * wd, -1)
            ctx.close(n(got)[:, :, i], want, 'short', 'frame', i, **TOL)
        ctx.count('short time transforms')


def scale_of(ctx, sr, most=6):
    nyq = sr.nyquist
    bands = ctx.integer(1, most)
    kind = ctx.choice(['linear', 'geometric', 'mel'])
    low = ctx.choice([50, 200])
    if kind == 'linear':
        return LinearScale(FrequencyBand(low, nyq * 0.9), bands)
    if kind == 'geometric':
        return GeometricScale(low * 2, nyq * 0.8, 0.2, bands)
    return MelScale(FrequencyBand(low, nyq * 0.9), bands)


def correlated(x, filters, padding):
    """plain correlation with every filter"""
    x = np.pad(np.asarray(x, dtype=np.float64), ((0, 0), (padding, padding)))
    return np.stack([[np.correlate(row, f, 'valid') for f in np.asarray(filters, dtype=np.float64)] for row in x])


@CHECK.family(100, 4000, need=['bank'])
def filter_banks(ctx):
    """FilterBank is the correlation with morlet filters"""
    sr = ctx.choice([SR11025, SR22050, SR44100])()
    scale = scale_of(ctx, sr)
    taps = ctx.choice([16, 33, 64, ctx.integer(4, 80)])
    factors = ctx.choice([0.1, 0.5, list(np.linspace(0.1, 0.5, len(scale)))])
    norm, weighted = ctx.coin(), ctx.coin()
    length, batch = ctx.integer(taps, 300), ctx.integer(1, 4)
    ctx.say(sr, scale, taps, factors, 'normalized' if norm else '', 'weighted' if weighted else '', batch, length)
    fb = FilterBank(sr, taps, scale, factors, normalize_filters=norm, a_weighting=weighted)
    ctx.eq(fb.n_bands, len(scale), 'bank', 'bands')
    want = morlet_filter_bank(sr, taps, scale, factors, normalize=norm)
    if weighted:
        want = np.array(want) * np.asarray(AWeighting()._wdata(scale))[:, None]
    want = np.array(want)
    filters = n(fb.filter_bank)
    ctx.eq(filters.shape, (len(scale), 1, taps), 'bank', 'filters')
    ctx.close(filters[:, 0], want, 'bank', 'filters', rtol=1e-4, atol=1e-5)
    ctx.expect(not list(p for p in fb.parameters() if p.requires_grad), 'bank', 'fixed')
    ctx.expect('filter_bank' in fb.state_dict(), 'bank', 'stored')
    x = signal(ctx, (batch, length))
    shaped = ctx.choice([x, x[:, None]])
    got = fb.convolve(t(shaped))
    c = correlated(x, want, taps // 2)
    top = max(np.abs(want).sum(-1).max() * max(np.abs(x).max(), 1), 1)
    tol = dict(rtol=1e-3, atol=1e-5 * top)
    ctx.close(n(got), c, 'bank', 'correlation', **tol)
    back = fb.transposed_convolve(got)
    ctx.eq(back.shape, (batch, 1, length), 'transposed', 'shape')
    full = np.zeros((batch, length + 2 * (taps // 2)))
    for b in range(batch):
        for k, f in enumerate(want):
            full[b] += np.convolve(c[b, k], f)
    full = full[:, taps // 2: taps // 2 + length]
    ctx.close(n(back)[:, 0], full, 'transposed', rtol=1e-3, atol=1e-5 * top * max(np.abs(c).max(), 1) * len(scale))
    # <filtered, y> = <x, transposed y>
    y = ctx.rng.normal(0, 1, c.shape).astype(np.float32)
    ctx.close((c * y).sum(), (n(fb.transposed_convolve(t(y)))[:, 0].astype(float) * x).sum(), 'transposed', 'adjoint',
              rtol=1e-3, atol=1e-4 * top * c.size)
    log = 20 * np.log10(1 + np.maximum(c, 0))
    ctx.close(n(fb.log_magnitude(t(c))), log, 'bank', 'logarithm', rtol=1e-3, atol=1e-3)
    ctx.close(n(fb(t(shaped), normalize=False)), log[..., :length], 'bank', 'forward', rtol=1e-3, atol=1e-3 * top)
    got = n(fb(t(shaped)))
    ctx.eq(got.shape, (batch, len(scale), length), 'bank', 'shape')
    flat = log.reshape((batch, -1))
    sd = flat.std(axis=1, ddof=1)
    if (sd > 1e-2).all():
        ctx.close(got, ((flat - flat.mean(1, keepdims=True)) / sd[:, None]).reshape(log.shape)[..., :length], 'bank',
                  'normalized', rtol=1e-2, atol=1e-2)
    # the same from samples to samples with units
    samples = AudioSamples(x[0], sr)
    k = ctx.choice([4, 7, 16])
    s = ctx.integer(1, k if ctx.coin(0.7) else 3 * k)
    tf = fb.transform(samples, k, s)
    ctx.eq(tf.dimensions[0].frequency, sr.frequency * s, 'units', 'frequency')
    ctx.eq(tf.dimensions[0].duration, sr.frequency * k, 'units', 'duration')
    ctx.expect(tf.dimensions[1] == FrequencyDimension(scale), 'units', tf.dimensions)
    padded = np.pad(log[0], ((0, 0), (k // 2, k // 2)))
    want = np.stack([padded[:, i: i + k].mean(-1) for i in range(0, padded.shape[1] - k + 1, s)])
    ctx.close(np.asarray(tf), want, 'units', 'pooled', rtol=1e-3, atol=1e-3 * top)
    ctx.count('filters', len(scale))


@CHECK.family(80, 4000, need=['sinc', 'band'])
def sinc(ctx):
    """SincLayer passes the bands of its scale"""
    sr = ctx.choice([SR11025, SR22050])()
    f = int(sr)
    taps = ctx.choice([401, 512, 1023, 255, 256])
    scale = LinearScale(FrequencyBand(ctx.choice([100, 500]), f * 0.45), ctx.integer(1, 4)) if ctx.coin() \
        else GeometricScale(f * 0.05, f * 0.35, 0.5, ctx.integer(1, 4))
    layer = SincLayer(scale, taps, sr)
    ctx.say(sr, taps, scale)
    length, batch = ctx.integer(1, 100), ctx.integer(1, 3)
    filters = n(layer._filter_bank()).reshape((len(scale), taps)).astype(float)
    ctx.finite(filters, 'sinc')
    hz = np.linspace(0, f / 2., 2000)
    at = np.arange(taps)
    resp = np.abs(np.exp(-2j * np.pi * hz[:, None] * at[None] / f).dot(filters.T)).T
    edge = 2.5 * f / taps
    for band, r in zip(scale, resp):
        inside = (hz > band.start_hz + edge) & (hz < band.stop_hz - edge)
        outside = (hz < band.start_hz - edge) | (hz > band.stop_hz + edge)
        if inside.any():
            ctx.expect((np.abs(r[inside] - 1) < 0.05).all(), 'band', 'in', band, r[inside].min(), r[inside].max())
            ctx.count('responses')
        if outside.any():
            ctx.expect(r[outside].max() < 0.05, 'band', 'outside', band, r[outside].max())
    x = signal(ctx, (batch, length))
    got = layer(t(ctx.choice([x, x[:, None]])))
    ctx.close(n(got), correlated(x, filters, taps // 2), 'sinc', 'correlation', rtol=1e-3, atol=1e-4)
    trainable = [p for p in layer.parameters() if p.requires_grad]
    ctx.eq([tuple(p.shape) for p in trainable], [(len(scale), 2)], 'sinc', 'two parameters for each filter')
    # whatever they become in training, start comes before stop
    (got ** 2).sum().backward()
    ctx.finite(n(trainable[0].grad), 'sinc')
    with torch.no_grad():
        trainable[0].copy_(torch.randn(len(scale), 2) * 0.3)
    ctx.expect((n(layer._start_frequencies()) >= 0).all(), 'sinc', 'start')
    ctx.expect((n(layer._stop_frequencies()) >= n(layer._start_frequencies())).all(), 'sinc', 'stop before start')
    ctx.finite(n(layer(t(x))), 'sinc')
    ctx.count('layers')


def numeric(ctx, fn, x, key):
    """a directional derivative"""
    x = torch.from_numpy(np.asarray(x, dtype=np.float32)).requires_grad_(True)
    y = fn(x)
    y.backward()
    g = n(x.grad).astype(float)
    ctx.finite(g, key)
    d = ctx.rng.normal(0, 1, x.shape)
    best = None
    for eps in (3e-2, 1e-2, 3e-3):
        a = fn(t(n(x) + eps * d)).item()
        b = fn(t(n(x) - eps * d)).item()
        slope = (a - b) / (2 * eps)
        err = abs(slope - (g * d).sum())
        best = err if best is None else min(best, err)
    ctx.expect(best < 0.1 * (np.abs(g * d).sum() + 1e-3) + 2e-3, key, 'gradient', (g * d).sum(), slope)
    ctx.count('gradients')


@CHECK.family(100, 4000, need=['perceptual'])
def perceptual(ctx):
    """PerceptualLoss compares rectified, logarithmic filter bank outputs"""
    sr = ctx.choice([SR11025, SR22050])()
    scale = scale_of(ctx, sr)
    taps = ctx.choice([16, 32, 64])
    lap = ctx.integer(1, 4)
    cosine = ctx.coin()
    weighting = AWeighting() if ctx.coin() else None
    factor = ctx.choice([1, 100])
    window = ctx.choice([np.hanning(20), np.hamming(8), np.ones(5)])
    loss = PerceptualLoss(scale, sr, frequency_window=window, basis_size=taps, lap=lap, log_factor=factor,
                          frequency_weighting=weighting, cosine_similarity=cosine)
    batch, length = ctx.integer(1, 3), ctx.integer(taps, 200)
    ctx.say(sr, scale, taps, lap, 'cosine' if cosine else '', 'weighted' if weighting else '', batch, length)
    a, b = signal(ctx, (batch, length)), signal(ctx, (batch, length))
    filters = np.array(fir_filter_bank(scale, taps, sr, window))

    def features(x):
        c = correlated(x, filters, taps)[..., ::lap]
        c = np.log(1 + factor * np.maximum(c, 0))
        if weighting is not None:
            c = c * np.asarray(weighting._wdata(scale))[:, None]
        return c.reshape((batch, -1))

    def expected(a, b):
        fa, fb = features(a), features(b)
        if not cosine:
            return ((fa - fb) ** 2).mean()
        na, nb = np.linalg.norm(fa, axis=1), np.linalg.norm(fb, axis=1)
        if (na < 1e-4).any() or (nb < 1e-4).any():
            return None
        return -((fa * fb).sum(1) / na / nb).mean()

    shaped = ctx.choice([lambda x: t(x), lambda x: t(x[:, None])])
    for x, y in ((a, b), (b, a), (a, a)):
        got = loss(shaped(x), shaped(y)).item()
        want = expected(x, y)
        ctx.expect(math.isfinite(got), 'perceptual', got)
        if want is not None:
            ctx.close(got, want, 'perceptual', rtol=1e-3, atol=1e-3)
            if cosine:
                ctx.expect(-1 - 1e-5 <= got <= 1e-5, 'perceptual', 'range', got)
            else:
                ctx.expect(got >= 0, 'perceptual', 'negative', got)
            if x is y:
                ctx.close(got, -1 if cosine else 0, 'perceptual', 'of a signal and itself', rtol=0, atol=1e-5)
        ctx.count('losses')
    if a.any() and b.any() and factor == 1 and expected(a, b) is not None:
        numeric(ctx, lambda x: loss(x, t(b)), a + ctx.rng.normal(0, 0.5, a.shape), 'perceptual')


@CHECK.family(100, 4000, need=['bands'])
def band_loss(ctx):
    """BandLoss compares shapes of bands"""
    size = ctx.choice([16, 32, 64])
    shape = ctx.choice([(2, size), (3, 1, size), (1, 2, size)])
    factors = [0.25, 0.5, 1][ctx.integer(0, 2):]
    weight = ctx.choice([1, 0, 0.5])
    loss = BandLoss(factors, spectral_shape_weight=weight)
    a, b = signal(ctx, shape), signal(ctx, shape)
    ctx.say(shape, factors, weight)

    def split(x):
        co, start, bands = ortho(x, -1), 0, []
        for f in factors:
            stop = int(f * size)
            c = co[..., :stop].copy()
            c[..., :start] = 0
            bands.append(ortho(c, -1, True))
            start = stop
        norms = [np.linalg.norm(y, axis=-1, keepdims=True) for y in bands]
        fine = np.concatenate([y / (m + 1e-8) for y, m in zip(bands, norms)], axis=-1)
        coarse = np.concatenate(norms, axis=-1)
        clear = min(m.min() for m in norms) > 1e-3
        return fine, coarse / (np.linalg.norm(coarse, axis=-1, keepdims=True) + 1e-8), clear

    for x, y in ((a, b), (b, a), (a, a)):
        got = loss(t(x), t(y)).item()
        (fx, cx, ok), (fy, cy, also) = split(x), split(y)
        ctx.expect(math.isfinite(got) and got >= 0, 'bands', got)
        if x is y:
            ctx.close(got, 0, 'bands', 'of a signal and itself', rtol=0, atol=1e-6)
        elif ok and also:
            # otherwise a band that is silent but for rounding has any shape
            ctx.close(got, ((fx - fy) ** 2).mean() + weight * ((cx - cy) ** 2).mean(), 'bands', rtol=1e-3, atol=1e-5)
        ctx.count('losses')
    if a.any():
        numeric(ctx, lambda x: loss(x, t(b)), a + ctx.rng.normal(0, 1, a.shape), 'bands')


@CHECK.family(100, 4000, need=['critic', 'categorical'])
def losses(ctx):
    """losses of critics and of categories"""
    batch = ctx.integer(1, 5)
    shape = ctx.choice([(4,), (2, 3), (2, 2, 2)])
    size = int(np.prod(shape))
    w = ctx.rng.normal(0, 1, (1, size)).astype(np.float32)

    class Critic(nn.Module):
        def __init__(self):
            super(Critic, self).__init__()
            self.l = nn.Linear(size, 1)
            with torch.no_grad():
                self.l.weight.copy_(t(w))

        def forward(self, x, factor=1):
            return self.l(x.reshape((x.shape[0], -1))) * factor

    critic = Critic()
    factor = ctx.choice([1, 3])
    kw = dict(factor=factor) if factor != 1 else {}
    a, b = [ctx.rng.normal(0, 1, (batch,) + shape).astype(np.float32) for _ in range(2)]
    sa, sb = [critic(t(x), **kw).mean().item() for x in (a, b)]
    ctx.close(LearnedWassersteinLoss(critic)(t(a), **kw).item(), -sa, 'critic', 'learned', rtol=1e-4, atol=1e-5)
    ctx.close(WassersteinCriticLoss(critic)(t(a), t(b), **kw).item(), sb - sa, 'critic', rtol=1e-4, atol=1e-5)
    weight = ctx.choice([10, 1])
    # the gradient of this critic is the same everywhere
    want = weight * (factor * np.linalg.norm(w) - 1) ** 2
    p = WassersteinGradientPenaltyLoss(critic, weight)(t(a), t(b), **kw)
    ctx.close(p.item(), want, 'critic', 'penalty', rtol=1e-3, atol=1e-4)
    # one whose gradient does not, watched
    seen = []

    class Curved(nn.Module):
        def forward(self, x, factor=1):
            seen.append(x.detach().numpy().copy())
            return ((x * x).reshape((x.shape[0], -1)).sum(1, keepdim=True) * 0.5 * factor)

    fresh = Curved()
    for i in range(4):
        q = WassersteinGradientPenaltyLoss(fresh, weight)(t(a), t(b), **kw)
        ctx.eq(len(seen), i + 1, 'critic', 'penalty', 'points')
        m = seen[-1].astype(float)
        norms = np.sqrt((m ** 2).reshape((batch, -1)).sum(1)) * factor
        ctx.close(q.item(), weight * ((norms - 1) ** 2).mean(), 'critic', 'penalty', rtol=1e-3, atol=1e-4)
    d = (a.astype(float) - b).reshape((batch, -1))
    alphas = np.array([((m - b).reshape((batch, -1)) * d).sum(1) / (d * d).sum(1) for m in seen])
    for m, v in zip(seen, alphas):
        v = v.reshape((-1,) + (1,) * len(shape))
        ctx.close(m, v * a + (1 - v) * b, 'critic', 'penalty', 'in between', rtol=1e-3, atol=1e-4)
    ctx.expect((alphas > -1e-3).all() and (alphas < 1 + 1e-3).all(), 'critic', 'penalty', 'in between', alphas)
    ctx.expect(np.ptp(alphas[:, 0]) > 1e-4, 'critic', 'penalty', 'always at', alphas)
    if batch > 1:
        ctx.expect(max(np.ptp(v) for v in alphas) > 1e-4, 'critic', 'penalty', 'all examples at', alphas)
    p.backward()
    ctx.expect(critic.l.weight.grad is not None and np.isfinite(n(critic.l.weight.grad)).all(), 'critic', 'penalty')
    ctx.count('losses', 3)
    # categories
    k = ctx.choice([7, 15, 255])
    length = 2 * ctx.integer(1, 20)
    x = ctx.rng.uniform(-1, 1, (batch, length)).astype(np.float32)
    logits = F.log_softmax(torch.from_numpy(ctx.rng.normal(0, 1, (batch, k + 1, length)).astype(np.float32)), dim=1)
    y = x.astype(float) / np.abs(x).max()
    c = (np.sign(y) * np.log1p(k * np.abs(y)) / np.log1p(k) + 1) * k / 2.
    sure = np.abs(c - np.round(c)) > 1e-3
    sure |= np.abs(y) == 1
    target = np.floor(np.where(np.abs(y) == 1, np.round(c), c)).astype(int)
    if sure.all():
        want = -np.mean([n(logits)[i, target[i, j], j] for i in range(batch) for j in range(length)])
        got = CategoricalLoss(k)(logits, t(x)).item()
        tops = int((target == k).sum())
        # the loudest sample may fall just below its category
        ctx.expect(abs(got - want) < 1e-3 + 10. * tops / x.size, 'categorical', got, want)
        if not tops:
            ctx.close(got, want, 'categorical', rtol=1e-3, atol=1e-4)
    else:
        ctx.expect(True, 'categorical')
    ctx.count('losses')


@CHECK.family(200, 8000, need=['norms'])
def norms(ctx):
    """normalization of samples and batches"""
    batch = ctx.integer(1, 5)
    shape = ctx.choice([(4,), (3, 5), (2, 3, 4), (3, 2, 2), (100,), (9, 2, 7)])
    # (of next to nothing, too, but that without an offset, which would be all that single precision keeps)
    mean, deviation = ctx.choice([(0, 1), (0, 10), (3, 1), (3, 10), (0, 1e-3), (0, 1e-4)])
    x = ctx.rng.normal(mean, deviation, (batch,) + shape).astype(np.float32)
    silent = ctx.coin(0.3)
    if silent:
        x[ctx.integer(0, batch - 1)] = 0
    keep = x.copy()
    d = x.astype(float)
    flat = d.reshape((batch, -1))
    ctx.say(x.shape, 'silent' if silent else '')
    got = n(batchwise_unit_norm(t(x)))
    ctx.close(got, (flat / (np.linalg.norm(flat, axis=1, keepdims=True) + 1e-8)).reshape(x.shape), 'norms', 'unit',
              rtol=1e-4, atol=1e-6)
    got = n(batchwise_mean_std_normalization(t(x)))
    sd = flat.std(axis=1, ddof=1, keepdims=True)
    ctx.close(got, ((flat - flat.mean(1, keepdims=True)) / (sd + 1e-8)).reshape(x.shape), 'norms', 'mean and deviation',
              rtol=1e-3, atol=1e-4)
    got = n(sample_norm(t(x)))
    ctx.close(got, d / np.sqrt((d ** 2).mean(axis=1, keepdims=True) + 1e-7), 'norms', 'features of a sample',
              rtol=1e-3, atol=1e-4)
    ctx.eq(x, keep, 'norms', 'input changed')
    ctx.count('layers', 3)


@CHECK.family(150, 6000, need=['conv', 'gated'])
def layers(ctx):
    """convolutions and gates: what they are made of, and how large the outcome is"""
    two = ctx.coin(0.3)
    transposed = ctx.coin(0.3)
    i, o = ctx.integer(1, 4), ctx.integer(1, 4)
    kernel, stride, pad, dilation = ctx.integer(1, 5), ctx.integer(1, 3), ctx.integer(0, 2), ctx.choice([1, 1, 2])
    length, batch = ctx.integer(12, 30), ctx.integer(2, 4)
    torch.manual_seed(ctx.integer(0, 10 ** 6))
    cls = {(False, False): Conv1d, (False, True): ConvTranspose1d, (True, False): Conv2d,
           (True, True): ConvTranspose2d}[two, transposed]
    bn, sn, drop = ctx.coin(), ctx.coin(0.4), ctx.coin()
    ctx.say(cls.__name__, i, o, 'kernel', kernel, 'stride', stride, 'padding', pad, 'dilation', dilation,
            'batch norm' if bn else '', 'sample norm' if sn else '')
    layer = cls(i, o, kernel, stride, pad, dropout=drop, batch_norm=bn, dilation=dilation, sample_norm=sn)
    ctx.eq((layer.in_channels, layer.out_channels), (i, o), 'conv', 'channels')
    x = ctx.rng.normal(0, 1, (batch, i, length) + ((length,) if two else ())).astype(np.float32)
    layer.train()
    y = layer(t(x))
    layer.eval()
    y = layer(t(x))
    ops = {Conv1d: F.conv1d, ConvTranspose1d: F.conv_transpose1d, Conv2d: F.conv2d, ConvTranspose2d: F.conv_transpose2d}
    plain = ops[cls](t(x), layer.l1.weight, None, stride=stride, padding=pad, dilation=dilation)
    ctx.expect(layer.l1.bias is None, 'conv', 'bias')
    want = n(plain).astype(float)
    if sn:
        want = want / np.sqrt((want ** 2).mean(axis=1, keepdims=True) + 1e-7)
    elif bn:
        b = layer.bn
        view = (1, -1) + (1,) * (want.ndim - 2)
        want = (want - n(b.running_mean).reshape(view)) / np.sqrt(n(b.running_var).reshape(view) + b.eps)
    want = np.where(want > 0, want, 0.2 * want)
    ctx.close(n(y), want, 'conv', rtol=1e-3, atol=1e-4)
    if not transposed and dilation == 1:
        size = feature_map_size(length, kernel, stride, pad)
        ctx.eq(size, plain.shape[-1], 'conv', 'size of the outcome')
        ctx.expect(isinstance(size, int), 'conv', 'size', repr(size))
    # gates
    if not two:
        g = (GatedConvTransposeLayer if transposed else GatedConvLayer)(i, o, kernel, stride, pad, dilation)
        op = F.conv_transpose1d if transposed else F.conv1d
        c, gate = [n(op(t(x), m.weight, None, stride=stride, padding=pad, dilation=dilation)).astype(float)
                   for m in (g.conv, g.gate)]
        y = n(g(t(x)))
        ctx.close(y, np.tanh(c) / (1 + np.exp(-gate)), 'gated', rtol=1e-3, atol=1e-5)
        ctx.expect((np.abs(y) <= 1).all(), 'gated', 'bounds')
        # other functions
        other = type(g)(i, o, kernel, stride, pad, dilation, attention_func=torch.relu, activation_func=lambda v: v - 1,
                        norm=lambda v: v * 3)
        c, gate = [n(op(t(x), m.weight, None, stride=stride, padding=pad, dilation=dilation)).astype(float) * 3
                   for m in (other.conv, other.gate)]
        ctx.close(n(other(t(x))), (c - 1) * np.maximum(gate, 0), 'gated', 'other functions', rtol=1e-3, atol=1e-4)
        if not transposed:
            kernels = [ctx.integer(1, 5) for _ in range(ctx.integer(1, 3))]
            padding = ctx.choice([None, None, 0, 1, 2])
            kw = {} if padding is None else dict(padding=padding)
            m = MultiResolutionConvLayer(i, o, kernels, stride=stride, **kw)
            outs = m(t(x))
            ctx.eq(len(outs), len(kernels), 'gated', 'resolutions')
            for k, sub, out in zip(kernels, m.main, outs):
                c, gate = [n(F.conv1d(t(x), q.weight, None, stride=stride, padding=k // 2 if padding is None else padding)).astype(float)
                           for q in (sub.conv, sub.gate)]
                ctx.close(n(out), np.tanh(c) / (1 + np.exp(-gate)), 'gated', 'kernel', k, rtol=1e-3, atol=1e-5)
    lin = GatedLinearLayer(i, o)
    z_ = ctx.rng.normal(0, 1, (batch, i))
    c, gate = [z_.dot(n(m.weight).T) + n(m.bias) for m in (lin.l1, lin.gate)]
    ctx.close(n(lin(t(z_))), np.tanh(c) / (1 + np.exp(-gate)), 'gated', 'linear', rtol=1e-3, atol=1e-5)
    ctx.count('layers')
