from ..core import Check
from ..gen import *
from zounds.spectral import FrequencyAdaptive, HanningWindowingFunc, OggVorbisWindowingFunc
from zounds.spectral.sliding_window import IdentityWindowingFunc
from zounds.spectral.functional import (
    fft, stft, phase_shift, time_stretch, pitch_shift, frequency_decomposition, fir_filter_bank,
    morlet_filter_bank, auto_correlogram, dct_basis, apply_scale, rainbowgram)

CHECK = Check(
    'C12', 'a case is one signal or batch (tones, bursts, noise, silence), rate, factor/scale/size set and one spectral operation on it',
    technique='runtime monitor: outputs observed against direct DFT sums, tone/onset measurements and metamorphic relations')


def batch(raw, sr):
    return ArrayWithUnits(raw.copy(), [IdentityDimension(), TimeDimension(*sr)])


def dft(frames):
    w = frames.shape[-1]
    k = np.arange(w // 2 + 1)
    return frames.dot(np.exp(-2j * np.pi * np.outer(np.arange(w), k) / w)) / np.sqrt(w)


@CHECK.family(400, 5000, need=['stft', 'stft-axes', 'stft-batch', 'fft', 'fft-axis', 'refused'])
def short_time(ctx):
    sr = samplerate(ctx)
    w = ctx.integer(2, 200)
    s = ctx.choice([w, max(1, w // 2), ctx.integer(1, w)])
    n = ctx.choice([ctx.integer(w, 6 * w), w, ctx.integer(1, 4 * w)])
    wk = ctx.choice(['hann', 'ogg', 'none', 'identity'])
    win = dict(hann=HanningWindowingFunc(), ogg=OggVorbisWindowingFunc(), none=None, identity=IdentityWindowingFunc())[wk]
    if wk == 'identity' or wk == 'none':
        wd = np.ones(w)
    elif wk == 'hann':
        wd = np.hanning(w)
    else:
        f = np.sin(np.pi / 2 * np.sin((np.arange(w) + .5) / w * np.pi) ** 2)
        wd = f / f.max()
    scheme = z.SampleRate(sr.frequency * s, sr.frequency * w)
    ctx.say('stft', sr, n, w, s, wk)
    if wk in ('none', 'identity'):
        win = z.spectral.sliding_window.WindowingFunc(lambda size: np.ones(size))
    raw = ctx.rng.normal(0, 1, n)
    x = z.AudioSamples(raw.copy(), sr)
    tf = stft(x, scheme, win)
    frames = len(tf)
    ctx.expect(tf.shape[1] == w // 2 + 1 and (frames - 1) * s + w >= n and (frames - 1) * s < n, 'stft', 'frames', tf.shape, n, w, s)
    zp = np.concatenate([raw, np.zeros(frames * s + w)])
    want = dft(np.array([zp[i * s:i * s + w] for i in range(frames)]) * wd)
    ctx.close(np.asarray(tf), want, 'stft', rtol=1e-6, atol=1e-8)
    d = tf.dimensions
    ctx.expect(ps(d[0].frequency) == ps(sr.frequency) * s and ps(d[0].duration) == ps(sr.frequency) * w and
               d[1].scale == LinearScale.from_sample_rate(sr, w // 2 + 1), 'stft-axes', d)
    # batches: every row on its own, full windows only
    if n >= w and n > 1:
        b = ctx.integer(1, 4)
        rb = ctx.rng.normal(0, 1, (b, n))
        tfb = stft(batch(rb, sr), scheme, win)
        nf = (n - w) // s + 1
        ctx.expect(tfb.shape == (b, nf, w // 2 + 1), 'stft-batch', tfb.shape, (b, nf, w // 2 + 1))
        for i in range(b):
            want = dft(np.array([rb[i, k * s:k * s + w] for k in range(nf)]) * wd)
            ctx.close(np.asarray(tfb)[i], want, 'stft-batch', i, rtol=1e-6, atol=1e-8)
        ctx.expect(isinstance(tfb.dimensions[0], IdentityDimension) and
                   ps(tfb.dimensions[1].frequency) == ps(sr.frequency) * s and
                   tfb.dimensions[2].scale == LinearScale.from_sample_rate(sr, w // 2 + 1), 'stft-axes', tfb.dimensions)
    ctx.eq(np.asarray(x), raw, 'stft', 'input kept')
    # fft of a whole signal, with zero padding for stacked frames
    ctx.close(np.asarray(fft(x)), dft(raw), 'fft', rtol=1e-6, atol=1e-8)
    rb = ctx.rng.normal(0, 1, (3, w))
    p = ctx.integer(1, 100)
    f = fft(batch(rb, sr), padding_samples=p)
    ctx.close(np.asarray(f), dft(np.concatenate([rb, np.zeros((3, p))], axis=1)), 'fft', 'padded', rtol=1e-6, atol=1e-8)
    ctx.expect(f.dimensions[1].scale == LinearScale.from_sample_rate(sr, f.shape[1]), 'fft', 'axes')
    # along any axis that is one of time
    q = ctx.integer(1, 5)
    other = samplerate(ctx)
    rt = ctx.rng.normal(0, 1, (w, q))
    second = IdentityDimension() if ctx.coin() else TimeDimension(*other)
    xt = ArrayWithUnits(rt.copy(), [TimeDimension(*sr), second])
    ax = ctx.choice([0, -2])
    for pad in (0, p):
        want = dft(np.concatenate([rt, np.zeros((pad, q))]).T).T
        f = fft(xt, axis=ax, padding_samples=pad)
        ctx.close(np.asarray(f), want, 'fft-axis', 'axis', ax, 'padding', pad, rtol=1e-6, atol=1e-8)
        ctx.expect(isinstance(f.dimensions[0], FrequencyDimension) and
                   f.dimensions[0].scale == LinearScale.from_sample_rate(sr, f.shape[0]) and
                   type(f.dimensions[1]) is type(second), 'fft-axis', 'axes', f.dimensions)
    # frames of frames, and the whole signal, with padding
    r3 = ctx.rng.normal(0, 1, (2, q, w))
    f = fft(ArrayWithUnits(r3.copy(), [IdentityDimension(), TimeDimension(*other), TimeDimension(*sr)]), padding_samples=p)
    ctx.close(np.asarray(f), dft(np.concatenate([r3, np.zeros((2, q, p))], axis=2)), 'fft-axis', 'three axes', rtol=1e-6, atol=1e-8)
    f = fft(x, padding_samples=p)
    ctx.close(np.asarray(f), dft(np.concatenate([raw, np.zeros(p)])), 'fft-axis', 'a signal', rtol=1e-6, atol=1e-8)
    ctx.raises(lambda: stft(ArrayWithUnits(np.zeros((4, 10)), [TimeDimension(Seconds(1)), TimeDimension(*sr)]), scheme, win),
               'refused', types=ValueError)


@CHECK.family(400, 5000, need=['unitary', 'composes', 'band-only', 'refused'])
def phase(ctx):
    sr = samplerate(ctx)
    w = 2 * ctx.integer(4, 150)
    rows = ctx.choice([None, ctx.integer(1, 5)])
    raw = ctx.rng.normal(0, 1, (w,) if rows is None else (rows, w))
    x = z.AudioSamples(raw, sr) if rows is None else ArrayWithUnits(raw, [TimeDimension(sr.frequency * w), TimeDimension(*sr)])
    co = fft(x)
    orig = np.asarray(co).copy()
    a, b = ctx.integer(-2 * w, 2 * w), ctx.integer(-2 * w, 2 * w)
    ctx.say('phase', sr, raw.shape, a, b)
    t = lambda k: sr.frequency * k
    A = phase_shift(co, sr, t(a))
    ctx.eq(np.asarray(co), orig, 'unitary', 'input kept')
    ctx.expect(A.shape == co.shape and tuple(A.dimensions) == tuple(co.dimensions), 'unitary', 'axes')
    ctx.close(np.abs(np.asarray(A)), np.abs(orig), 'unitary', 'magnitudes', rtol=1e-6, atol=1e-9)
    ctx.close(np.asarray(phase_shift(co, sr, t(0))), orig, 'unitary', 'no shift')
    ctx.close(np.asarray(phase_shift(A, sr, t(b))), np.asarray(phase_shift(co, sr, t(a + b))), 'composes', a, b, rtol=1e-6, atol=1e-7)
    ctx.close(np.asarray(phase_shift(A, sr, t(-a))), orig, 'composes', 'undone', rtol=1e-6, atol=1e-7)
    # the rotation is the same for every row, grows linearly with frequency, and delays for positive shifts
    n = co.shape[-1]
    ones = ArrayWithUnits(np.ones((2, n), dtype=np.complex128), [IdentityDimension(), co.dimensions[-1]])
    r1 = np.asarray(phase_shift(ones, sr, t(1)))
    ctx.close(r1[0], r1[1], 'composes', 'rows')
    ctx.close(r1[0, 1:] / r1[0, :-1], np.full(n - 1, r1[0, 1]), 'composes', 'linear phase', rtol=1e-6)
    ctx.expect(abs(r1[0, 0] - 1) < 1e-9 and np.angle(r1[0, 1]) < 0, 'composes', 'a delay', r1[0, :2])
    ra = np.asarray(phase_shift(ones, sr, t(a)))[0]
    ctx.close(ra, r1[0] ** a, 'composes', 'shift of a samples', a, rtol=1e-5, atol=1e-6)
    ctx.close(np.asarray(A), orig * ra, 'composes', 'every row alike', rtol=1e-6, atol=1e-8)
    # restricted to a band: the rest stays
    scale_ = co.dimensions[-1].scale
    i, j = sorted((ctx.integer(0, n - 1), ctx.integer(0, n - 1)))
    lo, hi = scale_[i].center_frequency, scale_[j].center_frequency + 1e-3
    run = band_run(scale_, lo, hi)
    B = np.asarray(phase_shift(co, sr, t(a), frequency_band=FrequencyBand(lo, hi)))
    (l0, l1), (h0, h1) = run
    ok = False
    for p in range(l0, l1 + 1):
        for q in range(h0, h1 + 1):
            want = orig.copy()
            want[..., p:q] *= ra[p:q]
            ok = ok or np.allclose(B, want, rtol=1e-6, atol=1e-7)
    ctx.expect(ok, 'band-only', (lo, hi), run)
    # frequency axis first
    co2 = ArrayWithUnits(orig.reshape(-1, n).T.copy(), [co.dimensions[-1], IdentityDimension()])
    C = np.asarray(phase_shift(co2, sr, t(a), axis=0))
    ctx.close(C.T, np.asarray(A).reshape(-1, n), 'composes', 'axis 0', rtol=1e-6, atol=1e-7)
    D = np.asarray(phase_shift(co2, sr, t(a), axis=0, frequency_band=FrequencyBand(lo, hi)))
    ctx.close(D.T, B.reshape(-1, n), 'band-only', 'axis 0', rtol=1e-6, atol=1e-7)
    ctx.raises(lambda: phase_shift(x, sr, t(1)), 'refused', types=ValueError)


def peak(x, sr):
    """frequency of the strongest component, by zero padded FFT with parabolic refinement"""
    n = len(x)
    sp = np.abs(np.fft.rfft(x * np.hanning(n), 8 * n))
    k = int(np.argmax(sp[1:])) + 1
    if k + 1 < len(sp):
        a, b, c = np.log(sp[k - 1:k + 2] + 1e-30)
        k = k + 0.5 * (a - c) / (a - 2 * b + c)
    return k * int(sr) / (8 * n)


@CHECK.family(160, 2000, need=['length', 'pitch', 'onset', 'batch', 'linear', 'silence', 'labels', 'steady'])
def stretch_and_shift(ctx):
    sr = ctx.choice([SR11025, SR16000, SR22050, SR44100])()
    rate = int(sr)
    n = ctx.integer(int(rate * 0.7), int(rate * 1.4))
    kind = ctx.choice(['stretch', 'pitch'])
    b = ctx.integer(1, 3)
    t = np.arange(n) / rate
    f0 = [float(ctx.rng.uniform(300, 900)) for _ in range(b)]
    raw = np.array([np.sin(2 * np.pi * f * t + 1) for f in f0]) * 0.5
    on = float(ctx.rng.uniform(0.25, 0.45)) * n
    burst = raw.copy()
    burst[:, :int(on)] = 0
    if kind == 'stretch':
        factor = float(ctx.choice([0.5, 0.75, 1.0, 1.5, 2.0, ctx.rng.uniform(0.5, 2)]))
        op = lambda v: time_stretch(v, factor)
        out_n, pitch, dil = int(n / factor), 1., 1 / factor
    else:
        semi = float(ctx.choice([-12, -7, -1, 0, 1, 5, 12, ctx.rng.uniform(-12, 12)]))
        op = lambda v: pitch_shift(v, semi)
        out_n, pitch, dil = n, 2 ** (semi / 12), 1.
    ctx.say(kind, sr, n, b, factor if kind == 'stretch' else semi, f0)
    x = batch(raw, sr)
    y = op(x)
    ctx.eq(np.asarray(x), raw, 'length', 'input kept')
    ctx.expect(y.shape == (b, out_n), 'length', y.shape, (b, out_n))
    ctx.expect(ps(y.dimensions[1].frequency) == ps(sr.frequency) and isinstance(y.dimensions[0], IdentityDimension), 'labels', y.dimensions)
    Y = np.asarray(y)
    ctx.finite(Y, 'length')
    mid = slice(out_n // 4, 3 * out_n // 4)
    for i in range(b):
        want = f0[i] * pitch
        got = peak(Y[i, mid], sr)
        ctx.expect(abs(got - want) < max(0.01 * want, 1.5 * rate / (out_n / 2.)), 'pitch', 'tone', f0[i], 'expected', want, 'got', got)
        ctx.expect(np.sqrt((Y[i, mid] ** 2).mean()) > 0.05, 'pitch', 'audible')
    # a steady tone stays one, at a level that has nothing to do with the factor
    span = max(64, rate // 20)
    level = lambda v: np.sqrt(np.convolve(v ** 2, np.ones(span) / span, 'valid') * 2)
    plain = level(np.asarray(time_stretch(batch(raw, sr), 1.))[:, n // 4:3 * n // 4][0])
    for i in range(b):
        env = level(Y[i, mid])
        # (resampling is done in short blocks, which is audible at their edges)
        slack = .05 if kind == 'stretch' else .5
        ctx.expect(env.max() < plain.mean() * (1 + slack) and env.min() > plain.mean() * (1 - slack), 'steady',
                   'levels', env.min(), env.max(), 'instead of', plain.mean())
    if kind == 'stretch':
        # a crescendo gets louder as slowly as the stretched sound does
        ramp = np.asarray(op(batch(raw * np.linspace(.1, 1, n), sr)))
        at = np.linspace(.3, .7, 9)
        env = np.array([level(ramp[0, int(p * out_n) - span:int(p * out_n) + span]).mean() for p in at]) / plain.mean()
        ctx.close(env, .1 + .9 * at, 'steady', 'crescendo', rtol=0, atol=.07)
    # the rows of a batch do not affect each other, and a single signal behaves like a row
    i = ctx.integer(0, b - 1)
    single = np.asarray(op(z.AudioSamples(raw[i].copy(), sr)))
    ctx.close(single.reshape(-1), Y[i], 'batch', rtol=1e-6, atol=1e-8)
    c = float(ctx.choice([2., 0.1, 37.]))
    ctx.close(np.asarray(op(batch(raw * c, sr))), Y * c, 'linear', rtol=1e-4, atol=1e-6 * c)
    ctx.expect(np.all(np.asarray(op(batch(np.zeros((2, n)), sr))) == 0), 'silence')
    # what starts at time t starts at t / factor
    Z = np.asarray(op(batch(burst, sr)))
    for i in range(b):
        env = np.convolve(Z[i] ** 2, np.ones(64) / 64, 'same')
        level = np.median(env[int(min(out_n - 1, (on * dil + 0.2 * out_n))):int(0.9 * out_n)])
        first = int(np.argmax(env > 0.25 * level))
        ctx.expect(abs(first - on * dil) < 0.06 * rate * max(1, dil) + 64, 'onset', 'at', on, 'expected', on * dil, 'got', first)


@CHECK.family(60, 600, need=['length'])
def lengths(ctx):
    """pitch shifting keeps the exact length of long signals, stretching gives the exact quotient"""
    sr = ctx.choice([SR11025, SR22050])()
    n = ctx.integer(5000, 300000)
    semi = float(ctx.choice([-12, -11, -3, -1, 1, 2, 7, 11, 12, 19, 24, ctx.rng.uniform(-20, 24)]))
    ctx.say('long', n, semi)
    raw = ctx.rng.normal(0, 0.1, n)
    y = pitch_shift(z.AudioSamples(raw, sr), semi)
    ctx.expect(y.shape == (1, n), 'length', y.shape, n, semi)
    fct = float(ctx.rng.uniform(0.3, 3))
    y = time_stretch(z.AudioSamples(raw, sr), fct)
    ctx.expect(y.shape == (1, int(n / fct)), 'length', y.shape, n, fct)


@CHECK.family(300, 4000, need=['sums', 'linear', 'own-frequencies', 'axes'])
def decompose(ctx):
    sr = samplerate(ctx)
    size = 2 ** ctx.integer(4, 11) if ctx.coin(0.6) else 2 * ctx.integer(20, 900)
    sizes = sorted({int(v) for v in ctx.rng.integers(2, size, ctx.integer(1, 5)) // 2 * 2 if v >= 2} | ({size} if ctx.coin(0.7) else set()))
    if not sizes:
        sizes = [size]
    one = ctx.coin(0.3)
    b = 1 if one else ctx.integer(1, 4)
    raw = ctx.rng.normal(0, 1, (b, size))
    td = TimeDimension(Seconds(ctx.integer(1, 4)))

    def make(v):
        return z.AudioSamples(v[0].copy(), sr) if one else ArrayWithUnits(v.copy(), [td, TimeDimension(*sr)])
    order = [sizes[i] for i in ctx.rng.permutation(len(sizes))]
    ctx.say('decompose', sr, size, sizes, b, 'audio' if one else 'frames')
    x = make(raw)
    fa = frequency_decomposition(x, order)
    ctx.eq(np.asarray(x).reshape(b, size), raw, 'sums', 'input kept')
    ctx.expect(isinstance(fa, FrequencyAdaptive) and fa.shape == (b, sum(sizes)) and fa.n_bands == len(sizes), 'axes', fa.shape)
    edges = [0.] + [sr.nyquist * s / float(size) for s in sizes]
    ctx.expect(close_bands(bands_of(fa.scale), list(zip(edges[:-1], edges[1:]))), 'axes', bands_of(fa.scale), edges)
    if not one:
        ctx.expect(fa.dimensions[0] == td, 'axes', 'time')
    else:
        ctx.expect(ps(fa.dimensions[0].frequency) == ps(x.dimensions[0].end), 'axes', 'time')
    from scipy.signal import resample
    total = np.zeros_like(raw)
    prev = 0
    for s, blk in zip(sizes, fa.iter_bands()):
        blk = np.asarray(blk)
        ctx.expect(blk.shape == (b, s), 'axes', 'block', blk.shape, s)
        back = resample(blk, size, axis=1) if s != size else blk
        total += back
        sp = np.abs(np.fft.rfft(back, axis=1))
        ref = np.abs(np.fft.rfft(raw, axis=1)).max()
        below = sp[:, :max(0, (prev + 1) // 2)] if prev else sp[:, :0]
        above = sp[:, s // 2 + 1:]
        ctx.expect(below.size == 0 or below.max() < 1e-6 * ref, 'own-frequencies', 'below', s, prev, below.max() if below.size else 0)
        ctx.expect(above.size == 0 or above.max() < 1e-6 * ref, 'own-frequencies', 'above', s)
        prev = s
    if sizes[-1] == size:
        ctx.close(total, raw, 'sums', rtol=1e-6, atol=1e-8)
    else:
        sp = np.fft.rfft(total - raw, axis=1)
        low = np.abs(sp[:, :(sizes[-1] + 1) // 2 if sizes[-1] % 2 else sizes[-1] // 2])
        ctx.expect(low.max() < 1e-6 * np.abs(np.fft.rfft(raw, axis=1)).max(), 'sums', 'kept frequencies', low.max())
    other = ctx.rng.normal(0, 1, raw.shape)
    p, q = ctx.rng.normal(0, 2, 2)
    fb = frequency_decomposition(make(other), sizes)
    fc = frequency_decomposition(make(p * raw + q * other), sizes)
    ctx.close(np.asarray(fc), p * np.asarray(fa) + q * np.asarray(fb), 'linear', rtol=1e-5, atol=1e-7)


@CHECK.family(200, 2500, need=['bank', 'peaks', 'norm', 'dct-basis'])
def banks(ctx):
    sr = ctx.choice([SR11025, SR22050, SR44100])()
    nyq = int(sr) / 2.
    n = ctx.integer(1, 16)
    kind = ctx.choice(['fir', 'morlet'])
    lo, hi = nyq * ctx.rng.uniform(0.05, 0.2), nyq * ctx.rng.uniform(0.5, 0.8)
    s = ctx.choice([lambda: GeometricScale(lo, hi, float(ctx.rng.uniform(0.2, 0.6)), n),
                    lambda: LinearScale(FrequencyBand(lo, hi), n),
                    lambda: BarkScale(FrequencyBand(lo, hi), n),
                    lambda: MelScale(FrequencyBand(lo, hi), n)])()
    taps = ctx.choice([64, 128, 255, 256, 512, 511])
    if kind == 'fir':
        k = ctx.integer(3, 50)
        tapered = ctx.coin()
        window = np.hanning(k + 2) if tapered else np.ones(k)
        many = ctx.coin(0.3)
        bank = fir_filter_bank(s, taps, sr, np.array([window] * n) if many else window)
    else:
        f = float(ctx.rng.uniform(0.02, 0.3))
        norm = ctx.coin(0.7)
        many = ctx.coin(0.3)
        sf = [f] * n if many else f
        bank = morlet_filter_bank(sr, taps, s, sf, normalize=norm)
        ctx.raises(lambda: morlet_filter_bank(sr, taps, s, [f] * (n + 1)), 'refused', types=ValueError)
    ctx.say('bank', kind, s, taps, many)
    ctx.expect(bank.shape == (n, taps), 'bank', bank.shape)
    ctx.expect(bank.dimensions[0].scale == s and ps(bank.dimensions[1].frequency) == ps(sr.frequency), 'bank', bank.dimensions)
    B = np.asarray(bank)
    ctx.finite(B, 'bank')
    res = int(sr) / float(taps)
    H = np.abs(np.fft.rfft(B, 8 * taps, axis=1))
    hz = np.fft.rfftfreq(8 * taps, 1. / int(sr))
    for i, (a, b) in enumerate(bands_of(s)):
        c = (a + b) / 2
        pk = hz[int(np.argmax(H[i]))]
        ctx.count('filters')
        if kind == 'morlet':
            w = c / (f * 2 * int(sr) / taps)
            if w < 5 or c > nyq * 0.9:
                continue
            ctx.expect(abs(pk - c) < 2 * res + 0.02 * c, 'peaks', kind, i, (a, b), 'peak at', pk, 'centre', c, res)
        elif b - a > 2 * res and a > 2 * res and b < nyq - 2 * res:
            ctx.expect(a - 2 * res < pk < b + 2 * res, 'peaks', kind, i, (a, b), 'peak at', pk)
            far = H[i][(hz < a - 6 * res) | (hz > b + 6 * res)]
            ctx.expect(not tapered or far.size == 0 or far.max() < 0.25 * H[i].max(), 'peaks', 'selective', i, far.max() if far.size else 0)
    if kind == 'morlet' and norm:
        ctx.close(np.linalg.norm(B, axis=1), np.ones(n), 'norm', rtol=1e-5)
    if kind == 'fir':
        # bands reaching beyond what there is are cut off
        for wide in (FrequencyBand(nyq * ctx.rng.uniform(.3, .9), nyq * ctx.choice([1., ctx.rng.uniform(1, 1.5)])),
                     FrequencyBand(-nyq * ctx.choice([0, ctx.rng.uniform(0, .5)]), nyq * ctx.rng.uniform(.2, .5))):
            edge = np.asarray(fir_filter_bank(ExplicitScale([wide]), 256, sr, np.hanning(ctx.integer(5, 50))))
            ctx.finite(edge, 'bank')
            pk = int(np.argmax(np.abs(np.fft.rfft(edge[0], 2048)))) / 1024. * nyq
            ctx.expect(max(0, wide.start_hz) - .02 * nyq < pk < min(nyq, wide.stop_hz) + .02 * nyq, 'peaks', 'cut off', wide, pk)
    if n > 1:
        # one filter per band, in order: a bank of one band of the scale is that row
        i = ctx.integer(0, n - 1)
        one = ExplicitScale([s[i]])
        r = fir_filter_bank(one, taps, sr, window) if kind == 'fir' else morlet_filter_bank(sr, taps, one, f, normalize=norm)
        ctx.close(np.asarray(r)[0], B[i], 'bank', 'row', i, rtol=1e-6, atol=1e-9)
    m = ctx.integer(1, 40)
    k = np.arange(m)
    ctx.close(dct_basis(m), np.cos(np.pi / m * np.outer(k, k + .5)), 'dct-basis')


@CHECK.family(80, 800, need=['correlogram'])
def correlogram(ctx):
    import io, contextlib
    sr = ctx.choice([SR11025, SR22050])()
    taps = ctx.integer(4, 24)
    n = ctx.integer(3, 8)
    L = ctx.integer(10, 60)
    size = taps + L + ctx.integer(5, 60)
    x = z.AudioSamples(ctx.rng.normal(0, 1, size), sr)
    s = GeometricScale(200, 3000, 0.4, n)
    bank = morlet_filter_bank(sr, taps, s, 0.2)
    ctx.say('correlogram', taps, n, L, size)
    with contextlib.redirect_stdout(io.StringIO()):
        out = np.asarray(auto_correlogram(x, bank, correlation_window=sr.frequency * L))
    raw, B = np.asarray(x), np.asarray(bank)
    filt = np.array([[raw[i:i + taps].dot(B[k]) for k in range(n)] for i in range(size - taps + 1)])
    nw = len(filt) - L + 1
    out = out.reshape(nw, 2 * L, n)
    for i in (0, nw - 1, ctx.integer(0, nw - 1)):
        for k in (0, n - 1):
            v = filt[i:i + L, k]
            full = np.correlate(v, v, 'full')            # lags -(L-1) .. L-1
            want = np.concatenate([[0.], full]) / np.sqrt(2 * L)
            ctx.close(out[i, :, k].real, want, 'correlogram', i, k, rtol=1e-3, atol=1e-4)


@CHECK.family(150, 1500, need=['apply-scale', 'rainbow'])
def views(ctx):
    sr = samplerate(ctx)
    w = 2 * ctx.integer(8, 100)
    raw = ctx.rng.normal(0, 1, w * ctx.integer(2, 5))
    x = z.AudioSamples(raw, sr)
    scheme = z.SampleRate(sr.frequency * (w // 2), sr.frequency * w)
    tf = stft(x, scheme)
    nyq = int(sr) / 2.
    n = ctx.integer(2, 12)
    s = ctx.choice([GeometricScale(nyq * 0.1, nyq * 0.7, 0.3, n), BarkScale(FrequencyBand(nyq * 0.1, nyq * 0.7), n)])
    ctx.say('views', sr, w, s)
    out = apply_scale(tf, s, window=HanningWindowingFunc()) if ctx.coin() else apply_scale(tf, s, window=1.)
    ctx.expect(out.shape == (len(tf), n) and out.dimensions[0] == tf.dimensions[0] and out.dimensions[1].scale == s, 'apply-scale', out.shape)
    mag = ArrayWithUnits(np.abs(np.asarray(tf).real), tf.dimensions)
    same = apply_scale(tf * 3, s, window=1.)
    ctx.close(np.asarray(same), 3 * np.asarray(s.apply(mag, 1.)), 'apply-scale', 'homogeneous', rtol=1e-6, atol=1e-9)
    # brightness is the (log) magnitude, hue the instantaneous frequency
    seen = []

    def white(v):
        seen.append(np.asarray(v))
        return np.ones(np.shape(v) + (4,))
    drift = ctx.rng.permutation(np.linspace(-3, 3, tf.shape[1]))
    still = ArrayWithUnits(ctx.rng.uniform(.1, 5, tf.shape) * np.exp(
        1j * (np.arange(len(tf))[:, None] * drift + ctx.rng.uniform(-3, 3, tf.shape[1]))), tf.dimensions)
    grey = np.asarray(rainbowgram(still, white))
    ctx.expect(np.all(grey == grey[..., :1]), 'rainbow', 'every channel dims alike')
    loud = np.abs(np.asarray(still).real).reshape(-1)
    bright = grey[..., 0].reshape(-1)[np.argsort(loud)]
    ctx.expect(np.all(np.diff(bright) >= -1e-9) and bright[0] < 1e-6 and abs(bright[-1] - 1) < 1e-6, 'rainbow', 'brightness', bright)
    if len(tf) > 1:
        hue = seen[0]
        ctx.close(hue, np.broadcast_to((drift - drift.min()) / (drift.max() - drift.min()), hue.shape), 'rainbow', 'hue',
                  rtol=1e-5, atol=1e-6)
    r = rainbowgram(tf)
    ctx.expect(r.shape == tf.shape + (3,) and tuple(r.dimensions[:2]) == tuple(tf.dimensions), 'rainbow', r.shape)
    a = np.asarray(r)
    ctx.expect(np.all(np.isfinite(a)) and a.min() >= -1e-9 and a.max() <= 1 + 1e-9, 'rainbow', 'colours', a.min(), a.max())
