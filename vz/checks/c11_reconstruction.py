import scipy.fftpack
from ..core import Check
from ..gen import *
from ..nodes import run, chunked, cuts
from zounds.spectral import (
    SlidingWindow, OggVorbisWindowingFunc, FFT, DCT, DCTIV, MDCT, FrequencyAdaptiveTransform, frequency_decomposition)
from zounds.spectral.functional import mdct, imdct, fft
from zounds.spectral.sliding_window import WindowingFunc, IdentityWindowingFunc
from zounds.synthesize import (
    FFTSynthesizer, DCTSynthesizer, DCTIVSynthesizer, MDCTSynthesizer, FrequencyAdaptiveDCTSynthesizer,
    FrequencyAdaptiveFFTSynthesizer, FrequencyDecompositionSynthesizer)

CHECK = Check(
    'C11', 'a case is one audio signal (noise, tones, impulses, extreme scales), one rate, one window/step scheme and one transform, '
           'analysed through the real processing graph in random chunks and synthesised back; or one batch of frames transformed and inverted',
    technique='runtime monitor: reconstructed samples and coefficients observed against the original signal and direct-sum reference transforms')


def vorbis(w):
    f = np.sin(np.pi / 2 * np.sin((np.arange(w) + .5) / w * np.pi) ** 2)
    return f / f.max()


def signal(ctx, n):
    k = ctx.choice(['noise', 'noise', 'tone', 'impulse', 'dc', 'tiny', 'loud', 'silence'])
    if k == 'noise':
        x = ctx.rng.normal(0, 0.3, n)
    elif k == 'tone':
        x = np.sin(np.arange(n) * ctx.rng.uniform(0.001, 3.1) + 1)
    elif k == 'impulse':
        x = np.zeros(n)
        x[ctx.integer(0, n - 1)] = 1
        x[ctx.integer(0, n - 1)] = -0.5
    elif k == 'dc':
        x = np.full(n, 0.5)
    elif k == 'silence':
        x = np.zeros(n)
    else:
        x = ctx.rng.normal(0, 1e-5 if k == 'tiny' else 1e4, n)
    return x, k


def judge(ctx, rec, want, sr, lo, hi, key, w, nframes, step):
    ctx.expect(isinstance(rec, z.AudioSamples) and rec.samplerate == sr and rec.ndim == 1, 'rate', rec.samplerate, sr)
    ctx.expect(len(rec) == (nframes - 1) * step + w, 'samples', len(rec), (nframes - 1) * step + w)
    scale_ = max(1e-300, np.abs(want).max())
    ctx.close(np.asarray(rec)[lo:hi] / scale_, want[lo:hi] / scale_, key, rtol=1e-6, atol=1e-8)


@CHECK.family(500, 6000, need=['fft', 'dct', 'dct4', 'mdct', 'rate', 'samples', 'coefficients', 'axes'])
def streamed(ctx):
    sr = samplerate(ctx)
    kind = ctx.choice(['fft', 'dct', 'dct4', 'mdct'])
    half = ctx.integer(2, 160)
    mode = ctx.choice(['lapped', 'lapped', 'flat', 'custom', 'dual']) if kind in ('dct', 'dct4') else 'lapped'
    w = 2 * half
    step = half if mode == 'lapped' else w
    if mode == 'flat' and ctx.coin():
        w = step = ctx.integer(3, 200)
    if mode == 'dual':
        # any window, undone by its dual, at any hop
        w = ctx.integer(3, 200)
        step = ctx.integer(max(1, w // 8), w)
        shape = ctx.rng.uniform(.2, 1.5, w)
        total = np.zeros(step)
        for i in range(w):
            total[i % step] += shape[i] ** 2
        undo = shape / total[np.arange(w) % step]
    n = ctx.choice([ctx.integer(1, 8 * w), ctx.integer(w, 5 * w), 4 * w])
    x, sk = signal(ctx, n)
    audio = z.AudioSamples(x.copy(), sr)
    scheme = z.SampleRate(sr.frequency * step, sr.frequency * w)
    node = dict(fft=FFT, dct=DCT, dct4=DCTIV, mdct=MDCT)[kind]
    wf = {'lapped': OggVorbisWindowingFunc(), 'flat': None,
          'custom': WindowingFunc(lambda s: np.full(s, 0.25)), 'dual': WindowingFunc(lambda s: shape)}[mode]
    pieces = cuts(ctx, n, most=5)
    ctx.say(kind, mode, sk, sr, 'n', n, 'w', w, 'step', step, 'chunks', len(pieces))

    def graph(src):
        a = SlidingWindow(wscheme=scheme, wfunc=wf, needs=src)
        return [a, node(needs=a)]
    outs = run(graph, [audio[a:b] for a, b in pieces])
    tf = ArrayWithUnits.concat(outs)
    frames = len(tf)
    ncoef = dict(fft=w // 2 + 1, dct=w, dct4=w, mdct=w // 2)[kind]
    ctx.expect(tf.shape == (frames, ncoef), 'axes', tf.shape)
    ctx.expect(frames == max(0, (n - w) // step + 1) + (1 if max(0, (n - w) // step + 1) * step < n else 0), 'axes', 'frames', frames)
    ctx.expect(ps(tf.dimensions[0].frequency) == ps(sr.frequency) * step and ps(tf.dimensions[0].duration) == ps(sr.frequency) * w,
               'axes', tf.dimensions[0])
    fd = tf.dimensions[1]
    ctx.expect(isinstance(fd, FrequencyDimension) and fd.scale == LinearScale.from_sample_rate(sr, ncoef), 'axes', fd)
    # the coefficients of one frame, by direct summation
    k = ctx.integer(0, frames - 1)
    frame = np.zeros(w)
    part = x[k * step:k * step + w]
    frame[:len(part)] = part
    frame = frame * (vorbis(w) if mode == 'lapped' else 0.25 if mode == 'custom' else shape if mode == 'dual' else 1)
    ref = reference(kind, frame[None])[0]
    big = max(1e-300, np.abs(x).max())
    ctx.close(np.asarray(tf)[k] / big, ref / big, 'coefficients', kind, rtol=1e-6, atol=1e-8)
    # synthesis
    if kind == 'fft':
        synth = FFTSynthesizer()
    elif kind == 'mdct':
        synth = MDCTSynthesizer()
    else:
        c = DCTSynthesizer if kind == 'dct' else DCTIVSynthesizer
        synth = c(windowing_func=OggVorbisWindowingFunc()) if mode == 'lapped' else \
            c(windowing_func=WindowingFunc(lambda s: np.full(s, 4.))) if mode == 'custom' else \
            c(windowing_func=WindowingFunc(lambda s: undo)) if mode == 'dual' else c()
    before = np.asarray(tf).copy()
    rec = synth.synthesize(tf)
    ctx.eq(np.asarray(tf), before, 'coefficients', 'left alone')
    gain = 1.
    if mode == 'lapped':
        v = vorbis(w)
        gain = (v ** 2)[:half] + (v ** 2)[half:]
        ctx.expect(half < 16 or np.all(np.abs(gain - 1) < 0.01), 'coefficients', 'windows sum to one', gain)
        gain = gain[0]
    lo, hi = (0, n) if mode in ('flat', 'custom') else (w - step, max(w - step, min(n, frames * step))) if mode == 'dual' else (step, max(step, min(n, (frames - 1) * step)))
    judge(ctx, rec, x * gain, sr, lo, hi, kind, w, frames, step)


def reference(kind, frames):
    w = frames.shape[1]
    t = np.arange(w)
    if kind == 'fft':
        k = np.arange(w // 2 + 1)
        return frames.dot(np.exp(-2j * np.pi * np.outer(t, k) / w)) / np.sqrt(w)
    if kind == 'dct':
        b = np.cos(np.pi / w * np.outer(t + .5, t)) * np.sqrt(2. / w)
        b[:, 0] /= np.sqrt(2)
        return frames.dot(b)
    if kind == 'dct4':
        return frames.dot(np.cos(np.pi / w * np.outer(t + .5, t + .5))) * np.sqrt(2. / w)
    l = w // 2
    k = np.arange(l)
    return frames.dot(np.cos(np.pi / l * np.outer(t + .5 + l / 2., k + .5))) * np.sqrt(2. / l)


@CHECK.family(500, 6000, need=['reference', 'inverse', 'tdac', 'energy'])
def pairs(ctx):
    """frame transforms against their definitions, and their inverses"""
    l = ctx.integer(1, 80)
    m = ctx.integer(1, 5)
    sr = samplerate(ctx)
    kind = ctx.choice(['fft', 'dct', 'dct4', 'mdct'])
    w = 2 * l if kind in ('mdct', 'fft') else l + 1
    raw = ctx.rng.normal(0, 1, (m, w))
    dt = ctx.choice([np.float64, np.float64, np.float32])
    raw = raw.astype(dt)
    arr = ArrayWithUnits(raw.copy(), [TimeDimension(sr.frequency * w, sr.frequency * w), TimeDimension(*sr)])
    ctx.say('pair', kind, m, w, dt.__name__)
    tol = dict(rtol=1e-6, atol=1e-9) if dt == np.float64 else dict(rtol=1e-3, atol=1e-4)
    node = dict(fft=FFT, dct=DCT, dct4=DCTIV, mdct=MDCT)[kind]()
    tf = list(node._process(arr))[0]
    ref = reference(kind, raw.astype(np.float64))
    ctx.close(np.asarray(tf), ref, 'reference', kind, **tol)
    if kind != 'mdct':
        e = np.abs(ref) ** 2
        if kind == 'fft':
            e[:, 1:-1] *= 2
        ctx.close(e.sum(axis=1), (raw.astype(np.float64) ** 2).sum(axis=1), 'energy', rtol=1e-6)
        s = dict(fft=FFTSynthesizer(), dct=DCTSynthesizer(), dct4=DCTIVSynthesizer())[kind]
        ctx.close(np.asarray(s._transform(tf)), raw, 'inverse', kind, **tol)
    else:
        inv = np.asarray(imdct(mdct(raw)))
        ctx.close(np.asarray(mdct(raw)), ref, 'reference', 'mdct()', **tol)
        # time domain aliasing: first half a - reversed, second half b + reversed
        h = raw.astype(np.float64)
        a, b = h[:, :l], h[:, l:]
        ctx.close(inv, np.concatenate([a - a[:, ::-1], b + b[:, ::-1]], axis=1), 'tdac', 'aliasing', **tol)
        ctx.close(np.asarray(MDCTSynthesizer()._transform(tf)), inv, 'inverse', **tol)
        big = ctx.rng.normal(0, 1, (2, 3, 2 * l))
        ctx.close(mdct(big).reshape(6, l), mdct(big.reshape(6, 2 * l)), 'inverse', 'batches')
        ctx.close(imdct(big[..., :l]).reshape(6, 2 * l), imdct(big[..., :l].reshape(6, l)), 'inverse', 'batches')
    if kind == 'fft' and ctx.coin():
        p = ctx.integer(1, 2 * w)
        f = list(FFT(padding_samples=p)._process(arr))[0]
        ctx.close(np.asarray(f), np.fft.rfft(np.concatenate([raw, np.zeros((m, p))], axis=1), norm='ortho'), 'reference', 'padded', **tol)
        ctx.expect(f.dimensions[0] == arr.dimensions[0] and f.dimensions[1].scale == LinearScale.from_sample_rate(sr, (w + p) // 2 + 1),
                   'reference', 'padded axes')
        # any axis
        t = ArrayWithUnits(raw.T.copy(), [TimeDimension(*sr), IdentityDimension()])
        if t.shape[-1] == 1 + w // 2 or m == w // 2 + 1:
            pass
        ctx.close(np.fft.rfft(raw, norm='ortho'), np.asarray(fft(arr, axis=-1)), 'reference', **tol)


@CHECK.family(150, 2000, need=['adaptive', 'adaptive-blocks', 'rate', 'samples'])
def adaptive(ctx):
    """frequency-adaptive synthesis equals inverting the spectrum times the total band window"""
    sr = ctx.choice([SR11025, SR16000, SR22050])()
    half = ctx.integer(100, 900)
    w = 2 * half
    n = w * ctx.integer(2, 4) + ctx.integer(0, w)
    x, sk = signal(ctx, n)
    kind = ctx.choice(['fft', 'dct'])
    nb = ctx.integer(3, 30)
    nyq = int(sr) / 2.
    s = ctx.choice([lambda: GeometricScale(nyq * 0.02, nyq * 0.8, ctx.rng.uniform(0.1, 0.4), nb),
                    lambda: LinearScale(FrequencyBand(0, nyq), nb),
                    lambda: BarkScale(FrequencyBand(nyq * 0.05, nyq * 0.8), nb)])()
    ncoef = w // 2 + 1 if kind == 'fft' else w
    lin = LinearScale.from_sample_rate(sr, ncoef, always_even=kind == 'dct')
    if any(len(range(ncoef)[lin.get_slice(b)]) < 4 for b in s):
        ctx.trivial = True
        return
    window = ctx.choice([np.hanning, None]) if kind == 'dct' else np.hanning
    audio = z.AudioSamples(x.copy(), sr)
    scheme = z.SampleRate(sr.frequency * half, sr.frequency * w)
    ctx.say('adaptive', kind, s, sr, n, w, sk, 'hann' if window else 'flat')

    def graph(src):
        a = SlidingWindow(wscheme=scheme, wfunc=OggVorbisWindowingFunc(), needs=src)
        b = FFT(needs=a) if kind == 'fft' else DCT(scale_always_even=True, needs=a)
        return [a, b, FrequencyAdaptiveTransform(
            transform=np.fft.irfft if kind == 'fft' else scipy.fftpack.idct, scale=s, window_func=window, needs=b)]
    outs = run(graph, chunked(ctx, audio, most=4))
    fa = z.FrequencyAdaptive(np.concatenate([np.asarray(o) for o in outs]), outs[0].dimensions[0],
                             explicit_freq_dimension=outs[0].dimensions[1])
    # the blocks: inverse transform of each windowed band of the frame spectrum
    frames = len(fa)
    k = ctx.integer(0, frames - 1)
    frame = np.zeros(w)
    part = x[k * half:k * half + w]
    frame[:len(part)] = part
    spec = reference(kind, (frame * vorbis(w))[None])[0]
    total = np.zeros(ncoef)
    big = max(1e-300, np.abs(x).max())
    for band in s:
        sl = range(ncoef)[lin.get_slice(band)]
        win = window(len(sl)) if window else np.ones(len(sl))
        total[sl.start:sl.stop] += win
        co = spec[sl.start:sl.stop] * win
        want = np.fft.irfft(co, norm='ortho') if kind == 'fft' else scipy.fftpack.idct(co, norm='ortho')
        ctx.close(np.asarray(fa[:, band])[k] / big, want / big, 'adaptive-blocks', rtol=1e-6, atol=1e-8)
    if kind == 'fft' and any(len(range(ncoef)[lin.get_slice(b)]) % 1 for b in s):
        return
    synth = (FrequencyAdaptiveFFTSynthesizer if kind == 'fft' else FrequencyAdaptiveDCTSynthesizer)(s, sr)
    rec = synth.synthesize(fa)
    base = FFTSynthesizer() if kind == 'fft' else DCTSynthesizer()
    specs = np.zeros((frames, ncoef), dtype=np.complex128 if kind == 'fft' else float)
    for i in range(frames):
        frame = np.zeros(w)
        part = x[i * half:i * half + w]
        frame[:len(part)] = part
        specs[i] = reference(kind, (frame * vorbis(w))[None])[0]
    masked = specs * total
    time = np.fft.irfft(masked, norm='ortho') * vorbis(w) if kind == 'fft' else scipy.fftpack.idct(masked, norm='ortho')
    want = np.zeros((frames - 1) * half + w)
    for i in range(frames):
        want[i * half:i * half + w] += time[i]
    judge(ctx, rec, want, sr, 0, len(want), 'adaptive', w, frames, half)


@CHECK.family(250, 3000, need=['decomposition'])
def decomposition(ctx):
    """summing the resampled bands of a decomposition returns the signal"""
    sr = samplerate(ctx)
    e = ctx.integer(4, 10)
    size = 2 ** e if ctx.coin(0.7) else 2 * ctx.integer(8, 300)
    sizes = sorted({max(2, size >> k) for k in range(ctx.integer(1, e - 1))} | {size})
    batch = ctx.integer(1, 4)
    raw = ctx.rng.normal(0, 1, (batch, size))
    if batch == 1 and ctx.coin():
        arr = z.AudioSamples(raw[0].copy(), sr)
    else:
        arr = ArrayWithUnits(raw.copy(), [TimeDimension(Seconds(1)), TimeDimension(*sr)])
    order = list(ctx.rng.permutation(sizes))
    ctx.say('decomposition', sr, size, sizes, batch)
    fa = frequency_decomposition(arr, [int(o) for o in order])
    synth = FrequencyDecompositionSynthesizer(sr, size)
    out = synth.synthesize(fa)
    ctx.expect(out.shape == raw.shape, 'decomposition', out.shape, raw.shape)
    ctx.close(np.asarray(out), raw, 'decomposition', rtol=1e-6, atol=1e-9)
    ctx.expect(ps(out.dimensions[1].frequency) == ps(sr.frequency), 'decomposition', 'rate')
    ctx.eq(np.asarray(arr).reshape(raw.shape), raw, 'decomposition', 'input kept')
    # chosen bands: only those contribute; parts add up to the whole
    some = [i for i in range(len(sizes)) if ctx.coin()] or [0]
    rest = [i for i in range(len(sizes)) if i not in some]
    a = np.asarray(synth.synthesize(fa, bands=some))
    b = np.asarray(synth.synthesize(fa, bands=rest)) if rest else 0
    ctx.close(a + b, raw, 'decomposition', 'bands', some, rtol=1e-6, atol=1e-9)
