from ..core import Check
from ..gen import *
from ..nodes import run, chunked, cuts, joined
from zounds.spectral import SlidingWindow, OggVorbisWindowingFunc, HanningWindowingFunc
from zounds.spectral.sliding_window import WindowingFunc, IdentityWindowingFunc, oggvorbis

CHECK = Check(
    'C10', 'a case is one signal (audio or time x features, random length incl. shorter than a window), one window/step pair, '
           'one windowing function and one cut of the signal into chunks, run through the real processing graph',
    technique='runtime monitor: every window emitted by the streaming node observed against the list of windows of the whole signal')


def reference(raw, w, s):
    """every full window, then one zero padded window with what no full window started at covers"""
    out, pos = [], 0
    while pos + w <= len(raw):
        out.append(raw[pos:pos + w])
        pos += s
    if pos < len(raw):
        tail = np.zeros((w,) + raw.shape[1:], raw.dtype)
        tail[:len(raw) - pos] = raw[pos:]
        out.append(tail)
    return np.array(out) if out else np.zeros((0, w) + raw.shape[1:], raw.dtype)


def wfuncs(ctx, w):
    k = ctx.choice(['none', 'identity', 'ogg', 'hann', 'custom', 'const'])
    if k == 'none':
        return None, np.ones(w)
    if k == 'identity':
        return IdentityWindowingFunc(), np.ones(w)
    if k == 'ogg':
        i = np.sin((np.arange(w) + .5) / w * np.pi) ** 2
        f = np.sin(.5 * np.pi * i)
        return OggVorbisWindowingFunc(), f / f.max()
    if k == 'hann':
        return HanningWindowingFunc(), np.hanning(w)
    if k == 'custom':
        return WindowingFunc(lambda size: np.linspace(0.25, 1, size)), np.linspace(0.25, 1, w)
    return WindowingFunc(lambda size: np.full(size, 0.5)), np.full(w, 0.5)


def signal(ctx, w):
    """(array, raw, sample frequency)"""
    n = ctx.choice([ctx.integer(1, max(1, w - 1)), w, w + 1, ctx.integer(1, 6 * w + 40), ctx.integer(1, 12 * w)])
    kind = ctx.choice(['audio', 'audio', 'stereo', 'features', 'bare', 'nested'])
    dt = ctx.choice([np.float64, np.float32])
    if kind == 'audio':
        sr = samplerate(ctx)
        raw = ctx.rng.normal(0, 1, n).astype(dt)
        return z.AudioSamples(raw.copy(), sr), raw, kind
    if kind == 'stereo':
        sr = samplerate(ctx)
        raw = ctx.rng.normal(0, 1, (n, 2)).astype(dt)
        return z.AudioSamples(raw.copy(), sr), raw, kind
    td = time_dim(ctx, ctx.choice(['ms', 'sec', 'audio', 'odd']))
    td = TimeDimension(td.frequency)
    if kind == 'bare':
        raw = ctx.rng.normal(0, 1, n).astype(dt)
        return ArrayWithUnits(raw.copy(), [td]), raw, kind
    f = ctx.integer(2, 6)
    raw = ctx.rng.normal(0, 1, (n, f)).astype(dt)
    if kind == 'nested':
        # windows of samples, which have a time axis of their own
        inner = TimeDimension(ctx.choice([Microseconds(ctx.integer(1, 500)), td.frequency * ctx.integer(1, 3), Seconds(5)]))
        return ArrayWithUnits(raw.copy(), [td, inner]), raw, kind
    return ArrayWithUnits(raw.copy(), [td, ctx.choice([IdentityDimension(), FrequencyDimension(LinearScale(FrequencyBand(0, 100), f))])]), raw, kind


@CHECK.family(900, 12000, need=['windows', 'labels', 'count', 'prefix'])
def streaming(ctx):
    w = ctx.choice([ctx.integer(2, 12), ctx.integer(2, 64), ctx.integer(64, 300)])
    s = ctx.choice([w, max(1, w // 2), ctx.integer(1, w), 1 if w < 20 else max(1, w // 4)])
    arr, raw, kind = signal(ctx, w)
    f = arr.dimensions[0].frequency
    scheme = z.SampleRate(frequency=f * s, duration=f * w)
    wf, wdata = (wfuncs(ctx, w) if raw.ndim == 1 else (None, np.ones(w)))
    padwith = ctx.choice([0, 0, 0, ctx.integer(1, 5)])
    pieces = cuts(ctx, len(raw))
    ctx.say('streaming', kind, raw.shape, 'w', w, 's', s, type(wf).__name__, 'padwith', padwith, 'chunks', len(pieces), pieces[:6])
    outs = run(lambda src: SlidingWindow(wscheme=scheme, wfunc=wf, padwith=padwith, needs=src), [arr[a:b] for a, b in pieces])
    # padwith: that many silent windows come first
    want = np.concatenate([np.zeros((padwith, w) + raw.shape[1:], raw.dtype), reference(raw, w, s)])
    got = joined(outs)
    ctx.expect(got is not None, 'count', 'no window at all', len(raw), w, s)
    wd = wdata.astype(raw.dtype)
    want_w = want * (wd if raw.ndim == 1 else 1)
    nfull = padwith + max(0, (len(raw) - w) // s + 1)
    ctx.expect(len(got) == len(want_w), 'count', 'windows', len(got), 'expected', len(want_w), 'signal', len(raw), 'w', w, 's', s)
    ctx.close(got[:nfull], want_w[:nfull], 'windows', 'full windows', rtol=1e-6, atol=1e-7)
    ctx.close(got[nfull:], want_w[nfull:], 'windows', 'tail', rtol=1e-6, atol=1e-7)
    ctx.expect(got.dtype == raw.dtype, 'windows', 'dtype', got.dtype)
    for o in outs:
        d = o.dimensions
        ctx.expect(len(d) == o.ndim, 'labels', d, o.shape)
        ctx.expect(ps(d[0].frequency) == ps(f) * s and
                   abs(ps(d[0].duration) - (ps(f) * w + ps(arr.dimensions[0].duration) - ps(f))) == 0,
                   'labels', d[0], 'step', s, 'window', w, f)
        ctx.expect(ps(d[1].frequency) == ps(f) and tuple(d[2:]) == tuple(arr.dimensions[1:]), 'labels', d[1:])
    # what was already emitted never depends on what comes later
    cut = ctx.integer(0, len(pieces) - 1)
    if padwith == 0 and cut:
        part = run(lambda src: SlidingWindow(wscheme=scheme, wfunc=wf, needs=src), [arr[a:b] for a, b in pieces[:cut]])
        m = max(0, (pieces[cut - 1][1] - w) // s + 1)
        p = joined(part)
        ctx.close(p[:m], got[:m], 'prefix', rtol=1e-6, atol=1e-7)
    ctx.eq(np.asarray(arr), raw, 'windows', 'input unchanged')


@CHECK.family(500, 6000, need=['scheme', 'scheme-labels'])
def schemes(ctx):
    """windowing schemes given in milliseconds and the library's own lapped schemes"""
    sr = ctx.choice([SR11025, SR16000, SR22050])()
    n = ctx.integer(1, 12000)
    raw = ctx.rng.normal(0, 1, n)
    arr = z.AudioSamples(raw, sr)
    k = ctx.choice(['ms', 'half', 'windowing', 'HalfLapped', 'non'])
    if k == 'ms':
        st = ctx.integer(3, 60)
        scheme = z.SampleRate(Milliseconds(st), Milliseconds(st * ctx.integer(1, 3) + ctx.integer(0, st)))
    elif k == 'half':
        scheme = sr.half_lapped()
    elif k == 'windowing':
        step = ctx.integer(16, 400)
        scheme = sr.windowing_scheme(ctx.choice([1, 2]) * step, step)
    elif k == 'HalfLapped':
        scheme = z.HalfLapped()
    else:
        m = Milliseconds(ctx.integer(5, 100))
        scheme = z.SampleRate(m, m)
    sf, sd = int(ps(arr.dimensions[0].frequency)), int(ps(arr.dimensions[0].duration))
    # number of samples a slice [0, duration) overlaps (to a hundredth of a sample)
    cand = lambda d: {hi for hi in time_run(0, int(ps(d)), sf, sd, 10 ** 9)[1]}
    pieces = cuts(ctx, n, most=5)
    ctx.say('scheme', k, scheme, sr, n, len(pieces))
    outs = run(lambda src: SlidingWindow(wscheme=scheme, needs=src), [arr[a:b] for a, b in pieces])
    got = joined(outs)
    w = got.shape[1]
    ctx.expect(w in cand(scheme.duration), 'scheme', 'window', w, cand(scheme.duration))
    f = outs[0].dimensions[0].frequency
    s = int(round(int(ps(f)) / sf))
    ctx.expect(s in cand(scheme.frequency) and s * sf == ps(f), 'scheme-labels', 'step', s, f, cand(scheme.frequency))
    ctx.expect(ps(outs[0].dimensions[0].duration) == w * sf + sd - sf, 'scheme-labels', 'window', outs[0].dimensions[0])
    ctx.close(got, reference(raw, w, s), 'scheme', n, w, s)


@CHECK.family(300, 4000, need=['whole', 'leftover'])
def whole(ctx):
    """the array operation behind the node: windows and what is left over, padding on and off"""
    w = ctx.integer(2, 40)
    s = ctx.integer(1, w)
    arr, raw, kind = signal(ctx, w)
    f = arr.dimensions[0].frequency
    ctx.say('whole', kind, raw.shape, w, s)
    left, out = arr.sliding_window_with_leftovers(TimeSlice(duration=f * w), TimeSlice(duration=f * s))
    full = max(0, (len(raw) - w) // s + 1)
    if not full:
        ctx.expect(out.size == 0, 'whole', out.shape)
        ctx.eq(left, raw, 'leftover')
    else:
        ctx.eq(out, reference(raw, w, s)[:full], 'whole')
        ctx.eq(left, raw[full * s:], 'leftover')
        ctx.expect(tuple(left.dimensions) == tuple(arr.dimensions), 'leftover', 'labels')
        # whatever remains, windowing (leftover + more) continues the sequence
        more = ctx.rng.normal(0, 1, (ctx.integer(1, 2 * w),) + raw.shape[1:]).astype(raw.dtype)
        both = left.concatenate(ArrayWithUnits(more, arr.dimensions)) if len(left) else None
        if both is not None and len(both) >= w:
            _, out2 = both.sliding_window_with_leftovers(TimeSlice(duration=f * w), TimeSlice(duration=f * s))
            tot = np.concatenate([raw, more])
            all_ = reference(tot, w, s)[:max(0, (len(tot) - w) // s + 1)]
            ctx.eq(np.concatenate([np.asarray(out), np.asarray(out2)]), all_, 'whole', 'continued')
    left, out = arr.sliding_window_with_leftovers(TimeSlice(duration=f * w), TimeSlice(duration=f * s), dopad=True)
    out = np.asarray(out)
    ctx.expect(out.shape[0] >= 1 and out.shape[1] == w, 'whole', 'padded', out.shape)
    ctx.expect((len(out) - 1) * s + w >= len(raw), 'whole', 'the end is covered', len(raw), w, s, len(out))
    zp = np.concatenate([raw, np.zeros((len(out) * s + w,) + raw.shape[1:], raw.dtype)])
    for i, o in enumerate(out):
        ctx.expect(i * s < len(raw), 'whole', 'a window of padding only', i, s, len(raw))
        ctx.expect(np.array_equal(o, zp[i * s:i * s + w]), 'whole', 'window', i)


@CHECK.family(300, 4000, need=['function', 'overlap-add', 'rate'])
def functions(ctx):
    n = ctx.integer(1, 600)
    shape = ctx.choice([(n,), (ctx.integer(1, 5), n), (2, 3, n)])
    dt = ctx.choice([np.float32, np.float64])
    x = ctx.rng.normal(0, 1, shape).astype(dt)
    wf, wd = None, None
    while wf is None:
        wf, wd = wfuncs(ctx, n)
    ctx.say('functions', shape, dt.__name__)
    a, b = wf * x, x * wf
    for r in (a, b, wf * x):
        tol = 1e-12 if dt == np.float64 else 1e-6
        ctx.close(np.asarray(r), x * wd.astype(dt), 'function', rtol=tol, atol=tol)
        ctx.expect(np.asarray(r).dtype == dt, 'function', 'dtype')
    # power complementary halves: the ogg vorbis window squared sums to one at half overlap
    h = 2 * ctx.integer(4, 500)
    o = oggvorbis(h)
    want = np.sin(np.pi / 2 * np.sin((np.arange(h) + .5) / h * np.pi) ** 2)
    ctx.close(o, want / want.max(), 'function', 'vorbis window')
    ctx.close((o ** 2)[:h // 2] + (o ** 2)[h // 2:], np.ones(h // 2) / want.max() ** 2, 'function', 'power complementary')
    # overlap-adding unwindowed, non-overlapping or sum-to-one windows gives the signal back
    sr = samplerate(ctx)
    k = ctx.choice(['flat', 'half', 'vorbis2'])
    step = ctx.integer(4, 200)
    w = step if k == 'flat' else 2 * step
    length = w * ctx.integer(2, 8) + ctx.integer(0, w - 1)
    sig = ctx.rng.normal(0, 1, length)
    fn = {'flat': None, 'half': WindowingFunc(lambda s_: np.full(s_, .5)),
          'vorbis2': WindowingFunc(lambda s_: np.sin((np.arange(s_) + .5) / s_ * np.pi) ** 2)}[k]
    arr = z.AudioSamples(sig.copy(), sr)
    scheme = z.SampleRate(frequency=sr.frequency * step, duration=sr.frequency * w)
    outs = run(lambda src: SlidingWindow(wscheme=scheme, wfunc=fn, needs=src), chunked(ctx, arr, most=5))
    frames = ArrayWithUnits.concat(outs)
    rec = z.WindowedAudioSynthesizer().synthesize(ArrayWithUnits(np.asarray(frames), frames.dimensions))
    ctx.expect(rec.samplerate == sr and isinstance(rec, z.AudioSamples), 'rate', rec.samplerate, sr)
    lo, hi = (0, length) if k == 'flat' else (step, length - w)
    ctx.expect(len(rec) >= hi, 'overlap-add', 'length', len(rec), length)
    ctx.close(np.asarray(rec)[lo:hi], sig[lo:hi], 'overlap-add', k, step, length, rtol=1e-6, atol=1e-9)
