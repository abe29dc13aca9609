from ..core import Check
from ..gen import *
from ..nodes import run, chunked, cuts
from zounds.segment import MovingAveragePeakPicker, MeasureOfTransience, ComplexDomain, TimeSliceFeature
from zounds.segment.onset import BasePeakPicker
from zounds.spectral import SlidingWindow, FFT
from zounds.timeseries import VariableRateTimeSeries, SampleRate, Stride
from zounds.util import simple_in_memory_settings

CHECK = Check(
    'C35', 'a case is one onset-strength curve (noise, spikes, plateaus, ramps, silence; 1-400 frames), an aggregate, a neighbourhood size '
           'and a cut of the frames into chunks, run through the real processing graph up to the peak picker',
    technique='runtime monitor: every emitted time slice checked against the detected frames of the whole curve, partition of the timeline checked in picoseconds')


def slices(outs, ctx):
    got = []
    for o in outs:
        ctx.expect(isinstance(o, VariableRateTimeSeries), 'type', type(o))
        for ts in o.slices:
            got.append((ps(ts.start), ps(ts.duration)))
    return got


def partition(ctx, got, marks, end, *msg):
    """consecutive, from zero to the end, one boundary per detected frame"""
    edges = [0] + list(marks) + [end]
    want = [(a, b - a) for a, b in zip(edges[:-1], edges[1:])]
    pos = 0
    for s, d in got:
        ctx.expect(s == pos and d >= 0, 'partition', 'slice at', s, 'after', pos, got[:20], *msg)
        pos = s + d
    ctx.expect(pos == end, 'covers', 'ends at', pos, 'of', end, *msg)
    ctx.expect(got == want, 'boundaries', 'got', got[:30], 'expected', want[:30], *msg)


def windows(ctx, n, w):
    kind = ctx.choice(['noise', 'spikes', 'plateau', 'ramp', 'integers', 'silence'])
    if kind == 'noise':
        x = ctx.rng.random((n, w))
    elif kind == 'spikes':
        x = np.where(ctx.rng.random((n, w)) < .2, ctx.rng.random((n, w)) * 10, .1)
    elif kind == 'integers':
        x = ctx.rng.integers(0, 4, (n, w)).astype(float)
    elif kind == 'plateau':
        x = np.repeat(ctx.rng.random((n, (w + 1) // 2)), 2, axis=1)[:, :w]
    elif kind == 'ramp':
        x = np.tile(np.linspace(0, 1, w), (n, 1))
    else:
        x = np.zeros((n, w))
    return x, kind


AGG = [np.mean, np.median, np.max, np.min]


def detected(x, agg):
    """rows whose frame before the centre is a strict local maximum while the centre frame is
    still above 1.25 times the aggregate"""
    c = x.shape[1] // 2
    out = []
    for i, row in enumerate(x):
        if row[c - 1] > row[c - 2] and row[c - 1] > row[c] and row[c] > 1.25 * agg(row):
            out.append(i)
    return out


@CHECK.family(700, 8000, need=['partition', 'covers', 'boundaries', 'chunking'])
def picker(ctx):
    n = ctx.choice([1, 2, ctx.integer(1, 40), ctx.integer(1, 400)])
    w = ctx.integer(4, 24)
    x, kind = windows(ctx, n, w)
    agg = ctx.choice(AGG)
    td = time_dim(ctx, ctx.choice(['window', 'ms', 'overlap', 'odd']))
    arr = ArrayWithUnits(x.copy(), [td, IdentityDimension()])
    kw = {} if agg is np.mean and ctx.coin() else dict(aggregate=agg)
    ctx.say('picker', kind, (n, w), agg.__name__)
    got = slices(run(lambda s: MovingAveragePeakPicker(needs=s, **kw), chunked(ctx, arr)), ctx)
    f = ps(td.frequency)
    marks = detected(x, agg)
    ctx.count('onsets', len(marks))
    if not marks:
        ctx.count('no-onsets')
    partition(ctx, got, [m * f for m in marks], n * f)
    whole = slices(run(lambda s: MovingAveragePeakPicker(needs=s, **kw), [arr]), ctx)
    ctx.expect(whole == got, 'chunking', got[:20], whole[:20])
    ctx.eq(np.asarray(arr), x, 'pure')


class Given(BasePeakPicker):
    """onsets at the frames that hold a one"""

    def _onset_indices(self, data):
        return np.where(np.asarray(data)[:, 0] > 0)[0]


@CHECK.family(500, 6000, need=['partition', 'covers', 'boundaries'])
def base(ctx):
    """timeline bookkeeping of the base class for arbitrary detections (first and last frame of chunks included)"""
    n = ctx.integer(1, 300)
    p = ctx.choice([0, .01, .1, .5, 1])
    x = (ctx.rng.random((n, 1)) < p).astype(float)
    td = time_dim(ctx, ctx.choice(['window', 'ms', 'overlap', 'odd']))
    arr = ArrayWithUnits(x.copy(), [td, IdentityDimension()])
    ctx.say('base picker', n, p)
    got = slices(run(lambda s: Given(needs=s), chunked(ctx, arr, most=40)), ctx)
    f = ps(td.frequency)
    partition(ctx, got, [int(i) * f for i in np.where(x[:, 0])[0]], n * f)


@CHECK.family(250, 3000, need=['partition', 'covers', 'boundaries', 'chunking'])
def curve(ctx):
    """a one-dimensional onset strength curve, windowed and picked in one streaming graph"""
    n = ctx.integer(4, 300)
    w = ctx.integer(4, 15)
    pad = ctx.choice([0, w // 2, ctx.integer(0, 8)])
    td = TimeDimension(time_dim(ctx, ctx.choice(['ms', 'sec', 'odd'])).frequency)
    kind = ctx.choice(['noise', 'exp', 'integers'])
    x = dict(noise=ctx.rng.random(n), exp=np.exp(ctx.rng.normal(0, 2, n)),
             integers=ctx.rng.integers(0, 4, n).astype(float))[kind]
    agg = ctx.choice([np.mean, np.median])
    arr = ArrayWithUnits(x.copy(), [td])
    ws = SampleRate(td.frequency, td.frequency * w)
    ctx.say('curve', kind, n, w, pad, agg.__name__)

    def make(s):
        sl = SlidingWindow(wscheme=ws, padwith=pad, needs=s)
        return [sl, MovingAveragePeakPicker(aggregate=agg, needs=sl)]
    got = slices(run(make, chunked(ctx, arr)), ctx)
    whole = slices(run(make, [arr]), ctx)
    ctx.expect(whole == got, 'chunking', got[:20], whole[:20])
    # `padwith` silent windows shift the timeline so that it refers to the middle of each window
    rows, pos = [np.zeros(w)] * pad, 0
    while pos < n:
        row = x[pos:pos + w]
        rows.append(np.concatenate([row, np.zeros(w - len(row))]))
        if pos + w > n:
            break
        pos += 1
    f = ps(td.frequency)
    partition(ctx, got, [m * f for m in detected(np.array(rows), agg)], len(rows) * f)


@CHECK.family(10, 120, cpu=200, need=['ticks', 'stored', 'partition'])
def ticks(ctx):
    """regularly spaced clicks are found, one slice each, to within one hop"""
    sr = samplerate(ctx)
    S = z.stft(resample_to=sr, store_fft=True)
    n = ctx.integer(2, 5)
    spacing = Milliseconds(int(ctx.choice([700, 1000, 1300])))
    ctx.say('ticks', type(sr).__name__, n, spacing)
    use_complex = ctx.coin(.3)
    if use_complex:
        from zounds.basic.audiograph import with_onsets

        @simple_in_memory_settings
        class Doc(S, with_onsets(S.fft)):
            pass
    else:
        ws = z.HalfLapped()

        @simple_in_memory_settings
        class Doc(S):
            transience = z.ArrayWithUnitsFeature(MeasureOfTransience, needs=S.fft, store=True)
            sliding = z.ArrayWithUnitsFeature(
                SlidingWindow, needs=transience, wscheme=ws * Stride(frequency=1, duration=10), padwith=5, store=False)
            slices = TimeSliceFeature(MovingAveragePeakPicker, needs=sliding, aggregate=np.median, store=True)
    samples = z.TickSynthesizer(z.SR44100()).synthesize(spacing * n, spacing)
    doc = Doc(Doc.process(meta=samples.encode()))
    got = [(ps(t.start), ps(t.duration)) for t in doc.slices.slices]
    pos = 0
    for s, d in got:
        ctx.expect(s == pos and d >= 0, 'partition', got)
        pos = s + d
    again = [(ps(t.start), ps(t.duration)) for t in Doc(doc._id).slices.slices]
    ctx.expect(again == got, 'stored', got, again)
    hop = ps(z.HalfLapped().frequency)
    if not use_complex and sr.samples_per_second == 44100:
        ctx.expect(len(got) == n and all(abs(s - i * ps(spacing)) < 2 * hop for i, (s, d) in enumerate(got)),
                   'ticks', got)
    else:
        ctx.expect(len(got) >= 1, 'ticks', got)


def lapped(x, w, pad):
    """silent windows, then every window of so many frames, up to the first that reaches beyond the end"""
    rows = [np.zeros((w,) + x.shape[1:], x.dtype)] * pad
    for i in range(len(x)):
        row = x[i:i + w]
        rows.append(np.concatenate([row, np.zeros((w - len(row),) + x.shape[1:], x.dtype)]))
        if i + w > len(x):
            break
    return np.array(rows)


@CHECK.family(40, 500, cpu=200, need=['partition', 'covers', 'boundaries'])
def mixed_in(ctx):
    """the onsets of a document are those of its spectrogram: found where the complex-domain distance peaks"""
    from zounds.basic.audiograph import with_onsets
    sr = samplerate(ctx)
    S = z.stft(resample_to=sr, store_fft=True)

    @simple_in_memory_settings
    class Doc(S, with_onsets(S.fft)):
        pass
    n = int(ctx.rng.uniform(.5, 3) * int(sr))
    raw = ctx.rng.normal(0, .02, n)
    for _ in range(ctx.integer(0, 6)):
        a = ctx.integer(0, n - 1)
        burst = ctx.rng.normal(0, .3, min(n - a, ctx.integer(200, 8000)))
        raw[a:a + len(burst)] += burst * np.exp(-np.arange(len(burst)) / 1500.)
    samples = z.AudioSamples(np.clip(raw, -.99, .99), sr)
    ctx.say('mixed in', type(sr).__name__, n)
    doc = Doc(Doc.process(meta=samples.encode()))
    fft = doc.fft
    got = [(ps(t.start), ps(t.duration)) for t in doc.slices.slices]
    x = lapped(np.asarray(fft), doc.onset_prep.shape[1], 0)
    first, second, third = x[:, 0], x[:, 1], x[:, 2]
    target = np.abs(second) * np.exp(1j * (2 * np.angle(second) - np.angle(first)))
    strength = np.abs(target - third).sum(axis=1)
    rows = lapped(strength, doc.sliding_detection.shape[1], 5)
    # a close call could be decided either way
    c = rows.shape[1] // 2
    near = lambda a, b: np.abs(a - b) <= 1e-4 * (np.abs(a) + np.abs(b))
    if np.any((near(rows[:, c - 1], rows[:, c - 2]) | near(rows[:, c - 1], rows[:, c]) |
               near(rows[:, c], 1.25 * np.median(rows, axis=1))) & (rows[:, c - 1] > 0)):
        ctx.count('close calls')
    else:
        f = ps(fft.dimensions[0].frequency)
        partition(ctx, got, [m * f for m in detected(rows, np.median)], len(rows) * f)
        ctx.count('onsets of documents', len(got) - 1)
    again = [(ps(t.start), ps(t.duration)) for t in Doc(doc._id).slices.slices]
    ctx.expect(again == got, 'stored', got, again)
