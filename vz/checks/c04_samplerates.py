from ..core import Check
from ..gen import *
from zounds.timeseries import (SampleRate, HalfLapped, Stride, audio_sample_rate,
                               nearest_audio_sample_rate, AudioSamples)

CHECK = Check(
    'C04', 'a case is one sample rate (audio, windowed, resampled or arbitrary) with several window/step pairs and '
           'series; the lookup family sweeps every integer up to 200 000',
    technique='runtime monitor: rate arithmetic observed against exact integer picoseconds')

NAMES = {SR96000: 96000, SR48000: 48000, SR44100: 44100, SR22050: 22050, SR16000: 16000, SR11025: 11025}


def fd(sr):
    return int(ps(sr.frequency)), int(ps(sr.duration))


def any_rate(ctx):
    k = ctx.choice(['audio', 'audio', 'any', 'lapped', 'unit', 'dim'])
    if k == 'audio':
        return samplerate(ctx)
    if k == 'any':
        f = ctx.integer(10 ** 6, 10 ** 12)
        return SampleRate(Picoseconds(f), Picoseconds(f + ctx.integer(0, f * 3)))
    if k == 'lapped':
        return samplerate(ctx).half_lapped()
    if k == 'dim':
        return time_dim(ctx).samplerate
    u, c = ctx.choice(UNITS[:4])
    f = ctx.integer(1, 500)
    return SampleRate(c(f), c(f + ctx.integer(0, 500)))


@CHECK.family(1500, 30000, need=['windowed', 'spans', 'overlap', 'resample', 'rate-eq'])
def arithmetic(ctx):
    sr = any_rate(ctx)
    f, d = fd(sr)
    ctx.say('rate', f, d)
    ctx.expect(int(ps(sr.overlap)) == d - f, 'overlap', sr.overlap, d - f)
    ctx.close(sr.overlap_ratio, (d - f) / d, 'overlap', rtol=1e-12)
    ctx.expect(tuple(map(ps, sr)) == (f, d) and len(sr) == 2, 'unpack', list(sr))
    sps = sr.samples_per_second
    ctx.expect(isinstance(sps, int) and sps == int(sr) and
               sps in (10 ** 12 // f, int(1e12 / f)), 'per-second', sps, f)
    ctx.expect(sr.nyquist == sps // 2, 'nyquist', sr.nyquist, sps)
    td = TimeDimension(*sr)
    ctx.expect(fd(td.samplerate) == (f, d) and td.samples_per_second == sps and
               int(ps(td.overlap)) == d - f, 'dimension-rate', td)
    ctx.close(td.overlap_ratio, (d - f) / d, 'dimension-rate', rtol=1e-12)
    ctx.close(td.duration_in_seconds, d / 1e12, 'dimension-rate', rtol=1e-12)
    ts = ArrayWithUnits(np.zeros(ctx.integer(1, 5)), [td])
    for _ in range(5):
        step = ctx.choice([1, ctx.integer(1, 10), ctx.integer(1, 2048), ctx.integer(1, 50000)])
        size = ctx.choice([step, step * 2, step + ctx.integer(0, 3000), ctx.integer(1, 3000)])
        pair = ctx.choice([(step, size), [step, size], Stride(step, size), (np.int64(step), np.int64(size))])
        new = sr * pair
        ctx.expect(fd(new) == (f * step, f * size + d - f), 'windowed', sr, '*', (step, size), '=', fd(new))
        ctx.eq(new.discrete_samples(ts), (step, size), 'spans', sr, pair)
        n = ctx.integer(1, 4000)
        ctx.expect(fd(sr * n) == (f * n, f * n + d - f), 'windowed-int', sr, n)
        ctx.expect(fd(sr * (n,)) == (f * n, f * n + d - f), 'windowed-one', sr, n)
        # windowing a windowed rate is relative to its own frequency
        s2, z2 = ctx.integer(1, 9), ctx.integer(1, 20)
        again = new * (s2, z2)
        f1, d1 = fd(new)
        ctx.expect(fd(again) == (f1 * s2, f1 * z2 + d1 - f1), 'windowed-twice', fd(again))
        t1 = ArrayWithUnits(np.zeros((3, 2)), [TimeDimension(*new), IdentityDimension()])
        if d1 >= f1:
            ctx.eq(again.discrete_samples(t1), (s2, z2), 'spans', 'twice')
            t2 = ArrayWithUnits(np.zeros((2, 3)), [IdentityDimension(), TimeDimension(*new)])
            ctx.eq(again.discrete_samples(t2), (s2, z2), 'spans', 'time is the second axis')
    ctx.expect(fd(sr) == (f, d), 'pure', 'arithmetic changed the rate')
    other = SampleRate(exact(ctx, f), exact(ctx, d))
    ctx.expect(sr == other and not (sr == SampleRate(Picoseconds(f + 1), Picoseconds(d))) and
               not (sr == SampleRate(Picoseconds(f), Picoseconds(d + 1))), 'rate-eq', sr, other)
    ratio = ctx.choice([1, 2, 3, 0.5, 0.25, 1.5, float(ctx.rng.uniform(0.01, 20))])
    if f * ratio >= 1:
        for got in (sr.resample(ratio), td.resample(ratio)):
            gf, gd = fd(got)
            ctx.expect(abs(gf - f * ratio) <= 1 and abs(gd - d * ratio) <= 1, 'resample', ratio, fd(got))
    bad = ctx.choice([0, -1, -ctx.integer(1, 10 ** 9)])
    ctx.raises(lambda: SampleRate(Picoseconds(bad), Picoseconds(5)), 'non-positive', types=ValueError)
    ctx.raises(lambda: SampleRate(Picoseconds(5), Picoseconds(bad)), 'non-positive', types=ValueError)
    repr(sr), str(sr)


@CHECK.family(400, 4000, need=['audio-rate', 'scheme', 'half-lapped'])
def audio_rates(ctx):
    cls = ctx.choice(RATES)
    sr = cls()
    n = NAMES[cls]
    ctx.say('audio rate', n)
    ctx.expect(sr.samples_per_second == n and int(sr) == n and sr.nyquist == n // 2, 'audio-rate', sr)
    f, d = fd(sr)
    ctx.expect(f == d == 10 ** 12 // n, 'audio-rate', f, d)
    for key in (n, np.int64(n), np.int32(n), float(n), sr.samples_per_second):
        ctx.expect(type(audio_sample_rate(key)) is cls, 'lookup', key, audio_sample_rate(key))
    size, step = ctx.integer(1, 5000), ctx.integer(1, 5000)
    ctx.expect(fd(sr.windowing_scheme(size, step)) == (f * step, f * size), 'scheme', size, step)
    ctx.expect(fd(sr.windowing_scheme(size)) == (f * size, f * size), 'scheme', size)
    samples = AudioSamples(np.zeros(3), sr)
    ctx.eq(sr.windowing_scheme(size, step).discrete_samples(samples), (step, size), 'spans')
    hl = sr.half_lapped()
    st, sz = hl.discrete_samples(samples)
    ctx.expect((st, sz) == (sr.suggested_hop, sr.suggested_window) and st * 2 == sz, 'half-lapped', n, st, sz)
    ctx.close(hl.overlap_ratio, 0.5, 'half-lapped')
    w = 2 * ctx.integer(1, 4096)
    h = HalfLapped(w, w // 2)
    gs, gw = h.discrete_samples(samples)
    ctx.expect(abs(gw - w * n / 44100.) <= 0.51 and abs(gs - w / 2 * n / 44100.) <= 0.51,
               'half-lapped', w, n, gs, gw)
    if n == 44100:
        ctx.eq((gs, gw), (w // 2, w), 'half-lapped')


@CHECK.family(8, 8, need=['lookup', 'nearest'])
def lookup(ctx):
    ctx.say('lookup block', ctx.idx)
    valid = sorted(NAMES.values())
    for k in range(ctx.idx, 200000, 8):
        try:
            r = audio_sample_rate(k)
        except ValueError:
            r = None
        if (r is not None) != (k in valid) or (r is not None and r.samples_per_second != k):
            ctx.fail('lookup', k, r)
    ctx.expect(True, 'lookup')
    ctx.count('rates looked up', 25000)
    for k in list(range(ctx.idx, 130000, 97)) + [ctx.rng.uniform(1, 2e5) for _ in range(200)] + \
            [(a + b) / 2 for a, b in zip(valid, valid[1:])]:
        r = nearest_audio_sample_rate(k)
        best = min(abs(k - v) for v in valid)
        ctx.expect(abs(abs(k - r.samples_per_second) - best) < 1e-9, 'nearest', k, r)
    for bad in (0, -44100, 44100.5, 44101, 8000, 32000):
        ctx.raises(lambda: audio_sample_rate(bad), 'lookup', types=ValueError)
