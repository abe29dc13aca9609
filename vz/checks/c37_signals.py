"""C37: generated test signals"""
from ..core import Check
from ..gen import *
from zounds.synthesize import NoiseSynthesizer, SilenceSynthesizer, SineSynthesizer, TickSynthesizer
from zounds.timeseries import (
    AudioSamples, Hours, Microseconds, Milliseconds, Minutes, Nanoseconds, Picoseconds, SampleRate)

CHECK = Check(
    'C37',
    'Signals are synthesized for rates, durations (in every unit) and settings of all kinds; lengths are compared with exact '
    'rational arithmetic, samples with the mathematical signal (sines), with their own repetition (ticks) or with the distribution '
    'they must come from (noise).',
    technique='runtime monitoring against exact arithmetic and statistical oracles',
    require=['sines', 'chords', 'ticks', 'overlapping ticks', 'noises', 'silences', 'fractional', 'whole'])

RATE_OF = {int(r()): r for r in RATES}


def rate(ctx):
    return ctx.choice(sorted(RATE_OF))


def some_duration(ctx, most_samples, sr):
    """a duration, and it in seconds"""
    most = Fraction(most_samples, sr)
    for _ in range(50):
        unit, per = ctx.choice([(Seconds, 1), (Milliseconds, 10 ** 3), (Milliseconds, 10 ** 3), (Microseconds, 10 ** 6),
                                (Nanoseconds, 10 ** 9), (Picoseconds, 10 ** 12), ('samples', sr)])
        if unit == 'samples':
            # as long as so many samples (a whole number of picoseconds each)
            n = ctx.integer(2, most_samples)
            return RATE_OF[sr]().frequency * n, Fraction(n, sr)
        top = int(most * per)
        if top < 1:
            continue
        k = ctx.integer(1, top)
        if ctx.coin(.5) and k > 10:
            k = max(1, int(float('%.2g' % k)))
        if Fraction(k, per) * sr < 2:
            continue
        return unit(k), Fraction(k, per)
    return Milliseconds(100), Fraction(1, 10)


def judge_length(ctx, audio, exact, sr, key):
    """whole numbers of samples are exact, other are rounded either way"""
    ctx.expect(isinstance(audio, AudioSamples), key, type(audio))
    ctx.expect(audio.ndim == 1, key, audio.shape)
    wanted = exact * sr
    n = len(audio)
    near = round(wanted)
    if wanted == near:
        ctx.count('whole')
        ctx.eq(n, near, key, 'length', float(exact), sr)
    else:
        ctx.count('fractional')
    ctx.expect(abs(n - wanted) < 1 + Fraction(1, 10 ** 4), key, 'length', n, float(wanted), sr)
    ctx.expect(audio.samplerate == RATE_OF[sr](), key, 'rate', audio.samplerate, sr)
    ctx.expect(int(audio.samplerate) == sr, key, 'rate', audio.samplerate)
    ctx.expect(abs(float(audio.dimensions[0].end / Picoseconds(1)) - float(exact) * 1e12) < 1.02e12 / sr + n, key, 'duration')
    ctx.finite(np.asarray(audio), key)


@CHECK.family(1, 6, cpu=300, need=['sine:length', 'sine:samples'])
def long_sines(ctx):
    """more samples than single precision can count"""
    sr = ctx.choice([44100, 48000, 96000])
    n = 2 ** 24 + ctx.integer(1000, 200000)
    seconds = n // sr + 1
    f = ctx.choice([440., 1000., float(ctx.integer(100, 5000)), 261.625])
    ctx.say(sr, seconds, f)
    audio = SineSynthesizer(RATE_OF[sr]()).synthesize(Seconds(seconds), [f])
    judge_length(ctx, audio, Fraction(seconds), sr, 'sine:length')
    for at in (0, len(audio) // 2, 2 ** 24 - 500, len(audio) - 1000):
        k = np.arange(at, at + 1000)
        whole, part = divmod(f, 1.)
        phase = (k * int(whole) % sr) / sr + k * part / sr
        ctx.close(np.asarray(audio[at: at + 1000]), np.sin(2 * np.pi * phase), 'sine:samples', f, sr, at, rtol=0, atol=1e-5)
    ctx.count('long sounds')


@CHECK.family(2500, 30000, cpu=120, need=['sine:length', 'sine:samples', 'sine:scale'])
def sines(ctx):
    sr = rate(ctx)
    duration, exact = some_duration(ctx, ctx.choice([50, 3000, 30000, 200000]), sr)
    count = ctx.choice([1, 1, 2, 3, 6])
    freqs = [ctx.choice([440., 220., 0., 1000., float(ctx.integer(1, sr // 2)), float(ctx.rng.uniform(.1, sr / 2)), sr / 4,
                         ctx.integer(1, 5000)]) for _ in range(count)]
    form = ctx.integer(0, 3)
    given = freqs if form < 2 else tuple(freqs) if form == 2 else np.array(freqs)
    synth = SineSynthesizer(RATE_OF[sr]())
    ctx.say(sr, duration, given)
    if ctx.coin(.1):
        audio, freqs = synth.synthesize(duration), [440.]
    elif ctx.coin(.5):
        audio = synth.synthesize(duration, given)
    else:
        audio = synth.synthesize(duration, freqs_in_hz=given)
    judge_length(ctx, audio, exact, sr, 'sine:length')
    n = np.arange(len(audio))
    wanted = np.zeros(len(audio))
    for f in freqs:
        # (the phase taken modulo one before it gets large)
        whole, part = divmod(float(f), 1.)
        phase = (n * int(whole) % sr) / sr + n * part / sr
        wanted += np.sin(2 * np.pi * phase) / len(freqs)
    ctx.close(np.asarray(audio), wanted, 'sine:samples', freqs, sr, rtol=0, atol=1e-6)
    ctx.expect(np.abs(np.asarray(audio)).max() <= 1 + 1e-9, 'sine:scale', np.abs(np.asarray(audio)).max())
    ctx.count('sines')
    if count > 1:
        ctx.count('chords')
    # again, it's the same
    again = synth.synthesize(duration, freqs)
    ctx.close(np.asarray(again), wanted, 'sine:samples', 'again', rtol=0, atol=1e-6)


@CHECK.family(2000, 25000, cpu=120, need=['tick:length', 'tick:spacing', 'tick:shape'])
def ticks(ctx):
    ctx.seed_global()
    sr = rate(ctx)
    duration, exact = some_duration(ctx, ctx.choice([20000, 60000, 200000]), sr)
    spacing, exact_spacing = some_duration(ctx, ctx.choice([2000, 10000, 50000]), sr)
    if exact_spacing * sr < 20:
        spacing, exact_spacing = Milliseconds(ctx.integer(10, 300)), None
        exact_spacing = Fraction(int(spacing / Milliseconds(1)), 1000)
    if exact * sr < 50:
        duration, exact = Milliseconds(500), Fraction(1, 2)
    ctx.say(sr, duration, spacing)
    audio = TickSynthesizer(RATE_OF[sr]()).synthesize(duration, spacing)
    judge_length(ctx, audio, exact, sr, 'tick:length')
    x = np.array(audio, dtype=np.float64)
    samples = exact_spacing * sr
    near = round(samples)
    if abs(samples - near) < Fraction(1, 10 ** 4):
        steps = [near]
        if samples != near:
            steps += [near - 1, near + 1]
    else:
        steps = [math.floor(samples), math.ceil(samples)]
    L = math.ceil(sr * .1) + 1
    errors = []
    found = None
    for step in steps:
        # what one tick adds; periodic from there on
        tick = x.copy()
        tick[step:] -= x[:-step] if step < len(x) else 0
        rest = np.abs(tick[L:]).max() if len(tick) > L else 0.
        errors.append(rest)
        # (within the first tick, spacings can only be told apart by what they make of it)
        if rest < 1e-9 and np.abs(tick[:L]).max() <= 1 + 1e-9:
            found = (step, tick[:L])
            break
    if found is None:
        # spacings that alternate to stay in time
        at = [int(round(k * samples)) for k in range(int(len(x) / samples) + 2)]
        if min(samples, len(x)) >= L:
            tick = x[:L]
            y = np.zeros(len(x) + 2 * L)
            for a in at:
                if a < len(x):
                    y[a:a + L] += tick
            errors.append(np.abs(y[:len(x)] - x).max())
            if errors[-1] < 1e-9:
                found = (near, tick)
        elif abs(samples - near) >= Fraction(1, 10 ** 4):
            # (can't be told apart)
            return
    ctx.expect(found is not None, 'tick:spacing', errors, float(samples), sr, len(x))
    step, tick = found
    n = len(tick)
    size = min(n, len(x))
    tick = tick[:size]
    ctx.expect(np.abs(tick).max() <= 1 + 1e-9, 'tick:shape', 'full scale', np.abs(tick).max())
    if len(x) >= L and L > 100:
        half = L // 2
        a, b = np.sqrt(np.mean(tick[:half] ** 2)), np.sqrt(np.mean(tick[half:] ** 2))
        ctx.expect(a > .2 and b < a * .8 and b > .02, 'tick:shape', 'decays', a, b)
        ctx.expect(np.abs(tick[-L // 20:]).max() < .1, 'tick:shape', 'ends in silence')
        q = np.sqrt(np.mean(tick[:max(30, L // 10)] ** 2))
        ctx.expect(q > .25, 'tick:shape', 'starts at once', q)
    ctx.count('ticks', int(len(x) // step) + 1)
    if step < L:
        ctx.count('overlapping ticks')


@CHECK.family(700, 10000, cpu=120, need=['noise:length', 'noise:bounds', 'noise:spread', 'noise:fresh'])
def noise(ctx):
    ctx.seed_global()
    sr = rate(ctx)
    duration, exact = some_duration(ctx, ctx.choice([100, 20000, 200000]), sr)
    ctx.say(sr, duration)
    synth = NoiseSynthesizer(RATE_OF[sr]())
    audio = synth.synthesize(duration)
    judge_length(ctx, audio, exact, sr, 'noise:length')
    x = np.array(audio)
    ctx.expect(np.abs(x).max() <= 1, 'noise:bounds', np.abs(x).max())
    other = np.array(synth.synthesize(duration))
    ctx.expect(len(other) == len(x), 'noise:length', 'again')
    if len(x) > 10:
        ctx.expect(not np.array_equal(x, other), 'noise:fresh')
    n = len(x)
    if n >= 2000:
        # twenty bins of equal counts, no more than six deviations away (one in 10^9)
        counts = np.histogram(x, bins=20, range=(-1, 1))[0]
        dev = np.sqrt(n / 20 * .95)
        ctx.expect(np.abs(counts - n / 20).max() < 6.2 * dev, 'noise:spread', 'values', counts)
        # neighbours (near and far) have nothing to do with each other
        for lag in (1, 2, 7, 100, n // 3, n // 2):
            r = np.mean(x[lag:] * x[:-lag])
            ctx.expect(abs(r) < 6.2 / 3 / np.sqrt(n - lag), 'noise:spread', 'lag', lag, r)
        # nor does it repeat, at any distance
        size = 1 << (2 * n - 1).bit_length()
        r = np.fft.irfft(np.abs(np.fft.rfft(x, size)) ** 2, size)[1:n - n // 10]
        r = np.abs(r) / np.sqrt(n - np.arange(1, n - n // 10)) * 3
        ctx.expect(r.max() < 8.5, 'noise:spread', 'repeats after', int(r.argmax()) + 1, r.max())
        # every band has its share of the power
        p = np.abs(np.fft.rfft(x)[1:]) ** 2 / n * 3
        for band in np.array_split(p, 8):
            m = len(band)
            ctx.expect(abs(band.mean() - 1) < 6.5 / np.sqrt(m) + 20 / m, 'noise:spread', 'bands', band.mean(), m)
        r = np.mean(x * other)
        ctx.expect(abs(r) < 6.2 / 3 / np.sqrt(n), 'noise:fresh', r)
    ctx.count('noises')


@CHECK.family(700, 10000, need=['silence:length', 'silence:zero'])
def silence(ctx):
    sr = rate(ctx)
    duration, exact = some_duration(ctx, ctx.choice([100, 20000, 200000]), sr)
    ctx.say(sr, duration)
    audio = SilenceSynthesizer(RATE_OF[sr]()).synthesize(duration)
    judge_length(ctx, audio, exact, sr, 'silence:length')
    ctx.expect(not np.any(np.asarray(audio)), 'silence:zero')
    ctx.count('silences')
    # longer ones as well
    if ctx.coin(.05):
        d, e = ctx.choice([(Minutes(2), 120), (Seconds(100), 100)])
        judge_length(ctx, SilenceSynthesizer(RATE_OF[sr]()).synthesize(d), Fraction(e), sr, 'silence:length')
