from ..core import Check
from ..gen import *
import io
import soundfile as sf
from zounds.timeseries import AudioSamples, SampleRate, HalfLapped, audio_sample_rate

CHECK = Check(
    'C06', 'a case is one mono or stereo signal (any supported rate, dtype, length from 0 or 1 sample) encoded, '
           'decoded, padded, windowed and combined',
    technique='runtime monitor: sample-level comparison of observed signals with an independent codec and numpy')

LOSSLESS = [('WAV', 'PCM_16', 2. ** -15), ('WAV', 'PCM_24', 2. ** -22), ('WAV', 'PCM_32', 2. ** -22),
            ('WAV', 'FLOAT', 2. ** -22), ('WAV', 'DOUBLE', 2. ** -22), ('FLAC', 'PCM_16', 2. ** -15),
            ('FLAC', 'PCM_24', 2. ** -22), ('AIFF', 'PCM_16', 2. ** -15), ('AIFF', 'PCM_24', 2. ** -22),
            ('AU', 'PCM_16', 2. ** -15), ('WAV', 'PCM_U8', 2. ** -6)]


def signal(ctx, lo=0, hi=3000, channels=None, sr=None):
    sr = sr or samplerate(ctx)
    n = ctx.choice([ctx.integer(max(lo, 0), max(lo, 5)), ctx.integer(lo, hi), ctx.integer(lo, hi)])
    ch = channels or ctx.choice([1, 2])
    raw = ctx.rng.uniform(-0.99, 0.99, (n,) if ch == 1 else (n, ch))
    raw = raw.astype(ctx.choice([np.float64, np.float32]))
    if ctx.coin(0.1):
        raw[:] = 0
    return AudioSamples(raw.copy(), sr), raw, sr, ch


@CHECK.family(700, 9000, need=['roundtrip', 'rate', 'independent', 'saved'])
def containers(ctx):
    s, raw, sr, ch = signal(ctx, lo=1)
    n = len(raw)
    fmt, sub, tol = ctx.choice(LOSSLESS)
    ctx.say(fmt, sub, ch, n, int(sr), raw.dtype)
    bio = s.encode(fmt=fmt, subtype=sub)
    ctx.expect(bio.tell() == 0, 'rewound')
    data = bio.getvalue()
    back = AudioSamples.from_file(io.BytesIO(data))
    ctx.expect(isinstance(back, AudioSamples) and back.shape == raw.shape and back.channels == ch,
               'shape', back.shape, raw.shape)
    ctx.expect(int(back.samplerate) == int(sr) and back.samplerate == sr, 'rate', back.samplerate)
    ctx.close(np.asarray(back), raw, 'roundtrip', fmt, sub, atol=tol * 1.01, rtol=0)
    # what an independent reader finds in the bytes
    ref, rate = sf.read(io.BytesIO(data), dtype='float64', always_2d=True)
    ctx.expect(rate == int(sr) and ref.shape == (n, ch), 'independent', rate, ref.shape)
    ctx.close(ref, raw.reshape(n, ch), 'independent', atol=tol * 1.01, rtol=0)
    info = sf.info(io.BytesIO(data))
    ctx.expect(info.subtype == sub and info.format == fmt, 'container', info.subtype, info.format)
    # into a file-like object and onto disk
    import os
    path = os.path.join(ctx.scratch(), 'x.' + fmt.lower())
    if ctx.coin(.3):
        # in the place of something longer, of which nothing is left
        with open(path, 'wb') as old:
            old.write(b'OggS' * (len(data) // 4 + ctx.integer(1, 5000)))
        ctx.count('files replaced')
    s.save(path, fmt=fmt, subtype=sub)
    ctx.eq(os.path.getsize(path), len(data), 'saved', 'size')
    again = AudioSamples.from_file(path)
    ctx.eq(np.asarray(again), np.asarray(back), 'saved')
    flo = io.BytesIO()
    # (float WAVs carry a time stamp: compare what the bytes decode to)
    ctx.expect(s.encode(flo, fmt=fmt, subtype=sub) is flo and len(flo.getvalue()) == len(data), 'flo')
    ctx.eq(np.asarray(AudioSamples.from_file(io.BytesIO(flo.getvalue()))), np.asarray(back), 'flo')
    ctx.eq(np.asarray(s), raw, 'pure')
    # a time slice of the audio is encodable too
    f = int(ps(sr.frequency))
    if n > 4:
        a = ctx.integer(0, n - 2)
        b = ctx.integer(a + 1, n)
        part = s[TimeSlice(Picoseconds(f * (b - a)), start=Picoseconds(f * a))]
        ctx.expect(isinstance(part, AudioSamples), 'slice-type', type(part))
        pb = AudioSamples.from_file(part.encode(fmt=fmt, subtype=sub))
        ctx.close(np.asarray(pb), raw[a:b], 'slice-roundtrip', atol=tol * 1.01, rtol=0)


@CHECK.family(24, 300, need=['lossy'])
def ogg(ctx):
    sr = samplerate(ctx)
    # (long audio is written in pieces)
    n = ctx.choice([int(sr) * 21 + 17, int(sr) * 20 + ctx.integer(-2, int(sr)), int(sr) * 20 * ctx.integer(1, 2) + ctx.choice([0, 1, 1, -1]),
                    ctx.integer(5000, 40000), int(sr) + ctx.choice([0, 1, -1])])
    ch = ctx.choice([1, 2])
    t = np.arange(n) / float(int(sr))
    raw = np.stack([0.5 * np.sin(2 * np.pi * 440 * (c + 1) * t) for c in range(ch)], axis=-1)
    raw = raw[:, 0] if ch == 1 else raw
    ctx.say('ogg', n, ch, int(sr))
    back = AudioSamples.from_file(AudioSamples(raw.astype(np.float32), sr).encode(fmt='OGG', subtype='VORBIS'))
    ctx.expect(back.shape == raw.shape and int(back.samplerate) == int(sr), 'lossy-shape', back.shape, raw.shape)
    for c in range(ch):
        a, b = (back, raw) if ch == 1 else (back[:, c], raw[:, c])
        err = np.sqrt(np.mean((np.asarray(a) - b) ** 2))
        ctx.expect(err < 0.1, 'lossy', c, err)


@CHECK.family(1200, 20000, need=['stereo', 'mono', 'silence', 'padding', 'silence-like', 'sum', 'add', 'refused'])
def channels(ctx):
    s, raw, sr, ch = signal(ctx, lo=0, hi=300)
    n = len(raw)
    f = int(ps(sr.frequency))
    ctx.say('channels', n, ch, int(sr), raw.dtype)
    ctx.expect(s.channels == ch and s.samples_per_second == int(sr) and
               type(s.samplerate) is type(sr) and s.kwargs() == {'samplerate': sr} and
               int(ps(s.frequency)) == f == int(ps(s.duration)) and int(ps(s.overlap)) == 0, 'describe')
    ctx.expect(int(ps(s.end)) == n * f and int(ps(s.span.duration)) == n * f, 'span', s.end, n * f)
    st = s.stereo
    ctx.expect(isinstance(st, AudioSamples) and int(st.samplerate) == int(sr) and st.channels == 2, 'stereo')
    ctx.eq(np.asarray(st), np.stack([raw, raw], axis=1) if ch == 1 else raw, 'stereo')
    m = s.mono
    ctx.expect(isinstance(m, AudioSamples) and int(m.samplerate) == int(sr) and m.channels == 1 and m.ndim == 1, 'mono')
    if ch == 1:
        ctx.eq(np.asarray(m), raw, 'mono')
    else:
        # integer samples as loud as they get
        loud = ctx.rng.integers(-32768, 32768, (n, 2)).astype(np.int16)
        ctx.close(np.asarray(AudioSamples(loud, sr).mono), loud.astype(np.float64).sum(axis=1) * 0.25, 'mono', 'integers', rtol=1e-5)
        # a fixed multiple of left + right
        ctx.close(np.asarray(m), (raw[:, 0] + raw[:, 1]) * 0.25, 'mono', rtol=1e-5, atol=1e-7)
        t = s.sum(axis=1)
        ctx.expect(isinstance(t, AudioSamples) and int(t.samplerate) == int(sr), 'sum')
        ctx.close(np.asarray(t), raw.sum(axis=1), 'sum', rtol=1e-5, atol=1e-6)
    ctx.close(float(s.sum()), float(raw.sum(dtype=np.float64)), 'sum', rtol=1e-3, atol=1e-3)
    ctx.close(s.duration_in_seconds, f / 1e12, 'describe', rtol=1e-12)
    if ch == 1:
        # mono samples may have a second dimension
        one = AudioSamples(raw.reshape(-1, 1).copy(), sr)
        ctx.expect(one.channels == 1, 'describe')
        ctx.eq(np.asarray(one.stereo), np.stack([raw, raw], axis=1), 'stereo')
        ctx.eq(np.asarray(one.mono), raw.reshape(-1, 1), 'mono', 'nothing to do')
        ctx.expect(isinstance(one.mono, AudioSamples) and one.mono.samplerate == sr, 'mono')
        ctx.eq(np.asarray(one.pad_with_silence(Picoseconds(f * 3))).ravel(), np.concatenate([raw, np.zeros(3, raw.dtype)]), 'padding')
        ctx.expect(isinstance(one.stereo, AudioSamples) and one.stereo.samplerate == sr, 'stereo')
    # silence
    k = ctx.choice([0, 1, 2, ctx.integer(0, 500)])
    c = ctx.choice([1, 2])
    dt = ctx.choice([np.float32, np.float64, np.int16])
    z0 = AudioSamples.silence(sr, Picoseconds(f * k), dtype=dt, channels=c)
    ctx.expect(isinstance(z0, AudioSamples) and z0.shape == ((k,) if c == 1 else (k, c)) and z0.dtype == dt and
               int(z0.samplerate) == int(sr), 'silence', z0.shape, k, c)
    ctx.expect(not np.any(z0), 'silence', 'not silent')
    ms = ctx.integer(0, 3000)
    z1 = AudioSamples.silence(sr, Milliseconds(ms))
    ctx.expect(len(z1) in (ms * 10 ** 9 // f, (ms * 10 ** 9 - 1) // f), 'silence', ms, len(z1))
    zl = s.silence_like(Picoseconds(f * k))
    ctx.expect(zl.shape == (k,) + raw.shape[1:] and zl.dtype == raw.dtype and not np.any(zl), 'silence-like', zl)
    p = s.pad_with_silence(Picoseconds(f * k))
    ctx.expect(isinstance(p, AudioSamples) and int(p.samplerate) == int(sr), 'padding')
    ctx.eq(np.asarray(p), np.concatenate([raw, np.zeros((k,) + raw.shape[1:], raw.dtype)]), 'padding')
    one = len(s.pad_with_silence()) - n
    ctx.expect(abs(one - int(sr)) <= 2, 'padding', 'default is a second', one)
    # arithmetic
    other, oraw, _, _ = signal(ctx, lo=n, hi=n, channels=ch, sr=sr)
    if len(oraw) == n:
        for got, want, k2 in ((s + other, raw + oraw, 'add'), (s * other, raw * oraw, 'mul'), (s + 1, raw + 1, 'add'),
                              (s - other, raw - oraw, 'sub'), (s * 0.5, raw * raw.dtype.type(0.5), 'mul')):
            ctx.expect(isinstance(got, AudioSamples) and int(got.samplerate) == int(sr), k2, type(got))
            ctx.eq(np.asarray(got), want, k2)
    wrong = ctx.choice([c for c in RATES if int(c()) != int(sr)])()
    ctx.raises(lambda: s + AudioSamples(raw, wrong), 'refused', 'adding another rate', types=ValueError)
    ctx.raises(lambda: AudioSamples.concat([s, AudioSamples(raw, wrong)]), 'refused', 'concat another rate')
    both = AudioSamples.concat([s, s, s])
    ctx.expect(isinstance(both, AudioSamples) and int(both.samplerate) == int(sr), 'concat')
    ctx.eq(np.asarray(both), np.concatenate([raw] * 3), 'concat')
    ctx.raises(lambda: AudioSamples(np.zeros((2, 2, 2)), sr), 'refused', types=ValueError)
    ctx.raises(lambda: AudioSamples(np.zeros(()), sr), 'refused', types=ValueError)
    ctx.raises(lambda: AudioSamples(raw, ctx.choice([HalfLapped(), sr * (2, 4), SampleRate(Seconds(1), Seconds(1))])),
               'refused', types=TypeError)
    ctx.eq(np.asarray(s), raw, 'pure')
    got = AudioSamples.from_example(oraw, s)
    ctx.expect(isinstance(got, AudioSamples) and int(got.samplerate) == int(sr), 'from-example')
    ctx.eq(np.asarray(got), oraw, 'from-example')


@CHECK.family(800, 12000, need=['windows', 'window-axes'])
def windows(ctx):
    s, raw, sr, ch = signal(ctx, lo=1, hi=400)
    n = len(raw)
    f = int(ps(sr.frequency))
    step = ctx.integer(1, 60)
    size = ctx.choice([step, step * 2, step + ctx.integer(0, 40)])
    if size == 1:
        size = 2
    pad = ctx.coin()
    ctx.say('windows', n, ch, step, size, pad)
    w = s.sliding_window(sr * (step, size), padding=pad)
    full = 0 if n < size else (n - size) // step + 1
    if not pad:
        if full == 0:
            ctx.expect(w.size == 0, 'windows', 'none fits', w.shape)
            return
        ctx.expect(w.shape == (full, size) + raw.shape[1:], 'windows', w.shape, full)
    else:
        need = 1 if n <= size else -(-(n - size) // step) + 1
        ctx.expect(w.ndim == raw.ndim + 1 and w.shape[1:] == (size,) + raw.shape[1:] and
                   need <= len(w) and (len(w) == 1 or (len(w) - 1) * step < n), 'windows',
                   'padded', w.shape, 'needed', need)
    padded = np.concatenate([raw, np.zeros((size + step * len(w),) + raw.shape[1:], raw.dtype)])
    for k in range(len(w)):
        ctx.eq(np.asarray(w[k]), padded[k * step:k * step + size], 'windows', k)
    d0, d1 = w.dimensions[:2]
    ctx.expect(isinstance(d0, TimeDimension) and int(ps(d0.frequency)) == f * step and
               int(ps(d0.duration)) == f * size and isinstance(d1, TimeDimension) and
               int(ps(d1.frequency)) == f == int(ps(d1.duration)), 'window-axes', w.dimensions)
    ctx.expect(w.dtype == raw.dtype, 'window-type')
    ctx.eq(np.asarray(s), raw, 'pure')
