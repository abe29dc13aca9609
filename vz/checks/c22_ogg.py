import io

import soundfile

from ..core import Check
from ..gen import *
from ..nodes import run, cuts
from .c21_stream_decode import encode, as_chunks, DEPTH
from zounds.soundfile.ogg_vorbis import OggVorbis, OggVorbisWrapper, OggVorbisDecoder, OggVorbisFeature
import featureflow as ff

CHECK = Check(
    'C22', 'a case is one source stream (container x rate x channels x length) encoded through the real graph in some chunking, '
           'or one stored ogg file and a set of time ranges',
    technique='runtime monitor: stored bytes re-decoded independently with libsndfile and compared with the source; '
              'every time range compared with the same positions of the full decode')

SOURCES = [('WAV', 'PCM_16'), ('WAV', 'PCM_16'), ('WAV', 'FLOAT'), ('AIFF', 'PCM_24'), ('FLAC', 'PCM_16'), ('WAV', 'MS_ADPCM'),
           ('OGG', 'VORBIS')]


def tones(ctx, n, sr, channels):
    """smooth and band limited, so that the codec keeps it"""
    t = np.arange(n) / sr
    x = np.zeros((n, channels))
    for c in range(channels):
        f = ctx.rng.uniform(150, 900)
        x[:, c] = .35 * np.sin(2 * np.pi * f * t + c) * (0.6 + .4 * np.sin(2 * np.pi * .7 * t + c))
    return x



@CHECK.family(60, 800, cpu=200, need=['encode:length', 'encode:signal'])
def encoding(ctx):
    srate = samplerate(ctx)
    sr, ch = int(srate), ctx.choice([1, 2])
    n = ctx.choice([ctx.integer(1, 3000), ctx.integer(1, 3 * sr), sr, ctx.integer(1, 9) * sr + ctx.choice([1, 1, -1]),
                    ctx.integer(sr, 12 * sr)])
    encode_one(ctx, sr, ch, n, ctx.choice([8192, 20000, 65536, 10 ** 6]))


@CHECK.family(8, 100, cpu=200, need=['encode:length', 'encode:signal'])
def long_encoding(ctx):
    """sources that are read, and handed to the encoder, many seconds at a time"""
    sr, ch = ctx.choice([11025, 16000, 22050, 44100]), ctx.choice([1, 2])
    n = ctx.integer(28 * sr, 75 * sr)
    if ctx.coin(.4):
        # what is read at once, which depends on the number of bytes, ends just after pieces of twenty seconds
        size = len(encode(np.zeros((26 * sr, ch)), sr, 'WAV', 'PCM_16'))
        n = 26 * sr + 20 * sr - int((size / (2 * sr * ch) - 6) * sr) + ctx.choice([1, 1, 0, 2])
        encode_one(ctx, sr, ch, n, 10 ** 8, ('WAV', 'PCM_16'))
    else:
        encode_one(ctx, sr, ch, n, ctx.choice([10 ** 8, 10 ** 8, n * ch]))


def encode_one(ctx, sr, ch, n, first, source=None):
    fmt, sub = source or ctx.choice(SOURCES)
    x = tones(ctx, n, sr, ch)
    raw = encode(x, sr, fmt, sub)
    src, _ = soundfile.read(io.BytesIO(raw), always_2d=True)
    first = min(len(raw), first)
    rest = cuts(ctx, len(raw) - first) if len(raw) > first else []
    bounds = [(0, first)] + [(first + a, first + b) for a, b in rest]
    ctx.say('%s/%s %d Hz x%d %d samples, %d byte chunks' % (fmt, sub, sr, ch, n, len(bounds)))
    outs = run(lambda s: OggVorbis(needs=s), as_chunks(raw, bounds))
    data = b''.join(bytes(o) for o in outs if o is not None)
    ctx.count('ogg streams written')
    if fmt == 'OGG':
        ctx.expect(data == raw, 'encode:passthrough', len(data), len(raw))
    info = soundfile.info(io.BytesIO(data))
    ctx.eq(info.format, 'OGG', 'encode:format')
    got, rate = soundfile.read(io.BytesIO(data), always_2d=True)
    ctx.eq(rate, sr, 'encode:rate')
    ctx.eq(got.shape, src.shape, 'encode:length')
    err = np.sqrt(np.mean((got - src) ** 2, axis=0))
    ref = np.sqrt(np.mean(src ** 2, axis=0))
    # a lossy codec at its default quality; anything shifted, repeated or missing is off by as much as the signal itself
    if n > 2048:
        ctx.expect(np.all(err < .12 * ref + 2e-3), 'encode:signal', err.tolist(), ref.tolist())
        # short stretches: nothing lost and made up for elsewhere
        step = 4096
        for i in range(0, n - step, step):
            e = np.sqrt(np.mean((got[i:i + step] - src[i:i + step]) ** 2, axis=0))
            r = np.sqrt(np.mean(src[i:i + step] ** 2, axis=0))
            ctx.expect(np.all(e < .35 * r + 1e-2), 'encode:signal', 'stretch at', i, e.tolist(), r.tolist())
    w = OggVorbisWrapper(io.BytesIO(data))
    ctx.eq(w.samplerate, sr, 'wrapper:rate')
    ctx.eq(w.channels, ch, 'wrapper:channels')
    ctx.close(w.duration_seconds, n / sr, 'wrapper:duration', rtol=1e-9) if fmt != 'WAV' or sub != 'MS_ADPCM' else None


def stored(ctx):
    srate = samplerate(ctx)
    sr, ch = int(srate), ctx.choice([1, 2])
    n = ctx.choice([ctx.integer(1, 200), sr, 2 * sr, ctx.integer(1, 5 * sr), ctx.integer(1, 5 * sr)])
    x = ctx.rng.uniform(-.5, .5, (n, ch))
    raw = encode(x, sr, 'OGG', 'VORBIS')
    full, _ = soundfile.read(io.BytesIO(raw))
    ctx.eq(len(full), n, 'stored:length')
    return srate, sr, ch, n, raw, full


class Mirror(object):
    """libsndfile itself, asked for the same positions in the same order.  Its vorbis seek is not sample
    exact next to the position it lands on (and depends on what was decoded before), so positions are
    judged against what libsndfile gives for them and not only against the full decode."""

    def __init__(self, raw, full):
        self.raw, self.full = raw, full
        self.sf = soundfile.SoundFile(io.BytesIO(raw))

    def same(self, s):
        self.sf.seek(s)

    def options(self, s, c):
        n = len(self.full)
        c = max(0, min(n, s + c) - s)
        self.sf.seek(s)
        yield self.sf.read(c)
        yield self.full[s:s + c]
        fresh = soundfile.SoundFile(io.BytesIO(self.raw))
        fresh.seek(s)
        yield fresh.read(c)

    def agrees(self, got, s, c):
        ok = False
        for o in self.options(s, c):
            ok = ok or (o.shape == got.shape and np.array_equal(o, got))
        return ok


@CHECK.family(60, 800, need=['range:samples', 'range:all', 'chunks'])
def ranges(ctx):
    srate, sr, ch, n, raw, full = stored(ctx)
    ctx.say('ogg %d Hz x%d, %d samples' % (sr, ch, n))
    w = OggVorbisDecoder()(io.BytesIO(raw)) if ctx.coin() else OggVorbisWrapper(io.BytesIO(raw))
    m = Mirror(raw, full)
    freq = srate.frequency
    for _ in range(ctx.integer(2, 10)):
        kind = ctx.choice(['samples', 'samples', 'open', 'all', 'whole', 'iter', 'tail'])
        if kind == 'all':
            s, c = 0, n
            got = w[slice(None)]
            ctx.expect(m.agrees(np.asarray(got), 0, n), 'range:all', got.shape, full.shape)
            continue
        if kind == 'iter':
            got = list(w.iter_chunks())
            ctx.eq(sum(len(g) for g in got), n, 'chunks')
            pos = 0
            for g in got:
                if len(g):
                    ctx.expect(m.agrees(np.asarray(g), pos, len(g)), 'chunks', 'content', pos)
                else:
                    m.same(pos)
                pos += len(g)
                ctx.eq(g.samples_per_second, sr, 'chunks')
                ctx.expect(len(g) <= sr, 'chunks', len(g))
            continue
        if kind == 'samples':
            # ranges of whole samples: exactly those samples
            s, c = ctx.integer(0, n - 1), ctx.choice([1, ctx.integer(1, n), n, 2 * n])
            ts = TimeSlice(start=freq * s, duration=freq * c)
        elif kind == 'whole':
            s = ctx.integer(0, max(0, (n - 1) // sr))
            c = ctx.integer(1, 3)
            ts = TimeSlice(start=z.Seconds(s), duration=z.Seconds(c))
            s, c = s * sr, c * sr
        elif kind == 'open':
            s, c = ctx.integer(0, n - 1), n
            ts = TimeSlice(start=freq * s)
        else:
            s, c = ctx.integer(max(0, n - 50), n - 1), 2 * sr
            ts = TimeSlice(start=freq * s, duration=z.Seconds(2))
        got = w[ts]
        c = min(n, s + c) - s
        ctx.expect(m.agrees(np.asarray(got), s, c), 'range:samples', kind, s, c, got.shape)
        ctx.expect(isinstance(got, z.AudioSamples), 'range:type', type(got))
        ctx.eq(got.samples_per_second, sr, 'range:rate')
        ctx.eq(got.channels, ch, 'range:channels')
        ctx.count('ranges read')


@CHECK.family(60, 800, need=['time:samples'])
def times(ctx):
    """arbitrary times: the range starts at the sample playing at the start, and is as long as the duration"""
    srate, sr, ch, n, raw, full = stored(ctx)
    for _ in range(ctx.integer(1, 4)):
        total = n * 10 ** 12 // sr
        a = ctx.integer(0, max(0, total - 10 ** 12 // sr)) // 10 ** 6 * 10 ** 6
        d = ctx.integer(10 ** 12 // sr, max(total, 10 ** 12 // sr)) // 10 ** 6 * 10 ** 6 + 10 ** 6
        ts = TimeSlice(start=exact(ctx, a), duration=exact(ctx, d))
        st, du = float(Fraction(a * sr, 10 ** 12)), float(Fraction(d * sr, 10 ** 12))
        ctx.say('ogg %d Hz x%d, %d samples, %s' % (sr, ch, n, ts))
        got = np.asarray(OggVorbisWrapper(io.BytesIO(raw))[ts])
        ok = False
        # sample positions follow a picosecond frequency, which is a little short
        for s in {math.floor(st + 1e-6), math.floor(st + .02)}:
            if s > n:
                continue
            for c in {math.floor(du + 1e-6), math.floor(du + .02), math.ceil(du), math.ceil(st + du) - s}:
                ok = ok or Mirror(raw, full).agrees(got, s, c)
        ctx.expect(ok, 'time:samples', got.shape, st, du)
        ctx.count('ranges read')


@CHECK.family(3, 40, cpu=200, need=['chunks'])
def long_chunks(ctx):
    """sample positions do not drift over ten and more minutes"""
    srate = ctx.choice([z.SR44100(), z.SR48000(), z.SR96000()])
    sr = int(srate)
    n = sr * ctx.integer(600, 700) if sr < 90000 else sr * ctx.integer(250, 350)
    t = np.arange(n)
    raw = encode((((t // 441) % 101) / 101. - .5)[:, None] * .5, sr, 'OGG', 'VORBIS')
    ctx.say('%d Hz %d samples' % (sr, n))
    full, _ = soundfile.read(io.BytesIO(raw))
    w = OggVorbisWrapper(io.BytesIO(raw))
    pos, m = 0, Mirror(raw, full)
    for g in w.iter_chunks():
        if len(g):
            ctx.expect(m.agrees(np.asarray(g), pos, len(g)), 'chunks', 'at', pos)
        pos += len(g)
    ctx.eq(pos, n, 'chunks')


@CHECK.family(20, 200, need=['feature:range'])
def as_feature(ctx):
    """the same through a stored document"""
    ctx.seed_global()
    chunksize = z.ChunkSizeBytes(z.SR11025(), z.Seconds(ctx.integer(1, 5)), channels=2, bit_depth=16)

    @z.simple_in_memory_settings
    class Doc(ff.BaseModel):
        meta = ff.JSONFeature(z.MetaData, store=True, encoder=z.AudioMetaDataEncoder)
        raw = ff.ByteStreamFeature(ff.ByteStream, chunksize=chunksize, needs=meta, store=False)
        ogg = z.OggVorbisFeature(z.OggVorbis, needs=raw, store=True)

    srate = ctx.choice([z.SR11025(), z.SR22050(), z.SR44100()])
    sr, ch = int(srate), ctx.choice([1, 2])
    ids, srcs = [], []
    for _ in range(ctx.integer(1, 3)):
        n = ctx.integer(sr, 6 * sr)
        x = tones(ctx, n, sr, ch)
        ids.append(Doc.process(meta=io.BytesIO(encode(x, sr, 'WAV', 'PCM_16'))))
        srcs.append(x)
    ctx.say('%d documents at %d Hz x%d' % (len(ids), sr, ch))
    for _id, x in zip(ids, srcs):
        doc = Doc(_id)
        full = np.asarray(doc.ogg[slice(None)]).reshape(len(x), ch)
        err = np.sqrt(np.mean((full - x) ** 2)) / np.sqrt(np.mean(x ** 2))
        ctx.expect(err < .15, 'feature:signal', float(err))
        s, c = ctx.integer(0, len(x) - 1), ctx.integer(1, len(x))
        part = np.asarray(doc.ogg[TimeSlice(start=srate.frequency * s, duration=srate.frequency * c)])
        stored_ = doc.ogg._flo.getvalue() if hasattr(getattr(doc.ogg, '_flo', None), 'getvalue') else None
        ctx.eq(len(part), min(len(x), s + c) - s, 'feature:range', s, c)
        if stored_:
            m = Mirror(stored_, soundfile.read(io.BytesIO(stored_))[0])
            m.agrees(m.full, 0, len(m.full))
            ctx.expect(m.agrees(part, s, len(part)), 'feature:range', s, c, part.shape)
