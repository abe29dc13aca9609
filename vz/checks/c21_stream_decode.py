import io

import soundfile
from featureflow.bytestream import BytesWithTotalLength

from ..core import Check
from ..gen import *
from ..nodes import run, cuts
from zounds.soundfile import AudioStream, ChunkSizeBytes
from zounds.soundfile.audiostream import MemoryBuffer

CHECK = Check(
    'C21', 'a case is one encoded stream (container x encoding x rate x channels x length) cut into byte chunks and decoded through '
           'the real graph, or one history of reads, writes and seeks on the stream buffer',
    technique='runtime monitor: decoded samples compared with a one-shot libsndfile decode of the same bytes; '
              'buffer history compared with one contiguous byte string')

PCM = [('WAV', 'PCM_16'), ('WAV', 'PCM_24'), ('WAV', 'PCM_32'), ('WAV', 'PCM_U8'), ('WAV', 'FLOAT'), ('WAV', 'DOUBLE'),
       ('AIFF', 'PCM_16'), ('AIFF', 'PCM_24'), ('AIFF', 'PCM_S8'), ('AU', 'PCM_16'), ('AU', 'FLOAT'),
       ('W64', 'PCM_16'), ('CAF', 'PCM_24'), ('WAVEX', 'PCM_16'), ('RF64', 'PCM_16'), ('NIST', 'PCM_16')]
BLOCKS = [('WAV', 'MS_ADPCM'), ('WAV', 'IMA_ADPCM'), ('FLAC', 'PCM_16'), ('FLAC', 'PCM_24'), ('FLAC', 'PCM_S8')]
DEPTH = {'MS_ADPCM': 1, 'IMA_ADPCM': 1, 'PCM_S8': 1, 'PCM_U8': 1, 'PCM_16': 2, 'PCM_24': 3, 'PCM_32': 4,
         'FLOAT': 4, 'DOUBLE': 8, 'VORBIS': 3}


def encode(x, sr, fmt, sub):
    bio = io.BytesIO()
    with soundfile.SoundFile(bio, 'w', samplerate=sr, channels=x.shape[1], format=fmt, subtype=sub) as f:
        for i in range(0, len(x), sr * 5):
            f.write(x[i:i + sr * 5])
    return bio.getvalue()


def audio(ctx, n, channels):
    kind = ctx.choice(['noise', 'sine', 'steps', 'quiet'])
    t = np.arange(n)[:, None]
    c = np.arange(channels)[None, :]
    if kind == 'noise':
        return ctx.rng.uniform(-.9, .9, (n, channels))
    if kind == 'sine':
        return .8 * np.sin(t * .05 * (c + 1) + c)
    if kind == 'steps':
        return ((t * (c + 1) // 97) % 200 - 100) / 128.
    return ctx.rng.uniform(-.01, .01, (n, channels)) * (t > n // 2)


def as_chunks(raw, bounds):
    return [BytesWithTotalLength(raw[a:b], len(raw)) for a, b in bounds]


def mono_of(ref):
    # existing rule of the library: two halvings of the channel sum
    return ref if ref.ndim == 1 else ref.sum(axis=1) * .25


def judge(ctx, fmt, sub, sr, channels, x, bounds_of):
    raw = encode(x, sr, fmt, sub)
    ref, rate = soundfile.read(io.BytesIO(raw))
    assert rate == sr
    bounds = bounds_of(raw)
    mono = ctx.coin(.3)
    ctx.say('%s/%s %d Hz x%d, %d samples, %d bytes, chunks %s%s' % (
        fmt, sub, sr, channels, len(ref), len(raw),
        [b - a for a, b in bounds[:8]], ' mono' if mono else ''))
    outs = run(lambda s: AudioStream(sum_to_mono=mono, needs=s), as_chunks(raw, bounds))
    outs = [o for o in outs if o is not None]
    ctx.expect(len(outs) > 0 or not len(ref), 'decode:nothing', 'no chunk at all')
    if not len(ref):
        return
    ctx.count('chunks decoded', len(outs))
    ctx.count('streams of several chunks' if len(bounds) > 1 else 'streams of one chunk')
    for o in outs:
        ctx.expect(isinstance(o, z.AudioSamples), 'decode:type', type(o))
        ctx.eq(o.samples_per_second, sr, 'decode:rate')
        ctx.eq(o.channels, 1 if mono else channels, 'decode:channels')
    got = np.concatenate([np.asarray(o) for o in outs])
    want = mono_of(ref) if mono else ref
    ctx.eq(got.shape, want.shape, 'decode:length', fmt, sub)
    if mono and channels > 1:
        # judged up to one gain, the same for every sample
        k = float((got * want).sum() / max((want * want).sum(), 1e-300))
        ctx.expect(k > 0.1 or not np.any(want), 'decode:mono-gain', k)
        ctx.close(got, want * k, 'decode:mono', rtol=1e-9, atol=1e-12)
    else:
        ctx.expect(np.array_equal(got, want), 'decode:samples', fmt, sub,
                   'first difference at sample', int(np.argmax((got != want).reshape(len(got), -1).any(axis=1))))


RATES_INT = [11025, 16000, 22050, 44100, 48000, 96000]


@CHECK.family(200, 3000, need=['decode:samples'])
def uncompressed(ctx):
    """any chunking, including chunks cut inside a sample"""
    fmt, sub = ctx.choice(PCM)
    sr, ch = ctx.choice(RATES_INT), ctx.choice([1, 2, 2, 3, 6])
    if fmt == 'NIST' and ch > 2:
        ch = 2
    n = ctx.choice([1, 2, ctx.integer(1, 100), ctx.integer(1, sr), sr, 2 * sr + 1, ctx.integer(1, 3) * sr + ctx.choice([0, 1, 1, -1]),
                    ctx.integer(sr, 3 * sr)])
    def bounds_of(raw):
        # the container's header has to be in the first chunk
        least = 8192 if fmt == 'CAF' else 2048
        first = min(len(raw), ctx.choice([least, 8192, ctx.integer(least, 40000), ctx.integer(least, 400000), 10 ** 9]))
        rest = cuts(ctx, len(raw) - first) if len(raw) > first else []
        return [(0, first)] + [(first + a, first + b) for a, b in rest]
    judge(ctx, fmt, sub, sr, ch, audio(ctx, n, ch), bounds_of)


@CHECK.family(24, 400, need=['decode:samples'])
def blocks(ctx):
    """block codecs; every chunk but the last holds at least eight seconds, as documented for chunk sizes"""
    fmt, sub = ctx.choice(BLOCKS)
    sr, ch = ctx.choice([11025, 16000, 22050]), ctx.choice([1, 2])
    n = ctx.choice([ctx.integer(1, 4 * sr), ctx.integer(9 * sr, 40 * sr), ctx.integer(9 * sr, 40 * sr),
                    ctx.integer(1, 12) * sr + ctx.choice([0, 1, 1, -1])])
    secs = ctx.choice([8, 10, 13.7, 30])
    if sub in ('MS_ADPCM', 'IMA_ADPCM'):
        secs = ctx.choice([2, 5, 8, 13.7])
    size = int(secs * sr * ch * DEPTH[sub])
    judge(ctx, fmt, sub, sr, ch, audio(ctx, n, ch),
          lambda raw: [(i, min(len(raw), i + size)) for i in range(0, len(raw), size)])


@CHECK.family(24, 400, need=['decode:samples'])
def ogg(ctx):
    sr, ch = ctx.choice([11025, 22050, 44100]), ctx.choice([1, 2])
    n = ctx.choice([ctx.integer(1, 4 * sr), ctx.integer(2 * sr, 20 * sr), ctx.integer(1, 8) * sr + ctx.choice([0, 1, 1, -1])])
    size = ctx.choice([16384, 30000, 100000, 10 ** 6])
    judge(ctx, 'OGG', 'VORBIS', sr, ch, audio(ctx, n, ch),
          lambda raw: [(i, min(len(raw), i + size)) for i in range(0, len(raw), size)])


@CHECK.family(30, 300, need=['decode:samples'])
def chunk_size_bytes(ctx):
    """the chunk size a user asks for in seconds, through featureflow's own byte stream"""
    from featureflow.bytestream import ByteStream
    srate = samplerate(ctx)
    sr, ch = int(srate), ctx.choice([1, 2])
    n = ctx.integer(1, 5 * sr)
    x = audio(ctx, n, ch)
    raw = encode(x, sr, 'WAV', 'PCM_16')
    ref, _ = soundfile.read(io.BytesIO(raw))
    cs = ChunkSizeBytes(srate, ctx.choice([z.Seconds(1), z.Milliseconds(500), z.Seconds(2), z.Milliseconds(1717)]),
                        channels=ch, bit_depth=16)
    ctx.say('wav %d Hz x%d %d samples, chunks of %d bytes' % (sr, ch, n, int(cs)))

    def make(s):
        b = ByteStream(chunksize=cs, needs=s)
        return [b, AudioStream(sum_to_mono=False, needs=b)]
    outs = [o for o in run(make, [io.BytesIO(raw)]) if o is not None]
    got = np.concatenate([np.asarray(o) for o in outs])
    ctx.expect(np.array_equal(got, ref), 'decode:samples', got.shape, ref.shape)


@CHECK.family(6, 60, cpu=300, need=['decode:samples'])
def large(ctx):
    """streams longer than the buffer's ten megabytes"""
    sr, ch = 44100, 2
    fmt, sub = ctx.choice([('WAV', 'PCM_16'), ('WAV', 'PCM_24'), ('AIFF', 'PCM_16'), ('FLAC', 'PCM_16'), ('WAV', 'FLOAT')])
    n = sr * ctx.integer(70, 110)
    secs = ctx.choice([8, 10, 30])
    size = int(secs * sr * ch * DEPTH[sub]) + ctx.integer(0, 50)
    judge(ctx, fmt, sub, sr, ch, audio(ctx, n, ch),
          lambda raw: [(i, min(len(raw), i + size)) for i in range(0, len(raw), size)])


@CHECK.family(400, 6000, need=['buffer:read', 'buffer:end'])
def buffer(ctx):
    """one contiguous file over the bytes written; the bytes before the read position may be let go once
    that position is past max_size, so seeks only go to bytes that are still promised"""
    total = ctx.integer(1, 4000)
    data = ctx.rng.integers(0, 256, total, dtype=np.uint8).tobytes()
    limit = ctx.choice([1, 16, 100, 1000, 10 ** 7])
    buf = MemoryBuffer(total, max_size=limit)
    written = pos = 0
    base = 0  # bytes that may have been dropped
    log = []
    for _ in range(ctx.integer(1, 40)):
        op = ctx.choice(['write', 'write', 'read', 'read', 'readinto', 'all', 'seek', 'end', 'tell'])
        if op == 'write':
            k = min(total - written, ctx.choice([0, 1, ctx.integer(0, 600)]))
            if pos - base >= limit:
                base = pos
            r = buf.write(data[written:written + k])
            ctx.eq(r, k, 'buffer:write')
            written += k
            log.append('w%d' % k)
        elif op in ('read', 'readinto', 'all'):
            k = ctx.choice([0, 1, ctx.integer(0, 900)])
            want = data[pos:written] if op == 'all' else data[pos:min(written, pos + k)]
            if op == 'readinto':
                target = bytearray(b'\xee' * k)
                m = buf.readinto(target)
                got = bytes(target[:m])
                ctx.expect(bytes(target[m:]) == b'\xee' * (k - m), 'buffer:readinto', 'wrote past what it read')
            else:
                got = buf.read(-1 if op == 'all' else k)
            log.append('%s%d' % (op, k))
            ctx.expect(got == want, 'buffer:read', len(got), len(want), log[-12:])
            pos += len(want)
        elif op == 'seek' and written:
            pos = ctx.integer(base, written)
            buf.seek(pos, 0)
            log.append('s%d' % pos)
            ctx.eq(buf.tell(), pos, 'buffer:tell')
        elif op == 'end':
            # how libsndfile asks for the length of the stream
            buf.seek(0, 2)
            ctx.eq(buf.tell(), total, 'buffer:end', log[-12:])
            buf.seek(pos, 0)
            log.append('e')
        elif op == 'tell':
            ctx.eq(buf.tell(), pos, 'buffer:tell')
    # drain
    rest = buf.read(-1)
    ctx.expect(rest == data[pos:written], 'buffer:read', 'final drain', len(rest), written - pos, log[-12:])
    ctx.count('buffer operations', len(log))
