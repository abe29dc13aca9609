import json
from io import BytesIO
import featureflow as ff
from ..core import Check
from ..gen import *
from ..nodes import run, chunked, cuts
from zounds.core.dimensions import Dimension
from zounds.persistence import (
    ArrayWithUnitsFeature, PackedArrayWithUnitsFeature, ArrayWithUnitsEncoder, PackedArrayWithUnitsEncoder,
    AudioSamplesFeature, FrequencyAdaptiveFeature, DimensionEncoder, DimensionDecoder, TimeSliceEncoder, TimeSliceDecoder)
from zounds.persistence.arraywithunits import ArrayWithUnitsDecoder
from zounds.persistence.audiosamples import AudioSamplesDecoder
from zounds.persistence.frequencyadaptive import FrequencyAdaptiveDecoder
from zounds.persistence.util import encode_timedelta, decode_timedelta
from zounds.persistence.frequencydimension import CompositeScaleEncoderDecoder
from zounds.spectral import FrequencyAdaptive, FrequencyScale, ChromaScale
from zounds.util import simple_in_memory_settings

CHECK = Check(
    'C14', 'a case is one array with units (1-4 axes, any dtype and memory layout, every axis and scale type, zero-length included) or one '
           'dimension / scale / time value, encoded in random chunks, through the codec or a stored feature, and decoded',
    technique='runtime monitor: decoded values, dtype, shape and axes observed against the array before encoding, bit for bit')

DTYPES = ['f8', 'f4', 'f2', 'c8', 'c16', 'i1', 'i2', 'i4', 'i8', 'u1', 'u8', '?', '>f8', '>i4']


def values(ctx, shape, dtype):
    dt = np.dtype(dtype)
    n = int(np.prod(shape))
    if dt.kind == 'b':
        raw = ctx.rng.random(n) < .5
    elif dt.kind in 'iu':
        raw = np.frombuffer(ctx.rng.bytes(n * dt.itemsize), dtype=dt)
    else:
        raw = np.frombuffer(ctx.rng.bytes(n * 16), dtype=np.uint64)[:n] / 2. ** 64 - .5
        raw = raw * 10. ** ctx.integer(-3, 3)
        if dt.kind == 'c':
            raw = raw * np.exp(1j * np.arange(n))
        raw = raw.astype(dt)
        if n and ctx.coin(.3):
            raw = raw.copy()
            raw[ctx.integer(0, n - 1)] = ctx.choice([np.nan, np.inf, -np.inf, -0.])
    return np.array(raw, dtype=dt).reshape(shape)


def any_scale(ctx, n, chroma=False):
    k = ctx.integer(0, 6)
    if k == 6:
        return LinearScale(FrequencyBand(0, samplerate(ctx).nyquist), n, always_even=ctx.coin())
    if k == 1:
        return GeometricScale(20, 5000, .05, n, ctx.coin())
    if chroma and n == 12 and k < 5:
        return ChromaScale(FrequencyBand(50, 3000))
    return scale(ctx, n)


def dim(ctx, n):
    k = ctx.choice(['time', 'time', 'freq', 'freq', 'explicit', 'none'])
    if n == 0:
        k = ctx.choice(['time', 'none'])
    if k == 'time':
        return time_dim(ctx)
    if k == 'none':
        return IdentityDimension()
    if k == 'freq':
        return FrequencyDimension(any_scale(ctx, n, True))
    b = ctx.integer(1, n)
    edges = sorted(ctx.rng.choice(np.arange(1, n), b - 1, replace=False).tolist()) if b > 1 else []
    edges = [0] + edges + [n]
    return ExplicitFrequencyDimension(any_scale(ctx, b), [slice(x, y) for x, y in zip(edges[:-1], edges[1:])])


def facts(d, size):
    """everything observable about an axis"""
    if isinstance(d, TimeDimension):
        return 'time', ps(d.frequency), ps(d.duration), d.size, d.size == size
    if isinstance(d, ExplicitFrequencyDimension):
        return ('explicit',) + scale_facts(d.scale) + (tuple((int(s.start), int(s.stop)) for s in d.slices),)
    if isinstance(d, FrequencyDimension):
        return ('freq',) + scale_facts(d.scale)
    return type(d).__name__,


def scale_facts(s):
    if isinstance(s, ChromaScale):
        b = ()
    else:
        b = tuple(bands_of(s))
    return (type(s).__name__, float(s.start_hz), float(s.stop_hz), s.n_bands, bool(s.always_even),
            tuple(float(getattr(s, k)) for k in ('start_center_hz', 'stop_center_hz', 'bandwidth_ratio') if hasattr(s, k)), b)


def data(outs):
    return BytesIO(b''.join(o.encode() if isinstance(o, str) else bytes(o) for o in outs))


def same(ctx, got, arr, key, *msg):
    ctx.expect(isinstance(got, ArrayWithUnits), key + '-type', type(got), *msg)
    ctx.expect(got.dtype == arr.dtype and got.shape == arr.shape, key + '-shape', got.dtype, got.shape, 'expected', arr.dtype, arr.shape, *msg)
    ctx.expect(np.asarray(got).tobytes() == np.ascontiguousarray(np.asarray(arr)).tobytes(), key + '-values', got, 'expected', arr, *msg)
    a = [facts(d, n) for d, n in zip(got.dimensions, got.shape)]
    b = [facts(d, n) for d, n in zip(arr.dimensions, arr.shape)]
    ctx.expect(len(got.dimensions) == arr.ndim and a == b, key + '-axes', 'got', a, 'expected', b, *msg)


def make(ctx):
    nd = ctx.choice([1, 2, 2, 2, 3, 3, 4])
    shape = [ctx.choice([0, 1, ctx.integer(1, 20), ctx.integer(1, 60)])] + [ctx.integer(1, 12) for _ in range(nd - 1)]
    dt = ctx.choice(DTYPES)
    raw = values(ctx, shape, dt)
    layout = ctx.choice(['c', 'c', 'f', 'strided', 'reversed'])
    if layout == 'f':
        raw = np.asfortranarray(raw)
    elif layout == 'strided':
        big = np.zeros([2 * s for s in shape], dtype=raw.dtype)
        view = big[tuple(slice(None, None, 2) for _ in shape)]
        view[...] = raw
        raw = view
    elif layout == 'reversed':
        raw = raw[::-1]
    return ArrayWithUnits(raw, [dim(ctx, s) for s in shape]), layout


@CHECK.family(1200, 15000, need=['codec-values', 'codec-axes', 'codec-shape', 'chunking', 'usable', 'pure'])
def arrays(ctx):
    arr, layout = make(ctx)
    if ctx.idx % 150 == 0:
        # labels that take far more room than the samples
        n, layout = ctx.integer(700, 3000), 'many bands'
        starts = np.sort(ctx.rng.random(n)) * 20000
        wide = FrequencyDimension(ExplicitScale([FrequencyBand(a, a + w) for a, w in zip(starts, 1 + ctx.rng.random(n) * 50)]))
        arr = ArrayWithUnits(values(ctx, (ctx.integer(1, 4), n), ctx.choice(DTYPES)), [time_dim(ctx), wide])
        ctx.count('long labels')
    ctx.say('arrays', arr.dtype.str, layout, arr.shape, [type(d).__name__ for d in arr.dimensions])
    before = np.asarray(arr).tobytes()
    fb = [facts(d, n) for d, n in zip(arr.dimensions, arr.shape)]
    # the first axis may only be cut where slicing keeps its label
    chunks = chunked(ctx, arr) if isinstance(arr.dimensions[0], (TimeDimension, IdentityDimension)) else [arr]
    ctx.count('chunks', len(chunks))
    enc = data(run(lambda s: ArrayWithUnitsEncoder(needs=s), chunks))
    got = ArrayWithUnitsDecoder()(enc)
    same(ctx, got, arr, 'codec')
    whole = data(run(lambda s: ArrayWithUnitsEncoder(needs=s), [arr])).getvalue()
    ctx.expect(ArrayWithUnitsDecoder()(BytesIO(whole)).tobytes() == got.tobytes(), 'chunking')
    ctx.expect(np.asarray(arr).tobytes() == before and
               [facts(d, n) for d, n in zip(arr.dimensions, arr.shape)] == fb, 'pure')
    # decoded axes answer the same unit-aware questions
    d0 = arr.dimensions[0]
    if isinstance(d0, TimeDimension) and len(arr):
        k = ctx.integer(0, len(arr) - 1)
        ts = TimeSlice(start=d0.frequency * k, duration=d0.frequency * ctx.integer(1, 4))
        a, b = np.asarray(arr[ts]), np.asarray(got[ts])
        ctx.expect(a.shape == b.shape and a.tobytes() == b.tobytes(), 'usable', ts)
    # a second decode of the same bytes is independent of the first
    again = ArrayWithUnitsDecoder()(BytesIO(whole))
    same(ctx, again, arr, 'codec')


@CHECK.family(150, 1500, need=['stored-values', 'stored-axes', 'other-doc'])
def features(ctx):
    """several documents through stored features of one database"""
    kind = ctx.choice(['array', 'array', 'audio', 'adaptive'])
    ctx.say('features', kind)
    cls = dict(array=ArrayWithUnitsFeature, audio=AudioSamplesFeature, adaptive=FrequencyAdaptiveFeature)[kind]

    @simple_in_memory_settings
    class Doc(ff.BaseModel):
        first = ArrayWithUnitsFeature(ff.IteratorNode, store=False)
        feat = cls(Pass, needs=first, store=True)
        copy = cls(Pass, needs=feat, store=True)
    docs = []
    for i in range(ctx.integer(1, 3)):
        if kind == 'array':
            arr, _ = make(ctx)
            if not isinstance(arr.dimensions[0], (TimeDimension, IdentityDimension)):
                continue
            chunks = chunked(ctx, arr)
        elif kind == 'audio':
            n = ctx.integer(1, 400)
            raw = values(ctx, (n,) if ctx.coin() else (n, 2), ctx.choice(['f4', 'f8', 'i2']))
            arr = z.AudioSamples(raw, samplerate(ctx))
            chunks = chunked(ctx, arr)
        else:
            arr = adaptive(ctx)
            chunks = [arr]
        docs.append((Doc.process(first=chunks), arr))
    for _id, arr in docs:
        doc = Doc(_id)
        for f in (doc.feat, doc.copy):
            same(ctx, f, arr, 'stored', kind)
            if kind == 'audio':
                ctx.expect(isinstance(f, z.AudioSamples) and type(f.samplerate) is type(arr.samplerate), 'audio-type', type(f))
            if kind == 'adaptive':
                ctx.expect(isinstance(f, FrequencyAdaptive), 'adaptive-type', type(f))
    ctx.count('judged:other-doc', max(1, len(docs)))


class Pass(ff.Node):
    def __init__(self, needs=None):
        super(Pass, self).__init__(needs=needs)

    def _process(self, data):
        yield data


def adaptive(ctx):
    n = ctx.integer(1, 12)
    s = any_scale(ctx, n)
    rows = ctx.integer(1, 12)
    dt = ctx.choice(['f8', 'f4', 'c16'])
    return FrequencyAdaptive([values(ctx, (rows, ctx.integer(1, 9)), dt) for _ in range(n)], time_dim(ctx), s)


@CHECK.family(250, 3000, need=['adaptive-values', 'adaptive-blocks', 'audio-values', 'audio-type'])
def typed(ctx):
    """audio samples and frequency-adaptive arrays come back as themselves"""
    arr = adaptive(ctx)
    ctx.say('typed', arr.shape, arr.scale)
    got = FrequencyAdaptiveDecoder()(data(run(lambda s: ArrayWithUnitsEncoder(needs=s), [arr])))
    ctx.expect(isinstance(got, FrequencyAdaptive), 'adaptive-type', type(got))
    same(ctx, got, arr, 'adaptive')
    if not isinstance(arr.scale, ChromaScale):
        for band in arr.scale:
            a, b = np.asarray(arr[:, band]), np.asarray(got[:, band])
            ctx.expect(a.shape == b.shape and a.tobytes() == b.tobytes(), 'adaptive-blocks', band)
    n = ctx.integer(0, 500)
    raw = values(ctx, (n,) if ctx.coin() else (n, ctx.integer(1, 3)), ctx.choice(['f4', 'f8', 'i2']))
    samples = z.AudioSamples(raw, samplerate(ctx))
    got = AudioSamplesDecoder()(data(run(lambda s: ArrayWithUnitsEncoder(needs=s), chunked(ctx, samples))))
    ctx.expect(isinstance(got, z.AudioSamples) and type(got.samplerate) is type(samples.samplerate), 'audio-type', type(got))
    same(ctx, got, samples, 'audio')


@CHECK.family(300, 4000, need=['packed', 'packed-axes', 'packed-feature'])
def packed(ctx):
    nd = ctx.integer(2, 3)
    shape = [ctx.integer(1, 40)] + [ctx.integer(1, 20) for _ in range(nd - 1)]
    raw = (ctx.rng.random(shape) < .5).astype(ctx.choice(['?', 'u1', 'f4', 'i8']))
    first = ctx.choice([time_dim(ctx), IdentityDimension()])
    arr = ArrayWithUnits(raw.copy(), [first] + [dim(ctx, s) for s in shape[1:]])
    ctx.say('packed', raw.dtype.str, shape, [type(d).__name__ for d in arr.dimensions])
    chunks = chunked(ctx, arr)
    got = ArrayWithUnitsDecoder()(data(run(lambda s: PackedArrayWithUnitsEncoder(needs=s), chunks)))

    @simple_in_memory_settings
    class Doc(ff.BaseModel):
        first = ArrayWithUnitsFeature(ff.IteratorNode, store=False)
        feat = PackedArrayWithUnitsFeature(Pass, needs=first, store=True)
    stored = Doc(Doc.process(first=chunks)).feat
    for key, g in (('packed', got), ('packed-feature', stored)):
        width = (shape[-1] + 7) // 8
        ctx.expect(g.dtype == np.uint8 and g.shape == tuple(shape[:-1]) + (width,), 'packed-shape', g.dtype, g.shape)
        # most significant bit first, zero filled
        bits = (np.asarray(g)[..., :, None] >> np.arange(7, -1, -1)) & 1
        bits = bits.reshape(tuple(shape[:-1]) + (width * 8,))
        ctx.eq(bits[..., :shape[-1]], raw.astype(np.int64), key)
        ctx.expect(not bits[..., shape[-1]:].any(), key, 'stray bits')
        a = [facts(d, n) for d, n in zip(g.dimensions, g.shape)][:-1]
        b = [facts(d, n) for d, n in zip(arr.dimensions, arr.shape)][:-1]
        ctx.expect(len(g.dimensions) == nd and a == b, 'packed-axes', a, b)
    ctx.eq(np.asarray(arr), raw, 'pure')


class Unknown(Dimension):
    def copy(self):
        return self


class OddScale(FrequencyScale):
    def _compute_bands(self):
        return [FrequencyBand(i * 10., i * 10. + 10.) for i in range(self.n_bands)]


@CHECK.family(800, 10000, need=['timedelta', 'timeslice', 'dimension', 'scale', 'refused'])
def parts(ctx):
    ctx.say('parts')
    u, c = ctx.choice(UNITS)
    v = ctx.choice([0, 1, -1, ctx.integer(-10 ** 6, 10 ** 6), ctx.integer(0, 2 ** 62), -ctx.integer(0, 2 ** 62), 2 ** 63 - 1])
    td = c(v)
    back = decode_timedelta(json.loads(json.dumps(encode_timedelta(td))))
    ctx.expect(ps(back) == ps(td) and back.dtype == td.dtype, 'timedelta', td, back)
    raw25 = np.timedelta64(ctx.integer(1, 1000), '25us')
    back = decode_timedelta(encode_timedelta(raw25))
    ctx.expect(back == raw25 and back.dtype == raw25.dtype, 'timedelta', raw25, back)
    start, dur = ctx.integer(-10 ** 15, 10 ** 16), ctx.integer(0, 10 ** 16)
    ts = TimeSlice(start=exact(ctx, start), duration=exact(ctx, dur))
    back = TimeSlice(**TimeSliceDecoder().kwargs(json.loads(json.dumps(TimeSliceEncoder().dict(ts)))))
    ctx.expect(ps(back.start) == start and ps(back.duration) == dur and back == ts and hash(back) == hash(ts),
               'timeslice', ts, back)
    n = ctx.integer(1, 30)
    dims = [dim(ctx, ctx.integer(1, 30)) for _ in range(ctx.integer(1, 4))]
    back = list(DimensionDecoder().decode(json.loads(json.dumps(list(DimensionEncoder().encode(dims))))))
    ctx.expect([facts(d, 0) for d in back] == [facts(d, 0) for d in dims] and
               [type(d) for d in back] == [type(d) for d in dims], 'dimension', back, dims)
    sized = TimeDimension(exact(ctx, ctx.integer(1, 10 ** 9)), exact(ctx, ctx.integer(1, 10 ** 9)), size=ctx.integer(0, 10 ** 6))
    back = list(DimensionDecoder().decode(json.loads(json.dumps(list(DimensionEncoder().encode([sized]))))))[0]
    ctx.expect(back.size == sized.size and back.end == sized.end and back == sized, 'dimension', 'size', back, sized)
    s = any_scale(ctx, n, True)
    codec = CompositeScaleEncoderDecoder()
    back = codec.decode(json.loads(json.dumps(codec.encode(s))))
    ctx.expect(scale_facts(back) == scale_facts(s) and type(back) is type(s), 'scale', scale_facts(s), scale_facts(back))
    ctx.expect(back == s, 'scale', 'equality', s, back)
    ctx.raises(lambda: list(DimensionEncoder().encode(dims + [Unknown()])), 'refused', types=NotImplementedError)
    odd = OddScale(FrequencyBand(0, 100.), 10)
    ctx.raises(lambda: list(DimensionEncoder().encode([FrequencyDimension(odd)])), 'refused', types=NotImplementedError)
    ctx.raises(lambda: run(lambda x: ArrayWithUnitsEncoder(needs=x), [ArrayWithUnits(np.zeros((2, 10)), [Unknown(), FrequencyDimension(odd)])]),
               'refused', types=NotImplementedError)
