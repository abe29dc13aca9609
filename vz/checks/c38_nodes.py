"""C38: nodes that slice, reduce, pool, merge and binarize features"""
import os

import featureflow as ff

from ..core import Check
from ..gen import *
from ..nodes import PAUSE, cuts, joined, run
from zounds.basic import Binarize, Max, Pooled, Slice, Sum
from zounds.basic.basic import Merge
from zounds.core import ArrayWithUnits
from zounds.persistence import ArrayWithUnitsFeature
from zounds.segment import TimeSliceFeature
from zounds.timeseries import VariableRateTimeSeries, VariableRateTimeSeriesFeature

CHECK = Check(
    'C38',
    'Features of random shapes, axes and types are sent through the nodes in random chunks, several inputs in random turns, and '
    'through stored documents; results are compared with the operation applied to the whole raw arrays.',
    technique='differential runtime monitoring of chunked nodes against whole-array reference operations',
    require=['slices', 'sums', 'maxima', 'pooled', 'merged', 'binarized', 'stored', 'several chunks', 'uneven sources'])


def feature(ctx, n, columns=None, td=None, kind=None, frequency=True):
    """(frames x columns) or (frames x rows x columns)"""
    kind = kind or ctx.choice(['float', 'float', 'int', 'bool', 'complex', 'single'])
    shape = (n, columns or ctx.integer(1, 12))
    if columns is None and ctx.coin(.4):
        shape = (n, ctx.integer(1, 6), ctx.integer(1, 8))
    x = ctx.rng.normal(0, 1, shape)
    if kind == 'int':
        x = ctx.rng.integers(-50, 50, shape)
    elif kind == 'bool':
        x = x > 0
    elif kind == 'complex':
        x = x + 1j * ctx.rng.normal(0, 1, shape)
    elif kind == 'single':
        x = x.astype(np.float32)
    dims = [td or time_dim(ctx)] + [IdentityDimension() for _ in shape[1:]]
    if frequency and ctx.coin(.5):
        axis = ctx.integer(1, len(shape) - 1)
        if shape[axis] > 1:
            dims[axis] = FrequencyDimension(scale(ctx, shape[axis]))
    return ArrayWithUnits(x, dims)


def pieces(ctx, arr):
    out = [arr[a:b] for a, b in cuts(ctx, len(arr))]
    if len(out) > 1:
        ctx.count('several chunks')
    return out


def described(dims):
    out = []
    for d in dims:
        if isinstance(d, TimeDimension):
            out.append(('time', ps(d.frequency), ps(d.duration)))
        elif isinstance(d, FrequencyDimension):
            out.append(('frequency', [(b.start_hz, b.stop_hz) for b in d.scale]))
        else:
            out.append(type(d).__name__)
    return out


def judge(ctx, outs, wanted, dims, key, exactly=True):
    """the parts, one after another, are the whole"""
    got = joined(outs)
    ctx.expect(got is not None, key, 'nothing came out')
    ctx.eq(got.shape, wanted.shape, key, 'shape')
    if exactly:
        ctx.eq(got, wanted, key)
    else:
        ctx.close(got, wanted, key, rtol=1e-5 if got.dtype in (np.float32, np.complex64) else 1e-10, atol=1e-5)
    for o in outs:
        ctx.expect(isinstance(o, ArrayWithUnits), key, type(o))
        ctx.expect(described(o.dimensions) == described(dims), key, 'axes', described(o.dimensions), described(dims))


@CHECK.family(2000, 25000, need=['slice:whole', 'slice:band'])
def slices(ctx):
    n = ctx.integer(1, 60)
    arr = feature(ctx, n)
    raw = np.array(arr)
    m = raw.shape[1]
    dims = list(arr.dimensions)
    kind = ctx.choice(['slice', 'slice', 'open', 'negative', 'step', 'all', 'band', 'int'])
    a = ctx.integer(0, m - 1)
    b = ctx.integer(a + 1, m)
    plain_axis = not isinstance(dims[1], FrequencyDimension)
    if kind == 'band' and plain_axis:
        kind = 'slice'
    if kind == 'step' and not plain_axis:
        kind = 'slice'
    if kind == 'slice':
        sl, ref = slice(a, b), raw[:, a:b]
    elif kind == 'open':
        sl, ref = ctx.choice([(slice(a, None), raw[:, a:]), (slice(None, b), raw[:, :b])])
        a, b = (a, m) if sl.stop is None else (0, b)
    elif kind == 'negative':
        sl, ref = slice(a - m, None), raw[:, a:]
        b = m
    elif kind == 'step':
        k = ctx.integer(2, 3)
        sl, ref = slice(a, None, k), raw[:, a::k]
    elif kind == 'all':
        sl, ref = slice(None), raw
        a, b = 0, m
    elif kind == 'int':
        sl, ref = a, raw[:, a]
    else:
        bands = list(dims[1].scale)
        centres = [x.center_frequency for x in bands]
        sl = FrequencyBand(max(0, centres[a] - 1e-6), centres[b - 1] + 1e-6)
        ref = np.array(arr[:, sl])
    outs = run(lambda s: Slice(sl=sl, needs=s), pieces(ctx, arr))
    key = 'slice:band' if kind == 'band' else 'slice:whole'
    if kind == 'int':
        dims = [dims[0]] + dims[2:]
    elif kind == 'band':
        # selects at least the bands whose centres are within
        dims = list(arr[:, sl].dimensions)
        if isinstance(dims[1], FrequencyDimension):
            kept = [(x.start_hz, x.stop_hz) for x in dims[1].scale]
            ctx.expect(all(any(abs(c.start_hz - k[0]) < 1e-6 for k in kept) for c in bands[a:b]), 'slice:band', kept, sl)
    elif not plain_axis:
        keep = list(dims[1].scale)[a:b]
        for o in outs:
            d = o.dimensions[1]
            if isinstance(d, FrequencyDimension):
                got = [(x.start_hz, x.stop_hz) for x in d.scale]
                ctx.expect(len(got) == len(keep) and all(abs(g[0] - k.start_hz) < 1e-6 and abs(g[1] - k.stop_hz) < 1e-6
                                                        for g, k in zip(got, keep)), 'slice:band', got, keep)
        dims[1] = outs[0].dimensions[1] if outs else dims[1]
    judge(ctx, outs, ref, dims, key)
    ctx.count('slices')


@CHECK.family(2500, 25000, need=['sum:whole', 'max:whole', 'reduce:frames'])
def reductions(ctx):
    n = ctx.integer(1, 60)
    arr = feature(ctx, n)
    raw = np.array(arr)
    total = ctx.coin(.5)
    node, op, key = (Sum, np.sum, 'sum:whole') if total else (Max, np.max, 'max:whole')
    axis = ctx.choice(list(range(1, raw.ndim)) + [-1])
    if raw.ndim == 3 and ctx.coin(.2):
        axis = (1, 2)
    outs = run(lambda s: node(axis=axis, needs=s), pieces(ctx, arr))
    gone = {raw.ndim + a if a < 0 else a for a in (axis if isinstance(axis, tuple) else (axis,))}
    dims = [d for i, d in enumerate(arr.dimensions) if i not in gone]
    judge(ctx, outs, op(raw, axis=axis), dims, key, exactly=not total or raw.dtype.kind in 'ib')
    ctx.count('sums' if total else 'maxima')
    # over the frames of one chunk
    outs = run(lambda s: node(needs=s) if ctx.coin(.5) else node(axis=0, needs=s), [arr])
    judge(ctx, outs, op(raw, axis=0), arr.dimensions[1:], 'reduce:frames', exactly=not total or raw.dtype.kind in 'ib')
    # nothing, in between, adds nothing
    if ctx.coin(.3):
        axis = ctx.integer(1, raw.ndim - 1)
        k = ctx.integer(0, n)
        outs = run(lambda s: node(axis=axis, needs=s), [c for c in (arr[:k], arr[:0], arr[k:])])
        judge(ctx, outs, op(raw, axis=axis), [d for i, d in enumerate(arr.dimensions) if i != axis], key,
              exactly=not total or raw.dtype.kind in 'ib')


@CHECK.family(1000, 10000, need=['binarize:whole'])
def binarized(ctx):
    arr = feature(ctx, ctx.integer(1, 60), kind=ctx.choice(['float', 'int', 'single']))
    t = ctx.choice([0, .5, -1.25])
    predicate, ref = ctx.choice([
        (lambda d: d > t, np.array(arr) > t), (lambda d: d <= t, np.array(arr) <= t), (lambda d: abs(d) >= 1, np.abs(np.array(arr)) >= 1)])
    outs = run(lambda s: Binarize(predicate=predicate, needs=s), pieces(ctx, arr))
    judge(ctx, outs, ref, arr.dimensions, 'binarize:whole')
    ctx.count('binarized')


def turns(ctx, chunks):
    """chunks with pauses in between, in which the other sources go on"""
    out = []
    for c in chunks:
        while ctx.coin(.3):
            out.append(PAUSE)
        out.append(c)
    return out


@CHECK.family(2500, 25000, need=['merge:whole', 'merge:axes', 'merge:one source'])
def merged(ctx):
    k = ctx.integer(2, 4)
    td = time_dim(ctx)
    n = ctx.integer(1, 50)
    uneven = ctx.coin(.3)
    arrs = [feature(ctx, n + (ctx.integer(0, 10) if uneven else 0), columns=ctx.integer(1, 8), td=td, frequency=False) for _ in range(k)]
    if uneven:
        ctx.count('uneven sources')
    shortest = min(len(a) for a in arrs)
    sources = [turns(ctx, pieces(ctx, a)) for a in arrs]
    outs = run(lambda *s: Merge(needs={'needs%d' % i: x for i, x in enumerate(s)}), *sources)
    wanted = np.concatenate([np.array(a)[:shortest] for a in arrs], axis=1)
    judge(ctx, outs, wanted, [td, IdentityDimension()], 'merge:whole', exactly=False)
    ctx.expect(sum(len(o) for o in outs) == shortest, 'merge:whole', 'frames')
    ctx.count('merged')
    ctx.expect(True, 'merge:axes')
    # frames of different lengths don't belong together
    other = TimeDimension(td.frequency * 2, td.duration * 2)
    b = feature(ctx, n, columns=3, td=other, frequency=False)
    ctx.raises(lambda: run(lambda *s: Merge(needs={'needs%d' % i: x for i, x in enumerate(s)}), [arrs[0]], [b]), 'merge:axes', (Exception,))
    ctx.raises(lambda: run(lambda s: Merge(needs={'a': s}), [arrs[0]]), 'merge:one source', (ValueError,))


OPS = [(np.max, 'max'), (np.mean, 'mean'), (np.sum, 'sum'), (np.min, 'min'), (np.std, 'std')]


def slices_within(ctx, td, n, aligned):
    """time slices that have frames to pool, most of them overlapping"""
    f = ps(td.frequency)
    out = []
    for _ in range(ctx.integer(1, 10)):
        a = ctx.integer(0, n - 1)
        m = ctx.integer(1, n - a)
        if aligned:
            out.append((a * f, m * f, (a, a + m)))
        else:
            lo, hi = a * f + ctx.integer(0, f - 1), (a + m) * f
            out.append((lo, max(1, ctx.integer(1, max(1, hi - lo))), None))
    if ctx.coin(.7):
        out.sort()
    return [(TimeSlice(start=Picoseconds(a), duration=Picoseconds(d)), frames) for a, d, frames in out]


@CHECK.family(2000, 20000, need=['pooled:frames', 'pooled:slices', 'pooled:whole'])
def pooled(ctx):
    n = ctx.integer(1, 60)
    aligned = ctx.coin(.6)
    td = time_dim(ctx, 'odd' if aligned else None)
    arr = feature(ctx, n, td=td, kind=ctx.choice(['float', 'int', 'single']))
    raw = np.array(arr)
    wanted = slices_within(ctx, arr.dimensions[0], n, aligned)
    op, name = ctx.choice(OPS)
    axis = ctx.choice([0, 0, 0, None])
    # without onset strengths, all slices carry is their time
    series = [VariableRateTimeSeries([(ts, np.zeros(0)) for ts, _ in wanted[a:b]]) for a, b in cuts(ctx, len(wanted))]
    one, two = turns(ctx, pieces(ctx, arr)), turns(ctx, series)
    order = ctx.coin(.5)
    if order:
        outs = run(lambda a, b: Pooled(op=op, axis=axis, needs={'a': a, 'b': b}), one, two)
    else:
        outs = run(lambda a, b: Pooled(op=op, axis=axis, needs={'a': a, 'b': b}), two, one)
    ctx.eq(len(outs), 1, 'pooled:whole')
    got = outs[0]
    ctx.expect(isinstance(got, VariableRateTimeSeries), 'pooled:whole', type(got))
    ctx.eq(len(got), len(wanted), 'pooled:whole')
    # a variable rate series keeps its slices in order of their beginning
    start = lambda ts: (ps(ts.start), ps(ts.duration))
    have = sorted(((start(ts), np.array(x, dtype=float)) for ts, x in got), key=lambda p: p[0])
    should = []
    for ts, frames in wanted:
        x = raw[slice(*frames)] if frames else np.array(arr[ts])
        ctx.expect(len(x) > 0, 'pooled:frames', 'no frames', start(ts))
        should.append((start(ts), np.array(op(x, axis=axis), dtype=float)))
    should.sort(key=lambda p: p[0])
    ctx.expect([p[0] for p in have] == [p[0] for p in should], 'pooled:slices', [p[0] for p in have], [p[0] for p in should])
    for (_, g), (s, w) in zip(have, should):
        ctx.close(g, w, 'pooled:frames', name, s, rtol=1e-4, atol=1e-4)
    ctx.count('pooled', len(wanted))


# ---- in documents

class Frames(ff.Node):
    """a root that produces the array it's given in parts"""

    def __init__(self, size=7, needs=None):
        super(Frames, self).__init__(needs=needs)
        self.size = size

    def _process(self, data):
        for i in range(0, len(data), self.size):
            yield data[i:i + self.size]


class Times(ff.Node):
    def _process(self, data):
        for ts in data:
            yield ts


class Series(ff.Node):
    """slices in parts"""

    def __init__(self, size=3, needs=None):
        super(Series, self).__init__(needs=needs)
        self.size = size

    def _process(self, data):
        for i in range(0, len(data), self.size):
            yield VariableRateTimeSeries([(ts, np.zeros(0)) for ts in data[i:i + self.size]])


def document(ctx, kind, sizes, threshold, columns, axis, op):
    kb = ff.StringDelimitedKeyBuilder()
    if kind == 'memory':
        db = ff.InMemoryDatabase(key_builder=kb)
    elif kind == 'files':
        db = ff.FileSystemDatabase(os.path.join(ctx.scratch(), 'documents'), key_builder=kb, createdirs=True)
    else:
        db = ff.LmdbDatabase(os.path.join(ctx.scratch(), 'documents'), key_builder=kb, map_size=10 ** 8)

    class Document(ff.BaseModel, ff.PersistenceSettings):
        id_provider = ff.UuidProvider()
        key_builder = kb
        database = db

        one = ArrayWithUnitsFeature(Frames, size=sizes[0], store=ctx.coin(.5))
        two = ArrayWithUnitsFeature(Frames, size=sizes[1], store=ctx.coin(.5))
        times = ff.Feature(Series, size=sizes[2], store=False)
        sliced = ArrayWithUnitsFeature(Slice, sl=columns, needs=one, store=True)
        merged = ArrayWithUnitsFeature(Merge, needs=(one, two), store=True)
        total = ArrayWithUnitsFeature(Sum, axis=axis, needs=merged, store=True)
        most = ArrayWithUnitsFeature(Max, axis=axis, needs=merged, store=True)
        binary = ArrayWithUnitsFeature(Binarize, predicate=lambda d: d > threshold, needs=merged, store=True)
        pooled = VariableRateTimeSeriesFeature(Pooled, op=op, axis=0, needs=(merged, times), store=True)

    return Document


@CHECK.family(700, 8000, cpu=120, need=['stored:sliced', 'stored:merged', 'stored:total', 'stored:most', 'stored:binary', 'stored:pooled'])
def stored(ctx):
    n = ctx.integer(1, 80)
    td = time_dim(ctx, ctx.choice(['odd', 'sec', 'audio']))
    one = feature(ctx, n, columns=ctx.integer(1, 9), td=td, kind='float', frequency=False)
    two = feature(ctx, n, columns=ctx.integer(1, 9), td=td, kind='float', frequency=False)
    sizes = [ctx.integer(1, 90), ctx.integer(1, 90), ctx.integer(1, 4)]
    a = ctx.integer(0, one.shape[1] - 1)
    columns = slice(a, ctx.integer(a + 1, one.shape[1]))
    threshold = ctx.choice([0, .5])
    op, name = ctx.choice(OPS)
    wanted = slices_within(ctx, td, n, True)
    kind = ctx.choice(['memory', 'memory', 'files', 'lmdb'])
    ctx.say(kind, one.shape, two.shape, sizes, columns, name)
    cls = document(ctx, kind, sizes, threshold, columns, 1, op)
    _id = cls.process(one=one, two=two, times=[ts for ts, _ in wanted])
    doc = cls(_id)
    both = np.concatenate([np.array(one), np.array(two)], axis=1)
    ident = IdentityDimension()
    judge(ctx, [doc.sliced], np.array(one)[:, columns], [td, ident], 'stored:sliced')
    judge(ctx, [doc.merged], both, [td, ident], 'stored:merged')
    judge(ctx, [doc.total], both.sum(axis=1), [td], 'stored:total', exactly=False)
    judge(ctx, [doc.most], both.max(axis=1), [td], 'stored:most')
    judge(ctx, [doc.binary], both > threshold, [td, ident], 'stored:binary')
    got = doc.pooled
    key = lambda ts: (ps(ts.start), ps(ts.duration))
    have = sorted((key(ts), np.array(x)) for ts, x in got) if len({key(t) for t, _ in wanted}) == len(wanted) else None
    ctx.eq(len(got), len(wanted), 'stored:pooled')
    if have is not None:
        should = sorted(((key(ts), f) for ts, f in wanted))
        for (k, x), (w, f) in zip(have, should):
            ctx.expect(k == w, 'stored:pooled', k, w)
            ctx.close(x, op(both[slice(*f)], axis=0), 'stored:pooled', name, k, rtol=1e-9, atol=1e-9)
    ctx.count('stored')
