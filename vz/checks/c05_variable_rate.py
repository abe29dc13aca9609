from ..core import Check
from ..gen import *
from io import BytesIO
import featureflow as ff
from zounds.timeseries import VariableRateTimeSeries, VariableRateTimeSeriesFeature
from zounds.timeseries.variablerate import (
    VariableRateTimeSeriesEncoder, VariableRateTimeSeriesDecoder)

CHECK = Check(
    'C05', 'a case is one set of (slice, payload) entries in arbitrary order with overlaps and ties, then several '
           'queries, concatenations and codec roundtrips on it',
    technique='runtime monitor: series observed against a plain sorted list of entries')


def entries(ctx, n=None, shape=None, dtype=None, distinct=False, instants=False):
    n = ctx.integer(0, 14) if n is None else n
    shape = ctx.choice([(), (1,), (3,), (2, 4), (0,)]) if shape is None else shape
    dtype = dtype or ctx.choice([np.float64, np.float32, np.int16, np.uint8, np.complex64])
    base = ctx.choice([0, 0, 10 ** 12, 3600 * 10 ** 12 * ctx.integer(1, 100) + ctx.integer(0, 9)])
    scale = ctx.choice([1, 10 ** 6, 10 ** 9, 10 ** 12])
    out, seen = [], set()
    for i in range(n):
        a = base + scale * ctx.integer(0, 2 * n + 2)
        d = ctx.choice([scale, scale * ctx.integer(1, 5), scale * ctx.integer(1, 40), ctx.integer(1, 10 ** 6)])
        if instants and ctx.coin(0.3):
            d = 0
        if distinct and a in seen:
            continue
        seen.add(a)
        payload = (ctx.rng.normal(0, 40, shape) + 50).astype(dtype)
        out.append((a, d, np.asarray(payload) if shape else dtype(i + 1)))
    return out


def build(ctx, ents):
    data = [(TimeSlice(exact(ctx, d), start=exact(ctx, a)), p) for a, d, p in ents]
    form = ctx.choice(['list', 'tuple', 'generator'])
    return VariableRateTimeSeries(
        data if form == 'list' else tuple(data) if form == 'tuple' else (x for x in data))


def observed(ctx, v):
    out = []
    for ts, p in v.iter_slices():
        out.append((int(ps(ts.start)), int(ps(ts.duration)), np.array(p)))
    ctx.expect(len(out) == len(v) == len(v.slices) == len(v.slicedata), 'length', len(out), len(v))
    return out


def key(e):
    return (e[0], e[1], np.asarray(e[2]).tobytes())


def same(ctx, got, want, k, *msg):
    """same entries, in order of start (ties in any order)"""
    ctx.expect([a for a, _, _ in got] == sorted(a for a, _, _ in want), k, 'order', *msg)
    ctx.expect(sorted(map(key, got)) == sorted(map(key, want)), k, 'entries differ: got',
               [(a, d) for a, d, _ in got], 'expected', [(a, d) for a, d, _ in want], *msg)


def judge_span(ctx, v, want):
    if not want:
        ctx.expect(int(ps(v.end)) == 0 and int(ps(v.span.duration)) == 0, 'span-empty')
        return
    start = min(a for a, _, _ in want)
    end = max(a + d for a, d, _ in want)
    ctx.expect(int(ps(v.end)) == end, 'end', v.end, end)
    ctx.expect(int(ps(v.span.start)) == start and int(ps(v.span.end)) == end, 'span', v.span, start, end)


@CHECK.family(1500, 25000, need=['sorted', 'query', 'concat', 'end', 'int-index', 'slice-index', 'pure'])
def series(ctx):
    ents = entries(ctx)
    ctx.say('entries', [(a, d) for a, d, _ in ents], np.asarray(ents[0][2]).shape if ents else None)
    v = build(ctx, ents)
    got = observed(ctx, v)
    same(ctx, got, ents, 'sorted')
    judge_span(ctx, v, ents)
    pts = sorted({x for a, d, _ in ents for x in (a, a + d)} | {0})
    for _ in range(6):
        x = ctx.choice(pts) + ctx.choice([0, 0, 1, -1, ctx.integer(-10 ** 6, 10 ** 6)])
        y = ctx.choice(pts) + ctx.choice([0, 0, 1, -1, ctx.integer(-10 ** 6, 10 ** 6)])
        x, y = sorted((max(0, x), max(0, y)))
        if x == y:
            y += 1
        q = TimeSlice(exact(ctx, y - x), start=exact(ctx, x))
        same(ctx, observed(ctx, v[q]), [e for e in got if e[0] + e[1] > x and e[0] < y], 'query', x, y)
        ctx.expect(isinstance(v[q], VariableRateTimeSeries), 'query')
        same(ctx, observed(ctx, v[TimeSlice(start=exact(ctx, x))]),
             [e for e in got if e[0] + e[1] > x], 'query', 'open', x)
    whole = v[v.span] if ents else v
    same(ctx, observed(ctx, whole), got, 'query', 'whole span')
    if ents:
        i = ctx.integer(-len(ents), len(ents) - 1)
        i = ctx.choice([i, np.int64(i)])
        rec = v[i]
        ctx.expect(int(ps(rec.timeslice.start)) == got[i][0] and
                   np.array_equal(rec.slicedata, got[i][2]), 'int-index', i)
        s = slice(ctx.choice([None, ctx.integer(-5, 8)]), ctx.choice([None, ctx.integer(-5, 12)]))
        same(ctx, observed(ctx, v[s]), got[s], 'slice-index', s)
        mask = ctx.rng.random(len(ents)) < 0.5
        same(ctx, observed(ctx, v[mask]), [e for e, m in zip(got, mask) if m], 'mask-index')
        # (some of which may be mere instants)
        m = entries(ctx, shape=np.asarray(ents[0][2]).shape, dtype=np.asarray(ents[0][2]).dtype.type, instants=ctx.coin())
        w = build(ctx, m)
        same(ctx, observed(ctx, v.concat(w)), ents + m, 'concat')
        same(ctx, observed(ctx, w.concat(v)), ents + m, 'concat')
        judge_span(ctx, v.concat(w), ents + m)
        same(ctx, observed(ctx, v.concat(VariableRateTimeSeries(()))), ents, 'concat')
    same(ctx, observed(ctx, v), ents, 'pure')


def decode(raw):
    return VariableRateTimeSeriesDecoder()(BytesIO(raw))


@CHECK.family(600, 8000, need=['codec', 'codec-type'])
def codec(ctx):
    ents = entries(ctx, n=ctx.integer(1, 14), instants=ctx.coin())
    v = build(ctx, ents)
    got = observed(ctx, v)
    ctx.say('codec', [(a, d) for a, d, _ in ents], np.asarray(ents[0][2]).dtype)
    enc = VariableRateTimeSeriesEncoder(needs=None)
    # any grouping of the (sorted) series into chunks gives the same bytes
    cuts = sorted({0, len(v)} | {ctx.integer(0, len(v)) for _ in range(ctx.integer(0, 3))})
    raw = b''.join(x for a, b in zip(cuts, cuts[1:]) for x in enc._process(v[a:b]))
    if np.asarray(ents[0][2]).size == 0:
        # payloads without data (segment boundaries only)
        back = decode(raw)
    back = decode(raw)
    b = observed(ctx, back)
    ctx.expect(len(b) == len(got) and all(
        x[:2] == y[:2] and np.array_equal(x[2], y[2]) for x, y in zip(b, got)), 'codec',
        [x[:2] for x in b], [x[:2] for x in got])
    ctx.expect(back.slicedata.dtype == v.slicedata.dtype and back.slicedata.shape == v.slicedata.shape,
               'codec-type', back.slicedata.dtype, back.slicedata.shape, v.slicedata.dtype, v.slicedata.shape)


@CHECK.family(60, 600, need=['feature'])
def stored_feature(ctx):
    ents = entries(ctx, n=ctx.integer(1, 10))
    v = build(ctx, ents)
    ctx.say('feature', len(ents))
    cuts = sorted({0, len(v)} | {ctx.integer(0, len(v)) for _ in range(2)})

    class Source(ff.Node):
        def _process(self, data):
            for a, b in zip(cuts, cuts[1:]):
                yield v[a:b]

    class Settings(ff.PersistenceSettings):
        id_provider = ff.UuidProvider()
        key_builder = ff.StringDelimitedKeyBuilder()
        database = ff.InMemoryDatabase(key_builder=key_builder)

    class Doc(ff.BaseModel, Settings):
        src = VariableRateTimeSeriesFeature(Source, store=True)
    _id = Doc.process(src='x')
    got, want = observed(ctx, Doc(_id).src), observed(ctx, v)
    ctx.expect(len(got) == len(want) and all(
        x[:2] == y[:2] and np.array_equal(x[2], y[2]) for x, y in zip(got, want)), 'feature',
        [x[:2] for x in got], [x[:2] for x in want])
