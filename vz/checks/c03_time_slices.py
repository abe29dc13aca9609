from ..core import Check
from ..gen import *
from zounds.timeseries import ConstantRateTimeSeries, Hours, Minutes

CHECK = Check(
    'C03', 'a case is a set of time slices in mixed duration units, or one time axis (any frequency/duration, '
           'up to 10^7 samples) with several slices applied to it, or one iterated series',
    technique='runtime monitor: observed slice algebra and selections compared with exact integer picoseconds')

ALLUNITS = [('h', Hours), ('m', Minutes)] + UNITS
MULT = dict(PS, h=3600 * 10 ** 12, m=60 * 10 ** 12)


def any_unit(ctx, picos):
    opts = [c(picos // MULT[u]) for u, c in ALLUNITS if picos % MULT[u] == 0]
    return ctx.choice(opts)


def duration(ctx, lo=0):
    k = ctx.choice(['ps', 'ns', 'ms', 's', 'min', 'long', 'sample'])
    if k == 'ps':
        return ctx.integer(lo, 10 ** 6)
    if k == 'ns':
        return ctx.integer(lo, 10 ** 6) * 1000
    if k == 'ms':
        return ctx.integer(lo, 10 ** 4) * 10 ** 9
    if k == 's':
        return ctx.integer(lo, 100) * 10 ** 12
    if k == 'min':
        return ctx.integer(lo, 90) * 60 * 10 ** 12
    if k == 'long':
        return ctx.integer(lo, 24) * 3600 * 10 ** 12 + ctx.integer(0, 3) * ctx.choice([1, 10 ** 9, 10 ** 12])
    return ctx.integer(lo, 10 ** 6) * int(ps(samplerate(ctx).frequency))


def make(ctx, a, d):
    return TimeSlice(None if d is None else any_unit(ctx, d),
                     start=any_unit(ctx, a) if (a or ctx.coin()) else None)


@CHECK.family(1500, 30000, need=['order', 'equal', 'hash', 'overlap', 'shift', 'contains', 'sorted'])
def algebra(ctx):
    pool = sorted({duration(ctx) for _ in range(4)} | {0})
    durs = [duration(ctx, 1) for _ in range(3)] + [None]
    vals = [(ctx.choice(pool), ctx.choice(durs)) for _ in range(7)]
    # near-misses: same start and duration up to one picosecond
    a, d = vals[0]
    vals += [(a + 1, d), (a, d), (a, None if d is None else d + 1)]
    slices = [make(ctx, a, d) for a, d in vals]
    ctx.say('slices', vals)
    for s, (a, d) in zip(slices, vals):
        ctx.expect(int(ps(s.start)) == a and (d is None) == (s.duration is None) and
                   (d is None or int(ps(s.duration)) == d), 'construct', s, a, d)
        if d is not None:
            ctx.expect(int(ps(s.end)) == a + d, 'end', s, s.end, a + d)
        shift = duration(ctx)
        t = s + any_unit(ctx, shift)
        ctx.expect(int(ps(t.start)) == a + shift and t.duration is s.duration or
                   int(ps(t.duration)) == d and int(ps(t.start)) == a + shift, 'shift', s, '+', shift, '=', t)
        if shift <= a:
            t = s + (-any_unit(ctx, shift))
            ctx.expect(int(ps(t.start)) == a - shift, 'shift', s, '-', shift, t)
        ctx.expect(int(ps(s.start)) == a, 'shift-pure', 'shifting changed the slice')
        repr(s), str(s)
    for s, (a, d) in zip(slices, vals):
        for t, (b, e) in zip(slices, vals):
            ctx.expect((bool(s < t), bool(s > t), bool(s <= t), bool(s >= t)) ==
                       (a < b, a > b, a <= b, a >= b), 'order', s, t)
            same = a == b and d == e
            ctx.expect(bool(s == t) == same and bool(s != t) == (not same), 'equal', s, t, vals)
            if same:
                ctx.expect(hash(s) == hash(t), 'hash', s, t)
            if d is not None and e is not None:
                inter = max(0, min(a + d, b + e) - max(a, b))
                ctx.expect(int(ps((s & t).duration)) == inter and int(ps((t & s).duration)) == inter,
                           'overlap', s, '&', t, 'gave', s & t, t & s, 'expected', inter, 'ps')
                if inter:
                    ctx.expect(int(ps((s & t).start)) == max(a, b) == int(ps((t & s).start)), 'overlap',
                               s, '&', t, 'begins at', s & t, 'expected', max(a, b), 'ps')
                if a < b and b + e < a + d:
                    ctx.expect(t in s and not (s in t), 'contains', t, 'in', s)
                elif b < a or b + e > a + d:
                    ctx.expect(t not in s, 'contains', t, 'not in', s)
        p = ctx.choice(pool) + ctx.choice([0, 1, 0, duration(ctx)])
        td = any_unit(ctx, p)
        ctx.expect((bool(s < td), bool(s > td), bool(s <= td), bool(s >= td)) ==
                   (a < p, a > p, a <= p, a >= p), 'order', s, td)
        if d is not None and a != p and a + d != p:
            ctx.expect((td in s) == (a < p < a + d), 'contains', td, 'in', s)
    ctx.expect(len(set(slices)) == len(set(vals)), 'hash', 'set of slices', set(slices), set(vals))
    lookup = {s: v for s, v in zip(slices, vals)}
    for s, v in zip(slices, vals):
        ctx.expect(lookup[make(ctx, *v)] == v, 'hash', 'dictionary lookup by an equal slice')
    srt = sorted(slices)
    ctx.expect([int(ps(s.start)) for s in srt] == sorted(a for a, _ in vals), 'sorted', srt)


@CHECK.family(300, 4000, need=['consecutive', 'refused'])
def from_timestamps(ctx):
    stamps = [duration(ctx) for _ in range(ctx.integer(0, 9))]
    ctx.say('stamps', stamps)
    unit = Picoseconds
    got = TimeSlice.slices([unit(x) for x in stamps] if ctx.coin() or not stamps
                           else np.array(stamps, dtype='m8[ps]'))
    srt = sorted(stamps)
    ctx.expect([(int(ps(t.start)), int(ps(t.duration))) for t in got] ==
               [(a, b - a) for a, b in zip(srt, srt[1:])], 'consecutive', got, srt)
    ctx.raises(lambda: TimeSlice(ctx.choice([1, 1.5, 'x'])), 'refused', types=ValueError)
    ctx.raises(lambda: TimeSlice(Seconds(1), start=ctx.choice([1, 2.5, 'x'])), 'refused', types=ValueError)
    ctx.raises(lambda: TimeDimension(ctx.choice([1, 2.5, None])), 'refused', types=ValueError)
    ctx.raises(lambda: TimeDimension(Seconds(1), ctx.choice([3, 'x'])), 'refused', types=ValueError)


def axis(ctx):
    if ctx.coin(0.15):          # samples with gaps between them
        f = ctx.integer(2, 10 ** 6)
        return TimeDimension(Microseconds(f), Microseconds(ctx.integer(1, f)))
    return time_dim(ctx)


@CHECK.family(2500, 60000, need=['selection', 'open', 'negative', 'axis-span', 'whole', 'axis-equality'])
def selection(ctx):
    base = axis(ctx)
    n = ctx.choice([ctx.integer(1, 40), ctx.integer(1, 5000), ctx.integer(1, 10 ** 7)])
    f, d = int(ps(base.frequency)), int(ps(base.duration))
    while n * f + d > 8 * 10 ** 18:
        n = max(1, n // 10)
    arr = ArrayWithUnits(np.broadcast_to(np.int8(0), (n,)), [base])
    dim = arr.dimensions[0]
    span = n * f + d - f
    ctx.say('axis', f, d, n)
    ctx.expect(int(ps(dim.span.duration)) == span and int(ps(dim.span.start)) == 0 and
               int(ps(dim.end)) == span, 'axis-span', dim.span, span)
    ctx.close(dim.end_seconds, span / 1e12, 'axis-span')

    # an axis is another one when its samples start, or last, differently
    twin = TimeDimension(any_unit(ctx, f), any_unit(ctx, d))
    ctx.expect(twin == base and not (twin != base), 'axis-equality', twin, base)
    for f2, d2 in ((f + ctx.choice([1, f, ctx.integer(1, f + 9)]), d), (f, d + ctx.choice([1, d, ctx.integer(1, d + 9)]))):
        other = TimeDimension(any_unit(ctx, f2), any_unit(ctx, d2))
        ctx.expect(not (other == base) and not (base == other), 'axis-equality', other, base)

    def judge(index, a, b, key):
        los, his = time_run(a, b, f, d, n)
        ok = {(lo, max(lo, hi)) for lo in los for hi in his}
        s = dim.integer_based_slice(index)
        got = range(n)[s]
        good = any((got.start, got.stop) == (lo, hi) or (len(got) == 0 and lo >= hi)
                   for lo, hi in ok) and got.step == 1
        ctx.expect(good, key, index, 'on', n, 'samples', f, d, 'selected', got, 'expected', sorted(ok))
        ctx.expect(arr[index].shape == (len(got),), key, 'array and axis disagree', arr[index].shape, got)

    def point():
        k = ctx.choice(['grid', 'grid', 'near', 'any', 'ends', 'round'])
        i = ctx.integer(0, n + 1)
        if k == 'grid':
            return f * i
        if k == 'near':
            return max(0, f * i + ctx.integer(-f // 50 - 1, f // 50 + 1))
        if k == 'any':
            return ctx.integer(0, span + f)
        if k == 'ends':
            return ctx.choice([0, 1, f, d, span, max(0, span - 1), max(0, span - f), span + 1])
        return ctx.integer(0, span // 10 ** 9 + 1) * 10 ** 9
    for _ in range(6):
        a, b = sorted((point(), point()))
        if a == b:
            b += 1
        judge(TimeSlice(any_unit(ctx, b - a), start=any_unit(ctx, a)), a, b, 'selection')
        judge(slice(any_unit(ctx, a), any_unit(ctx, b)), a, b, 'selection')
        judge(TimeSlice(start=any_unit(ctx, a)), a, max(a, span), 'open')
        judge(slice(any_unit(ctx, a), None), a, span, 'open')
        judge(slice(None, any_unit(ctx, b)), 0, b, 'open')
        x = min(max(1, a), span)
        judge(slice(-any_unit(ctx, x), None), span - x, span, 'negative')
        if span - x > 0:
            judge(slice(None, -any_unit(ctx, x)), 0, span - x, 'negative')
        y = ctx.integer(1, x)
        if y < x:
            judge(slice(-any_unit(ctx, x), -any_unit(ctx, y)), span - x, span - y, 'negative')
    judge(dim.span, 0, span, 'whole')
    if d * 50 > f:
        ctx.expect(arr[TimeSlice(dim.end)].shape == (n,), 'whole')
    i = slice(0, ctx.integer(0, n))
    ctx.expect(dim.integer_based_slice(i) is i, 'passthrough')


@CHECK.family(500, 8000, need=['iterated', 'refetch', 'series-refused'])
def iteration(ctx):
    base = axis(ctx)
    n = ctx.integer(0, 30)
    tail = ctx.choice([(), (3,), (2, 2)])
    raw = np.arange(n * int(np.prod(tail)), dtype=float).reshape((n,) + tail)
    arr = ArrayWithUnits(raw, [base] + [ctx.choice([IdentityDimension(), None]) for _ in tail])
    f, d = int(ps(base.frequency)), int(ps(base.duration))
    series = ConstantRateTimeSeries(arr)
    got = list(series.iter_slices())
    ctx.say('series', f, d, raw.shape)
    ctx.expect(len(got) == n, 'iterated', len(got), n)
    ctx.expect(isinstance(series, ConstantRateTimeSeries) and series.time_dimension == base, 'iterated')
    for i, (ts, data) in enumerate(got):
        ctx.expect(int(ps(ts.start)) == i * f and int(ps(ts.duration)) == d, 'iterated', i, ts, f, d)
        ctx.eq(np.asarray(data), raw[i], 'iterated')
        inner = TimeSlice(Picoseconds(f), start=Picoseconds(i * f)) if f <= d else ts
        sel = np.asarray(series[inner])
        los, his = time_run(i * f, i * f + min(f, d), f, d, n)
        ctx.expect(any(np.array_equal(sel, raw[lo:hi]) for lo in los for hi in his), 'refetch', i, ts, sel)
    ctx.raises(lambda: ConstantRateTimeSeries(raw), 'series-refused', types=ValueError)
    ctx.raises(lambda: ConstantRateTimeSeries(ArrayWithUnits(np.zeros((2, 2)), [IdentityDimension(), base])),
               'series-refused', types=ValueError)
