from fractions import Fraction
from ..core import Check
from ..gen import *

CHECK = Check(
    'C01', 'a case is one array (1-4 axes of mixed kinds) and several index expressions built from the '
           'supported index grammar, each read and assigned; non-trivial = distinct expression/shape',
    technique='runtime monitor: index calls observed against an exact integer reference index')


def make_array(ctx, ndim=None, cls=None):
    if cls == 'audio':
        sr = samplerate(ctx)
        n = ctx.integer(1, 60)
        if ctx.coin():
            raw = ctx.rng.normal(0, 1, n)
        else:
            raw = ctx.rng.normal(0, 1, (n, 2))
        return z.AudioSamples(raw, sr), raw.copy()
    ndim = ndim or ctx.integer(1, 4)
    dims, shape = [], []
    for i in range(ndim):
        k = ctx.choice(['time', 'time', 'freq', 'freq', 'id', 'none'])
        n = ctx.integer(1, 14)
        if k == 'time':
            dims.append(time_dim(ctx))
        elif k == 'freq':
            s = scale(ctx, max(2, n))
            n = len(s)
            dims.append(FrequencyDimension(s))
        elif k == 'id':
            dims.append(IdentityDimension())
        else:
            dims.append(None)
        shape.append(n)
    raw = np.arange(np.prod(shape), dtype=ctx.choice([np.float64, np.float32, np.int64]))
    raw = raw.reshape(shape)
    if ctx.coin(0.3):
        raw = np.asfortranarray(raw)
    return ArrayWithUnits(raw.copy(order='K'), dims), raw.copy()


def int_slice(ctx, n, freq):
    def b():
        return ctx.choice([None, 0, n, -n, ctx.integer(0, n), ctx.integer(-n, n),
                           ctx.integer(-2 * n, 2 * n), -1, 1])
    for _ in range(50):
        np_int = ctx.coin(0.2)
        a, c = b(), b()
        step = None if freq else ctx.choice([None, None, None, 1, 2, 3, -1, -2])
        if np_int:
            a = None if a is None else np.int64(a)
            c = None if c is None else np.int32(c)
        s = slice(a, c, step)
        if freq and len(range(n)[s]) == 0:
            continue
        return s
    return slice(None)


def time_index(ctx, dim, n):
    """returns (index object, start_ps, stop_ps or None=end)"""
    f, d = int(ps(dim.frequency)), int(ps(dim.duration))
    span = n * f + (d - f)
    kind = ctx.choice(['ts', 'ts', 'ts', 'open', 'slice', 'slice', 'negslice', 'grid'])

    def point():
        k = ctx.choice(['grid', 'grid', 'any', 'ends', 'ms'])
        if k == 'grid':
            return f * ctx.integer(0, n + 2)
        if k == 'any':
            return ctx.integer(0, span + f)
        if k == 'ends':
            return ctx.choice([0, 1, f, f - 1, span, span - 1, d])
        return ctx.integer(0, max(1, span // 10 ** 9) + 1) * 10 ** 9
    a = point()
    if kind == 'open':
        return TimeSlice(start=exact(ctx, a)), a, None
    if kind in ('ts', 'grid'):
        dur = f * ctx.integer(1, n + 1) if kind == 'grid' else max(1, point())
        if ctx.coin(0.2):
            return TimeSlice(exact(ctx, dur)), 0, dur
        return TimeSlice(start=exact(ctx, a), duration=exact(ctx, dur)), a, a + dur
    b = point()
    if kind == 'slice':
        lo, hi = sorted((a, b))
        s = None if ctx.coin(0.25) else exact(ctx, lo)
        e = None if ctx.coin(0.25) else exact(ctx, hi)
        if s is None and e is None:
            e = exact(ctx, hi)
        return slice(s, e), 0 if s is None else lo, None if e is None else hi
    # negative bounds count from the end
    neg = -max(1, min(point(), span))
    if ctx.coin():
        return slice(exact(ctx, neg), None), span + neg, None
    return slice(None, exact(ctx, neg)), 0, span + neg


def freq_index(ctx, dim):
    s = dim.scale
    bands = bands_of(s)
    lo, hi = bands[0][0], bands[-1][1]
    for _ in range(30):
        kind = ctx.choice(['band', 'band', 'exact', 'hz', 'hzopen', 'hzneg'])
        a, b = sorted(ctx.rng.uniform(lo - 10, hi + 10, 2))
        if kind == 'exact':
            i = ctx.integer(0, len(bands) - 1)
            j = ctx.integer(i, len(bands) - 1)
            a, b = bands[i][0], bands[j][1]
        a, b = float(a), float(b)
        if b - a < 1e-3:
            continue
        if kind in ('band', 'exact'):
            idx = FrequencyBand(a, b)
        elif kind == 'hz':
            if a < 0 or b <= 0:
                continue
            idx = slice(Hertz(a), Hertz(b))
        elif kind == 'hzopen':
            if a < 0:
                continue
            if ctx.coin():
                idx, b = slice(Hertz(a), None), float(s.stop_hz)
            else:
                idx, a = slice(None, Hertz(b)), 0.
        else:
            x = float(ctx.rng.uniform(1, max(2., (s.stop_hz - lo) * 0.9)))
            if ctx.coin():
                idx, a, b = slice(Hertz(-x), None), float(s.stop_hz) - x, float(s.stop_hz)
            else:
                idx, a, b = slice(None, Hertz(-x)), 0., float(s.stop_hz) - x
        if b - a < 1e-3:
            continue
        r = band_run(s, a, b)
        if r is None:
            continue
        return idx, r
    return slice(None), None


def expression(ctx, arr):
    """index expression plus the list of acceptable plain-numpy equivalents"""
    ndim = arr.ndim
    dims = arr.dimensions
    n_axes = ctx.integer(1, ndim) if ctx.coin(0.5) else ndim
    use_ellipsis = ctx.coin(0.3)
    before = ctx.integer(0, n_axes) if use_ellipsis else n_axes
    axes = list(range(before)) + list(range(ndim - (n_axes - before), ndim))
    parts, alts = [], []
    listed = False
    for pos, ax in enumerate(axes):
        if use_ellipsis and pos == before:
            parts.append(Ellipsis)
            alts.append([Ellipsis])
        d, n = dims[ax], arr.shape[ax]
        freq = isinstance(d, FrequencyDimension)
        k = ctx.choice(['int', 'slice', 'unit', 'unit', 'unit', 'list', 'all'])
        if ctx.coin(0.12):
            parts.append(None)
            alts.append([None])
        if k == 'list' and (listed or n == 0):
            k = 'slice'
        if k == 'unit' and isinstance(d, TimeDimension):
            idx, a, b = time_index(ctx, d, n)
            f, du = int(ps(d.frequency)), int(ps(d.duration))
            los, his = time_run(a, (n * f + du - f) if b is None else b, f, du, n)
            parts.append(idx)
            alts.append([slice(lo, max(lo, hi)) for lo in los for hi in his])
            ctx.count('time slices applied')
        elif k == 'unit' and freq:
            idx, run = freq_index(ctx, d)
            parts.append(idx)
            if run is None:
                alts.append([slice(None)])
            else:
                (l0, l1), (h0, h1) = run
                alts.append([slice(lo, hi) for lo in range(l0, l1 + 1) for hi in range(h0, h1 + 1)])
                ctx.count('frequency bands applied')
        elif k == 'int' and n:
            i = ctx.integer(-n, n - 1)
            i = ctx.choice([i, i, np.int64(i), np.int32(i)])
            parts.append(i)
            alts.append([int(i)])
            ctx.count('integers applied')
        elif k == 'list':
            l = [ctx.integer(-n, n - 1) for _ in range(0 if ctx.coin(0.05) else ctx.integer(1, 2 * n))]
            listed = True
            form = ctx.choice(['list', 'list', 'array', 'mask'])
            if form == 'mask':
                m = ctx.rng.random(n) < 0.5
                parts.append(m)
                alts.append([m])
            elif form == 'array':
                parts.append(np.array(l, dtype=int))
                alts.append([np.array(l, dtype=int)])
            else:
                parts.append(l)
                alts.append([l])
            ctx.count('lists applied')
        elif k == 'all':
            parts.append(slice(None))
            alts.append([slice(None)])
        else:
            s = int_slice(ctx, n, freq)
            parts.append(s)
            alts.append([s])
            ctx.count('integer slices applied')
    if use_ellipsis and before == len(axes):
        parts.append(Ellipsis)
        alts.append([Ellipsis])
    if listed:
        # numpy transposes axes when integers and lists are separated; keep only one
        for i, p in enumerate(parts):
            if isinstance(p, (int, np.integer)) and not isinstance(p, np.timedelta64):
                parts[i] = slice(None) if not isinstance(p, bool) else p
                alts[i] = [slice(None)]
    combos = [()]
    for a in alts:
        combos = [c + (x,) for c in combos for x in a][:64]
    index = tuple(parts)
    if len(index) == 1 and ctx.coin(0.7):
        index = index[0]
    return index, combos


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)


def judge(ctx, arr, raw, index, combos):
    got = arr[index]
    gotv = np.asarray(got)
    wants = [raw[c] for c in combos]
    match = [c for c, w in zip(combos, wants) if same(gotv, np.asarray(w))]
    ctx.expect(match, 'read', 'index', index, 'on shape', raw.shape, 'dims', arr.dimensions,
               'gave', gotv, 'expected one of', [np.asarray(w) for w in wants[:3]])
    ctx.eq(np.asarray(arr), raw, 'read-pure', 'reading changed the array', index)
    # assignment
    target = arr.copy()
    kind = ctx.choice(['scalar', 'array', 'units'])
    before = raw.copy()
    val = np.asarray(-1, dtype=raw.dtype)
    if kind != 'scalar' and gotv.size:
        val = (-1 - np.arange(gotv.size).reshape(gotv.shape)).astype(raw.dtype)
        if any(isinstance(p, (list, np.ndarray)) for p in (index if isinstance(index, tuple) else (index,))):
            val = np.asarray(-7, dtype=raw.dtype)    # repeated targets: keep it well defined
    if kind == 'units' and val.ndim == np.ndim(got) and val.ndim and hasattr(got, 'dimensions'):
        val = ArrayWithUnits(val, got.dimensions)
    target[index] = val
    oks = []
    for c in match:
        want = before.copy()
        want[c] = np.asarray(val)
        oks.append(want)
    ctx.expect(any(np.array_equal(np.asarray(target), w) for w in oks), 'write',
               'assigning through', index, 'on shape', raw.shape, 'dims', arr.dimensions,
               'gave', np.asarray(target), 'expected', oks[0])
    ctx.eq(np.asarray(arr), raw, 'write-isolated', 'assigning to a copy changed the original')


def describe(index):
    if isinstance(index, tuple):
        return '(' + ', '.join(describe(i) for i in index) + ')'
    if isinstance(index, FrequencyBand):
        return 'band(%r,%r)' % (index.start_hz, index.stop_hz)
    return ' '.join(repr(index).split())


@CHECK.family(2400, 40000, need=['read', 'write'])
def mixed_indices(ctx):
    arr, raw = make_array(ctx, cls='audio' if ctx.coin(0.15) else None)
    ctx.say('shape', raw.shape, 'dims', [type(d).__name__ for d in arr.dimensions])
    for _ in range(6):
        index, combos = expression(ctx, arr)
        ctx.say('index', describe(index))
        judge(ctx, arr, raw, index, combos)


@CHECK.family(400, 6000, need=['mask'])
def masks(ctx):
    arr, raw = make_array(ctx)
    mask = ctx.rng.random(raw.shape) < ctx.choice([0.0, 0.1, 0.5, 1.0])
    ctx.say('mask on', raw.shape, [type(d).__name__ for d in arr.dimensions], mask.sum())
    m = mask if ctx.coin() else ArrayWithUnits(mask, arr.dimensions)
    ctx.eq(np.asarray(arr[m]), raw[mask], 'mask')
    t = arr.copy()
    t[m] = -3
    want = raw.copy()
    want[mask] = -3
    ctx.eq(np.asarray(t), want, 'mask-write')
    thr = raw.dtype.type(np.median(raw))
    ctx.eq(np.asarray(arr[arr > thr]), raw[raw > thr], 'mask-comparison')


@CHECK.family(500, 8000, need=['chained'])
def chained(ctx):
    """slices of slices address the samples of the slice"""
    arr, raw = make_array(ctx)
    cands = [(arr, raw)]
    cur, rawcur = arr, raw
    for step in range(3):
        if rawcur.ndim == 0 or not isinstance(cur, ArrayWithUnits) or 0 in rawcur.shape:
            break
        index, combos = expression(ctx, cur)
        ctx.say('index', describe(index))
        got = cur[index]
        gv = np.asarray(got)
        ok = [rawcur[c] for c in combos if same(gv, np.asarray(rawcur[c]))]
        ctx.expect(ok, 'chained', 'step', step, 'index', index, 'on', rawcur.shape, 'got', gv,
                   'expected', rawcur[combos[0]])
        cur, rawcur = got, np.array(ok[0])
    ctx.eq(np.asarray(arr), raw, 'chained-pure')


@CHECK.family(300, 4000, need=['view'])
def view_semantics(ctx):
    """basic slices are views: writing through them reaches the parent, exactly there"""
    arr, raw = make_array(ctx)
    d = [(i, x) for i, x in enumerate(arr.dimensions) if isinstance(x, TimeDimension)]
    if not d:
        arr = ArrayWithUnits(raw.copy(), [time_dim(ctx)] + list(arr.dimensions[1:]))
        d = [(0, arr.dimensions[0])]
    ax, dim = d[0]
    n = raw.shape[ax]
    f, du = int(ps(dim.frequency)), int(ps(dim.duration))
    a = f * ctx.integer(0, n - 1)
    dur = f * ctx.integer(1, n)
    los, his = time_run(a, a + dur, f, du, n)
    idx = (slice(None),) * ax + (TimeSlice(start=exact(ctx, a), duration=exact(ctx, dur)),)
    ctx.say('view', raw.shape, ax, a, dur)
    view = arr[idx]
    np.asarray(view)[...] = -5
    wants = []
    for lo in los:
        for hi in his:
            w = raw.copy()
            w[(slice(None),) * ax + (slice(lo, hi),)] = -5
            wants.append(w)
    ctx.expect(any(np.array_equal(np.asarray(arr), w) for w in wants), 'view',
               'wrote through', idx, 'got', np.asarray(arr), 'expected', wants[0])


@CHECK.family(200, 2000, need=['bad'])
def refused(ctx):
    arr, raw = make_array(ctx)
    ctx.say('refused', raw.shape)
    n = raw.shape[0]
    ctx.raises(lambda: arr[n + ctx.integer(0, 3)], 'bad', types=IndexError)
    ctx.raises(lambda: arr[(0,) * (raw.ndim + 1)], 'bad-ndim', types=(IndexError, ValueError))
    ctx.raises(lambda: ArrayWithUnits(raw, list(arr.dimensions) + [None]), 'bad-dims', types=ValueError)
