from scipy.signal import resample
from ..core import Check
from ..gen import *
from zounds.spectral import FrequencyAdaptive

CHECK = Check(
    'C08', 'a case is one array with a regular or explicit frequency axis or one frequency-adaptive array '
           '(random scale, block widths, time axis) and a sequence of band, time and integer slices of it and of the results',
    technique='runtime monitor: slices, blocks and squared views observed against an independent list of (band, columns)')


def make_scale(ctx, n):
    return scale(ctx, n, kinds=('linear', 'geometric', 'explicit', 'bark', 'mel'))


def columns(bands, cols, a, b):
    """acceptable column ranges for query [a, b]: first..last overlapping band, touching either way"""
    eps = 1e-6
    for i, (x, y) in enumerate(bands):
        if x == a and y == b:
            return [(cols[i], [i])]
    over = [i for i, (x, y) in enumerate(bands) if x < b - eps and y > a + eps]
    touch = [i for i, (x, y) in enumerate(bands) if x <= b + eps and y >= a - eps]
    if not over:
        return None
    out = []
    for lo in range(touch[0], over[0] + 1):
        for hi in range(over[-1], touch[-1] + 1):
            out.append(((cols[lo][0], cols[hi][1]), list(range(lo, hi + 1))))
    return out


def query(ctx, bands):
    n = len(bands)
    i, j = sorted((ctx.integer(0, n - 1), ctx.integer(0, n - 1)))
    k = ctx.choice(['exact', 'run', 'inner', 'any', 'cross', 'beyond'])
    if k == 'exact':
        return bands[i]
    if k == 'run':
        return bands[i][0], bands[j][1]
    if k == 'inner':
        x, y = bands[i]
        return x + (y - x) * 0.3, x + (y - x) * 0.6
    if k == 'beyond':
        return bands[i][0] - 10., bands[-1][1] + 50.
    lo, hi = bands[0][0], bands[-1][1]
    if k == 'any':
        a, b = sorted(ctx.rng.uniform(lo, hi, 2))
    else:
        a, b = bands[i][0] + (bands[i][1] - bands[i][0]) * 0.5, bands[j][1] + 1.5
    return float(a), float(max(b, a + 0.01))


def layout(ctx, n, kind):
    """column spans, one per band"""
    widths = [ctx.integer(1, 9) for _ in range(n)]
    if kind == 'blocks':
        st = np.concatenate([[0], np.cumsum(widths)])
        return [(int(a), int(b)) for a, b in zip(st[:-1], st[1:])]
    out, a = [], 0
    for w in widths:         # overlapping or adjacent, both ends increasing
        lo = max(0, a - ctx.integer(0, 2)) if out else 0
        if out:
            lo = max(lo, out[-1][0])
        hi = max(lo + w, (out[-1][1] + 1) if out else 1)
        out.append((lo, hi))
        a = hi
    return out


@CHECK.family(500, 6000, need=['columns', 'relabelled', 'again', 'integers', 'refused'])
def explicit_axis(ctx):
    n = ctx.integer(1, 12)
    s = make_scale(ctx, n)
    bands = bands_of(s)
    cols = layout(ctx, n, ctx.choice(['blocks', 'blocks', 'overlap']))
    total = cols[-1][1]
    dim = ExplicitFrequencyDimension(s, [slice(a, b) for a, b in cols])
    axis = ctx.integer(0, 1)
    other = ctx.integer(1, 5)
    raw = ctx.rng.normal(0, 1, (other, total))
    if axis == 0:
        raw = raw.T.copy()
    odim = ctx.choice([IdentityDimension(), time_dim(ctx)])
    arr = ArrayWithUnits(raw.copy(), [odim, dim] if axis else [dim, odim])
    ctx.say('explicit', s, cols, raw.shape, axis)
    ctx.expect(dim.validate(total) and not dim.validate(total + ctx.integer(1, 3)), 'refused', 'size')
    ctx.raises(lambda: ExplicitFrequencyDimension(s, [slice(0, 1)] * (n + 1)), 'refused')
    take = (lambda x, lo, hi: x[:, lo:hi]) if axis else (lambda x, lo, hi: x[lo:hi])
    cur, cur_raw, cur_bands, cur_cols = arr, raw, bands, cols
    for depth in range(4):
        cur_cols = [(a - cur_cols[0][0], b - cur_cols[0][0]) for a, b in cur_cols]
        if ctx.coin(0.75):
            a, b = query(ctx, cur_bands)
            want = columns(cur_bands, cur_cols, a, b)
            if want is None:
                continue
            fb = FrequencyBand(a, b)
            got = cur[:, fb] if axis else (cur[fb] if ctx.coin() else cur[fb, :])
            hit = [(c, m) for c, m in want
                   if np.array_equal(take(cur_raw, *c), np.asarray(got))]
            ctx.expect(hit, 'columns' if depth == 0 else 'again', (a, b), 'shape', got.shape, 'acceptable', [c for c, _ in want],
                       'bands', cur_bands, 'columns', cur_cols)
            d = got.dimensions[axis]
            ctx.expect(isinstance(d, ExplicitFrequencyDimension), 'relabelled', d)
            ok = [(c, m) for c, m in hit if close_bands(bands_of(d.scale), [cur_bands[i] for i in m]) and
                  [(x.start, x.stop) for x in d.slices] ==
                  [(cur_cols[i][0] - c[0], cur_cols[i][1] - c[0]) for i in m]]
            ctx.expect(ok, 'relabelled', 'bands', bands_of(d.scale)[:3], 'slices', d.slices, 'acceptable',
                       [([cur_bands[i] for i in m][:3], [cur_cols[i] for i in m]) for _, m in hit][:2])
            (c, m) = ok[0]
            cur, cur_raw = got, take(cur_raw, *c)
            cur_bands, cur_cols = bands_of(d.scale), [cur_cols[i] for i in m]
        else:
            size = cur_raw.shape[axis]
            i, j = sorted((ctx.integer(0, size), ctx.integer(0, size)))
            sl = slice(ctx.choice([i, None]) if i == 0 else i, j)
            got = cur[:, sl] if axis else cur[sl]
            ctx.eq(got, cur_raw[:, sl] if axis else cur_raw[sl], 'integers', i, j)
            d = got.dimensions[axis]
            if isinstance(d, ExplicitFrequencyDimension):
                m = [k for k, (x, y) in enumerate(cur_cols) if x < j and y > i]
                ctx.expect(close_bands(bands_of(d.scale), [cur_bands[k] for k in m]), 'integers', 'bands', i, j, d)
                ctx.expect([(x.start, x.stop) for x in d.slices] ==
                           [(max(0, cur_cols[k][0] - i), min(j, cur_cols[k][1]) - i) for k in m],
                           'integers', 'columns', i, j, d.slices, cur_cols)
        ctx.expect(arr.dimensions[axis] == dim and [(x.start, x.stop) for x in dim.slices] == cols, 'columns', 'input kept')


@CHECK.family(300, 4000, need=['columns', 'relabelled', 'again'])
def regular_axis(ctx):
    n = ctx.integer(2, 60)
    s = make_scale(ctx, n)
    axis = ctx.integer(0, 2)
    shape = [ctx.integer(1, 4) for _ in range(3)]
    shape[axis] = n
    raw = ctx.rng.normal(0, 1, shape)
    dims = [IdentityDimension(), IdentityDimension(), IdentityDimension()]
    dims[axis] = FrequencyDimension(s)
    if ctx.coin():
        dims[(axis + 1) % 3] = time_dim(ctx)
    ctx.say('regular', s, shape, axis)
    cur, cur_raw, cur_bands = ArrayWithUnits(raw.copy(), dims), raw, bands_of(s)
    for depth in range(3):
        a, b = query(ctx, cur_bands)
        run = band_run(cur.dimensions[axis].scale, a, b)
        if run is None:
            continue
        (l0, l1), (h0, h1) = run
        index = [slice(None)] * 3
        index[axis] = FrequencyBand(a, b)
        got = cur[tuple(index)]
        hit = []
        for lo in range(l0, l1 + 1):
            for hi in range(h0, h1 + 1):
                index[axis] = slice(lo, hi)
                if np.array_equal(cur_raw[tuple(index)], np.asarray(got)):
                    hit.append((lo, hi))
        ctx.expect(hit, 'columns' if depth == 0 else 'again', (a, b), got.shape, run)
        ok = [h for h in hit if close_bands(bands_of(got.dimensions[axis].scale), cur_bands[h[0]:h[1]])]
        ctx.expect(ok, 'relabelled', bands_of(got.dimensions[axis].scale)[:3], hit)
        index[axis] = slice(*ok[0])
        cur, cur_raw, cur_bands = got, cur_raw[tuple(index)], cur_bands[slice(*ok[0])]
        if len(cur_bands) < 2:
            break


def adaptive(ctx, rows=None, positive=False, td=None, n=None):
    n = n or ctx.integer(1, 10)
    s = make_scale(ctx, n)
    rows = rows or ctx.integer(1, 9)
    td = td or time_dim(ctx)
    gen = (lambda w: ctx.rng.uniform(0.1, 1, (rows, w))) if positive else (lambda w: ctx.rng.normal(0, 1, (rows, w)))
    blocks = [gen(ctx.integer(1, 12)) for _ in range(n)]
    if ctx.coin(0.2):
        blocks = [b.astype(np.float32) for b in blocks]
    return FrequencyAdaptive([b.copy() for b in blocks], td, s), blocks, s, td


@CHECK.family(500, 6000, need=['block', 'rows', 'rebuilt', 'concatenated', 'band-run', 'refused', 'from-array'])
def blocks(ctx):
    fa, bl, s, td = adaptive(ctx)
    bands = bands_of(s)
    n, rows = len(bl), bl[0].shape[0]
    ctx.say('adaptive', s, [b.shape for b in bl], td)
    st = np.concatenate([[0], np.cumsum([b.shape[1] for b in bl])])
    cols = list(zip(st[:-1].tolist(), st[1:].tolist()))
    raw = np.concatenate(bl, axis=1)
    ctx.eq(fa, raw, 'block', 'whole')
    ctx.expect(fa.n_bands == n and fa.scale == s and fa.time_dimension == td, 'block', 'parts')
    for got, b in zip(fa.iter_bands(), bl):
        ctx.eq(got, b, 'block', 'iter_bands')
    ctx.expect(len(list(fa.iter_bands())) == n, 'block', 'count')
    order = ctx.rng.permutation(n)
    for i in order[:4]:
        band = FrequencyBand(*bands[i])
        ctx.eq(fa[:, band], bl[i], 'block', i)
        # a row selection and a band selection together, and one after the other
        f, d = int(ps(td.frequency)), int(ps(td.duration))
        r0, r1 = sorted((ctx.integer(0, rows - 1), ctx.integer(0, rows - 1)))
        t0, t1 = r0 * f + f // 2, r1 * f + f // 2 + 1
        ts = TimeSlice(start=Picoseconds(t0), duration=Picoseconds(t1 - t0))
        los, his = time_run(t0, t1, f, d, rows)
        cands = [(lo, hi) for lo in los for hi in his]
        for got in (fa[ts, band], fa[ts][:, band], fa[:, band][ts]):
            ctx.expect(any(np.array_equal(bl[i][lo:hi], np.asarray(got)) for lo, hi in cands), 'rows', i, (t0, t1), cands,
                       got.shape)
        got = fa[ts]
        ctx.expect(got.dimensions[1].scale == s and got.dimensions[0] == td, 'rows', 'labels')
        ctx.expect(any(np.array_equal(raw[lo:hi], np.asarray(got)) for lo, hi in cands), 'rows', 'all bands')
        ctx.eq(fa[r0:r1 + 1], raw[r0:r1 + 1], 'rows')
        ctx.eq(fa[r0], raw[r0], 'rows')
    a, b = query(ctx, bands)
    want = columns(bands, cols, a, b)
    if want is not None:
        got = np.asarray(fa[:, FrequencyBand(a, b)])
        ctx.expect(any(np.array_equal(raw[:, c0:c1], got) for (c0, c1), _ in want), 'band-run', (a, b), got.shape, want)
    # reconstruct from parts
    k = fa.kwargs()
    again = FrequencyAdaptive(np.asarray(fa), **k)
    for got, blk in zip(again.iter_bands(), bl):
        ctx.eq(got, blk, 'rebuilt')
    twice = fa.like_dims(raw * 2)
    ctx.expect(isinstance(twice, FrequencyAdaptive), 'rebuilt', type(twice))
    for got, blk in zip(twice.iter_bands(), bl):
        ctx.eq(got, blk * 2, 'rebuilt')
    # operations keep the structure
    added = fa + 1
    ctx.expect(isinstance(added, FrequencyAdaptive), 'rebuilt')
    for got, blk in zip(added.iter_bands(), bl):
        ctx.eq(got, blk + np.asarray(1, blk.dtype), 'rebuilt', 'sum')
    # concatenation in time
    more = [np.asarray(x) for x in bl]
    more_rows = ctx.integer(1, 5)
    fb = FrequencyAdaptive([ctx.rng.normal(0, 1, (more_rows, m.shape[1])).astype(m.dtype) for m in more], td, s)
    cat = fa.concatenate(fb)
    ctx.expect(tuple(cat.dimensions) == tuple(fa.dimensions), 'concatenated', 'labels')
    for got, x, y in zip((cat[:, band] for band in s), fa.iter_bands(), fb.iter_bands()):
        ctx.eq(got, np.concatenate([np.asarray(x), np.asarray(y)]), 'concatenated')
    # the blocks of a regular time-frequency array
    m = ctx.integer(3, 40)
    lin = LinearScale(FrequencyBand(0, 8000), m)
    tf = ArrayWithUnits(ctx.rng.normal(0, 1, (rows, m)), [td, FrequencyDimension(lin)])
    conv = FrequencyAdaptive.from_array_with_units(tf)
    ctx.expect(conv.dimensions[0] == td and conv.dimensions[1].scale == lin, 'from-array', 'labels', conv.dimensions)
    for i, (band, got) in enumerate(zip(lin, conv.iter_bands())):
        x = np.asarray(tf[:, band])
        ctx.eq(got, x, 'from-array', i)
    ctx.raises(lambda: FrequencyAdaptive([b.copy() for b in bl], None, s), 'refused')
    ctx.raises(lambda: FrequencyAdaptive(bl, td, s, explicit_freq_dimension=k['explicit_freq_dimension']), 'refused')
    ctx.raises(lambda: FrequencyAdaptive(bl, td, explicit_freq_dimension=k['explicit_freq_dimension']), 'refused')
    ctx.raises(lambda: FrequencyAdaptive(bl + bl[:1], td, s), 'refused', types=ValueError)


@CHECK.family(350, 4000, need=['square', 'independent', 'overlap-add', 'unchanged', 'maxima', 'labels'])
def square(ctx):
    kind = ctx.choice(['half', 'none', 'quarter', 'any'])
    sr = samplerate(ctx)
    nc = ctx.integer(1, 24)
    if kind == 'none':
        td = TimeDimension(sr.frequency * nc, sr.frequency * nc)
    elif kind == 'half':
        td = TimeDimension(sr.frequency * nc, sr.frequency * (2 * nc))
    elif kind == 'quarter':
        td = TimeDimension(sr.frequency * nc, sr.frequency * (4 * nc))
    else:
        td = TimeDimension(sr.frequency * nc, sr.frequency * (nc + ctx.integer(0, 2 * nc)))
    fa, bl, s, td = adaptive(ctx, positive=True, td=td)
    n, rows = len(bl), bl[0].shape[0]
    n_coeffs = ctx.integer(1, 20)
    ctx.say('square', s, [b.shape for b in bl], td, n_coeffs)
    sq = fa.square(n_coeffs) if ctx.coin() else fa.rasterize(n_coeffs)
    arr = np.asarray(sq)
    ctx.expect(arr.shape == (rows, n_coeffs, n), 'square', arr.shape)
    ctx.expect(sq.dimensions[0] == td and sq.dimensions[2].scale == s, 'labels')
    want_f = Fraction(int(ps(td.duration)), n_coeffs)
    ctx.expect(abs(int(ps(sq.dimensions[1].frequency)) - want_f) <= 1, 'labels', 'coefficient spacing', sq.dimensions[1])
    for i, b in enumerate(bl):
        r = resample(b.astype(np.float64), n_coeffs, axis=1)
        if n_coeffs == b.shape[1]:
            ctx.close(arr[:, :, i], b, 'unchanged', rtol=1e-3, atol=1e-5)
        ok = r.max(axis=1) > 1e-2
        scaled = r * (b.max(axis=1) / np.where(ok, r.max(axis=1), 1))[:, None]
        ctx.close(arr[ok, :, i], scaled[ok], 'square', i, b.shape, n_coeffs, rtol=1e-3, atol=1e-4)
        ctx.close(arr[ok, :, i].max(axis=1), b.max(axis=1)[ok], 'maxima', rtol=1e-3, atol=1e-4)
    # a change in one block shows up in its own column only
    j = ctx.integer(0, n - 1)
    other = [b.copy() for b in bl]
    other[j] = ctx.rng.uniform(0.1, 1, other[j].shape).astype(other[j].dtype)
    arr2 = np.asarray(FrequencyAdaptive(other, td, s).square(n_coeffs))
    keep = [i for i in range(n) if i != j]
    ctx.eq(arr2[..., keep], arr[..., keep], 'independent')
    # overlap-add
    oa = fa.square(n_coeffs, do_overlap_add=True)
    ratio = Fraction(int(ps(td.overlap)), int(ps(td.duration)))
    step_exact = n_coeffs * (1 - ratio)
    steps = {int(np.floor(step_exact + Fraction(1, 2) - Fraction(1, 10 ** 6))),
             int(np.floor(step_exact + Fraction(1, 2) + Fraction(1, 10 ** 6)))}
    ok = False
    for step in steps:
        out = np.zeros((step * (rows - 1) + n_coeffs, n))
        for r in range(rows):
            out[r * step:r * step + n_coeffs] += arr[r]
        ok = ok or (out.shape == oa.shape and np.allclose(out, np.asarray(oa), rtol=1e-5, atol=1e-6))
    ctx.expect(ok, 'overlap-add', oa.shape, 'step', steps, 'rows', rows, n_coeffs, 'overlap', float(ratio))
    ctx.expect(oa.dimensions[0] == sq.dimensions[1] and oa.dimensions[1].scale == s, 'labels', 'overlap-add')
