from ..core import Check
from ..gen import *
from . import c01_indexing as c01

CHECK = Check(
    'C02', 'a case is one array with mixed axes pushed through one operation or a chain of operations; '
           'labels of every resulting axis are compared with labels derived independently',
    technique='runtime monitor: dimension labels of every result compared with independently derived labels')


def label(d):
    if isinstance(d, TimeDimension):
        return ('time', ps(d.frequency), ps(d.duration))
    if isinstance(d, ExplicitFrequencyDimension):
        return ('explicit', tuple(bands_of(d.scale)), tuple((s.start, s.stop) for s in d.slices))
    if isinstance(d, FrequencyDimension):
        return ('freq', tuple(bands_of(d.scale)))
    if isinstance(d, IdentityDimension):
        return ('id',)
    return ('other', repr(d))


def labels(a):
    return [label(d) for d in a.dimensions]


def same_label(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'freq':
        return close_bands(a[1], b[1], rtol=1e-7)
    return a == b


def judge(ctx, result, want, key, *msg):
    ctx.expect(isinstance(result, ArrayWithUnits), key + '-type', 'expected an array with units', result, *msg)
    got = labels(result)
    ctx.expect(len(got) == result.ndim, key + '-ndim', 'one dimension per axis', got, result.shape, *msg)
    ctx.expect(len(got) == len(want) and all(same_label(g, w) for g, w in zip(got, want)), key,
               'labels are', got, 'expected', want, *msg)
    for d, n in zip(result.dimensions, result.shape):
        if isinstance(d, TimeDimension):
            ctx.expect(d.size == n, 'size', 'dimension size', d.size, 'axis length', n, *msg)
            f, du = ps(d.frequency), ps(d.duration)
            ctx.expect(ps(d.span.start) == 0 and ps(d.span.duration) == n * f + du - f
                       and ps(d.end) == n * f + du - f, 'span', 'span', d.span, n, f, du, *msg)
        if isinstance(d, FrequencyDimension):
            ctx.expect(len(d.scale) == n, 'scale-size', len(d.scale), n, *msg)


class Frozen(object):
    """input must come out of an operation as it went in"""
    def __init__(self, arr):
        self.arr, self.raw = arr, np.array(np.asarray(arr))
        self.labels = labels(arr)
        self.sizes = [getattr(d, 'size', None) for d in arr.dimensions]

    def judge(self, ctx, what):
        ctx.eq(np.asarray(self.arr), self.raw, 'input-data', what)
        ctx.expect(labels(self.arr) == self.labels and
                   [getattr(d, 'size', None) for d in self.arr.dimensions] == self.sizes,
                   'input-labels', what, 'changed the labels of its input to', labels(self.arr), self.labels)


def expected_index_labels(arr, index, combo, raw):
    """labels of arr[index] given the integer equivalent that was matched"""
    out = []
    ax = 0
    n_used = sum(1 for c in combo if c is not None and c is not Ellipsis)
    for c in combo:
        if c is None:
            out.append(('id',))
            continue
        if c is Ellipsis:
            for _ in range(raw.ndim - n_used):
                out.append(label(arr.dimensions[ax]))
                ax += 1
            continue
        d = arr.dimensions[ax]
        if isinstance(c, int):
            pass
        elif isinstance(c, (list, np.ndarray)):
            out.append(('id',))
        else:
            l = label(d)
            if l[0] == 'freq':
                l = ('freq', l[1][c])
            out.append(l)
        ax += 1
    return out + [label(d) for d in arr.dimensions[ax:]]


@CHECK.family(1500, 25000, need=['index'])
def indexing(ctx):
    arr, raw = c01.make_array(ctx, cls='audio' if ctx.coin(0.1) else None)
    fr = Frozen(arr)
    for _ in range(4):
        index, combos = c01.expression(ctx, arr)
        if any(isinstance(p, slice) and p.step not in (None, 1)
               for p in (index if isinstance(index, tuple) else (index,))):
            continue
        ctx.say(raw.shape, 'index', c01.describe(index))
        got = arr[index]
        if not isinstance(got, ArrayWithUnits) or np.ndim(got) == 0:
            continue
        gv = np.asarray(got)
        fits = [c for c in combos if c01.same(gv, np.asarray(raw[c]))]
        if not fits:
            continue            # C01's business
        wants = [expected_index_labels(arr, index, c, raw) for c in fits]
        g = labels(got)
        best = next((w for w in wants if len(w) == len(g) and all(same_label(x, y) for x, y in zip(g, w))), wants[0])
        judge(ctx, got, best, 'index', 'index', index, 'on', raw.shape)
        # (a list on the first of many axes keeps the later labels)
    fr.judge(ctx, 'indexing')
    # labels that don't fit are refused
    dims = list(arr.dimensions)
    for k, d in enumerate(dims):
        if type(d) is FrequencyDimension and type(arr) is ArrayWithUnits:
            shape = list(arr.shape)
            shape[k] = ctx.choice([shape[k] + 1, shape[k] * 2 + 1, max(0, shape[k] - 1)])
            ctx.raises(lambda: ArrayWithUnits(np.zeros(shape), dims), 'misfit', types=ValueError)
    ctx.raises(lambda: ArrayWithUnits(raw, dims + [IdentityDimension()]), 'misfit', types=ValueError)


@CHECK.family(900, 15000, need=['reduce', 'reduce-scalar'])
def reductions(ctx):
    arr, raw = c01.make_array(ctx)
    fr = Frozen(arr)
    op = ctx.choice(['sum', 'max'])
    n_axes = ctx.integer(1, raw.ndim)
    axes = [int(a) for a in ctx.rng.permutation(raw.ndim)[:n_axes]]
    given = [a - raw.ndim if ctx.coin(0.4) else a for a in axes]
    axis = given[0] if len(given) == 1 and ctx.coin(0.7) else tuple(given)
    keep = ctx.coin(0.4)
    ctx.say(op, raw.shape, 'axis', axis, 'keepdims', keep)
    via_np = ctx.coin(0.3)
    got = getattr(np, op)(arr, axis=axis, keepdims=keep) if via_np else getattr(arr, op)(axis=axis, keepdims=keep)
    want = getattr(raw, op)(axis=axis, keepdims=keep)
    ctx.close(np.asarray(got), want, 'reduce-values', rtol=1e-5)
    if want.ndim == 0:
        ctx.expect(np.ndim(got) == 0, 'reduce-scalar', got)
    else:
        ls = [('id',) if i in axes else l for i, l in enumerate(labels(arr)) if keep or i not in axes]
        judge(ctx, got, ls, 'reduce', op, axis, keep)
    got = getattr(arr, op)()
    ctx.close(np.asarray(got), getattr(raw, op)(), 'reduce-scalar', rtol=1e-5)
    fr.judge(ctx, op)


@CHECK.family(900, 15000, need=['T', 'newaxis-reshape', 'squeeze', 'reshape-other', 'packed'])
def shape_changes(ctx):
    arr, raw = c01.make_array(ctx)
    if ctx.coin(.1):
        # nothing in it
        i = ctx.integer(0, raw.ndim - 1)
        if isinstance(arr.dimensions[i], FrequencyDimension):
            return
        ix = (slice(None),) * i + (slice(0, 0),)
        arr, raw = arr[ix], raw[ix]
    if 0 in raw.shape:
        sq = arr.squeeze()
        ctx.eq(np.asarray(sq), raw.squeeze(), 'squeeze-values')
        judge(ctx, sq, [l for l, n in zip(labels(arr), raw.shape) if n != 1], 'squeeze')
        return
    # packing bits
    i = ctx.integer(-raw.ndim, raw.ndim - 1)
    bits = (ctx.rng.random(raw.shape) < .5).astype(np.uint8)
    bu = ArrayWithUnits(bits.copy(), arr.dimensions)
    p = bu.packbits(axis=i)
    ctx.eq(np.asarray(p), np.packbits(bits, axis=i), 'packed-values')
    got, want = labels(p), labels(arr)
    ctx.expect(len(got) == raw.ndim and all(same_label(g, w) for k, (g, w) in enumerate(zip(got, want)) if k != i % raw.ndim),
               'packed', 'other axes', got, want)
    g, w = got[i], want[i]
    ctx.expect(g == ('id',) or g[0] == w[0] == 'time' and ps(p.dimensions[i].frequency) == 8 * ps(arr.dimensions[i].frequency),
               'packed', 'packed axis', g, 'was', w)
    p = bu.packbits()
    ctx.eq(np.asarray(p), np.packbits(bits), 'packed-values')
    ctx.expect(raw.ndim == 1 or labels(p) == [('id',)], 'packed', labels(p))
    fr = Frozen(arr)
    ls = labels(arr)
    ctx.say('shape', raw.shape)
    t = arr.T
    ctx.eq(np.asarray(t), raw.T, 'T-values')
    judge(ctx, t, ls[::-1], 'T')
    judge(ctx, t.T, ls, 'T')
    order = [int(i) for i in ctx.rng.permutation(raw.ndim)]
    signed = [i - raw.ndim if ctx.coin(0.3) else i for i in order]
    t = ctx.choice([lambda: arr.transpose(signed), lambda: arr.transpose(*signed), lambda: np.transpose(arr, signed)])()
    ctx.eq(np.asarray(t), raw.transpose(order), 'T-values', order)
    judge(ctx, t, [ls[i] for i in order], 'T', 'order', signed)
    i, j = ctx.integer(-raw.ndim, raw.ndim - 1), ctx.integer(-raw.ndim, raw.ndim - 1)
    name = ctx.choice(['swapaxes', 'moveaxis'])
    t = getattr(np, name)(arr, i, j)
    ctx.eq(np.asarray(t), getattr(np, name)(raw, i, j), 'T-values', name, i, j)
    order = list(np.asarray(getattr(np, name)(np.empty([1 + k for k in range(raw.ndim)]), i, j)).shape)
    judge(ctx, t, [ls[k - 1] for k in order], 'T', name, i, j)
    for t in (arr.transpose(), np.transpose(arr)):
        judge(ctx, t, ls[::-1], 'T')
    # flattening
    flat = ctx.choice([lambda: arr.flatten(), lambda: arr.ravel()])()
    ctx.eq(np.asarray(flat), raw.ravel(), 'reshape-values')
    if isinstance(flat, ArrayWithUnits):
        judge(ctx, flat, ls if raw.ndim == 1 else [('id',)], 'reshape-other', 'flat')
    # squeeze
    sq = arr.squeeze()
    ctx.eq(np.asarray(sq), raw.squeeze(), 'squeeze-values')
    judge(ctx, sq, [l for l, n in zip(ls, raw.shape) if n != 1], 'squeeze')
    # adding axes of size one
    if all(n != 1 for n in raw.shape):
        shape, want = [], []
        wild = False
        for n, l in zip(raw.shape, ls):
            while ctx.coin(0.3):
                shape.append(-1 if (not wild and ctx.coin(0.3)) else 1)
                wild = wild or shape[-1] == -1
                want.append(('id',))
            shape.append(n)
            want.append(l)
        while ctx.coin(0.3) or len(shape) == raw.ndim:
            shape.append(1)
            want.append(('id',))
        shape = tuple(shape) if ctx.coin() else list(shape)
        r = arr.reshape(shape)
        ctx.eq(np.asarray(r), raw.reshape(shape), 'reshape-values')
        judge(ctx, r, want, 'newaxis-reshape', 'to', shape)
        judge(ctx, r.reshape(raw.shape), ls, 'newaxis-reshape-back', 'to', shape)
    # any other reshape: no axis may keep a meaning it has lost
    n = raw.size
    divs = [d for d in range(2, n + 1) if n % d == 0]
    target = (ctx.choice(divs), -1) if divs else (-1,)
    r = arr.reshape(target)
    ctx.eq(np.asarray(r), raw.reshape(target), 'reshape-values')
    nontriv = tuple(x for x in raw.reshape(target).shape if x != 1) != tuple(x for x in raw.shape if x != 1)
    if nontriv:
        judge(ctx, r, [('id',)] * r.ndim, 'reshape-other', 'from', raw.shape, 'to', target)
    else:
        ctx.expect(len(r.dimensions) == r.ndim, 'reshape-other')
    fr.judge(ctx, 'shape changes')


@CHECK.family(700, 10000, need=['concat', 'concat-refused'])
def concatenation(ctx):
    arr, raw = c01.make_array(ctx)
    ls = labels(arr)
    time_like = [i for i, l in enumerate(ls) if l[0] != 'freq']
    if not time_like:
        arr = ArrayWithUnits(raw, [IdentityDimension()] + list(arr.dimensions[1:]))
        ls, time_like = labels(arr), [0]
    axis = ctx.choice(time_like)
    others = []
    for _ in range(ctx.integer(1, 3)):
        shape = list(raw.shape)
        shape[axis] = ctx.integer(1, 8)
        others.append(ArrayWithUnits(ctx.rng.integers(0, 99, shape).astype(raw.dtype), arr.dimensions))
    frs = [Frozen(a) for a in [arr] + others]
    ctx.say('concat', raw.shape, 'axis', axis, [o.shape for o in others])
    r = ArrayWithUnits.concat([arr] + others, axis=axis)
    ctx.eq(np.asarray(r), np.concatenate([raw] + [np.asarray(o) for o in others], axis=axis), 'concat-values')
    judge(ctx, r, ls, 'concat')
    if axis == 0:
        r = arr.concatenate(others[0])
        ctx.eq(np.asarray(r), np.concatenate([raw, np.asarray(others[0])]), 'concat-values')
        judge(ctx, r, ls, 'concat')
    # arrays of a different meaning must not be joined
    i = ctx.integer(0, raw.ndim - 1)
    l = ls[i]
    if l[0] == 'time':
        f, d = arr.dimensions[i].frequency, arr.dimensions[i].duration
        other_dim = TimeDimension(f, d + f) if ctx.coin() else TimeDimension(f * 2, d * 2)
    elif l[0] == 'freq':
        other_dim = FrequencyDimension(ExplicitScale(
            [FrequencyBand(a + 1, b + 1.5) for a, b in l[1]]))
    else:
        other_dim = time_dim(ctx)
    dims = list(arr.dimensions)
    dims[i] = other_dim
    other = ArrayWithUnits(raw.copy(), dims)
    for a, b in ((arr, other), (other, arr)):
        ctx.raises(lambda: ArrayWithUnits.concat([a, b], axis=axis), 'concat-refused', types=Exception)
        if axis == 0:
            ctx.raises(lambda: a.concatenate(b), 'concat-refused', types=Exception)
    # wherever among several the odd one is
    many = [ArrayWithUnits(raw.copy(), arr.dimensions) for _ in range(ctx.integer(1, 4))]
    many.insert(ctx.integer(0, len(many)), other)
    ctx.raises(lambda: ArrayWithUnits.concat(many, axis=axis), 'concat-refused', 'one of', len(many), types=Exception)
    for f in frs:
        f.judge(ctx, 'concat')
    zl = arr.zeros_like()
    judge(ctx, zl, ls, 'zeros')
    ctx.expect(zl.dtype == raw.dtype and not np.asarray(zl).any() and zl.shape == raw.shape, 'zeros-values')
    judge(ctx, ArrayWithUnits.zeros(arr), ls, 'zeros')
    judge(ctx, ArrayWithUnits.from_example(raw + 1, arr), ls, 'from-example')


@CHECK.family(700, 10000, need=['window'])
def windows(ctx):
    """sliding windows over a time axis: the new axis has the stride and duration of the windows"""
    n = ctx.integer(2, 40)
    tail = ctx.choice([[], ['id'], ['freq'], ['freq', 'id'], ['id', 'id']])
    dims, shape = [time_dim(ctx)], [n]
    for k in tail:
        m = ctx.integer(2, 6)
        if k == 'freq':
            s = scale(ctx, m)
            dims.append(FrequencyDimension(s))
        else:
            dims.append(IdentityDimension())
        shape.append(m)
    raw = np.arange(np.prod(shape)).reshape(shape).astype(np.float32)
    arr = ArrayWithUnits(raw.copy(), dims)
    fr = Frozen(arr)
    w = ctx.integer(1, n)
    s = ctx.integer(1, n)
    f, d = int(ps(dims[0].frequency)), int(ps(dims[0].duration))
    form = ctx.choice(['int', 'time'])
    if form == 'int':
        ws, ss = (w,) + tuple(shape[1:]), (s,) + tuple(shape[1:])
    else:
        ws = (TimeSlice(exact(ctx, f * w)),) + tuple(shape[1:])
        ss = (TimeSlice(exact(ctx, f * s)),) + tuple(shape[1:])
    nostep = ctx.coin(0.25)
    if nostep:
        s = w
    ctx.say('window', shape, w, s, form, nostep)
    r = arr.sliding_window(ws) if nostep else arr.sliding_window(ws, ss)
    count = (n - w) // s + 1
    want = np.stack([raw[i * s: i * s + w] for i in range(count)])
    ctx.eq(np.asarray(r), want, 'window-values', w, s)
    ls = labels(arr)
    judge(ctx, r, [('time', f * s, f * w + d - f)] + ls, 'window', 'w', w, 's', s)
    # the same rate arithmetic holds when windows are windowed again
    if count > 2 and r.ndim == 2:
        r, want = r[:, 0], want[:, 0]
        w2 = ctx.integer(1, count)
        s2 = ctx.integer(1, count)
        r2 = r.sliding_window((w2,), (s2,))
        want2 = np.stack([want[i * s2: i * s2 + w2] for i in range((count - w2) // s2 + 1)])
        F, D = f * s, f * w + d - f
        ctx.eq(np.asarray(r2), want2, 'window-twice-values')
        judge(ctx, r2, [('time', F * s2, F * w2 + D - F), ('time', F, D)], 'window-twice', w2, s2)
    # a partial window of an axis that cannot be windowed must not keep its label
    if tail == ['id'] and shape[1] > 1:
        r = arr.sliding_window((w, 1), (s, 1))
        ctx.expect(len(r.dimensions) == r.ndim and label(r.dimensions[-1]) == ('id',), 'window-partial')
    fr.judge(ctx, 'sliding_window')


@CHECK.family(500, 8000, need=['elementwise'])
def elementwise(ctx):
    arr, raw = c01.make_array(ctx)
    raw = raw.astype(np.float64)
    arr = ArrayWithUnits(raw.copy(), arr.dimensions)
    fr = Frozen(arr)
    ls = labels(arr)
    row = ctx.rng.normal(0, 1, raw.shape[-1:])
    ops = [
        ('scalar', lambda a: a * 3 + 1), ('rscalar', lambda a: 2 - a), ('neg', lambda a: -a),
        ('abs', lambda a: np.abs(a)), ('row', lambda a: a * row), ('same', lambda a: a + a),
        ('cmp', lambda a: a > 2), ('sqrt', lambda a: np.sqrt(np.abs(a))),
        ('divide', lambda a: np.divide(a, 7.)), ('copy', lambda a: a.copy()),
        ('astype', lambda a: a.astype(np.float32)), ('where', lambda a: np.maximum(a, 3)),
        ('col', lambda a: a - a.max(axis=-1, keepdims=True))]
    name, fn = ctx.choice(ops)
    ctx.say(name, raw.shape, [l[0] for l in ls])
    got = fn(arr)
    ctx.eq(np.asarray(got), fn(raw), 'elementwise-values', name)
    judge(ctx, got, ls, 'elementwise', name)
    fr.judge(ctx, name)
    got2 = arr.copy()
    got2 += 1
    ctx.eq(np.asarray(got2), raw + 1, 'elementwise-values', '+=')
    judge(ctx, got2, ls, 'elementwise', '+=')
    fr.judge(ctx, '+=')
    b = ctx.rng.normal(0, 1, (raw.shape[-1],))
    d = arr.dot(b)
    if np.ndim(d):
        ctx.close(np.asarray(d), raw.dot(b), 'dot-values')
        judge(ctx, d, ls[:-1], 'dot')
    # with a matrix: the last axis is another one now
    k = ctx.choice([1, raw.shape[-1], ctx.integer(1, 6)])
    m = ctx.rng.normal(0, 1, (raw.shape[-1], k))
    last = ('id',)
    if ctx.coin():
        td = time_dim(ctx)
        given, last = ArrayWithUnits(m.copy(), [IdentityDimension(), td]), label(td)
    else:
        given = m
    d = arr.dot(given)
    ctx.close(np.asarray(d), raw.dot(m), 'dot-values', atol=1e-9)
    judge(ctx, d, ls[:-1] + [last], 'dot', 'with a matrix', m.shape)
    # with a stack of matrices: all of the axes but the ones that were summed over
    q = ctx.integer(1, 4)
    m = ctx.rng.normal(0, 1, (q, raw.shape[-1], k))
    td, td2 = time_dim(ctx), time_dim(ctx)
    given = ArrayWithUnits(m.copy(), [td2, IdentityDimension(), td])
    d = arr.dot(given)
    ctx.close(np.asarray(d), raw.dot(m), 'dot-values', atol=1e-9)
    judge(ctx, d, ls[:-1] + [label(td2), label(td)], 'dot', 'with matrices', m.shape)
    d = arr.dot(2.)
    ctx.eq(np.asarray(d), raw * 2, 'dot-values')
    judge(ctx, d, ls, 'dot', 'with a number')


def widened(l, n, most):
    """what an axis may be called once it has been broadcast from one to n"""
    return [l] if n == most else [('id',)] + ([l] if l[0] != 'freq' and l[0] != 'explicit' else [])


@CHECK.family(400, 6000, need=['broadcast', 'reduced'])
def resizing(ctx):
    """elementwise operations whose result has another shape than the array"""
    arr, raw = c01.make_array(ctx)
    if 0 in raw.shape:
        return
    raw = raw.astype(np.float64)
    arr = ArrayWithUnits(raw.copy(), arr.dimensions)
    ls = labels(arr)
    i = ctx.integer(0, raw.ndim - 1)
    ctx.say(raw.shape, ls[i][0], 'axis', i)
    # statistics along an axis that is kept
    for op in ('mean', 'min', 'std', 'prod'):
        r = getattr(arr, op)(axis=i, keepdims=True)
        ctx.close(np.asarray(r), getattr(raw, op)(axis=i, keepdims=True), 'reduce-values', op, rtol=1e-5)
        if raw.shape[i] > 1:
            judge(ctx, r, ls[:i] + [('id',)] + ls[i + 1:], 'reduced', op)
        r = getattr(arr, op)(axis=i)
        ctx.close(np.asarray(r), getattr(raw, op)(axis=i), 'reduce-values', op, rtol=1e-5)
        if isinstance(r, ArrayWithUnits):
            judge(ctx, r, ls[:i] + ls[i + 1:], 'reduced', op)
    # the same of complex numbers, and their parts
    craw = raw + 1j * ctx.rng.normal(0, 1, raw.shape)
    carr = ArrayWithUnits(craw.copy(), arr.dimensions)
    for op in ('mean', 'std', 'var', 'sum'):
        r = getattr(carr, op)(axis=i)
        ctx.close(np.asarray(r), getattr(craw, op)(axis=i), 'reduce-values', 'complex', op, rtol=1e-5, atol=1e-9)
        if isinstance(r, ArrayWithUnits):
            judge(ctx, r, ls[:i] + ls[i + 1:], 'reduced', 'complex', op)
        ctx.close(np.asarray(getattr(carr, op)()), getattr(craw, op)(), 'reduce-values', 'complex', op, rtol=1e-5, atol=1e-9)
    for part in ('real', 'imag'):
        ctx.eq(np.asarray(getattr(carr, part)), getattr(craw, part), 'reduce-values', part)
        judge(ctx, getattr(carr, part), ls, 'reduced', part)
    # (as many numbers of half the size: no more the same axis)
    flat = carr.view(np.float64)
    ctx.eq(np.asarray(flat), craw.view(np.float64), 'reduce-values', 'view')
    judge(ctx, flat, ls[:-1] + [('id',)], 'reduced', 'view')
    judge(ctx, carr.view(), ls, 'reduced', 'view')
    # one element of the axis against all of them
    ix = (slice(None),) * i + (slice(0, 1),)
    one, o = arr[ix], raw[ix]
    other = arr if ctx.coin() else raw
    frs = Frozen(arr), Frozen(one)
    for r in (one + other, other * one):
        if not isinstance(r, ArrayWithUnits):
            continue
        got = labels(r)
        ctx.expect(len(got) == r.ndim, 'broadcast', got)
        for k, (g, n) in enumerate(zip(got, r.shape)):
            ok = widened(label(one.dimensions[k]), n, one.shape[k]) + ([ls[k]] if other is arr else [])
            ctx.expect(any(same_label(g, w) for w in ok), 'broadcast', 'axis', k, 'is', g, 'expected', ok)
        judge(ctx, r, got, 'broadcast')
    ctx.eq(np.asarray(one + other), o + raw, 'elementwise-values')
    for f in frs:
        f.judge(ctx, 'broadcasting')


@CHECK.family(600, 10000, need=['chain'])
def chains(ctx):
    """labels survive chains of operations, and stay truthful to the data"""
    n, m = ctx.integer(6, 30), ctx.integer(3, 12)
    s = scale(ctx, m)
    td = time_dim(ctx)
    raw = ctx.rng.normal(0, 1, (n, m))
    arr = ArrayWithUnits(raw.copy(), [td, FrequencyDimension(s)])
    cur, cr, ls = arr, raw, labels(arr)
    steps = []
    for _ in range(ctx.integer(3, 7)):
        op = ctx.choice(['T', 'tslice', 'fslice', 'newaxis', 'squeeze', 'scale', 'maxkeep', 'int', 'ellipsis'])
        ti = [i for i, l in enumerate(ls) if l[0] == 'time' and cr.shape[i] > 2]
        fi = [i for i, l in enumerate(ls) if l[0] == 'freq' and cr.shape[i] > 2]
        if op == 'T':
            cur, cr, ls = cur.T, cr.T, ls[::-1]
        elif op == 'tslice' and ti:
            i = ctx.choice(ti)
            k = ctx.integer(1, cr.shape[i])
            f, d = ls[i][1:]
            a = ctx.integer(0, cr.shape[i] - 1)
            los, his = time_run(f * a, f * (a + k), f, d, cr.shape[i])
            ix = (slice(None),) * i + (TimeSlice(start=exact(ctx, f * a), duration=exact(ctx, f * k)),)
            got = cur[ix]
            w = next((x for x in (cr[(slice(None),) * i + (slice(lo, hi),)] for lo in los for hi in his)
                      if np.array_equal(x, np.asarray(got))), None)
            ctx.expect(w is not None, 'chain-values', steps, op)
            cur, cr = got, w
        elif op == 'fslice' and fi:
            i = ctx.choice(fi)
            a = ctx.integer(0, cr.shape[i] - 1)
            b = ctx.integer(a + 1, cr.shape[i])
            ix = (slice(None),) * i + (slice(a, b),)
            cur, cr = cur[ix], cr[ix]
            ls = ls[:i] + [('freq', ls[i][1][a:b])] + ls[i + 1:]
        elif op == 'newaxis' and cr.ndim < 5:
            i = ctx.integer(0, cr.ndim)
            ix = (slice(None),) * i + (None,)
            cur, cr = cur[ix], cr[ix]
            ls = ls[:i] + [('id',)] + ls[i:]
        elif op == 'squeeze':
            ls = [l for l, k in zip(ls, cr.shape) if k != 1]
            cur, cr = cur.squeeze(), cr.squeeze()
            if cr.ndim == 0:
                break
        elif op == 'scale':
            cur, cr = cur * 2, cr * 2
        elif op == 'maxkeep':
            i = ctx.integer(0, cr.ndim - 1)
            cur, cr = cur.max(axis=i, keepdims=True), cr.max(axis=i, keepdims=True)
            ls = ls[:i] + [('id',)] + ls[i + 1:]
        elif op == 'int' and cr.ndim > 1:
            i = ctx.integer(0, cr.ndim - 1)
            ix = (slice(None),) * i + (ctx.integer(0, cr.shape[i] - 1),)
            cur, cr = cur[ix], cr[ix]
            ls = ls[:i] + ls[i + 1:]
        elif op == 'ellipsis':
            cur, cr = cur[..., :], cr[..., :]
        steps.append(op)
        ctx.eq(np.asarray(cur), cr, 'chain-values', steps)
        judge(ctx, cur, ls, 'chain', steps)
    ctx.say(raw.shape, steps)
    ctx.eq(np.asarray(arr), raw, 'chain-pure', steps)
