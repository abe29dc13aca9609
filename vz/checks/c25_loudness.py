from ..core import Check
from ..gen import *
from ..nodes import run, chunked, joined
from zounds.loudness import (
    log_modulus, inverse_log_modulus, decibel, mu_law, inverse_mu_law, MuLaw, LogModulus,
    unit_scale, instance_scale, inverse_one_hot)
from zounds.timeseries import categorical, inverse_categorical

CHECK = Check(
    'C25', 'a case is one array (plain or with units; any dtype, shape, amplitude, silent or constant) through one amplitude coding and its inverse',
    technique='runtime monitor: codings compared with the textbook formula in extended precision, inverses with the input, categories with the coding')


def values(ctx, shape=None):
    shape = shape or tuple(ctx.integer(1, 12) for _ in range(ctx.choice([0, 1, 1, 2, 2, 3])))
    kind = ctx.choice(['unit', 'unit', 'normal', 'tiny', 'huge', 'silent', 'constant', 'ints', 'ints', 'negative', 'mixed', 'single'])
    r = ctx.rng
    if kind == 'unit':
        x = r.uniform(-1, 1, shape)
    elif kind == 'normal':
        x = r.normal(0, 3, shape)
    elif kind == 'tiny':
        x = r.normal(0, 1, shape) * 10. ** -r.integers(3, 12)
    elif kind == 'huge':
        x = r.normal(0, 1, shape) * 10. ** r.integers(3, 12)
    elif kind == 'silent':
        x = np.zeros(shape)
    elif kind == 'constant':
        x = np.full(shape, float(r.choice([1, -1, .25, -3.5])))
    elif kind == 'ints':
        dt = np.dtype(ctx.choice(['i8', 'i8', 'i4', 'i2', 'i2', 'i1']))
        if dt.itemsize > 2:
            x = r.integers(-100, 100, shape)
        else:
            # samples the way sound files keep them, up to the loudest there is
            info = np.iinfo(dt)
            x = r.integers(info.min, info.max + 1, shape)
            x = np.where(r.random(shape) < .1, info.min, np.where(r.random(shape) < .1, info.max, x))
        x = np.asarray(x).astype(dt)
    elif kind == 'negative':
        x = -r.uniform(.01, 1, shape)
    elif kind == 'single':
        x = np.zeros(shape)
        if x.size:
            x.flat[r.integers(0, x.size)] = float(r.choice([1, -1, .5]))
    else:
        x = r.normal(0, 1, shape) * 10. ** r.integers(-6, 6, shape)
    x = np.asarray(x)
    if kind != 'ints':
        x = x.astype(ctx.choice([np.float64, np.float64, np.float32]))
    return x, kind


def units(ctx, x):
    dims = [TimeDimension(z.Milliseconds(10)) if i == 0 else IdentityDimension() for i in range(x.ndim)]
    return ArrayWithUnits(x.copy(), dims)


def tolerance(x):
    return (2e-4, 1e-5) if x.dtype == np.float32 else (1e-9, 1e-12)


@CHECK.family(500, 8000, need=['modulus:value', 'modulus:inverse', 'mulaw:value', 'mulaw:inverse', 'odd', 'monotone'])
def companding(ctx):
    x, kind = values(ctx)
    as_units = x.ndim and ctx.coin(.4)
    mu = ctx.choice([255, 255, 1, 7, 15, 100, 1023, 65535])
    ctx.say('%s %s %s mu=%d%s' % (kind, x.shape, x.dtype, mu, ' units' if as_units else ''))
    arr = units(ctx, x) if as_units else (x.copy() if x.ndim else x[()])
    rtol, atol = tolerance(x)
    wide = x.astype(np.longdouble)
    pairs = [
        ('modulus', log_modulus, inverse_log_modulus, np.sign(wide) * np.log1p(np.abs(wide)), 1),
        ('mulaw', lambda v: mu_law(v, mu=mu), lambda v: inverse_mu_law(v, mu=mu),
         np.sign(wide) * np.log1p(mu * np.abs(wide)) / np.log1p(np.longdouble(mu)), 1.)]
    if mu == 255 and ctx.coin():
        pairs[1] = ('mulaw', mu_law, inverse_mu_law) + pairs[1][3:]
    for name, f, g, want, _ in pairs:
        y = f(arr)
        ctx.close(np.asarray(y), want.astype(np.float64), name + ':value', rtol=rtol, atol=atol)
        ctx.expect(np.array_equal(np.asarray(arr), x), name + ':unmodified')
        if as_units:
            ctx.expect(isinstance(y, ArrayWithUnits) and y.dimensions == arr.dimensions, name + ':units')
        flipped = -arr if x.dtype.kind == 'f' else arr * -1.
        ctx.close(np.asarray(f(flipped)), -np.asarray(y), 'odd', rtol=1e-6, atol=0)
        ctx.expect(np.all(np.sign(np.asarray(y)) * np.sign(x) >= 0), name + ':sign')
        before = np.array(y, copy=True)
        back = g(y)
        ctx.expect(np.array_equal(np.asarray(y), before), name + ':unmodified', 'by the inverse')
        m = float(np.abs(wide).max()) if x.size else 0
        # rounding of the logarithm, magnified by its slope
        tiny = atol * 4 if name == 'modulus' else atol * 4 / max(1, mu / 100)
        if name == 'modulus' or m * mu < 1e30:
            ctx.close(np.asarray(back), x.astype(float), name + ':inverse', rtol=rtol * 50, atol=tiny * 50)
        if as_units:
            ctx.expect(isinstance(back, ArrayWithUnits) and back.dimensions == arr.dimensions, name + ':units')
        s = np.sort(x.ravel())
        if s.size:
            ctx.expect(np.all(np.diff(np.asarray(f(s)).astype(float)) >= -1e-7 * max(1e-30, float(np.abs(np.asarray(f(s))).max()))),
                       'monotone', name)
        if name == 'mulaw' and m <= 1:
            ctx.expect(np.all(np.abs(np.asarray(y)) <= 1 + 1e-6), 'mulaw:bounded')


@CHECK.family(120, 1500, need=['node:modulus', 'node:mulaw'])
def as_nodes(ctx):
    """the streaming nodes code every chunk alike, and inverse coding what they emit gives the signal back"""
    x, kind = values(ctx, shape=(ctx.integer(1, 60), ctx.integer(1, 4)))
    x = x.astype(float)
    arr = units(ctx, x)
    mu, factor = ctx.choice([255, 31, 1000]), ctx.choice([1, 1, 10, .5, 100])
    ctx.say('%s %s mu=%d factor=%s' % (kind, x.shape, mu, factor))
    outs = run(lambda s: MuLaw(mu=mu, needs=s), chunked(ctx, arr))
    ctx.close(joined(outs), np.sign(x) * np.log1p(mu * np.abs(x)) / np.log1p(mu), 'node:mulaw', rtol=1e-9, atol=1e-12)
    for o in outs:
        ctx.expect(o.dimensions == arr.dimensions, 'node:units')
    outs = run(lambda s: LogModulus(factor=factor, needs=s), chunked(ctx, arr))
    ctx.close(joined(outs), np.sign(x) * np.log1p(np.abs(x * factor)), 'node:modulus', rtol=1e-9, atol=1e-12)
    ctx.close(inverse_log_modulus(joined(outs)) / factor, x, 'node:modulus', rtol=1e-8, atol=1e-9)


@CHECK.family(300, 5000, need=['instance', 'unit'])
def scaling(ctx):
    x, kind = values(ctx, shape=tuple(ctx.integer(1, 10) for _ in range(ctx.integer(1, 3))))
    if ctx.coin(.1):
        # samples without a sign, e.g. of an eight bit sound file or a picture
        kind = 'unsigned'
        dt = ctx.choice([np.uint8, np.uint16])
        x = ctx.rng.integers(0, ctx.choice([2, 100, np.iinfo(dt).max + 1]), x.shape).astype(dt)
    axis = ctx.integer(-x.ndim, x.ndim - 1)
    as_units = ctx.coin(.4)
    arr = units(ctx, x) if as_units else x.copy()
    ctx.say('%s %s %s axis=%d%s' % (kind, x.shape, x.dtype, axis, ' units' if as_units else ''))
    big = np.abs(x.astype(float)).max(axis=axis, keepdims=True)
    if ctx.coin():
        got = instance_scale(arr, axis=axis)
    else:
        m, got = instance_scale(arr, axis=axis, return_maxes=True)
        ctx.close(np.asarray(m), big, 'instance:maxes', rtol=1e-6, atol=0)
        ctx.close(np.asarray(got) * (np.asarray(m) + 1e-8), x.astype(float), 'instance:undo', rtol=1e-5, atol=1e-12)
    got = np.asarray(got)
    ctx.finite(got, 'instance')
    ctx.close(got, x / (big + 1e-8), 'instance', rtol=1e-5, atol=1e-9)
    ctx.expect(np.all(np.abs(got) <= 1 + 1e-6), 'instance')
    ctx.expect(np.array_equal(np.asarray(arr), x), 'scaling:unmodified')
    ax = ctx.choice([None, axis])
    got = unit_scale(arr, axis=ax) if ax is not None or ctx.coin() else unit_scale(arr)
    w = x.astype(float)
    lo, hi = w.min(axis=ax, keepdims=True), w.max(axis=ax, keepdims=True)
    want = (w - lo) / np.where(hi > lo, hi - lo, 1)
    got = np.asarray(got)
    ctx.finite(got, 'unit')
    # cancellation in the input's own precision
    rel = (2e-7 if x.dtype == np.float32 else 1e-15) * np.maximum(np.abs(lo), np.abs(hi)) / np.where(hi > lo, hi - lo, np.inf)
    ctx.close(got, want, 'unit', rtol=1e-5, atol=float(1e-9 + 8 * rel.max()))
    ctx.expect(np.all(got >= -1e-9) and np.all(got <= 1 + 1e-6), 'unit', 'outside zero to one')
    ctx.expect(np.array_equal(np.asarray(arr), x), 'scaling:unmodified')


@CHECK.family(60, 500, need=['decibel'])
def decibels(ctx):
    x = np.abs(ctx.rng.normal(0, 1, ctx.integer(1, 50))) * 10. ** ctx.rng.integers(-8, 8) + 1e-12
    ctx.say('%d magnitudes' % len(x))
    d = decibel(x)
    ctx.close(d, 20 * np.log(x) / np.log(10), 'decibel', rtol=1e-9, atol=1e-9)
    ctx.close(decibel(x * 10), d + 20, 'decibel', rtol=1e-9, atol=1e-9)
    ctx.expect(np.all(np.diff(decibel(np.sort(x))) >= 0), 'decibel')


def levels(x, mu):
    """companded level of every sample, 0 to mu"""
    return (np.sign(x) * np.log1p(mu * np.abs(x)) / np.log1p(mu) + 1) / 2 * mu


@CHECK.family(250, 4000, need=['category:one', 'category:monotone', 'category:inverse'])
def categories(ctx):
    x, kind = values(ctx, shape=tuple(ctx.integer(1, 20) for _ in range(ctx.choice([1, 2, 2, 3]))))
    mu = ctx.choice([255, 255, 255, 15, 63, 1000])
    normalize = ctx.coin(.6)
    if x.dtype.kind == 'f' or not normalize or ctx.coin():
        x = x.astype(ctx.choice([np.float64, np.float32]))
    if not normalize:
        m = np.abs(x).max()
        x = (x / max(1, m)).astype(x.dtype)
    arr = units(ctx, x)
    ctx.say('%s %s %s mu=%d normalize=%s' % (kind, x.shape, x.dtype, mu, normalize))
    c = categorical(arr, mu=mu, normalize=normalize)
    ctx.expect(np.array_equal(np.asarray(arr), x), 'category:unmodified')
    ctx.eq(c.shape, x.shape + (mu + 1,), 'category:shape')
    raw = np.asarray(c)
    ctx.expect(np.all((raw == 0) | (raw == 1)) and np.all(raw.sum(axis=-1, dtype=int) == 1), 'category:one')
    ctx.expect(c.dimensions[:-1] == arr.dimensions, 'category:units')
    idx = raw.argmax(axis=-1)
    m = float(np.abs(x.astype(float)).max())
    scaled = x.astype(float) / m if normalize and m > 0 else x.astype(float)
    order = np.argsort(x.ravel(), kind='stable')
    ctx.expect(np.all(np.diff(idx.ravel()[order]) >= 0), 'category:monotone')
    lv = levels(scaled, mu)
    ctx.expect(np.all(np.abs(idx - lv) <= 1 + 1e-3), 'category:level', float(np.abs(idx - lv).max()))
    back = inverse_categorical(c, mu=mu)
    ctx.eq(back.shape, x.shape, 'category:inverse-shape')
    ctx.expect(isinstance(back, ArrayWithUnits) and back.dimensions == arr.dimensions, 'category:units')
    b = np.asarray(back).astype(float)
    ctx.finite(b, 'category:inverse')
    ctx.expect(np.all(np.abs(b) <= 1 + 1e-5), 'category:inverse', 'range')
    # within a step of the companded scale
    ctx.expect(np.all(np.abs(levels(b, mu) - lv) <= 1.01), 'category:inverse', float(np.abs(levels(b, mu) - lv).max()))
    # coding what was decoded does not drift by more than another step
    again = np.asarray(categorical(units(ctx, b), mu=mu, normalize=False)).argmax(axis=-1)
    ctx.expect(np.all(np.abs(again - idx) <= 1), 'category:stable')


@CHECK.family(120, 1500, need=['onehot'])
def one_hot(ctx):
    """the middle of the range is zero, and the active unit's position maps linearly onto minus one to one"""
    shape = tuple(ctx.integer(1, 9) for _ in range(ctx.integer(1, 3)))
    axis = ctx.integer(-len(shape), len(shape) - 1)
    n = shape[axis]
    rest = shape[:axis % len(shape)] + shape[axis % len(shape) + 1:]
    idx = ctx.rng.integers(0, n, rest)
    x = np.moveaxis(np.eye(n)[idx], -1, axis % len(shape))
    soft = ctx.coin()
    if soft:
        x = x + ctx.rng.uniform(0, .9, x.shape)
        x = np.where(np.moveaxis(np.eye(n)[idx], -1, axis % len(shape)) == 1, 2., x)
    keep = x.copy()
    ctx.say('%s axis=%d%s' % (shape, axis, ' soft' if soft else ''))
    got = inverse_one_hot(x, axis=axis)
    ctx.expect(np.array_equal(x, keep), 'onehot:unmodified')
    ctx.eq(np.shape(got), rest, 'onehot')
    ctx.close(np.asarray(got), idx * 2. / n - 1, 'onehot', rtol=1e-5, atol=1e-6)
