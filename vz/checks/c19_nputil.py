from ..core import Check
from ..gen import *
from zounds.nputil import (
    windowed, sliding_window, Growable, pad, safe_log, safe_unit_norm, norm_shape)

CHECK = Check(
    'C19', 'a case is one array (1-4 axes, any dtype, C / Fortran / strided / reversed layout) windowed, padded or normalised with random parameters, '
           'or one history of appends and extends on a growable array compared with a list',
    technique='runtime monitor: every element of the returned windows, leftovers and arrays observed against explicit element-by-element slicing; growable arrays against a list model')

DT = ['f8', 'f4', 'i4', 'u1', 'c16', '?', 'i8']


def array(ctx, shape, dt=None):
    dt = np.dtype(dt or ctx.choice(DT))
    raw = ctx.rng.integers(0, 200, shape)
    raw = (raw % 2).astype(dt) if dt.kind == 'b' else raw.astype(dt)
    k = ctx.choice(['c', 'c', 'f', 'strided', 'reversed'])
    if k == 'f':
        return np.asfortranarray(raw)
    if k == 'strided':
        big = np.zeros([2 * s for s in shape], dt)
        v = big[tuple(slice(None, None, 2) for _ in shape)]
        v[...] = raw
        return v
    if k == 'reversed':
        return raw[::-1]
    return raw


@CHECK.family(2000, 25000, need=['windows', 'leftover', 'padded', 'pad-covers', 'unmodified', 'refused'])
def windows(ctx):
    w = ctx.choice([1, 2, ctx.integer(1, 40)])
    s = ctx.choice([None, w, 1, ctx.integer(1, w), ctx.integer(1, 50)])
    l = ctx.choice([ctx.integer(1, w), w, w + 1, ctx.integer(1, 200), w + 3 * (s or w), w + 3 * (s or w) + 1])
    shape = (l,) + tuple(ctx.integer(1, 4) for _ in range(ctx.choice([0, 0, 1, 2])))
    a = array(ctx, shape)
    before = a.copy()
    ctx.say('windowed', a.dtype.str, shape, w, s)
    step = s or w
    kw = {} if s is None else dict(stepsize=s)
    left, out = windowed(a, w, **kw)
    if w == 1:
        # a window of one sample doesn't add an axis
        ctx.eq(out, before[::step], 'windows')
        ctx.expect(len(left) == 0, 'leftover')
    else:
        n = max(0, (l - w) // step + 1) if l >= w else 0
        want = np.array([before[i * step:i * step + w] for i in range(n)])
        if n:
            ctx.eq(out, want, 'windows')
        else:
            ctx.expect(len(out) == 0, 'windows', out.shape)
        ctx.eq(left, before[n * step:], 'leftover')
        left, out = windowed(a, w, dopad=True, **kw)
        ctx.expect(len(left) == 0, 'leftover', 'padding leaves nothing over')
        n = len(out)
        full = np.concatenate([before, np.zeros((n * step + w,) + shape[1:], a.dtype)])
        ctx.eq(out, np.array([full[i * step:i * step + w] for i in range(n)]), 'padded')
        # every sample that a window starting at a multiple of the step can hold is in one,
        # and no window starts after the end
        ctx.expect((n - 1) * step < l and (n * step >= l or (n - 1) * step + w >= l), 'pad-covers', n, l, w, step)
    ctx.expect(out.dtype == a.dtype, 'dtype', out.dtype)
    ctx.eq(a, before, 'unmodified')
    bad = ctx.integer(-3, 0)
    ctx.raises(lambda: windowed(a, bad), 'refused', types=ValueError)
    ctx.raises(lambda: windowed(a, w, bad), 'refused', types=ValueError)


@CHECK.family(1200, 15000, need=['sliding', 'sliding-flat', 'too-large', 'rank', 'unmodified'])
def sliding(ctx):
    nd = ctx.integer(1, 4)
    shape = tuple(ctx.integer(1, [60, 14, 8, 6][nd - 1]) for _ in range(nd))
    ws = tuple(ctx.integer(1, n) for n in shape)
    ss = ctx.choice([None, tuple(ctx.integer(1, n + 1) for n in shape)])
    a = array(ctx, shape)
    before = a.copy()
    step = ss or ws
    ctx.say('sliding', a.dtype.str, shape, ws, ss)
    counts = [(n - w) // s + 1 for n, w, s in zip(shape, ws, step)]
    want = np.zeros(tuple(counts) + ws, a.dtype)
    for pos in np.ndindex(*counts):
        want[pos] = before[tuple(slice(p * s, p * s + w) for p, s, w in zip(pos, step, ws))]
    if nd == 1 and ctx.coin():
        args = (ws[0],) if ss is None else (ws[0], ss[0])
    else:
        args = (ws,) if ss is None else (ws, ss)
    ctx.eq(sliding_window(a, *args, flatten=False), want, 'sliding')
    ctx.eq(sliding_window(a, *args), want.reshape((-1,) + ws), 'sliding-flat')
    ctx.eq(a, before, 'unmodified')
    k = ctx.integer(0, nd - 1)
    big = tuple(n + 1 if i == k else w for i, (n, w) in enumerate(zip(shape, ws)))
    ctx.raises(lambda: sliding_window(a, big), 'too-large', types=ValueError)
    ctx.raises(lambda: sliding_window(a, ws + (1,)), 'rank', types=ValueError)


@CHECK.family(800, 10000, need=['growable', 'sizes', 'chained'])
def growable(ctx):
    """against a list; the wrapped array may be empty, partly used, or exactly full"""
    item = tuple(ctx.integer(1, 4) for _ in range(ctx.choice([0, 0, 1, 2])))
    dt = ctx.choice(['f8', 'i4', 'u8', 'S5'])
    rate = ctx.choice([1, .25, .5, 2, 3.7])
    cap = ctx.choice([0, 1, ctx.integer(0, 20)])
    used = ctx.integer(0, cap)

    def items(n):
        raw = ctx.rng.integers(0, 9999, (n,) + item)
        return raw.astype(dt)
    start = items(cap)
    g = Growable(start.copy(), position=used, growth_rate=rate)
    if used == 0 and ctx.coin(.5) and rate == 1:
        g = Growable(start.copy())
    model = list(start[:used])
    ctx.say('growable', dt, item, cap, used, rate)
    for _ in range(ctx.integer(1, 30)):
        if ctx.coin():
            x = items(1)[0]
            r = g.append(x)
            model.append(x)
        else:
            n = ctx.choice([0, 1, ctx.integer(0, 5), ctx.integer(0, 80)])
            xs = items(n)
            r = g.extend(list(xs) if ctx.coin() and n else xs)
            model.extend(xs)
        ctx.expect(r is g, 'chained')
        ctx.expect(g.logical_size == len(model) and g.physical_size >= len(model) and len(g.data) == g.physical_size,
                   'sizes', g.logical_size, g.physical_size, len(model))
        got = g.logical_data
        ctx.eq(got, np.array(model, dtype=dt).reshape((len(model),) + item), 'growable')
    # adding items a few at a time seldom needs more memory
    grown, h = set(), Growable(items(1), growth_rate=rate)
    steps = ctx.integer(1, 400)
    for k in range(steps):
        if ctx.coin():
            h.append(items(1)[0])
        else:
            h.extend(items(1))
        grown.add(h.physical_size)
    most = 4 + 2 / rate + 2 * np.log(steps + 4) / np.log(1 + rate)
    ctx.expect(h.logical_size == steps and len(grown) <= most, 'seldom-grown', steps, len(grown), most)
    bad = ctx.choice([0, -1, -.5])
    ctx.raises(lambda: Growable(start, growth_rate=bad), 'rate-refused', types=ValueError)


@CHECK.family(1000, 12000, need=['pad', 'unit-norm', 'zero-stays', 'log', 'log-refused', 'shape'])
def helpers(ctx):
    shape = tuple(ctx.integer(1, 9) for _ in range(ctx.integer(1, 4)))
    a = array(ctx, shape)
    before = a.copy()
    ctx.say('helpers', a.dtype.str, shape)
    n = ctx.integer(0, 20)
    want = np.concatenate([before, np.zeros((max(0, n - len(a)),) + shape[1:], a.dtype)])
    got = pad(a, n)
    ctx.eq(got, want, 'pad')
    ctx.expect(got.dtype == a.dtype, 'pad', got.dtype)
    lst = before.tolist()
    got = pad(lst, n)
    ctx.expect(isinstance(got, list) and got == want.tolist(), 'pad', 'list', got)
    x = ctx.rng.normal(0, 10. ** ctx.integer(-6, 6), shape)
    if ctx.coin(.3):
        x = x + 1j * ctx.rng.normal(0, 1, shape)
    flat = x.reshape(-1, shape[-1])
    for i in range(len(flat)):
        if ctx.coin(.2):
            flat[i] = 0
    x = flat.reshape(shape)
    keep = x.copy()
    got = safe_unit_norm(x).reshape(-1, shape[-1])
    for g, o in zip(got, keep.reshape(-1, shape[-1])):
        norm = math.sqrt(float((np.abs(o) ** 2).sum()))
        if norm == 0:
            ctx.eq(np.abs(g), np.abs(o), 'zero-stays')
        else:
            ctx.close(g, o / norm, 'unit-norm', rtol=1e-9, atol=1e-12)
    ctx.eq(x, keep, 'unmodified')
    y = np.abs(ctx.rng.normal(0, 1, shape))
    y[ctx.rng.random(shape) < .2] = 0
    got = safe_log(y)
    ctx.finite(got, 'log')
    ctx.close(got, np.log(y + 1e-12), 'log')
    y.reshape(-1)[ctx.integer(0, y.size - 1)] = -ctx.rng.uniform(1e-12, 5)
    ctx.raises(lambda: safe_log(y), 'log-refused', types=ValueError)
    k = ctx.integer(0, 9)
    ctx.expect(norm_shape(k) == (k,) and norm_shape(list(shape)) == shape and norm_shape(shape) == shape and
               norm_shape(np.int64(k)) == (k,), 'shape')
    ctx.raises(lambda: norm_shape(None), 'shape', types=TypeError)
