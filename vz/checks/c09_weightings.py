from ..core import Check
from ..gen import *
from ..nodes import run, chunked
import zounds as z
from zounds.spectral import FrequencyAdaptive
from zounds.spectral.weighting import FrequencyWeighting, AWeighting

CHECK = Check(
    'C09', 'a case is one array (frequency axis of any scale at any position, plain, explicit or frequency-adaptive) '
           'multiplied and divided by a weighting on either side',
    technique='runtime monitor: weighted arrays observed against independently computed per-band weights')


def a_weight_db(f):
    f2 = f * f
    ra = (12194. ** 2 * f2 * f2) / ((f2 + 20.6 ** 2) * math.sqrt((f2 + 107.7 ** 2) * (f2 + 737.9 ** 2)) * (f2 + 12194. ** 2))
    return 20 * math.log10(ra) + 2.0


class Ramp(FrequencyWeighting):
    """a weighting of the harness: band centre in kHz, plus one"""

    def _wdata(self, scale):
        return 1 + np.array([b.center_frequency for b in scale]) / 1000.


def expected(w, scale_):
    c = [(a + b) / 2 for a, b in bands_of(scale_)]
    if isinstance(w, Ramp):
        return np.array([1 + x / 1000. for x in c])
    if isinstance(w, AWeighting):
        db = np.array([a_weight_db(x) for x in c])
        return 1 + db - db.min()
    return np.ones(len(c))


def audible(ctx, n):
    s = scale(ctx, n)
    while min(b.center_frequency for b in s) <= 1:
        s = scale(ctx, n)
    return s


def sibling(ctx, s):
    """another scale with the first and last band of this one, as many bands, or the same class"""
    b = list(s)
    if len(b) > 2 and ctx.coin(.7):
        lo, hi = b[0].start_hz, b[-1].stop_hz
        for i in range(1, len(b) - 1):
            x = np.sort(ctx.rng.uniform(lo, hi, 2))
            if x[1] - x[0] > 1e-3 * hi:
                b[i] = FrequencyBand(float(x[0]), float(x[1]))
        return ExplicitScale(b)
    n = len(b)
    o = audible(ctx, n)
    return o if len(o) > 1 else s


def make(ctx):
    kind = ctx.choice(['plain', 'plain', 'adaptive', 'explicit'])
    n = ctx.integer(2, 12)
    s = audible(ctx, n)
    td = time_dim(ctx)
    if kind == 'plain':
        ndim = ctx.integer(1, 4)
        ax = ctx.integer(0, ndim - 1)
        shape = [ctx.integer(1, 6) for _ in range(ndim)]
        shape[ax] = len(s)
        dims = [ctx.choice([IdentityDimension(), td]) for _ in range(ndim)]
        dims[ax] = FrequencyDimension(s)
        raw = ctx.rng.normal(0, 1, shape).astype(ctx.choice([np.float64, np.float32]))
        return ArrayWithUnits(raw.copy(), dims), raw, s, ax, [slice(i, i + 1) for i in range(len(s))]
    widths = [ctx.integer(1, 6) for _ in range(len(s))]
    stops = np.cumsum(widths)
    slices = [slice(int(b - a), int(b)) for a, b in zip(widths, stops)]
    rows = ctx.integer(1, 5)
    raw = ctx.rng.normal(0, 1, (rows, int(stops[-1])))
    if kind == 'adaptive':
        arr = FrequencyAdaptive([raw[:, x].copy() for x in slices], td, s)
        if ctx.coin(0.4) and len(s) > 2:
            # a band-sliced frequency-adaptive array
            i = ctx.integer(1, len(s) - 2)
            sub = arr[:, s[i]]
            return sub, raw[:, slices[i]], s[i:i + 1], 1, [slice(0, widths[i])]
        return arr, raw, s, 1, slices
    dim = ExplicitFrequencyDimension(s, slices)
    ax = ctx.integer(0, 1)
    raw = np.ascontiguousarray(raw if ax == 1 else raw.T)
    return ArrayWithUnits(raw.copy(), [td, dim] if ax == 1 else [dim, td]), raw, s, ax, slices


@CHECK.family(1500, 20000, need=['multiply', 'commute', 'invert', 'divide', 'metadata', 'pure', 'refused', 'node'])
def weighting(ctx):
    arr, raw, s, ax, slices = make(ctx)
    w = ctx.choice([AWeighting, AWeighting, Ramp, FrequencyWeighting])()
    ctx.say(type(w).__name__, type(arr).__name__, raw.shape, ax, s)
    f = expected(w, s)
    cols = np.ones(raw.shape[ax])
    for x, sl in zip(f, slices):
        cols[sl] = x
    shp = [1] * raw.ndim
    shp[ax] = -1
    full = raw * cols.reshape(shp)
    tol = dict(rtol=2e-3 if isinstance(w, AWeighting) else 1e-5, atol=2e-2 * (np.abs(raw).max() + 1e-9)
               if isinstance(w, AWeighting) else 1e-6)
    left, right = arr * w, w * arr
    ctx.close(np.asarray(left), full, 'multiply', 'axis', ax, **tol)
    ctx.close(np.asarray(right), np.asarray(left), 'commute', rtol=1e-9)
    ctx.close(np.asarray(left / w), raw, 'invert', rtol=1e-4, atol=1e-6)
    d = arr / w
    ctx.close(np.asarray(d), raw / cols.reshape(shp), 'divide', **tol)
    ctx.close(np.asarray(d * w), raw, 'invert', 'divide then multiply', rtol=1e-4, atol=1e-6)
    # as a node of a graph, chunk by chunk
    outs = run(lambda src: [z.FrequencyWeighting(weighting=w, needs=src)], chunked(ctx, arr, most=3) if ax else [arr])
    ctx.eq(np.asarray(ArrayWithUnits.concat(outs)), np.asarray(left), 'node')
    ctx.expect(all(isinstance(o, ArrayWithUnits) and o.dimensions[ax].scale == arr.dimensions[ax].scale for o in outs), 'node')
    for r in (left, right, d):
        ctx.expect(isinstance(r, ArrayWithUnits) and r.shape == raw.shape and
                   all(a is b or a == b for a, b in zip(r.dimensions, arr.dimensions)) and
                   len(r.dimensions) == raw.ndim, 'metadata', type(r), getattr(r, 'dimensions', None))
    ctx.eq(np.asarray(arr), raw, 'pure', 'weighting changed its input')
    # one weighting object serves any number of arrays
    again = arr * w
    ctx.eq(np.asarray(again), np.asarray(left), 'stateless')
    # ... whatever their scales have in common
    other = sibling(ctx, s)
    o = ctx.rng.normal(0, 1, (2, len(other)))
    ctx.close(np.asarray(ArrayWithUnits(o.copy(), [time_dim(ctx), FrequencyDimension(other)]) * w), o * expected(w, other),
              'stateless', 'another scale', rtol=tol['rtol'], atol=2e-2 * np.abs(o).max())
    plain = ArrayWithUnits(np.ones((2, 3)), [time_dim(ctx), IdentityDimension()])
    ctx.raises(lambda: plain * w, 'refused', types=ValueError)
    ctx.raises(lambda: w * plain, 'refused', types=ValueError)
    ctx.raises(lambda: plain / w, 'refused', types=ValueError)


@CHECK.family(400, 5000, need=['curve', 'weights-of'])
def curve(ctx):
    """the A curve: differences between bands are those of the standard (in dB), the least is 1"""
    s = audible(ctx, ctx.integer(2, 60))
    ctx.say('curve', s)
    w = AWeighting().weights(s)
    c = [(a + b) / 2 for a, b in bands_of(s)]
    db = np.array([a_weight_db(x) for x in c])
    ctx.close(w, 1 + db - db.min(), 'curve', rtol=0, atol=0.05)
    ctx.close(w.min(), 1., 'curve')
    tf = ArrayWithUnits(np.ones((3, len(s))), [time_dim(ctx), FrequencyDimension(s)])
    ctx.eq(AWeighting().weights(tf), w, 'weights-of')
    # around 1 kHz the curve peaks near its reference and falls off at both extremes
    ref = ExplicitScale([FrequencyBand(x - 0.5, x + 0.5) for x in (20., 100., 1000., 2500., 15000., 19999.)])
    r = AWeighting().weights(ref)
    ctx.close(r - r[2], [-50.4, -19.1, 0, 1.3, -6.6 - 0.0, -9.3], 'curve', 'standard table', atol=0.8, rtol=0)
    ctx.expect(r[0] < r[1] < r[2] and r[5] < r[4] < r[3], 'curve', 'extremes', r)
