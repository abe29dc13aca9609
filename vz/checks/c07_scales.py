from ..core import Check
from ..gen import *
from zounds.spectral.frequencyscale import Bark, Mel, equivalent_rectangular_bandwidth
from zounds.spectral.frequencyscale import equivalent_rectangular_bandwidth

CHECK = Check(
    'C07', 'a case is one scale (type, range, band count, parameters) with its bands, several band queries '
           '(inside, straddling, outside, touching), slices, overlap and equality questions',
    technique='runtime monitor: bands and queries observed against independently computed bands')


def erb(c):
    return 0.108 * c + 24.7


def make(ctx):
    """(scale, kind, independent list of (start, stop), centres)"""
    n = ctx.choice([1, 2, 3, ctx.integer(1, 60), ctx.integer(60, 400)])
    lo = float(ctx.choice([0, 20, 50.5, 123.25, 400, ctx.rng.uniform(0, 2000)]))
    hi = lo + float(ctx.choice([40, 1000, 4000.5, 11025, 22050, ctx.rng.uniform(30, 20000)]))
    kind = ctx.choice(['linear', 'linear-int', 'linear-sr', 'geometric', 'explicit', 'bark', 'mel'])
    even = False
    if kind.startswith('linear'):
        even = ctx.coin(0.3)
        if kind == 'linear-int':
            lo, hi = int(lo), int(hi) + 1
        if kind == 'linear-sr':
            sr = samplerate(ctx)
            s = LinearScale.from_sample_rate(sr, n, always_even=even)
            lo, hi = 0, int(sr) // 2
        else:
            s = LinearScale(FrequencyBand(lo, hi), n, always_even=even)
        w = (hi - lo) / n
        want = [(lo + i * w, lo + (i + 1) * w) for i in range(n)]
    elif kind == 'geometric':
        even = ctx.coin(0.3)
        lo = max(lo, 10.)
        r = float(ctx.choice([0.01, 0.05, 0.25, 1.0, ctx.rng.uniform(0.001, 1.5)]))
        hi = hi + 20
        s = GeometricScale(lo, hi, r, n, always_even=even)
        cs = [lo * (hi / lo) ** (i / (n - 1.)) for i in range(n)] if n > 1 else [lo]
        want = [(c - c * r / 2, c + c * r / 2) for c in cs]
    elif kind == 'explicit':
        st = np.cumsum(ctx.rng.uniform(1, 200, n))
        en = np.maximum.accumulate(st + ctx.rng.uniform(1, 300, n))
        en += np.arange(n) * 1e-3
        want = [(float(a), float(b)) for a, b in zip(st, en)]
        s = ExplicitScale([FrequencyBand(a, b) for a, b in want] if ctx.coin()
                          else (FrequencyBand(a, b) for a, b in want))
    else:
        lo = max(lo, 30.)
        hi = hi + 40
        if kind == 'bark':
            f, g = (lambda x: 6 * math.asinh(x / 600.)), (lambda x: 600 * math.sinh(x / 6.))
            s = BarkScale(FrequencyBand(lo, hi), n)
        else:
            f, g = (lambda x: 1127 * math.log1p(x / 700.)), (lambda x: 700 * math.expm1(x / 1127.))
            s = MelScale(FrequencyBand(lo, hi), n)
        cs = [g(x) for x in np.linspace(f(lo), f(hi), n)]
        want = [(c - erb(c) / 2, c + erb(c) / 2) for c in cs]
    return s, kind, want, lo, hi, even


@CHECK.family(900, 15000, need=['bands', 'centres', 'quality', 'range', 'run', 'run-hz', 'band-index',
                                'int-index', 'slice-index', 'overlap-ratio', 'even', 'iter'])
def scales(ctx):
    s, kind, want, lo, hi, even = make(ctx)
    n = len(want)
    ctx.say(kind, lo, hi, n, even)
    ctx.expect(len(s) == n and s.n_bands == n and len(list(s)) == n and len(s.bands) == n, 'bands', len(s), n)
    ctx.expect(close_bands(bands_of(s), want), 'bands', kind, bands_of(s)[:4], want[:4])
    centres = list(s.center_frequencies)
    ctx.close(centres, [(a + b) / 2 for a, b in want], 'centres', rtol=1e-9, atol=1e-6)
    ctx.expect(all(a < b for a, b in zip(centres, centres[1:])), 'centres', 'increasing')
    tol = 1e-6 * (hi + 1)
    if kind != 'explicit':
        ctx.expect(centres[0] >= lo - tol and centres[-1] <= hi + tol, 'centres', 'in range', centres[0], centres[-1])
    ctx.close(list(s.bandwidths), [b - a for a, b in want], 'widths', rtol=1e-7, atol=1e-6)
    ctx.close(s.band_starts, [a for a, _ in want], 'starts', rtol=1e-9, atol=1e-6)
    ctx.close(s.band_stops, [b for _, b in want], 'stops', rtol=1e-9, atol=1e-6)
    ctx.close(s.Q, [(a + b) / 2 / (b - a) for a, b in want], 'quality', rtol=1e-6)
    if kind in ('bark', 'mel'):
        ctx.expect((s.start_hz, s.stop_hz) == (lo, hi), 'range', s.start_hz, s.stop_hz)
    else:
        ctx.close((s.start_hz, s.stop_hz), (want[0][0], want[-1][1]), 'range', rtol=1e-9, atol=1e-6)
    # iteration is repeatable
    ctx.expect(list(s) == list(s) == [s[i] for i in range(n)], 'iter')
    repr(s)

    a0, b0 = want[0][0], want[-1][1]
    for _ in range(8):
        k = ctx.choice(['any', 'inside', 'edge', 'outside', 'straddle', 'narrow'])
        if k == 'any':
            a, b = sorted(ctx.rng.uniform(a0 - 100, b0 + 100, 2))
        elif k == 'inside':
            i = ctx.integer(0, n - 1)
            x, y = want[i]
            a, b = sorted(ctx.rng.uniform(x, y, 2))
        elif k == 'edge':
            i, j = sorted((ctx.integer(0, n - 1), ctx.integer(0, n - 1)))
            a, b = want[i][ctx.integer(0, 1)], want[j][1]
        elif k == 'outside':
            a, b = (b0 + 1, b0 + 50) if ctx.coin() else (a0 - 60, a0 - 1)
        elif k == 'straddle':
            a, b = (a0 - 50, ctx.rng.uniform(a0, b0)) if ctx.coin() else (ctx.rng.uniform(a0, b0), b0 + 50)
        else:
            a = ctx.rng.uniform(a0, b0)
            b = a + 0.01
        a, b = float(a), float(b)
        if b - a < 1e-3:
            continue
        run = band_run(s, a, b)
        got = s.get_slice(FrequencyBand(a, b))
        g = range(n)[got]
        if run is None:
            if not even:
                touch = [i for i, (x, y) in enumerate(want) if x <= b + 1e-6 and y >= a - 1e-6]
                ctx.expect(len(g) == 0 or set(g) <= set(touch), 'run-empty', a, b, got)
            continue
        (l0, l1), (h0, h1) = run
        if even:
            ctx.expect((got.stop - got.start) % 2 == 0, 'even', got)
            if n > 1 and not (len(g) == n):
                ctx.expect(len(g) % 2 == 0, 'even', 'actual bands selected', got, n)
            ctx.expect(g.start <= l1 and g.stop >= h0 and g.start >= l0 - 1 and g.stop <= h1 + 1 and
                       len(g) <= h1 - l0 + 1, 'even', 'covers', a, b, got, run)
        else:
            ctx.expect(l0 <= got.start <= l1 and h0 <= got.stop <= h1, 'run', kind, (a, b), got, run,
                       want[max(0, l0 - 1):h1 + 1][:5])
            sub = s[FrequencyBand(a, b)]
            ctx.expect(close_bands(bands_of(sub), want[got]), 'band-index', (a, b), bands_of(sub)[:3], want[got][:3])
        if a >= 0:
            q = s.get_slice(slice(Hertz(a), Hertz(b)))
            ctx.expect(q == got, 'run-hz', a, b, q, got)
            if b <= s.stop_hz:
                ctx.expect(s.get_slice(slice(None, Hertz(b))) == s.get_slice(FrequencyBand(min(0., a - 1), b)) or
                           a0 < 0, 'run-hz', 'open start', b)
            if a < s.stop_hz - 1e-3:
                ctx.expect(s.get_slice(slice(Hertz(a), None)) == s.get_slice(FrequencyBand(a, s.stop_hz)),
                           'run-hz', 'open stop', a)
                if a > 1e-3:
                    ctx.expect(s.get_slice(slice(Hertz(-a), None)) ==
                               s.get_slice(FrequencyBand(s.stop_hz - a, s.stop_hz)), 'run-hz', 'negative start', a)
    i = ctx.integer(-n, n - 1)
    ctx.expect(isinstance(s[i], FrequencyBand) and close_bands([(s[i].start_hz, s[i].stop_hz)], [want[i]]), 'int-index', i)
    i, j = sorted((ctx.integer(0, n - 1), ctx.integer(1, n)))
    j = max(i + 1, j)
    sub = s[i:j]
    ctx.expect(len(sub) == j - i and close_bands(bands_of(sub), want[i:j]), 'slice-index', kind, i, j,
               bands_of(sub)[:3], want[i:j][:3])
    x = ctx.integer(1, n)
    ctx.expect(close_bands(bands_of(s[-x:]), want[-x:]) and close_bands(bands_of(s[:x]), want[:x]) and
               close_bands(bands_of(s[:]), want), 'slice-index', 'open', x)
    # a slice of a slice
    if j - i > 1:
        y = ctx.integer(0, j - i - 1)
        ctx.expect(close_bands(bands_of(sub[y:]), want[i + y:j]), 'slice-index', 'twice')

    ratios = []
    for (p, q), (u, v) in zip(want, want[1:]):
        ratios.append(max(0., min(q, v) - max(p, u)) / (q - p))
    low = min(ratios) if ratios else 1.
    for need in (0.5, low * 0.99 - 1e-6, low * 1.01 + 1e-6, float(ctx.rng.uniform(0, 1))):
        if abs(need - low) < 1e-7 or need < 0:
            continue
        try:
            s.ensure_overlap_ratio(need)
            ok = True
        except AssertionError:
            ok = False
        ctx.expect(ok == (low >= need or n == 1), 'overlap-ratio', kind, 'min', low, 'required', need, 'accepted', ok)


@CHECK.family(600, 8000, need=['equal', 'not-equal'])
def equality(ctx):
    n = ctx.integer(2, 30)
    s = scale(ctx, n)
    ctx.say('equality', s)
    bands = list(s)
    kinds = {LinearScale: lambda lo, hi, n: LinearScale(FrequencyBand(lo, hi), n),
             BarkScale: lambda lo, hi, n: BarkScale(FrequencyBand(lo, hi), n),
             MelScale: lambda lo, hi, n: MelScale(FrequencyBand(lo, hi), n)}
    t = type(s)
    lo, hi = s.frequency_band.start_hz, s.frequency_band.stop_hz
    if t in kinds:
        ctx.expect(s == kinds[t](lo, hi, n), 'equal')
        for other in (kinds[t](lo + 0.5, hi, n), kinds[t](lo, hi + 0.5, n), kinds[t](lo, hi, n + 1)):
            ctx.expect(not (s == other), 'not-equal', s, other)
    elif t is GeometricScale:
        a = (s.start_center_hz, s.stop_center_hz, s.bandwidth_ratio, n)
        ctx.expect(s == GeometricScale(*a), 'equal')
        for k in range(4):
            b = list(a)
            b[k] = b[k] + (1 if k == 3 else 0.5 if k < 2 else 0.01)
            ctx.expect(not (s == GeometricScale(*b)), 'not-equal', a, b)
    else:
        ctx.expect(s == ExplicitScale(list(s)), 'equal')
    band = ctx.choice(bands)
    for stranger in (ctx.choice([None, 1, 'x', (band.start_hz, band.stop_hz), slice(1, 2)]), FrequencyBand(band.start_hz, band.stop_hz + .5)):
        ctx.expect(not (band == stranger) and band != stranger and not (stranger == band), 'not-equal', band, stranger)
    e = ExplicitScale(bands)
    ctx.expect(e == ExplicitScale([FrequencyBand(*b) for b in bands_of(s)]), 'equal')
    i = ctx.integer(0, n - 1)
    moved = list(bands)
    moved[i] = FrequencyBand(bands[i].start_hz - ctx.choice([0, 0.25]), bands[i].stop_hz + 0.25)
    ctx.expect(not (e == ExplicitScale(moved)), 'not-equal', i)
    ctx.expect(not (e == ExplicitScale(bands[:-1])) and not (ExplicitScale(bands[:-1]) == e), 'not-equal', 'length')
    d1, d2 = FrequencyDimension(s), FrequencyDimension(ExplicitScale(moved))
    ctx.expect(d1 == d1.copy() and not (FrequencyDimension(e) == d2), 'not-equal', 'dimension')


@CHECK.family(60, 1500, need=['side by side'])
def side_by_side(ctx):
    """scales of every kind over one range and with as many bands, used in turns, are no one's but their own"""
    n = ctx.integer(2, 40)
    lo, hi = float(ctx.integer(30, 500)), float(ctx.integer(2000, 15000))
    band = FrequencyBand(lo, hi)
    ratio = float(np.round(ctx.rng.uniform(.05, 1), 2))
    centred = {}
    for name, f, g in [('bark', lambda x: 6 * math.asinh(x / 600.), lambda x: 600 * math.sinh(x / 6.)),
                       ('mel', lambda x: 1127 * math.log1p(x / 700.), lambda x: 700 * math.expm1(x / 1127.))]:
        centred[name] = [(c - erb(c) / 2, c + erb(c) / 2) for c in (g(x) for x in np.linspace(f(lo), f(hi), n))]
    w = (hi - lo) / n
    linear = [(lo + i * w, lo + (i + 1) * w) for i in range(n)]
    cs = [lo * (hi / lo) ** (i / (n - 1.)) for i in range(n)]

    def geometric(r):
        return [(c - c * r / 2, c + c * r / 2) for c in cs]

    st = lo + np.arange(n) * w * .9
    explicit = [(float(a), float(a + w * 1.5)) for a in st]
    makers = [(lambda: LinearScale(band, n), linear), (lambda: LinearScale(FrequencyBand(lo, hi), n, always_even=True), linear),
              (lambda: BarkScale(band, n), centred['bark']), (lambda: MelScale(band, n), centred['mel']),
              (lambda: GeometricScale(lo, hi, ratio, n), geometric(ratio)),
              (lambda: GeometricScale(lo, hi, ratio / 2, n), geometric(ratio / 2)),
              (lambda: ExplicitScale([FrequencyBand(*b) for b in explicit]), explicit)]
    ctx.say(lo, hi, n)
    made = [(makers[i][0](), makers[i][1]) for i in ctx.rng.permutation(len(makers))]
    for _ in range(2):
        for i in ctx.rng.permutation(len(made)):
            s, want = made[i]
            ctx.expect(close_bands(bands_of(s), want), 'side by side', type(s).__name__, bands_of(s)[:3], want[:3])
            ctx.close(list(s.center_frequencies), [(a + b) / 2 for a, b in want], 'side by side', type(s).__name__, rtol=1e-9, atol=1e-6)
            ctx.close(list(s.bandwidths), [b - a for a, b in want], 'side by side', type(s).__name__, rtol=1e-7, atol=1e-6)
            k = ctx.integer(0, n - 1)
            a, b = sorted(ctx.rng.uniform(lo, hi, 2))
            if b - a > 1e-3:
                run = band_run(s, float(a), float(b))
                got = s.get_slice(FrequencyBand(float(a), float(b)))
                if run is not None and not getattr(s, 'always_even', False):
                    (l0, l1), (h0, h1) = run
                    ctx.expect(l0 <= got.start <= l1 and h0 <= got.stop <= h1, 'side by side', type(s).__name__, (a, b), got, run)
    for i, (s, _) in enumerate(made):
        for t, _ in made[i + 1:]:
            if type(s) is not type(t):
                ctx.expect(not (FrequencyDimension(s) == FrequencyDimension(t)), 'side by side', 'equal', s, t)
    ctx.count('side by side')


@CHECK.family(500, 6000, need=['band'])
def bands(ctx):
    a = float(ctx.rng.uniform(-100, 20000))
    w = float(ctx.rng.uniform(0.01, 5000))
    ctx.say('band', a, w)
    b = FrequencyBand(a, a + w)
    ctx.close((b.bandwidth, b.center_frequency), (w, a + w / 2), 'band')
    for c in (FrequencyBand.from_start(a, w), FrequencyBand.from_center(a + w / 2, w)):
        ctx.close((c.start_hz, c.stop_hz), (a, a + w), 'band', rtol=1e-9, atol=1e-6)
    ctx.expect(b == FrequencyBand(a, a + w) and hash(b) == hash(FrequencyBand(a, a + w)) and
               not (b == FrequencyBand(a, a + w + 1)) and not (b == FrequencyBand(a - 1, a + w)), 'band', 'equality')
    c = FrequencyBand(a + float(ctx.rng.uniform(-1.5, 1.5)) * w, a + 3 * w)
    lo, hi = max(a, c.start_hz), min(a + w, c.stop_hz)
    if hi > lo:
        for x, y in ((b, c), (c, b)):
            i = x.intersect(y)
            ctx.close((i.start_hz, i.stop_hz), (lo, hi), 'band', 'intersection')
            ctx.close(x.intersection_ratio(y), (hi - lo) / (x.stop_hz - x.start_hz), 'band', 'ratio', rtol=1e-6)
    else:
        ctx.raises(lambda: b.intersect(c), 'band', 'disjoint', types=ValueError)
    ctx.raises(lambda: FrequencyBand(a, a - w), 'band', types=ValueError)
    ctx.raises(lambda: FrequencyBand(a, a), 'band', types=ValueError)
    sr = samplerate(ctx)
    r = FrequencyBand.audible_range(sr)
    ctx.expect((float(r.start_hz), float(r.stop_hz)) == (20., int(sr) // 2), 'band', 'audible')
    hz = float(ctx.rng.uniform(0.1, 20000))
    ctx.close(Bark.to_hz(Bark.to_bark(hz)), hz, 'conversion')
    ctx.close(Bark.to_bark(hz), 6 * math.asinh(hz / 600), 'conversion')
    ctx.close(Mel.to_hz(Mel.to_mel(hz)), hz, 'conversion')
    ctx.close(Mel.to_mel(hz), 1127 * math.log1p(hz / 700), 'conversion')
    ctx.close(float(Bark(Bark.to_bark(hz))), hz, 'conversion')
    ctx.close(float(Mel(Mel.to_mel(hz))), hz, 'conversion')
    h = Hertz(hz)
    ctx.close((float(-h), float(h + 5), float(h + Hertz(7)), float(Hertz(h))), (-hz, hz + 5, hz + 7, hz), 'conversion')


@CHECK.family(300, 4000, need=['apply'])
def applied(ctx):
    """pooling a linear spectrum by a scale sums the coefficients each band overlaps"""
    n = ctx.integer(20, 200)
    sr = samplerate(ctx)
    lin = LinearScale.from_sample_rate(sr, n)
    nyq = int(sr) // 2
    kind = ctx.choice(['bark', 'mel', 'geometric', 'explicit'])
    m = ctx.integer(1, 20)
    band = FrequencyBand(float(ctx.rng.uniform(30, 200)), float(ctx.rng.uniform(nyq * 0.4, nyq * 0.9)))
    if kind == 'explicit':
        st = np.sort(ctx.rng.uniform(10, nyq * 0.7, m)) + np.arange(m)
        s = ExplicitScale([FrequencyBand(float(x), float(x) + nyq * 0.2) for x in st])
    else:
        s = dict(bark=lambda: BarkScale(band, m), mel=lambda: MelScale(band, m),
                 geometric=lambda: GeometricScale(band.start_hz, band.stop_hz, 0.2, m))[kind]()
    shape = ctx.choice([(n,), (5, n), (1, n)])
    tf = ArrayWithUnits(ctx.rng.uniform(0, 1, shape), [IdentityDimension()] * (len(shape) - 1) + [FrequencyDimension(lin)])
    window = ctx.choice([1., 0.5, 'hann'])
    ctx.say('apply', kind, m, n, shape, window)
    if window == 'hann':
        window = z.HanningWindowingFunc()
    out = np.asarray(s.apply(tf, window))
    ctx.expect(out.shape == shape[:-1] + (m,), 'apply', out.shape)
    raw = np.asarray(tf)
    for i, (a, b) in enumerate(bands_of(s)):
        run = band_run(lin, a, b)
        if run is None:
            continue
        (l0, l1), (h0, h1) = run
        cands = []
        for lo in range(l0, l1 + 1):
            for hi in range(h0, h1 + 1):
                k = hi - lo
                w = np.hanning(k) if not isinstance(window, float) else np.full(k, window)
                cands.append((raw[..., lo:hi] * w).sum(axis=-1))
        ctx.expect(any(np.allclose(out[..., i], c, rtol=1e-6, atol=1e-8) for c in cands), 'apply', i, (a, b),
                   out[..., i], cands[0])
