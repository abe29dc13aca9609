"""workload generators shared by the checks (everything is drawn from ctx.rng)"""
import math
from fractions import Fraction

import numpy as np
import zounds as z
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.spectral import (
    FrequencyBand, FrequencyDimension, LinearScale, GeometricScale, ExplicitScale,
    BarkScale, MelScale, Hertz, ExplicitFrequencyDimension)
from zounds.timeseries import (
    TimeDimension, TimeSlice, Picoseconds, Nanoseconds, Microseconds, Milliseconds,
    Seconds, SR96000, SR48000, SR44100, SR22050, SR16000, SR11025)

RATES = [SR96000, SR48000, SR44100, SR22050, SR16000, SR11025]
PS = {'s': 10 ** 12, 'ms': 10 ** 9, 'us': 10 ** 6, 'ns': 10 ** 3, 'ps': 1}
UNITS = [('s', Seconds), ('ms', Milliseconds), ('us', Microseconds),
         ('ns', Nanoseconds), ('ps', Picoseconds)]


def ps(td):
    """exact picoseconds of a timedelta64, by integer arithmetic only"""
    unit, mult = np.datetime_data(td.dtype)
    n = int(td.astype(np.int64))
    scale = dict(PS, m=60 * 10 ** 12, h=3600 * 10 ** 12, fs=Fraction(1, 1000))
    scale['as'] = Fraction(1, 10 ** 6)
    return n * mult * scale[unit]


def exact(ctx, picos):
    """the same duration in a randomly chosen unit that represents it exactly"""
    opts = [(u, c) for u, c in UNITS if picos % PS[u] == 0]
    u, c = ctx.choice(opts)
    return c(picos // PS[u])


def samplerate(ctx):
    return ctx.choice(RATES)()


def time_dim(ctx, kind=None):
    """TimeDimension with a varied rate; duration >= frequency"""
    kind = kind or ctx.choice(['audio', 'window', 'sec', 'ms', 'odd', 'overlap'])
    if kind == 'audio':
        return TimeDimension(*samplerate(ctx))
    if kind == 'window':
        sr = samplerate(ctx)
        step = ctx.integer(1, 600)
        return TimeDimension(sr.frequency * step, sr.frequency * (step + ctx.integer(0, 900)))
    if kind == 'sec':
        return TimeDimension(Seconds(ctx.integer(1, 3)))
    if kind == 'ms':
        return TimeDimension(Milliseconds(ctx.integer(1, 500)))
    if kind == 'odd':
        return TimeDimension(Picoseconds(ctx.integer(10 ** 6, 10 ** 12)))
    f = ctx.integer(1, 999)
    return TimeDimension(Milliseconds(f), Milliseconds(f * ctx.integer(1, 4) + ctx.integer(0, f)))


def scale(ctx, n=None, kinds=('linear', 'geometric', 'explicit', 'bark', 'mel')):
    n = n or ctx.integer(2, 40)
    kind = ctx.choice(kinds)
    lo = float(ctx.choice([0, 0, 20, 50.5, 123.25, 400]))
    hi = lo + float(ctx.choice([100, 1000, 4000.5, 11025, 22050]))
    if kind == 'linear':
        return LinearScale(FrequencyBand(lo, hi), n)
    if kind == 'geometric':
        return GeometricScale(max(lo, 20.), hi + 50, ctx.choice([0.01, 0.05, 0.2, 0.5]), n)
    if kind == 'explicit':
        starts = np.cumsum(ctx.rng.uniform(5, 100, n))
        widths = np.cumsum(ctx.rng.uniform(1, 60, n)) / 2 + 5
        return ExplicitScale([FrequencyBand(float(s), float(s + w)) for s, w in zip(starts, widths)])
    if kind == 'bark':
        return BarkScale(FrequencyBand(max(lo, 100.), hi + 200), n)
    return MelScale(FrequencyBand(max(lo, 100.), hi + 200), n)


def bands_of(scale_):
    return [(float(b.start_hz), float(b.stop_hz)) for b in scale_]


def close_bands(a, b, rtol=1e-9):
    return len(a) == len(b) and all(
        math.isclose(x, y, rel_tol=rtol, abs_tol=1e-6)
        for p, q in zip(a, b) for x, y in zip(p, q))


# -- exact reference: what a time slice / frequency band selects --------------

def time_run(start_ps, stop_ps, freq, dur, n, tol=Fraction(1, 100)):
    """[lo, hi) bounds of the samples i (0<=i<n) that overlap [start, stop), where
    sample i covers [i*freq, i*freq+dur).  Returns ((lo_min, lo_max), (hi_min, hi_max)):
    the acceptable values given `tol` of a sample at the end and rounding noise."""
    lo_exact = Fraction(start_ps - dur, freq)          # first i > this
    hi_exact = Fraction(stop_ps, freq)                 # last i < this
    eps = Fraction(1, 10 ** 5)

    def first(x):
        return math.floor(x) + 1

    def last1(x):
        return math.ceil(x)
    clip = lambda v: max(0, min(n, v))
    los = sorted({clip(first(lo_exact - eps)), clip(first(lo_exact)), clip(first(lo_exact + eps))})
    his = sorted({clip(last1(hi_exact - tol)), clip(last1(hi_exact)), clip(last1(hi_exact + eps))})
    return los, his


def band_run(scale_, start, stop):
    """acceptable (lo, hi) bounds for the bands overlapping [start, stop]; a band that
    merely touches the query may or may not count"""
    bands = bands_of(scale_)
    eps = 1e-6
    over = [i for i, (a, b) in enumerate(bands) if a < stop - eps and b > start + eps]
    touch = [i for i, (a, b) in enumerate(bands) if a <= stop + eps and b >= start - eps]
    if not over:
        return None
    return (touch[0], over[0]), (over[-1] + 1, touch[-1] + 1)
