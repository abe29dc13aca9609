"""C26: preprocessing pipelines against a step by step reference"""
import os
import copy

import featureflow as ff

from ..core import Check
from ..gen import *
from zounds.learn import KMeans, SklearnModel, WithComponents
from zounds.learn.preprocess import (
    AbsoluteValue, BasePreprocessor, Binarize, InstanceScaling, Log, MeanStdNormalization, MuLawCompressed, Multiply,
    PreprocessingPipeline, Reshape, Sharpen, SimHash, Slicer, UnitNorm, Weighted)
from zounds.spectral import AWeighting
from zounds.spectral import FrequencyAdaptive, FrequencyBand, FrequencyDimension, GeometricScale, LinearScale
from zounds.learn.util import simple_settings as simple_learning_settings
from zounds.util import simple_in_memory_settings

CHECK = Check(
    'C26',
    'Random chains of preprocessing steps are trained through a featureflow graph and read back from its store; what '
    'they do to further batches is compared with a reference that applies each step in turn with the parameters '
    'learned from the training data, forwards and backwards, whole and sliced, repeatedly and in any order.',
    technique='online reference-model monitor over random pipelines, batches and call histories',
    require=['pipelines', 'batches', 'inversions', 'restored exactly', 'sliced', 'degenerate batches',
             'frequency adaptive', 'units kept', 'not invertible'])


def column(v, like):
    return v.reshape(v.shape[:1] + (1,) * (like.ndim - 1))


class Model(object):
    """a fitted linear map, as scikit-learn would hand out"""

    def __init__(self, k):
        self.k = k

    def fit(self, x):
        self.mean = x.mean(axis=0)
        rng = np.random.RandomState(x.shape[1])
        q = np.linalg.qr(rng.normal(0, 1, (x.shape[1], x.shape[1])))[0]
        self.components_ = q[:self.k]
        return self

    def transform(self, x):
        return np.dot(x - self.mean, self.components_.T)

    def inverse_transform(self, x):
        return np.dot(x, self.components_) + self.mean


class Step(object):
    """`node` makes the graph's node, `fit` learns from training data, and the rest is what the step should do"""
    lossy = False
    inverts = True

    def fit(self, x):
        pass

    def learned(self, ctx, op):
        pass


class SMeanStd(Step):
    def node(self):
        return MeanStdNormalization, {}

    def fit(self, x):
        self.mean, self.std = x.mean(axis=0), x.std(axis=0)
        self.lossy = bool(np.any(self.std == 0))

    def forward(self, x):
        s = np.where(self.std == 0, 1, self.std)
        return (x - self.mean) / s, None

    def backward(self, y, _):
        return y * self.std + self.mean


class SUnitNorm(Step):
    def node(self):
        return UnitNorm, {}

    def forward(self, x):
        n = np.sqrt((np.abs(x).astype(np.float64).reshape((len(x), -1)) ** 2).sum(axis=1))
        return x / column(np.where(n == 0, 1, n), x), n

    def backward(self, y, n):
        return y * column(n, y)


class SInstance(Step):
    def __init__(self, m):
        self.m = m

    def node(self):
        return InstanceScaling, dict(max_value=self.m)

    def forward(self, x):
        n = np.abs(x).reshape((len(x), -1)).max(axis=1)
        return x * (self.m / column(np.where(n == 0, 1, n), x).astype(np.float64)), n

    def backward(self, y, n):
        return y * column(n, y) / self.m


class SMultiply(Step):
    def __init__(self, f):
        self.f = f

    def node(self):
        return Multiply, dict(factor=self.f)

    def forward(self, x):
        return x * self.f, None

    def backward(self, y, _):
        return y / self.f


class SWeighted(SMultiply):
    def node(self):
        return Weighted, dict(weighting=self.f)


class SLog(Step):
    def node(self):
        return Log, {}

    def forward(self, x):
        return np.sign(x) * np.log1p(np.abs(x)), None

    def backward(self, y, _):
        return np.sign(y) * np.expm1(np.abs(y))


class SMuLaw(Step):
    def node(self):
        return MuLawCompressed, {}

    def forward(self, x):
        return np.sign(x) * np.log1p(255. * np.abs(x)) / np.log1p(255.), None

    def backward(self, y, _):
        return np.sign(y) * (np.power(256., np.abs(y)) - 1) / 255.


class SCustom(Step):
    def __init__(self, inverts):
        self.inverts = inverts

    def node(self):
        return BasePreprocessor, dict(
            forward=lambda d: d * 2 + 1, backward=(lambda d: (d - 1) / 2) if self.inverts else None, name='Custom')

    def forward(self, x):
        return x * 2 + 1, None

    def backward(self, y, _):
        return (y - 1) / 2


class SReshape(Step):
    def __init__(self, shape):
        self.shape = shape

    def node(self):
        return Reshape, dict(new_shape=self.shape)

    def forward(self, x):
        return x.reshape((len(x),) + self.shape), x.shape

    def backward(self, y, shape):
        return y.reshape((len(y),) + shape[1:])


class SSlicer(Step):
    lossy = True

    def __init__(self, sl):
        self.sl = sl

    def node(self):
        return Slicer, dict(slicex=self.sl)

    def forward(self, x):
        return x[..., self.sl], x.shape

    def backward(self, y, shape):
        out = np.zeros((len(y),) + shape[1:], dtype=y.dtype)
        out[..., self.sl] = y
        return out


class SAbs(Step):
    inverts = False

    def node(self):
        return AbsoluteValue, {}

    def forward(self, x):
        if np.iscomplexobj(x):
            return np.hypot(x.real, x.imag), None
        return np.where(x < 0, -x, x), None


class SBinarize(Step):
    inverts = False

    def __init__(self, t):
        self.t = t

    def node(self):
        return Binarize, dict(threshold=self.t)

    def forward(self, x):
        return (x > self.t).astype(np.uint8), None


class SSharpen(Step):
    inverts = False

    def __init__(self, kernel):
        self.kernel = kernel

    def node(self):
        return Sharpen, dict(kernel=self.kernel)

    def forward(self, x):
        # each row, convolved with the kernel and cut to its middle
        k = self.kernel
        out = np.array([np.convolve(r, k, mode='full') for r in np.asarray(x, dtype=np.float64)])
        start = (len(k) - 1) // 2
        out = out[:, start: start + x.shape[1]]
        return np.where(out < 0, 0, out), None


class SKMeans(Step):
    lossy = True

    def __init__(self, k):
        self.k = k

    def node(self):
        return KMeans, dict(centroids=self.k)

    def learned(self, ctx, op):
        self.codebook = np.array(op.codebook)
        ctx.expect(0 < len(self.codebook) <= self.k, 'kmeans:size', len(self.codebook), self.k)

    def forward(self, x):
        d = ((x[:, None, :] - self.codebook[None]) ** 2).sum(axis=-1)
        out = np.zeros(d.shape, dtype=np.uint8)
        out[np.arange(len(x)), d.argmin(axis=1)] = 1
        return out, None

    def backward(self, y, _):
        return np.array([self.codebook[np.flatnonzero(r)[0]] for r in y]).reshape((len(y), -1))


class SSimHash(Step):
    inverts = False

    def __init__(self, bits):
        self.bits = bits

    def node(self):
        return SimHash, dict(bits=self.bits)

    def learned(self, ctx, op):
        self.planes = np.array(op.plane_vectors)
        ctx.eq(len(self.planes), self.bits, 'simhash:planes')

    def forward(self, x):
        return (np.dot(x.reshape((len(x), -1)), self.planes.T) > 0).astype(np.uint8), None


class SModel(Step):
    def __init__(self, k, components):
        self.k, self.components = k, components

    def node(self):
        return (WithComponents if self.components else SklearnModel), dict(model=Model(self.k))

    def fit(self, x):
        self.shape = x.shape[1:]
        self.model = Model(self.k).fit(x.reshape((len(x), -1)))
        self.lossy = self.components or self.k < x[0].size

    def forward(self, x):
        return np.dot(x.reshape((len(x), -1)) - self.model.mean, self.model.components_.T), None

    def backward(self, y, _):
        z = np.dot(y, self.model.components_)
        if not self.components:
            z = z + self.model.mean
        return z.reshape((len(y),) + self.shape)


def factors(ctx, n):
    out = []
    while n > 1 and len(out) < 3:
        f = ctx.choice([d for d in range(2, n + 1) if n % d == 0])
        out.append(f)
        n //= f
    return tuple(out + ([n] if n > 1 or not out else []))


def chain(ctx, shape, n, lossy, last):
    """up to n steps for examples of this shape"""
    steps = []
    for i in range(n):
        size = int(np.prod(shape))
        kinds = ['meanstd', 'unit', 'instance', 'multiply', 'weighted', 'log', 'mulaw', 'custom', 'reshape', 'model']
        if lossy:
            kinds += ['slicer', 'slicer', 'lossy-model']
        if last and i == n - 1:
            kinds = ['abs', 'binarize', 'simhash', 'custom!'] + (['kmeans', 'sharpen'] if len(shape) == 1 else [])
        k = ctx.choice(kinds)
        if k == 'meanstd':
            steps.append(SMeanStd())
        elif k == 'unit':
            steps.append(SUnitNorm())
        elif k == 'instance':
            steps.append(SInstance(ctx.choice([1, 2, 0.5, 50])))
        elif k == 'multiply':
            steps.append(SMultiply(ctx.choice([2, 0.5, -3, 0.1, 7])))
        elif k == 'weighted':
            steps.append(SWeighted(np.round(ctx.rng.uniform(0.25, 4, shape), 3)))
        elif k == 'log':
            steps.append(SLog())
        elif k == 'mulaw':
            # large values would overflow on the way back
            steps.append(SInstance(1))
            steps.append(SMuLaw())
        elif k in ('custom', 'custom!'):
            steps.append(SCustom(k == 'custom'))
        elif k == 'reshape':
            new = factors(ctx, size)
            steps.append(SReshape(new))
            shape = new
        elif k == 'model':
            steps.append(SModel(size, False))
            shape = (size,)
        elif k == 'lossy-model':
            m = ctx.integer(1, size)
            steps.append(SModel(m, ctx.coin()))
            shape = (m,)
        elif k == 'slicer':
            a = ctx.integer(0, shape[-1] - 1)
            b = ctx.integer(a + 1, shape[-1])
            step = ctx.choice([1, 1, 2])
            sl = slice(a, b, step)
            if ctx.coin(0.1) and shape[-1] > 1:
                sl = slice(None, -1)
            steps.append(SSlicer(sl))
            shape = shape[:-1] + (len(range(*sl.indices(shape[-1]))),)
        elif k == 'abs':
            steps.append(SAbs())
        elif k == 'binarize':
            steps.append(SBinarize(ctx.choice([0.5, 0, -0.25])))
        elif k == 'simhash':
            steps.append(SSimHash(ctx.choice([1, 7, 8, 64, 65])))
        elif k == 'kmeans':
            steps.append(SKMeans(ctx.integer(1, 5)))
        elif k == 'sharpen':
            steps.append(SSharpen(np.round(ctx.rng.normal(0, 1, ctx.integer(1, shape[0])), 2)))
    return steps


def train(ctx, steps, data):
    """the pipeline, through a graph whose store is read back"""
    base = dict()
    nodes, before = [], None
    for i, s in enumerate(steps):
        cls, kwargs = s.node()
        if before is not None:
            kwargs['needs'] = before
        before = ff.PickleFeature(cls, store=False, **kwargs)
        base['step%d' % i] = before
        nodes.append(before)
    base['pipeline'] = ff.PickleFeature(PreprocessingPipeline, needs=tuple(nodes), store=True)
    graph = type('Learned', (ff.BaseModel,), base)
    ctx.seed_global()
    if ctx.coin(.2):
        # kept in files, under the one id there is
        graph.__name__ = os.path.join(ctx.scratch(), 'Learned%d' % ctx.integer(0, 10 ** 9))
        cls = simple_learning_settings(graph)
        ctx.expect(not cls.exists(), 'stored', 'nothing learned yet')
        if ctx.coin(.3):
            cls.process(step0=data[::-1])       # learned once more below
            ctx.seed_global()
        cls.process(step0=data)
        ctx.expect(cls.exists(), 'stored')
        pipe = simple_learning_settings(graph)().pipeline
        ctx.count('pipelines in files')
    else:
        cls = simple_in_memory_settings(graph)
        _id = cls.process(step0=data)
        pipe = cls(_id).pipeline
    ctx.eq(len(pipe.processors), len(steps), 'steps')
    x = np.array(data)
    for s in steps:
        s.trained = None
    steps[0].trained = x
    for s, p in zip(steps, pipe.processors):
        s.fit(x)
        s.learned(ctx, p.op)
        x, _ = s.forward(x)
    ctx.count('pipelines')
    return pipe


class Expected(object):
    def __init__(self, steps, x):
        self.steps, self.x = steps, x
        self.extra, self.outs = [], []
        for s in steps:
            x, e = s.forward(x)
            self.extra.append(e)
            self.outs.append(x)
        self.y = x

    def inverse(self):
        y = self.y
        for s, e in list(zip(self.steps, self.extra))[::-1]:
            y = s.backward(y, e)
        return y


def batch(ctx, n, shape, kind, dtype):
    x = ctx.rng.normal(ctx.choice([0, 0.5, -2]), ctx.choice([0.1, 1, 3]), (n,) + shape)
    if dtype == 'int':
        x = np.round(x * 10).astype(np.int64)
    elif dtype == 'float32':
        x = x.astype(np.float32)
    return units(ctx, x, kind)


def units(ctx, x, kind):
    if kind == 'plain':
        return x
    dims = [TimeDimension(Picoseconds(ctx.integer(1, 10 ** 12)))] + [IdentityDimension() for _ in x.shape[1:]]
    if kind == 'frequency':
        dims[-1] = FrequencyDimension(LinearScale(FrequencyBand(20, 4000), x.shape[-1]))
    return ArrayWithUnits(x, dims)


def tol(dtype):
    return dict(rtol=2e-3, atol=2e-3) if dtype == 'float32' else dict(rtol=1e-7, atol=1e-7)


def shaken(x, seed, eps):
    """the same up to rounding error"""
    rng = np.random.RandomState(seed)
    return x * (1 + eps * rng.uniform(-1, 1, x.shape))


def knife_edge(steps, exp):
    """does the outcome hang on rounding error, as where a threshold or a zero is met within it?"""
    if any(isinstance(s, SMeanStd) and np.any(s.std < 1e-9 * (1 + np.abs(s.mean))) for s in steps):
        # what was learned may be all rounding error
        return True
    eps = 1e-6 if exp.x.dtype == np.float32 else 1e-12
    for seed in range(24):
        t, x = steps[0].trained, exp.x
        ok = []
        for i, s in enumerate(steps):
            s = copy.copy(s)
            x = shaken(x, seed, eps)
            if t is not None:
                t = shaken(t, seed + 10, eps)
                s.fit(t)
                t, _ = s.forward(t)
            x, e = s.forward(x)
            ok.append((s, e))
        if not np.allclose(x, exp.y, rtol=1e-4, atol=1e-4):
            return True
        y = x
        if all(s.inverts for s in steps):
            for s, e in ok[::-1]:
                y = s.backward(shaken(y, seed, eps), e)
            if not np.allclose(y, exp.inverse(), rtol=1e-4, atol=1e-4):
                return True
    return False


def judge(ctx, steps, exp, got, expected, key, *msg, **t):
    """compare, unless they differ and rounding error may be why"""
    if got.shape == expected.shape and not np.allclose(got, expected, **t) and knife_edge(steps, exp):
        ctx.count('hanging on rounding error')
    else:
        ctx.close(got, expected, key, *msg, **t)


def check_forward(ctx, result, exp, data, steps, t):
    y = np.array(result.data)
    ctx.eq(y.shape, exp.y.shape, 'forward:shape')
    judge(ctx, steps, exp, y, exp.y, 'forward', [type(s).__name__ for s in steps], **t)
    ctx.finite(y, 'forward:finite')
    # reshaping gives up the units
    if isinstance(data, ArrayWithUnits) and not any(isinstance(s, SReshape) for s in steps):
        ctx.expect(isinstance(result.data, ArrayWithUnits), 'forward:time', type(result.data))
        ctx.expect(result.data.dimensions[0] == data.dimensions[0], 'forward:time', result.data.dimensions)
        ctx.count('units kept')


def check_inverse(ctx, result, exp, data, steps, t):
    if not all(s.inverts for s in steps):
        ctx.raises(result.inverse_transform, 'inverse:refused', types=(NotImplementedError,))
        ctx.count('not invertible')
        return
    inv = result.inverse_transform()
    ctx.count('inversions')
    ctx.eq(np.array(inv).shape, np.shape(data), 'inverse:shape')
    judge(ctx, steps, exp, np.array(inv), exp.inverse(), 'inverse', [type(s).__name__ for s in steps], **t)
    if not any(s.lossy for s in steps):
        judge(ctx, steps, exp, np.array(inv), np.array(data), 'inverse:restores', **t)
        ctx.count('restored exactly')
    ctx.expect(type(inv) is type(data), 'inverse:type', type(inv), type(data))
    if isinstance(data, ArrayWithUnits):
        ctx.eq(len(inv.dimensions), len(data.dimensions), 'inverse:dimensions')
        for a, b in zip(inv.dimensions, data.dimensions):
            ctx.expect(type(a) is type(b), 'inverse:dimensions', a, b)
            if not isinstance(b, IdentityDimension):
                ctx.expect(a == b, 'inverse:dimensions', a, b)


@CHECK.family(3000, 60000, need=['forward', 'forward:shape'])
def chains(ctx):
    """random chains, several batches outstanding at once, inverted in any order and more than once"""
    shape = tuple(ctx.integer(1, 6) for _ in range(ctx.choice([1, 1, 2, 3])))
    dtype = ctx.choice(['float64', 'float64', 'float32', 'int'])
    kind = ctx.choice(['plain', 'plain', 'time', 'frequency'])
    steps = chain(ctx, shape, ctx.integer(1, 5), ctx.coin(0.4), ctx.coin(0.25))
    ctx.say('examples of', shape, dtype, kind, [type(s).__name__ for s in steps])
    n = ctx.integer(8, 40)
    if dtype == 'int' and isinstance(steps[-1], SKMeans):
        # refused by scipy
        dtype = 'float64'
    data = batch(ctx, n, shape, kind, dtype)
    given = np.array(data)
    pipe = train(ctx, steps, data)
    ctx.eq(np.array(data), given, 'training data unmodified')
    t = tol(dtype)

    outstanding = []
    for _ in range(ctx.integer(1, 4)):
        m = ctx.choice([1, 2, n, ctx.integer(1, 60)])
        x = batch(ctx, m, shape, ctx.choice(['plain', kind]), dtype)
        held = np.array(x)
        res = pipe.transform(x)
        exp = Expected(steps, held)
        check_forward(ctx, res, exp, x, steps, t)
        ctx.eq(np.array(x), held, 'input unmodified')
        outstanding.append((res, exp, x, held, np.array(res.data)))
        ctx.count('batches')
    for _ in range(ctx.integer(1, 6)):
        res, exp, x, held, y = outstanding[ctx.integer(0, len(outstanding) - 1)]
        check_inverse(ctx, res, exp, x, steps, t)
        ctx.eq(np.array(x), held, 'input unmodified')
        ctx.eq(np.array(res.data), y, 'result unmodified')


@CHECK.family(60, 1500, need=['custom'])
def lookalikes(ctx):
    """functions which are hardly different, each in its own pipeline, side by side"""
    ways = [
        (lambda d: d * 2, lambda d: d / 2, lambda x: x * 2), (lambda d: d * 3, lambda d: d / 3, lambda x: x * 3),
        (lambda d: d + 2, lambda d: d - 2, lambda x: x + 2), (lambda d: d + 3, lambda d: d - 3, lambda x: x + 3),
        (lambda e: e * 2, lambda e: e / 2, lambda x: x * 2), (lambda d: d - 2, lambda d: d + 2, lambda x: x - 2),
        (lambda d: abs(d), None, np.abs), (lambda d: -d, lambda d: -d, lambda x: -x)]
    order = ctx.rng.permutation(len(ways))[:ctx.integer(2, 4)].tolist()
    pipes = []
    for k in order:
        forward, backward, _ = ways[k]

        class Learned(ff.BaseModel):
            start = ff.PickleFeature(ff.IteratorNode, store=False)
            step = ff.PickleFeature(BasePreprocessor, forward=forward, backward=backward, name='step', needs=start, store=False)
            pipe = ff.PickleFeature(PreprocessingPipeline, needs=(step,), store=True)
        Learned = simple_in_memory_settings(Learned)
        pipes.append((k, Learned(Learned.process(start=[ctx.rng.normal(0, 1, (5, 3))])).pipe))
    for _ in range(6):
        k, pipe = ctx.choice(pipes)
        x = ctx.rng.normal(0, 2, (ctx.integer(1, 6), 3))
        res = pipe.transform(x.copy())
        ctx.close(np.asarray(res.data), ways[k][2](x), 'custom', 'forward', k, rtol=1e-12, atol=1e-12)
        if ways[k][1] is not None:
            ctx.close(np.asarray(res.inverse_transform()), x, 'custom', 'inverse', k, rtol=1e-9, atol=1e-9)
        ctx.count('batches')


@CHECK.family(300, 6000, need=['forward', 'inverse'])
def spectra(ctx):
    """complex coefficients, both parts of which count"""
    shape = tuple(ctx.integer(1, 6) for _ in range(ctx.choice([1, 1, 2])))
    pool = [SUnitNorm, lambda: SInstance(ctx.choice([1, 3])), lambda: SMultiply(ctx.choice([2, -0.5])), SMeanStd,
            lambda: SWeighted(np.round(ctx.rng.uniform(0.5, 2, shape), 2)), lambda: SCustom(True)]
    steps = [ctx.choice(pool)() for _ in range(ctx.integer(0, 3))]
    more = ctx.integer(0, 3)
    if more == 0 or not steps:
        steps.append(SAbs())
    elif more == 1:
        a = ctx.integer(0, shape[-1] - 1)
        steps.append(SSlicer(slice(a, ctx.integer(a + 1, shape[-1]))))
    elif more == 2:
        steps.append(SReshape(factors(ctx, int(np.prod(shape)))))
    kind = ctx.choice(['plain', 'time', 'frequency'])
    ctx.say('spectra of', shape, kind, [type(s).__name__ for s in steps])

    def some(m, k):
        z = ctx.rng.normal(ctx.choice([0, 1]), 1, (2, m) + shape)
        return units(ctx, z[0] + 1j * z[1], k)

    pipe = train(ctx, steps, some(ctx.integer(8, 30), kind))
    for _ in range(2):
        x = some(ctx.integer(1, 20), ctx.choice(['plain', kind]))
        held = np.array(x)
        res = pipe.transform(x)
        exp = Expected(steps, held)
        check_forward(ctx, res, exp, x, steps, tol('float64'))
        ctx.eq(np.array(x), held, 'input unmodified')
        if isinstance(steps[-1], SAbs):
            ctx.expect(True, 'inverse')
        check_inverse(ctx, res, exp, x, steps, tol('float64'))
        ctx.count('spectra')


@CHECK.family(1200, 30000, need=['part'])
def parts(ctx):
    """a part of a pipeline is the pipeline of those steps"""
    shape = (ctx.integer(2, 8),)
    # all of these take examples of any shape
    pool = [SUnitNorm, lambda: SInstance(ctx.choice([1, 3])), lambda: SMultiply(ctx.choice([2, -0.5])), SLog,
            lambda: SCustom(True), SMeanStd, lambda: SWeighted(np.round(ctx.rng.uniform(0.5, 2, shape), 2))]
    steps = [ctx.choice(pool)() for _ in range(ctx.integer(2, 5))]
    pipe = train(ctx, steps, batch(ctx, 20, shape, 'plain', 'float64'))
    if any(isinstance(s, SMeanStd) and np.any(s.std < 1e-9) for s in steps):
        # what was learned is rounding error
        ctx.trivial = True
        return
    for _ in range(3):
        how = ctx.integer(0, 3)
        k = len(steps)
        if how == 0:
            a, b, st = ctx.integer(-k, k), ctx.integer(-k, k), ctx.choice([None, 1, 2, -1])
            part, chosen = pipe[a:b:st], steps[a:b:st]
        elif how == 1:
            idx = [ctx.integer(-k, k - 1) for _ in range(ctx.integer(1, 4))]
            part, chosen = pipe[idx], [steps[i] for i in idx]
        elif how == 2:
            i = ctx.integer(-k, k - 1)
            one = pipe[i]
            ctx.expect(one is pipe.processors[i], 'part', 'one step')
            continue
        else:
            part, chosen = pipe[:], steps
        x = batch(ctx, ctx.integer(1, 9), shape, ctx.choice(['plain', 'frequency']), 'float64')
        res = part.transform(x)
        ctx.count('sliced')
        if chosen:
            for s in chosen:
                s.trained = None
        if not chosen:
            ctx.eq(np.array(res.data), np.array(x), 'part', 'no steps')
            ctx.eq(np.array(res.inverse_transform()), np.array(x), 'part', 'no steps')
            continue
        exp = Expected(chosen, np.array(x))
        judge(ctx, chosen, exp, np.array(res.data), exp.y, 'part', [type(s).__name__ for s in chosen],
              rtol=1e-7, atol=1e-7)
        check_inverse(ctx, res, exp, x, chosen, dict(rtol=1e-6, atol=1e-6))
        # the whole is what it was
        ctx.eq(len(pipe.processors), k, 'part', 'whole changed')


@CHECK.family(1500, 30000, need=['degenerate:finite'])
def degenerate(ctx):
    """constant, silent and single examples"""
    shape = tuple(ctx.integer(1, 5) for _ in range(ctx.choice([1, 2])))
    n = ctx.choice([1, 1, 2, 5, 12])
    how = ctx.choice(['silent', 'constant', 'constant feature', 'one example', 'silent example'])
    base = np.round(ctx.rng.normal(0, 2, (n,) + shape), ctx.choice([0, 1, 3]))
    if how == 'silent':
        base[:] = 0
    elif how == 'constant':
        base[:] = ctx.choice([1, 0.5, 0.1, -7.3])
    elif how == 'constant feature':
        base[..., ctx.integer(0, shape[-1] - 1)] = ctx.choice([0, 1, 0.1])
    elif how == 'one example':
        base = base[:1]
    else:
        base[ctx.integer(0, n - 1)] = 0
    dtype = ctx.choice([np.float64, np.float64, np.float32, np.int64])
    base = base.astype(dtype)
    kind = ctx.choice(['plain', 'time'])
    pool = [SUnitNorm, lambda: SInstance(ctx.choice([1, 3])), lambda: SMultiply(2), SLog, SMeanStd, SMuLaw]
    steps = [ctx.choice(pool)() for _ in range(ctx.choice([1, 1, 2, 3]))]
    ctx.say(how, base.shape, dtype.__name__, kind, [type(s).__name__ for s in steps])
    # hand out memory full of other people's numbers
    junk = [np.full((base.size,), v) for v in (np.nan, 1e300, -7.)]
    del junk
    data = units(ctx, base.copy(), kind)
    pipe = train(ctx, steps, data)
    res = pipe.transform(data)
    ctx.count('degenerate batches')
    ctx.finite(np.array(res.data), 'degenerate:finite', how)
    inv = res.inverse_transform()
    t = dict(rtol=1e-3, atol=1e-3) if dtype is np.float32 else dict(rtol=1e-6, atol=1e-6)
    ctx.close(np.array(inv), base, 'degenerate:restores', how, [type(s).__name__ for s in steps], **t)
    ctx.eq(np.array(data), base, 'input unmodified')
    if how in ('silent', 'constant', 'constant feature', 'one example') and dtype is np.float64 and len(steps) == 1 \
            and isinstance(steps[0], SMeanStd):
        other = np.round(ctx.rng.normal(0, 2, (4,) + shape), 2)
        y = pipe.transform(other).data
        ctx.finite(y, 'degenerate:finite', 'new batch')
        std = steps[0].std
        ctx.close(np.where(std == 0, 0, y), np.where(std == 0, 0, steps[0].forward(other)[0]), 'degenerate:others',
                  rtol=1e-7, atol=1e-7)


@CHECK.family(300, 6000, need=['adaptive'])
def adaptive(ctx):
    """frequency-adaptive transforms keep their kind, bands and times"""
    nb = ctx.integer(2, 8)
    scale = GeometricScale(20, 5000, 0.05, nb)
    n = ctx.integer(2, 12)
    td = TimeDimension(frequency=Seconds(1))
    widths = [ctx.integer(1, 9) for _ in range(nb)]

    def make(m):
        return FrequencyAdaptive([ctx.rng.normal(0, 1, (m, w)) for w in widths], td, scale)

    fa = make(n)
    pool = [SUnitNorm, lambda: SInstance(2), lambda: SMultiply(0.5), SLog, SMeanStd]
    steps = [ctx.choice(pool)() for _ in range(ctx.integer(1, 3))]
    ctx.say([type(s).__name__ for s in steps])
    pipe = train(ctx, steps, fa)
    x = make(n if ctx.coin() else ctx.integer(1, 20))
    held = np.array(x)
    res = pipe.transform(x)
    exp = Expected(steps, held)
    judge(ctx, steps, exp, np.array(res.data), exp.y, 'adaptive', rtol=1e-7, atol=1e-7)
    inv = res.inverse_transform()
    # a width of one is scaled to plus or minus one, which may have no deviation to divide by
    judge(ctx, steps, exp, np.array(inv), exp.inverse(), 'adaptive', rtol=1e-6, atol=1e-6)
    if not any(s.lossy for s in steps):
        judge(ctx, steps, exp, np.array(inv), held, 'adaptive', rtol=1e-6, atol=1e-6)
    ctx.expect(isinstance(inv, FrequencyAdaptive), 'adaptive', type(inv))
    at = 0
    for i, b in enumerate(scale):
        ctx.eq(np.array(inv[:, b]), np.array(inv)[:, at: at + widths[i]], 'adaptive', 'band', i)
        at += widths[i]
    ctx.eq(np.array(x), held, 'input unmodified')
    ctx.count('frequency adaptive')


@CHECK.family(200, 4000, need=['weighting'])
def frequency_weighted(ctx):
    """weighting a spectrum by a frequency weighting, and taking a frequency band of it"""
    n = ctx.integer(4, 30)
    scale = LinearScale(FrequencyBand(20, 4000), n)
    w = AWeighting()
    data = units(ctx, ctx.rng.uniform(0.1, 1, (ctx.integer(1, 9), n)), 'plain')
    data = ArrayWithUnits(data, [TimeDimension(Seconds(1)), FrequencyDimension(scale)])
    bands = list(scale)
    a = ctx.integer(0, n - 1)
    b = ctx.integer(a, n - 1)
    band = FrequencyBand(bands[a].start_hz, bands[b].stop_hz)

    class Graph(ff.BaseModel):
        weighted = ff.PickleFeature(Weighted, weighting=w, store=False)
        sliced = ff.PickleFeature(Slicer, slicex=band, needs=weighted, store=False)
        pipeline = ff.PickleFeature(PreprocessingPipeline, needs=(weighted, sliced), store=True)

    cls = simple_in_memory_settings(Graph)
    pipe = cls(cls.process(weighted=data)).pipeline
    res = pipe.transform(data)
    expected = (data * w)
    ctx.close(np.array(res.data), np.array(expected[..., band]), 'weighting', rtol=1e-9, atol=1e-12)
    inv = res.inverse_transform()
    kept = np.zeros(n, dtype=bool)
    idx = ArrayWithUnits(np.arange(n), [FrequencyDimension(scale)])[band]
    kept[np.array(idx)] = True
    ctx.close(np.array(inv), np.where(kept, np.array(data), 0), 'weighting', rtol=1e-9, atol=1e-12)
    ctx.expect(inv.dimensions[1] == data.dimensions[1], 'weighting', inv.dimensions)
