"""C28: binary and cluster codes depend on nothing but the example"""
import featureflow as ff
import torch

from ..core import Check
from ..gen import *
from zounds.learn import (
    Binarize, KMeans, PreprocessingPipeline, RawSampleEmbedding, SimHash, SklearnModel, hyperplanes, simhash)
from zounds.learn.preprocess import UnitNorm
from zounds.util import simple_in_memory_settings

CHECK = Check(
    'C28',
    'Random examples are hashed, clustered and quantized together, alone, shuffled, repeated and scaled by trained '
    'pipelines, and the codes compared with each other and with geometry computed from the learned parameters.',
    technique='metamorphic runtime monitoring against a geometric reference',
    require=['pipelines', 'codes', 'packed', 'pairs', 'clusters', 'ties left out', 'embedded'])


def trained(step, data, **kwargs):
    @simple_in_memory_settings
    class Model(ff.BaseModel):
        step_ = ff.PickleFeature(step, store=False, **kwargs)
        pipeline = ff.PickleFeature(PreprocessingPipeline, needs=(step_,), store=True)

    return Model(Model.process(step_=data)).pipeline


def dressed(ctx, x):
    """as arrays come: with units, in another order in memory, or as a view"""
    how = ctx.integer(0, 4)
    if how == 0:
        return ArrayWithUnits(x, [TimeDimension(Seconds(1))] + [IdentityDimension()] * (x.ndim - 1))
    if how == 1:
        return np.asfortranarray(x)
    if how == 2 and x.ndim > 1:
        return np.concatenate([x, x * 2 - 1], axis=-1)[..., :x.shape[-1]]
    if how == 3:
        return np.repeat(x, 2, axis=0)[::2]
    return x


def everyway(ctx, encode, x, sure, key):
    """one code per example however they are put together; returns the codes"""
    code = np.array(encode(x))
    ctx.eq(len(code), len(x), key, 'length')
    ctx.count('codes', len(x))

    def agree(other, idx, how):
        ctx.eq(other.shape[1:], code.shape[1:], key, how)
        ctx.eq(np.where(sure[idx], other, 0), np.where(sure[idx], code[idx], 0), key, how)

    agree(np.array(encode(dressed(ctx, x))), np.arange(len(x)), 'the same again')
    perm = ctx.rng.permutation(len(x))
    agree(np.array(encode(dressed(ctx, x[perm]))), perm, 'in another order')
    i = ctx.integer(0, len(x) - 1)
    agree(np.array(encode(dressed(ctx, x[i:i + 1]))), [i], 'alone')
    many = ctx.rng.integers(0, len(x), ctx.integer(1, 40))
    agree(np.array(encode(dressed(ctx, x[many]))), many, 'repeated')
    k = ctx.integer(0, len(x))
    parts = [np.array(encode(dressed(ctx, p))) for p in (x[:k], x[k:]) if len(p)]
    agree(np.concatenate(parts), np.arange(len(x)), 'in parts')
    return code


def signs(planes, x):
    """projections and how sure their sign is"""
    flat = np.asarray(x, dtype=np.float64).reshape((len(x), -1))
    p = np.array([[math.fsum(a * b for a, b in zip(row, plane)) for plane in planes] for row in flat])
    size = np.abs(flat).sum(axis=1)[:, None] * (np.abs(planes).max(axis=1)[None] + 1e-300)
    return p > 0, (np.abs(p) > 1e-6 * size) | (size == 0)


def examples(ctx, n, shape, wild=False):
    x = ctx.rng.normal(ctx.choice([0, 0, 1, -3]), ctx.choice([0.01, 1, 5]), (n,) + shape)
    how = ctx.integer(0, 5)
    if how == 0:
        x[ctx.integer(0, n - 1)] = 0
    elif how == 1:
        x[..., 0] = 0.5
    elif how == 2:
        x = np.abs(x)
    elif how == 3:
        x = x.astype(np.float32)
    elif wild and how == 4:
        # next to nothing beside enormous
        x = x * 10 ** ctx.rng.uniform(-25, 25, (n,) + (1,) * len(shape))
        ctx.count('wide ranges')
    elif wild:
        x = ctx.choice([np.int16, np.float64])(0) + np.round(x * 300 + ctx.choice([0, 5000, -9000])).astype(int)
    return x


@CHECK.family(500, 15000, need=['simhash', 'simhash:signs', 'simhash:pairs'])
def similarity_hashes(ctx):
    shape = tuple(ctx.integer(1, 5) for _ in range(ctx.choice([1, 1, 2, 3])))
    data = examples(ctx, ctx.integer(2, 30), shape)
    packed = ctx.coin(0.35)
    bits = 64 * ctx.integer(1, 2) if packed else ctx.choice([1, 3, 8, 17, 64])
    ctx.say(shape, bits, 'packed' if packed else '')
    ctx.seed_global()
    pipe = trained(SimHash, dressed(ctx, data), bits=bits, packbits=packed)
    ctx.count('pipelines')
    planes = np.array(pipe[0].plane_vectors)
    ctx.eq(planes.shape, (bits, int(np.prod(shape))), 'simhash', 'planes')
    ctx.finite(planes, 'simhash')
    x = examples(ctx, ctx.integer(60, 150) if ctx.coin(.06) else ctx.integer(1, 12), shape, True)
    expected, sure = signs(planes, x)

    if packed:
        def encode(d):
            c = pipe.transform(d).data
            ctx.eq(c.dtype, np.dtype(np.uint64), 'simhash', 'packed')
            ctx.eq(c.shape, (len(d), bits // 64), 'simhash', 'packed')
            # the first plane is the first bit of the first byte
            return np.unpackbits(np.ascontiguousarray(np.array(c)).view(np.uint8), axis=-1)
        ctx.count('packed')
    else:
        def encode(d):
            c = pipe.transform(d).data
            ctx.eq(c.shape, (len(d), bits), 'simhash')
            ctx.expect(c.dtype == np.uint8, 'simhash', c.dtype)
            if isinstance(d, ArrayWithUnits):
                ctx.expect(c.dimensions[0] == d.dimensions[0], 'simhash', 'units')
            return c
    code = everyway(ctx, encode, x, sure, 'simhash')
    ctx.expect(set(np.unique(code)) <= {0, 1}, 'simhash:signs', np.unique(code))
    ctx.eq(np.where(sure, code, 0), np.where(sure, expected, 0), 'simhash:signs')
    # the planes go through the origin
    c = ctx.choice([2, 0.125, 8])
    ctx.eq(np.where(sure, encode(x * c), 0), np.where(sure, code, 0), 'simhash:signs', 'louder or softer')
    flipped = np.array(encode(-x))
    definite = sure & (x.reshape((len(x), -1)) != 0).any(axis=1)[:, None] & (planes != 0).any(axis=1)[None]
    ctx.eq(np.where(definite, flipped, 0), np.where(definite, 1 - code, 0), 'simhash:signs', 'inverted')
    # distances are counts of separating planes
    i, j = ctx.integer(0, len(x) - 1), ctx.integer(0, len(x) - 1)
    d = int((code[i] != code[j]).sum())
    certain = int((expected[i] != expected[j])[sure[i] & sure[j]].sum())
    doubtful = int((~(sure[i] & sure[j])).sum())
    ctx.expect(certain <= d <= certain + doubtful, 'simhash:pairs', d, certain, doubtful)
    ctx.count('pairs')
    if not packed:
        ctx.eq(np.where(sure, simhash(planes, x), 0), np.where(sure, code, 0), 'simhash', 'function')


@CHECK.family(150, 4000, need=['planes'])
def planes(ctx):
    n, k = ctx.integer(1, 12), ctx.integer(1, 30)
    means, stds = ctx.rng.normal(0, 3, n), np.abs(ctx.rng.normal(0, 1, n))
    if ctx.coin():
        stds[ctx.integer(0, n - 1)] = 0
    ctx.seed_global()
    p = hyperplanes(means, stds, k)
    ctx.eq(p.shape, (k, n), 'planes')
    ctx.expect((p[:, stds == 0] == 0).all(), 'planes', 'a feature that never varies separates nothing')
    ctx.expect((np.abs(p) <= 14 * stds[None] + 1e-12).all(), 'planes', 'of the size of the deviations')
    big = hyperplanes(means, stds, 400)
    # differences of two draws: no mean, twice the variance
    for i in np.flatnonzero(stds):
        ctx.expect(abs(big[:, i].mean()) < 6 * stds[i] * math.sqrt(2. / 400), 'planes', 'centred', big[:, i].mean())
        ctx.expect(0.7 < big[:, i].std() / (stds[i] * math.sqrt(2)) < 1.3, 'planes', 'spread', big[:, i].std())
    ctx.raises(lambda: hyperplanes(means, np.append(stds, 1), k), 'planes', types=(ValueError,))
    if k > 1 and (stds > 0).any():
        ctx.expect(len(np.unique(p, axis=0)) == k, 'planes', 'all different')


@CHECK.family(400, 10000, need=['cluster', 'cluster:nearest'])
def clusters(ctx):
    n, k = ctx.integer(1, 5), ctx.integer(1, 8)
    centres = ctx.rng.normal(0, 4, (ctx.integer(1, 6), n))
    data = centres[ctx.rng.integers(0, len(centres), ctx.integer(k + 2, 60))]
    data = data + ctx.rng.normal(0, ctx.choice([0.01, 1]), data.shape)
    ctx.say(data.shape, k)
    ctx.seed_global()
    pipe = trained(KMeans, dressed(ctx, data), centroids=k)
    ctx.count('pipelines')
    book = np.array(pipe[0].codebook)
    # what is passed on to the next step of training are the codes of the examples
    passed, = KMeans(centroids=k)._process(data)
    ctx.eq(np.asarray(passed.data), np.asarray(passed.op(data)), 'cluster', 'passed on')
    ctx.expect(1 <= len(book) <= k, 'cluster', 'centroids', len(book))
    ctx.expect(((book >= data.min(axis=0) - 1e-9) & (book <= data.max(axis=0) + 1e-9)).all(), 'cluster',
               'centroids lie among the data')
    x = ctx.rng.normal(0, 4, (ctx.integer(1, 15), n))
    if ctx.coin():
        x[0] = book[ctx.integer(0, len(book) - 1)]
    d = ((x[:, None] - book[None]) ** 2).sum(axis=-1)
    s = np.sort(d, axis=1)
    sure = np.ones(len(x), dtype=bool) if len(book) == 1 else s[:, 1] - s[:, 0] > 1e-9 * (1 + s[:, 1])

    def encode(z):
        r = pipe.transform(z)
        c = r.data
        ctx.eq(c.shape, (len(z), len(book)), 'cluster')
        if isinstance(z, ArrayWithUnits):
            ctx.expect(c.dimensions[0] == z.dimensions[0], 'cluster', 'units')
        back = np.array(r.inverse_transform())
        ctx.eq(back.shape, np.shape(z), 'cluster:nearest', 'inverse')
        ctx.eq(back, book[np.argmax(np.array(c), axis=1)], 'cluster:nearest', 'inverse')
        return c

    code = everyway(ctx, encode, x, sure[:, None], 'cluster')
    ctx.expect((code.sum(axis=1) == 1).all() and set(np.unique(code)) <= {0, 1}, 'cluster', 'one-hot')
    for i in range(len(x)):
        ctx.expect(d[i, np.argmax(code[i])] <= s[i, 0] * (1 + 1e-9) + 1e-12, 'cluster:nearest', d[i], code[i])
    if not sure.all():
        ctx.count('ties left out')
    ctx.count('clusters')


@CHECK.family(20, 400, need=['tie'])
def ties(ctx):
    """exactly between two centroids, the code is still one of them, and always the same"""
    a = float(ctx.integer(1, 9))
    data = np.array([[-a], [-a], [a], [a]])
    ctx.seed_global()
    pipe = trained(KMeans, data, centroids=2)
    book = np.array(pipe[0].codebook)
    code = np.array(pipe.transform(np.zeros((5, 1))).data)
    ctx.expect((code.sum(axis=1) == 1).all(), 'tie', code, book)
    ctx.eq(code, np.repeat(np.array(pipe.transform(np.zeros((1, 1))).data), 5, axis=0), 'tie')
    ctx.count('ties left out')


class Labels(object):
    """a model with one-hot output, as any object with scikit-learn's interface may be used"""

    def fit(self, x):
        self.edges = np.median(x, axis=0)
        return self

    def transform(self, x):
        k = (x > self.edges).sum(axis=1)
        out = np.zeros((len(x), x.shape[1] + 1))
        out[np.arange(len(x)), k] = 1
        return out

    def inverse_transform(self, y):
        k = y.argmax(axis=1)
        return self.edges[None] + np.where(np.arange(len(self.edges))[None] < k[:, None], 1., -1.)


@CHECK.family(150, 4000, need=['model', 'threshold'])
def others(ctx):
    """thresholds, and models in general"""
    shape = tuple(ctx.integer(1, 5) for _ in range(ctx.choice([1, 2, 3])))
    data = examples(ctx, ctx.integer(2, 30), shape)
    x = examples(ctx, ctx.integer(1, 12), shape)
    t = ctx.choice([0.5, 0, -1.25])
    kw = {} if t == 0.5 and ctx.coin() else dict(threshold=t)     # a half, unless told otherwise
    pipe = trained(Binarize, dressed(ctx, data), **kw)
    everything = np.ones(x.shape, dtype=bool)
    code = everyway(ctx, lambda d: pipe.transform(d).data, x, everything, 'threshold')
    ctx.eq(code, (x > t).astype(np.uint8), 'threshold')
    exact = np.full((2,) + shape, float(t))
    exact[1] = t + 1e-9
    ctx.eq(np.array(pipe.transform(exact).data), np.stack([np.zeros(shape), np.ones(shape)]).astype(np.uint8),
           'threshold', 'on the threshold')

    pipe = trained(SklearnModel, dressed(ctx, data), model=Labels())
    ref = Labels().fit(data.reshape((len(data), -1)))
    flat = x.reshape((len(x), -1))
    code = everyway(ctx, lambda d: pipe.transform(d).data, x, np.ones((len(x), 1), dtype=bool), 'model')
    ctx.eq(code, ref.transform(flat), 'model')
    ctx.eq(np.array(pipe.transform(x).inverse_transform()), ref.inverse_transform(code).reshape(x.shape), 'model',
           'inverse')


@CHECK.family(60, 1500, need=['embedding'])
def embedded(ctx):
    """samples as categories, one active for each, and one vector on the unit sphere for each category"""
    n = ctx.choice([4, 16, 64, 256])
    dim = ctx.integer(1, 5)
    ctx.seed_global()
    torch.manual_seed(ctx.integer(0, 10 ** 6))
    e = RawSampleEmbedding(n, dim)
    b, k = ctx.integer(1, 4), ctx.integer(1, 30)
    x = ctx.rng.uniform(-1, 1, (b, 1, k)).astype(np.float32)
    x.flat[0] = ctx.choice([0, 1, -1])
    flat = x.reshape(-1).astype(np.float64)
    level = (np.sign(flat) * np.log1p(n * np.abs(flat)) / np.log1p(n) + 1) * n / 2
    sure = np.abs(level - np.floor(level) - 0.5) > 1e-3
    with torch.no_grad():
        c = e.categorical(torch.from_numpy(x)).numpy()
        y = e(torch.from_numpy(x)).numpy()
    ctx.eq(c.shape, (b * k, n + 1), 'embedding')
    ctx.close(c[sure].sum(axis=1), np.ones(sure.sum()), 'embedding', 'one active', rtol=1e-6)
    ctx.eq(c[sure].argmax(axis=1), np.round(level[sure]).astype(int), 'embedding', 'category')
    ctx.close(c[sure].max(axis=1), np.ones(sure.sum()), 'embedding', 'one active', rtol=1e-6)
    ctx.eq(y.shape, (b, dim, k), 'embedding')
    ctx.close(np.sqrt((y ** 2).sum(axis=1)), np.ones((b, k)), 'embedding', 'unit norm', rtol=1e-4)
    w, bias = e.linear.weight.detach().numpy(), e.linear.bias.detach().numpy()
    v = w.T[np.round(level).astype(int)] + bias
    v = (v / np.sqrt((v ** 2).sum(axis=1, keepdims=True))).reshape((b, k, dim)).transpose((0, 2, 1))
    ok = sure.reshape((b, 1, k))
    ctx.close(np.where(ok, y, 0), np.where(ok, v, 0), 'embedding', 'vectors', rtol=1e-3, atol=1e-4)
    ctx.count('embedded')
