"""C27: trained pipelines and networks, stored and loaded again"""
import copy
import os
import pickle
import subprocess
import sys

import dill
import featureflow as ff
import torch

from ..core import Check
from ..gen import *
from .. import netzoo
from ..fresh import apply
from .c26_pipelines import (
    Model, SAbs, SBinarize, SInstance, SKMeans, SMeanStd, SModel, SMultiply, SReshape, SSharpen, SSimHash, SSlicer,
    SUnitNorm, SWeighted, batch, chain)
from zounds.learn import Learned, PyTorchAutoEncoder, PyTorchGan, PyTorchNetwork
from zounds.learn.preprocess import Op, Pipeline, PreprocessingPipeline
from zounds.spectral import FrequencyBand

CHECK = Check(
    'C27',
    'Random pipelines are trained through a graph, stored in memory, on disk and in LMDB, and loaded in the same and in '
    'fresh processes: transforms, inverses and versions are compared with those of the same training done without any '
    'storage. Networks are compared with the trained network itself, called directly.',
    technique='differential runtime monitoring of loaded against trained models, across stores and processes',
    require=['pipelines', 'fresh processes', 'loaded in a fresh process', 'trained again elsewhere', 'networks',
             'versions compared', 'versions told apart', 'learned features'])

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def direct(steps, seed, data):
    """train without a graph or a store"""
    np.random.seed(seed)
    results = []
    for s in steps:
        cls, kwargs = s.node()
        data, = cls(**kwargs)._process(data)
        results.append(data)
    return Pipeline(results)


def settings(ctx, kind):
    builder = ff.StringDelimitedKeyBuilder()
    path = os.path.join(ctx.scratch(), kind)
    if kind == 'memory':
        db = ff.InMemoryDatabase(key_builder=builder)
    elif kind == 'files':
        db = ff.FileSystemDatabase(path=path, key_builder=builder, createdirs=True)
    else:
        db = ff.LmdbDatabase(path=path, map_size=10 ** 7, key_builder=builder)

    class Settings(ff.PersistenceSettings):
        id_provider = ff.StaticIdProvider('model')
        key_builder = builder
        database = db

    return Settings, path


def graph(steps, stores):
    base, nodes, before = {}, [], None
    for i, s in enumerate(steps):
        cls, kwargs = s.node()
        if before is not None:
            kwargs['needs'] = before
        before = ff.PickleFeature(cls, store=False, **kwargs)
        base['step%d' % i] = before
        nodes.append(before)
    base['pipeline'] = ff.PickleFeature(PreprocessingPipeline, needs=tuple(nodes), store=True)
    return type('Trained', (ff.BaseModel, stores), base)


def stored_file(path):
    """the pipeline's encoded form"""
    found = [os.path.join(d, f) for d, _, fs in os.walk(path) for f in fs if 'pipeline' in f]
    assert len(found) == 1, found
    return found[0]


def same(ctx, a, b, key, *msg):
    """two outcomes of `apply`, to the last bit"""
    ctx.expect('error' not in a, key, a.get('error'), *msg)
    for k in ('forward', 'backward'):
        for x, y in zip(a[k], b[k]):
            ctx.expect((x is None) == (y is None), key, k, 'can be inverted', *msg)
            if x is not None:
                ctx.eq(x.dtype, y.dtype, key, k, *msg)
                ctx.eq(x, y, key, k, *msg)
    ctx.eq(a['version'], b['version'], key + ':version', *msg)
    ctx.eq(a['versions'], b['versions'], key + ':version', *msg)
    ctx.eq(a['parts'], b['parts'], key + ':version', 'of a part', *msg)
    ctx.count('versions compared')


def draw(ctx):
    shape = tuple(ctx.integer(1, 6) for _ in range(ctx.choice([1, 1, 2])))
    steps = chain(ctx, shape, ctx.integer(1, 4), True, ctx.coin(0.4))
    steps = [s for s in steps]
    kind = ctx.choice(['plain', 'time'])
    data = batch(ctx, ctx.integer(8, 30), shape, kind, 'float64')
    inputs = [batch(ctx, ctx.choice([1, 2, 7, 40]), shape, ctx.choice(['plain', kind]), 'float64')
              for _ in range(ctx.integer(1, 3))]
    return steps, data, inputs


@CHECK.family(600, 12000, need=['loaded', 'loaded:version'])
def stores(ctx):
    steps, data, inputs = draw(ctx)
    ctx.say([type(s).__name__ for s in steps])
    seed = ctx.integer(0, 10 ** 6)
    expected = apply(direct(steps, seed, data), inputs)
    for kind in ('memory', 'files', 'lmdb') if ctx.coin(0.2) else (ctx.choice(['memory', 'files']),):
        st, path = settings(ctx, kind)
        cls = graph(steps, st)
        np.random.seed(seed)
        _id = cls.process(step0=data)
        # with the class that trained, and with one that knows nothing else
        same(ctx, apply(cls(_id).pipeline, inputs), expected, 'loaded', kind)
        again = graph(steps, st)(_id).pipeline
        same(ctx, apply(again, inputs), expected, 'loaded', kind)
        copied = dill.loads(dill.dumps(again))
        same(ctx, apply(copied, inputs), expected, 'loaded', kind, 'twice')
        ctx.expect(all(p.data is None for p in again.processors), 'stored without data')
        if kind == 'lmdb':
            cls.database.env.close()
    ctx.count('pipelines')


@CHECK.family(12, 300, cpu=240, need=['fresh', 'again'])
def fresh(ctx):
    """a fresh process loads the file, and another one trains the same pipeline again"""
    loads, trains, expected = [], [], []
    for i in range(12):
        steps, data, inputs = draw(ctx)
        seed = ctx.integer(0, 10 ** 6)
        expected.append(apply(direct(copy.deepcopy(steps), seed, data), inputs))
        sub = os.path.join(ctx.scratch(), str(i))
        builder = ff.StringDelimitedKeyBuilder()

        class Settings(ff.PersistenceSettings):
            id_provider = ff.StaticIdProvider('model')
            key_builder = builder
            database = ff.FileSystemDatabase(path=sub, key_builder=builder, createdirs=True)

        cls = graph(steps, Settings)
        np.random.seed(seed)
        cls.process(step0=data)
        loads.append(('load', (stored_file(sub), inputs)))
        if not any(hasattr(s, 'inverts') and type(s).__name__ == 'SCustom' for s in steps):
            trains.append((i, ('train', (pickle.dumps(steps), seed, data, inputs))))
    for name, tasks in (('load', loads), ('train', [t for _, t in trains])):
        got = elsewhere(ctx, name, tasks)
        if name == 'load':
            for a, b in zip(got, expected):
                same(ctx, a, b, 'fresh')
                ctx.count('loaded in a fresh process')
        else:
            for (i, _), a in zip(trains, got):
                same(ctx, a, expected[i], 'again')
                ctx.count('trained again elsewhere')


def elsewhere(ctx, name, tasks):
    job, out = (os.path.join(ctx.scratch(), name + x) for x in ('.job', '.out'))
    with open(job, 'wb') as f:
        # unlike pickle's, dill's arrays keep their units
        dill.dump(tasks, f)
    env = dict(os.environ, PYTHONHASHSEED=str(ctx.integer(1, 10 ** 6)), PYTHONPATH=os.pathsep.join(
        [VERIF] + [p for p in sys.path if p]), OMP_NUM_THREADS='1')
    subprocess.run([sys.executable, '-B', '-m', 'vz.fresh', job, out], env=env, cwd=ctx.scratch(), check=True,
                   stdout=subprocess.DEVNULL)
    ctx.count('fresh processes')
    with open(out, 'rb') as f:
        return pickle.load(f)


def variants(ctx):
    """pairs of steps that differ in one parameter, and data to learn from"""
    n = ctx.integer(2, 6)
    x = ctx.rng.normal(0, 1, (20, n))
    y = x.copy()
    y[ctx.integer(0, 19), ctx.integer(0, n - 1)] += ctx.choice([0.5, 1e-3, -2])
    w = ctx.rng.uniform(0.5, 2, n)
    w2 = w.copy()
    w2[ctx.integer(0, n - 1)] *= 1.25
    k = ctx.choice(['meanstd', 'instance', 'multiply', 'weighted', 'slicer', 'slicer', 'reshape', 'model', 'simhash',
                    'kmeans', 'binarize', 'sharpen', 'kind', 'weighted shape', 'band'])
    if k == 'meanstd':
        return k, SMeanStd(), x, SMeanStd(), y
    if k == 'instance':
        a = ctx.integer(1, 9)
        return k, SInstance(a), x, SInstance(a + ctx.choice([1, 0.5])), x
    if k == 'multiply':
        return k, SMultiply(2.), x, SMultiply(ctx.choice([2.5, -2., 4])), x
    if k == 'weighted':
        return k, SWeighted(w), x, SWeighted(w2), x
    if k == 'weighted shape':
        w = np.ones(6)
        z = np.repeat(x[:, :1, None], 6, axis=1)
        return k, SWeighted(w.reshape((6, 1))), z, SWeighted(w.reshape((1, 6))), z
    if k == 'slicer':
        a = ctx.integer(0, n - 1)
        return k, SSlicer(slice(a, None)), x, SSlicer(slice(a, n, ctx.choice([1, 2]))), x
    if k == 'band':
        return k, SSlicer(FrequencyBand(1, 100)), None, SSlicer(FrequencyBand(1, 101)), None
    if k == 'reshape':
        z = np.repeat(x[:, :1], 6, axis=1)
        a, b = ctx.choice([((2, 3), (3, 2)), ((6,), (6, 1)), ((2, 3), (6,))])
        return k, SReshape(a), z, SReshape(b), z
    if k == 'model':
        return k, SModel(n, False), x, SModel(ctx.choice([n - 1, n]), False), y
    if k == 'simhash':
        return k, SSimHash(8), x, SSimHash(8), y
    if k == 'kmeans':
        return k, SKMeans(3), x, SKMeans(3), y + 1e-3
    if k == 'binarize':
        return k, SBinarize(0.5), x, SBinarize(0.25), x
    if k == 'sharpen':
        return k, SSharpen(w), x, SSharpen(w2), x
    a, b = SUnitNorm(), SAbs()
    return k, a, x, b, x


def op_of(step, data, seed):
    np.random.seed(seed)
    cls, kwargs = step.node()
    node = cls(**kwargs)
    if data is None:
        return node.transform(**kwargs)
    result, = node._process(data)
    return result.op


@CHECK.family(600, 10000, need=['told apart', 'equal'])
def versions(ctx):
    k, a, xa, b, xb = variants(ctx)
    ctx.say(k)
    seed = ctx.integer(0, 1000)
    one = op_of(a, xa, seed)
    # the same again, from equal but separate objects
    held = [object() for _ in range(ctx.integer(0, 50))]
    other = op_of(pickle.loads(pickle.dumps(a)), None if xa is None else xa.copy(), seed)
    ctx.eq(one.version, other.version, 'equal', k)
    ctx.eq(Pipeline([Holder(one)]).version, Pipeline([Holder(other)]).version, 'equal', k)
    del held
    changed = op_of(b, xb, seed)
    ctx.expect(one.version != changed.version, 'told apart', k)
    ctx.expect(Pipeline([Holder(one)]).version != Pipeline([Holder(changed)]).version, 'told apart', k)
    ctx.expect(Pipeline([Holder(one), Holder(changed)]).version != Pipeline([Holder(changed), Holder(one)]).version,
               'told apart', 'order', k)
    ctx.expect(Pipeline([Holder(one)]).version != Pipeline([Holder(one), Holder(one)]).version, 'told apart', k)
    # networks with the same weights, but another structure
    net = netzoo.layered(ctx.rng)
    twin, other = netzoo.relayered(net, False), netzoo.relayered(net, True)
    g = lambda d, network=None: d
    ctx.eq(Op(g, network=net).version, Op(g, network=twin).version, 'equal', 'network')
    ctx.expect(Op(g, network=net).version != Op(g, network=other).version, 'told apart', 'networks')
    # a function that differs
    c = ctx.integer(1, 5)
    src = 'lambda d, factor=None: d * factor + %d'
    f, g = eval(src % c), eval(src % (c + 1))
    ctx.expect(Op(f, factor=2).version != Op(g, factor=2).version, 'told apart', 'code')
    ctx.eq(Op(f, factor=2).version, Op(f, factor=2).version, 'equal', 'code')
    ctx.eq(dill.loads(dill.dumps(one)).version, one.version, 'equal', 'loaded')
    ctx.count('versions told apart')


class Holder(object):
    def __init__(self, op):
        self.op = op


@CHECK.family(120, 2500, cpu=240, need=['network', 'network:version', 'network:snapshot'])
def networks(ctx):
    """a network in a pipeline does what the trained network does, and goes on doing it after loading"""
    torch.set_num_threads(1)
    n = ctx.integer(1, 6)
    kind = ctx.choice(['network', 'autoencoder', 'gan'])
    seed = ctx.integer(0, 10 ** 6)
    torch.manual_seed(seed)
    bs = ctx.choice([1, 3, 8, 64])
    data = ctx.rng.normal(0, 1, (ctx.integer(4, 30), n)).astype(np.float32)
    if kind == 'network':
        net = netzoo.Net(n, ctx.integer(1, 7), ctx.integer(1, 4), ctx.coin(), ctx.choice(['tanh', 'relu']),
                         ctx.choice([1.0, 0.25]))
    elif kind == 'autoencoder':
        net = netzoo.AutoEncoder(n, ctx.integer(1, 4), ctx.coin())
    else:
        net = netzoo.Pair(ctx.integer(1, 4), n)
    trainer = netzoo.Trainer(net, seed, bs)
    which = ctx.choice(['generator', 'discriminator'])
    store = ctx.choice(['memory', 'files', 'lmdb'])
    st, path = settings(ctx, store)
    ctx.say(kind, which, data.shape, 'batches of', bs, store)

    from zounds.learn.preprocess import Multiply, UnitNorm

    base = {}
    scale = base['scale'] = ff.PickleFeature(Multiply, factor=np.float32(0.5), store=False)
    if kind == 'network':
        base['labels'] = ff.PickleFeature(Multiply, factor=1, store=False)
        base['network'] = ff.PickleFeature(
            PyTorchNetwork, trainer=trainer, needs=dict(data=scale, labels=base['labels']), store=False)
    elif kind == 'autoencoder':
        base['network'] = ff.PickleFeature(PyTorchAutoEncoder, trainer=trainer, needs=scale, store=False)
    else:
        base['network'] = ff.PickleFeature(
            PyTorchGan, apply_network=which, trainer=trainer, needs=scale, store=False)
    base['pipeline'] = ff.PickleFeature(
        PreprocessingPipeline, needs=(scale, base['network']), store=True)
    cls = type('Nets', (ff.BaseModel, st), base)
    _id = cls.process(scale=data, **(dict(labels=data) if kind == 'network' else {}))
    pipe = cls(_id).pipeline
    if ctx.coin(0.3):
        pipe = dill.loads(dill.dumps(pipe))
    ctx.count('networks')

    reference = copy.deepcopy(net).eval()
    width = n
    if kind == 'network':
        f = reference
    elif kind == 'autoencoder':
        f = reference.encoder
    else:
        f = getattr(reference, which)
        width = n if which == 'discriminator' else reference.latent

    def expect(p, key):
        for m in (1, ctx.integer(2, 20), 150) + ((ctx.integer(300, 6000),) if ctx.coin(.2) else ()):
            x = ctx.rng.normal(0, 1, (m, width)).astype(np.float32)
            if ctx.coin(0.4):
                x = ArrayWithUnits(x, [TimeDimension(Seconds(1)), IdentityDimension()])
            with torch.no_grad():
                y = f(torch.from_numpy(np.array(x) * np.float32(0.5))).numpy()
            r = p.transform(x)
            ctx.close(np.array(r.data), y, key, rtol=1e-4, atol=1e-5)
            if isinstance(x, ArrayWithUnits):
                ctx.expect(r.data.dimensions[0] == x.dimensions[0], key, 'units')
            if kind == 'autoencoder':
                with torch.no_grad():
                    z = reference.decoder(torch.from_numpy(y)).numpy() * 2
                inv = r.inverse_transform()
                ctx.close(np.array(inv), z, key, 'inverse', rtol=1e-4, atol=1e-5)
                ctx.expect(type(inv) is type(x), key, 'inverse', type(inv))
            else:
                ctx.raises(r.inverse_transform, key, types=(NotImplementedError,))

    expect(pipe, 'network')
    # what was stored stays what it was while training goes on
    with torch.no_grad():
        for p in net.parameters():
            p += 1
    expect(cls(_id).pipeline, 'network:snapshot')
    ctx.expect(not any(m.training for m in pipe[-1].network.modules()), 'network:snapshot', 'training mode')
    # versions
    again = dill.loads(dill.dumps(pipe))
    expect(again, 'network')
    for a, b in zip(pipe.processors, again.processors):
        ctx.eq(a.op.version, b.op.version, 'network:version')
    ctx.eq(pipe[:].version, pipe.version, 'network:version', 'of all the steps')
    ctx.eq(again[:].version, pipe.version, 'network:version', 'of all the steps, loaded')
    with torch.no_grad():
        next(again[-1].network.parameters()).view(-1)[0] += 0.5
    moved = dill.loads(dill.dumps(again))
    ctx.expect(moved[-1].op.version != pipe[-1].op.version, 'network:version', 'weights moved')
    if store == 'files' and ctx.coin(0.15):
        x = ctx.rng.normal(0, 1, (5, width)).astype(np.float32)
        got, = elsewhere(ctx, 'net', [('load', (stored_file(path), [x]))])
        here = apply(pipe, [x])
        ctx.expect('error' not in got, 'network', 'fresh process', got.get('error'))
        ctx.close(got['forward'][0], here['forward'][0], 'network', 'fresh process', rtol=1e-5, atol=1e-6)
        ctx.eq(got['versions'], here['versions'], 'network:version', 'fresh process')
        ctx.eq(got['parts'], here['parts'], 'network:version', 'fresh process')
        ctx.count('networks in fresh processes')


@CHECK.family(150, 3000, need=['learned', 'relearned'])
def learned(ctx):
    """features computed by a stored pipeline follow it: the same until it changes, computed anew once it does"""
    n = ctx.integer(1, 5)
    pipes = []
    for i in range(2):
        steps = [SMeanStd(), SMultiply(ctx.choice([2, 3, 5])), SUnitNorm()][:ctx.integer(1, 3)]
        st, _ = settings(ctx, 'memory')
        cls = graph(steps, st)
        cls.process(step0=ctx.rng.normal(i, 1, (12, n)))
        pipes.append(cls('model'))
    st, path = settings(ctx, ctx.choice(['memory', 'files']))
    # documents get ids of their own
    st = type('Documents', (st,), dict(id_provider=ff.UuidProvider()))

    def document(pipe, version=None):
        class Document(ff.BaseModel, st):
            raw = ff.PickleFeature(Source, store=True)
            coded = ff.PickleFeature(Learned, learned=pipe, needs=raw, store=True, version=version)

        return Document

    x = [ctx.rng.normal(0, 1, (ctx.integer(1, 6), n)) for _ in range(3)]
    one = document(pipes[0])
    ids = [one.process(raw=v) for v in x]
    for _id, v in zip(ids, x):
        ctx.eq(np.array(one(_id).coded), np.array(pipes[0].pipeline.transform(v).data), 'learned')
        ctx.eq(np.array(document(pipes[0])(_id).coded), np.array(pipes[0].pipeline.transform(v).data), 'learned')
    two = document(pipes[1])
    for _id, v in zip(ids, x):
        ctx.eq(np.array(two(_id).coded), np.array(pipes[1].pipeline.transform(v).data), 'relearned')
        ctx.count('learned features')
    ctx.expect(one.coded.version != two.coded.version, 'relearned', 'version')
    # part of a pipeline, other types, and results put into another form
    part = ctx.coin()
    dtype = ctx.choice([None, np.float32, np.float64, np.float16])
    shift = ctx.choice([None, 3])
    wrapper = (lambda d: np.asarray(d) + shift) if shift else None
    func = (lambda m: m.pipeline[:1]) if part else None

    class Other(ff.BaseModel, st):
        raw = ff.PickleFeature(Source, store=True)
        coded = ff.PickleFeature(
            Learned, learned=pipes[0], needs=raw, store=True, pipeline_func=func, dtype=dtype, wrapper=wrapper)

    pipe = pipes[0].pipeline[:1] if part else pipes[0].pipeline
    for v in x:
        given = v.copy()
        want = np.asarray(pipe.transform(v.astype(dtype) if dtype else v).data) + (shift or 0)
        got = np.asarray(Other(Other.process(raw=v)).coded)
        ctx.eq(got, want, 'learned', 'part' if part else 'all', dtype, shift)
        ctx.eq(got.dtype, want.dtype, 'learned', 'dtype', dtype)
        ctx.eq(v, given, 'learned', 'input changed')


class Source(ff.Node):
    def _process(self, data):
        yield data
