"""C29: reservoirs and samplers"""
import contextlib
import io
import itertools

import featureflow as ff

from ..core import Check
from ..gen import *
from ..nodes import cuts, run
from ..perturb import Perturb
from zounds.learn import learning_pipeline, Reservoir, ReservoirSampler, ShuffledSamples
from zounds.learn.random_samples import InfiniteSampler, MultiplexedReservoir
from zounds.util import simple_in_memory_settings
from zounds.spectral import FrequencyBand, FrequencyDimension, LinearScale

CHECK = Check(
    'C29',
    'Every sample carries its own identity in every element, so that whatever a reservoir or sampler hands out can be '
    'traced to the sample that was added and to its fellows under other keys; random histories of calls, chunkings of '
    'streams and perturbed threads are followed by a model of what may be held, and counts of what was kept are '
    'tested against equal chances.',
    technique='runtime monitoring with identity-carrying data, perturbed threads and statistical oracles',
    require=['additions', 'batches drawn', 'rows traced', 'misuse refused', 'streams', 'fair trials', 'infinite rounds',
             'perturbed lines'])

SHAPES = [(), (3,), (2, 2), (1,), (4, 1, 2)]


def made(ids, shape, dtype, key=0):
    """rows of which every element tells the identity"""
    ids = np.asarray(ids, dtype=np.int64)
    n = int(np.prod(shape))
    x = ids[:, None] * 16 + (np.arange(n)[None] + key) % 16
    return x.reshape((len(ids),) + shape).astype(dtype)


def traced(ctx, rows, shape, dtype, oracle, key=0):
    """the identities of intact rows"""
    rows = np.asarray(rows)
    ctx.eq(rows.shape[1:], shape, oracle, 'shape')
    ctx.expect(rows.dtype == dtype, oracle, 'type', rows.dtype, dtype)
    flat = rows.reshape((len(rows), int(np.prod(shape))))
    ids = (flat[:, 0].astype(np.int64) - key % 16) // 16
    ctx.eq(made(ids, shape, dtype, key), rows, oracle, 'torn or made-up rows')
    ctx.count('rows traced', len(rows))
    return ids


def units(ctx, x, how):
    if how == 'plain':
        return x
    dims = [TimeDimension(Seconds(1))] + [IdentityDimension()] * (x.ndim - 1)
    if how == 'frequency' and x.ndim > 1:
        dims[-1] = FrequencyDimension(LinearScale(FrequencyBand(10, 1000), x.shape[-1]))
    return ArrayWithUnits(x, dims)


@CHECK.family(400, 20000, need=['held', 'batch'])
def histories(ctx):
    """additions, batches and refusals in any order"""
    cap = ctx.choice([1, 2, 7, 20, 100])
    shape = ctx.choice(SHAPES)
    # (identities have to be representable)
    given = ctx.choice([np.float32, np.float64, np.int64, np.int32] + ([np.float16, np.int16] if cap <= 2 else []))
    forced = ctx.choice([None, None, np.float32, np.float64])
    dtype = np.dtype(forced or given)
    how = ctx.choice(['plain', 'plain', 'time', 'frequency'])
    ctx.say('capacity', cap, shape, dtype, how)
    ctx.seed_global()
    r = Reservoir(cap, dtype=forced)
    ctx.eq(len(r), 0, 'held', 'empty')
    nxt, held, size = 1, {}, 0
    added = set()
    for _ in range(ctx.integer(1, 12)):
        op = ctx.choice(['add', 'add', 'add', 'place', 'batch', 'get', 'refuse'])
        if op in ('add', 'place'):
            m = ctx.choice([1, 2, cap, ctx.integer(1, 2 * cap)])
            ids = list(range(nxt, nxt + m))
            nxt += m
            x = units(ctx, made(ids, shape, given), how)
            kept = np.array(x)
            if op == 'place':
                m = min(m, cap)
                x, ids = x[:m], ids[:m]
                at = ctx.rng.permutation(cap)[:m]
                if ctx.coin():
                    at = list(int(i) for i in at)
                r.add(x, indices=at)
            else:
                r.add(x)
            ctx.eq(np.array(x), kept[:len(x)], 'held', 'input unmodified')
            added.update(ids)
            ctx.count('additions')
            ctx.expect(len(r) <= cap, 'held', 'capacity', len(r))
            ctx.expect(len(r) >= size, 'held', 'shrank', len(r), size)
            now = traced(ctx, r.get(), shape, dtype, 'held')
            ctx.eq(len(now), len(r), 'held', 'length')
            ctx.eq(len(set(now)), len(now), 'held', 'twice')
            ctx.expect(set(now) <= added, 'held', 'never added', set(now) - added)
            ctx.expect(ids[-1] in now, 'held', 'the last one added')
            ctx.expect(len(r) - size <= len(ids), 'held', 'grew by more than was added')
            if op == 'place':
                ctx.expect(set(ids) <= set(now), 'held', 'placed')
                where = np.array(r.arr)[np.array(at)]
                ctx.eq(traced(ctx, where, shape, dtype, 'held'), np.array(ids), 'held', 'placed')
            # what was held is replaced by what was added, one for one at most
            gone = set(held) - set(now)
            ctx.expect(len(gone) <= len(ids), 'held', 'lost', gone)
            ctx.expect(set(now) - set(held) <= set(ids), 'held', 'back again')
            held, size = {int(i): 1 for i in now}, len(r)
            ctx.close(r.percent_full(), len(now) / float(cap), 'held', 'percentage')
            if how != 'plain':
                g = r.get()
                ctx.expect(isinstance(g, ArrayWithUnits), 'held', 'units')
                ctx.expect(isinstance(g.dimensions[0], IdentityDimension), 'held', 'units', g.dimensions)
                if how == 'frequency' and len(shape):
                    ctx.expect(g.dimensions[-1] == x.dimensions[-1], 'held', 'units', g.dimensions)
        elif op == 'batch' and size:
            b = ctx.integer(1, size)
            rows = r.get_batch(b)
            ids = traced(ctx, rows, shape, dtype, 'batch')
            ctx.eq(len(ids), b, 'batch', 'size')
            ctx.expect(set(ids) <= set(held), 'batch', 'not held', set(ids) - set(held))
            if how != 'plain':
                ctx.expect(isinstance(rows, ArrayWithUnits), 'batch', 'units')
            if hasattr(rows, 'flags') and ctx.coin():
                np.asarray(rows)[...] = 0
                ctx.eq(sorted(traced(ctx, r.get(), shape, dtype, 'batch')), sorted(held), 'batch', 'a copy')
            ctx.count('batches drawn')
        elif op == 'get' and size:
            ctx.eq(sorted(traced(ctx, r.get(), shape, dtype, 'held')), sorted(held), 'held', 'the same until changed')
        elif op == 'refuse':
            if size:
                ctx.raises(lambda: r.get_batch(size + 1), 'refused', types=(ValueError,))
                ctx.raises(lambda: r.get_batch(cap + ctx.integer(1, 5)), 'refused', types=(ValueError,))
                x = made(range(nxt, nxt + 3), shape, given)
                ctx.raises(lambda: r.add(x, indices=[0, 1][:ctx.integer(0, 2)]), 'refused', types=(ValueError,))
                ctx.eq(sorted(traced(ctx, r.get(), shape, dtype, 'held')), sorted(held), 'refused', 'but changed')
            ctx.raises(lambda: Reservoir(ctx.choice([0, -1, 2.5, 1e2, '3'])), 'refused', types=(ValueError,))
            ctx.count('misuse refused')


@CHECK.family(40, 1000, need=['reach'])
def reach(ctx):
    """every slot is filled, and everything held is drawn, with equal chances"""
    cap = ctx.integer(1, 12)
    ctx.seed_global()
    r = Reservoir(cap)
    n = 300 * cap
    hits = np.zeros(cap)
    for i in range(n):
        r.add(made([i + 1], (2,), np.float64))
        hits[int(np.flatnonzero(np.array(r.arr)[:, 0] == (i + 1) * 16)[0])] += 1
    even(ctx, hits, n, 1. / cap, 'reach', 'slots')
    ids = traced(ctx, r.get(), (2,), np.float64, 'reach')
    drawn = {int(i): 0 for i in ids}
    for _ in range(300):
        for i in traced(ctx, r.get_batch(cap), (2,), np.float64, 'reach'):
            drawn[int(i)] += 1
    even(ctx, np.array(list(drawn.values())), 300 * cap, 1. / cap, 'reach', 'drawn')
    ctx.count('batches drawn', 300)


def even(ctx, counts, n, p, key, *msg):
    """counts of n trials each of chance p: nothing seven deviations off"""
    sd = math.sqrt(n * p * (1 - p)) + 1e-9
    z = np.abs(np.asarray(counts) - n * p) / sd
    ctx.expect((z < 7).all(), key, 'uneven', *(msg + (counts, 'of', n, 'expected', n * p)))


@CHECK.family(250, 10000, need=['aligned'])
def multiplexed(ctx):
    """rows of all keys stay together, whatever is added or refused"""
    cap = ctx.choice([1, 3, 10, 40])
    keys = ['data', 'labels', 'more', 'other'][:ctx.integer(1, 4)]
    shapes = {k: ctx.choice(SHAPES) for k in keys}
    dtypes = {k: np.dtype(ctx.choice([np.float32, np.float64, np.int64])) for k in keys}
    forced = ctx.choice([None, None, np.float64])
    ctx.seed_global()
    r = MultiplexedReservoir(cap, dtype=forced)
    nxt, added = 1, set()

    def sample(ids, order=None):
        ks = list(keys)
        if order:
            ctx.rng.shuffle(ks)
        return {k: made(ids, shapes[k], dtypes[k], key=keys.index(k)) for k in ks}

    def look():
        got = r.get()
        ctx.expect(set(got) == set(keys), 'aligned', 'keys', list(got))
        ids = [traced(ctx, got[k], shapes[k], np.dtype(forced or dtypes[k]), 'aligned', key=keys.index(k))
               for k in keys]
        for i in ids[1:]:
            ctx.eq(i, ids[0], 'aligned', 'rows of different samples')
        ctx.expect(set(ids[0]) <= added, 'aligned', 'never added')
        ctx.expect(len(ids[0]) <= cap, 'aligned', 'capacity')
        return [int(i) for i in ids[0]]

    for _ in range(ctx.integer(2, 10)):
        m = ctx.choice([1, 2, cap, ctx.integer(1, 2 * cap)])
        ids = list(range(nxt, nxt + m))
        nxt += m
        op = ctx.choice(['add', 'add', 'add', 'keys', 'lengths'])
        if op == 'add' or not added:
            r.add(sample(ids, order=True))
            added.update(ids)
            ctx.count('additions')
            ctx.expect(ids[-1] in look(), 'aligned', 'the last one added')
            continue
        before = look()
        bad = sample(ids)
        if op == 'keys':
            if ctx.coin() and len(keys) > 1:
                del bad[ctx.choice(keys)]
            else:
                bad['unknown'] = bad[keys[0]]
        elif len(keys) > 1:
            k = ctx.choice(keys)
            bad[k] = bad[k][:-1] if m > 1 and ctx.coin() else np.concatenate([bad[k], bad[k][:1]])
        else:
            continue
        ctx.raises(lambda: r.add(bad), 'refused', op, types=(ValueError,))
        ctx.eq(look(), before, 'refused', 'but changed', op)
        ctx.count('misuse refused')


class Keep(ff.Node):
    def __init__(self, into=None, needs=None):
        super(Keep, self).__init__(needs=needs)
        self.into = into

    def _process(self, data):
        if self.into is not None:
            self.into.append(data)
        yield data


@CHECK.family(300, 10000, need=['stream'])
def streams(ctx):
    """nodes: what comes out of a stream in chunks"""
    n = ctx.integer(1, 60)
    shape = ctx.choice(SHAPES)
    dtype = np.dtype(ctx.choice([np.float32, np.float64, np.int64]))
    how = ctx.choice(['plain', 'time', 'frequency'])
    cap = ctx.choice([1, n, n + 1, ctx.integer(1, 80), 200])
    x = units(ctx, made(range(1, n + 1), shape, dtype), how)
    chunks = [x[a:b] for a, b in cuts(ctx, n) if b > a]
    ctx.seed_global()
    kind = ctx.choice(['sampler', 'sampler', 'shuffled', 'multiplexed', 'pipeline'])
    ctx.say(kind, 'capacity', cap, [len(c) for c in chunks], shape, dtype, how)
    if kind == 'sampler':
        out = run(lambda s: ReservoirSampler(nsamples=cap, needs=s), chunks)
        ctx.eq(len([o for o in out if o is not None]), 1, 'stream', 'outputs')
        ids = traced(ctx, out[0], shape, dtype, 'stream')
        ctx.eq(len(ids), min(cap, n), 'stream', 'as many as fit')
        ctx.eq(len(set(ids)), len(ids), 'stream', 'twice')
        ctx.expect(set(ids) <= set(range(1, n + 1)), 'stream', 'never added')
        if cap >= n:
            ctx.eq(sorted(ids), list(range(1, n + 1)), 'stream', 'all of them')
        result = out[0]
    elif kind == 'shuffled':
        out = run(lambda s: ShuffledSamples(nsamples=cap, needs=s), chunks)
        result = out[0]
        ids = traced(ctx, result, shape, dtype, 'stream')
        ctx.expect(0 < len(ids) <= min(cap, n) and len(set(ids)) == len(ids), 'stream', ids)
        ctx.expect(set(ids) <= set(range(1, n + 1)) and n in ids, 'stream', ids)
    elif kind == 'pipeline':
        # the graph learning pipelines begin with
        out = []
        base = learning_pipeline()

        class Learning(base):
            kept = ff.PickleFeature(Keep, into=ff.Var('into'), needs=base.shuffled, store=False)
            stored = ff.PickleFeature(Keep, needs=kept, store=True)
        forced = ctx.choice([dtype, np.dtype(np.float64)])
        simple_in_memory_settings(Learning).process(samples=chunks, nsamples=cap, dtype=forced, into=out)
        ctx.eq(len(out), 1, 'stream', 'outputs')
        result = out[0]
        ids = traced(ctx, result, shape, forced, 'stream')
        ctx.expect(0 < len(ids) <= min(cap, n) and len(set(ids)) == len(ids), 'stream', ids)
        ctx.expect(set(ids) <= set(range(1, n + 1)) and n in ids, 'stream', ids)
        ctx.count('learning pipelines')
    else:
        forced = ctx.choice([None, np.float64])
        second = made(range(1, n + 1), (2,), np.float64, key=3)
        pairs, at = [], 0
        for c in chunks:
            pairs.append(dict(a=c, b=second[at: at + len(c)]))
            at += len(c)
        out = run(lambda s: ShuffledSamples(nsamples=cap, multiplexed=True, dtype=forced, needs=s), pairs)
        result = out[0]['a']
        ids = traced(ctx, result, shape, np.dtype(forced or dtype), 'stream')
        ctx.eq(ids, traced(ctx, out[0]['b'], (2,), np.dtype(np.float64), 'stream', key=3), 'stream', 'aligned')
    if how != 'plain':
        ctx.expect(isinstance(result, ArrayWithUnits), 'stream', 'units')
        ctx.expect(isinstance(result.dimensions[0], IdentityDimension), 'stream', 'units')
        if how == 'frequency' and len(shape):
            ctx.expect(result.dimensions[-1] == x.dimensions[-1], 'stream', 'units')
    ctx.eq(np.array(x), made(range(1, n + 1), shape, dtype), 'stream', 'input unmodified')
    ctx.count('streams')


@CHECK.family(24, 500, cpu=240, need=['fair'])
def fair(ctx):
    """every sample of a stream has the same chance to be kept, and every position of being anywhere"""
    n = ctx.integer(4, 40)
    few = ctx.coin()
    if few:
        # where one replacement more or less shows
        n = ctx.integer(3, 5)
    cap = ctx.integer(1, 2) if few else ctx.integer(1, n)
    x = made(range(1, n + 1), (1,), np.float64)
    cc = [(a, b) for a, b in cuts(ctx, n) if b > a] if not few or ctx.coin(.4) else [(0, n)]
    ctx.say('capacity', cap, 'chunks', [b - a for a, b in cc])
    ctx.seed_global()
    trials = 1500 if few else 500
    kept = np.zeros(n)
    first = np.zeros(n)
    for _ in range(trials):
        out = run(lambda s: ReservoirSampler(nsamples=cap, needs=s), [x[a:b] for a, b in cc])
        ids = traced(ctx, out[0], (1,), np.float64, 'fair')
        kept[ids - 1] += 1
        first[ids[0] - 1] += 1
    even(ctx, kept, trials, cap / float(n), 'fair', 'kept')
    if cap == n:
        even(ctx, first, trials, 1. / n, 'fair', 'first')
    ctx.count('fair trials', trials)


def shift(ctx):
    return Perturb(['learn/random_samples.py'], ctx.integer(0, 10 ** 9), p=ctx.choice([0.05, 0.2, 0.5]),
                   longest=ctx.choice([1e-4, 1e-3]))


@CHECK.family(150, 3000, cpu=240, need=['infinite'])
def infinite(ctx):
    """endless rounds of samples from stored documents, in parallel and not"""
    builder = ff.StringDelimitedKeyBuilder()

    class Settings(ff.PersistenceSettings):
        id_provider = ff.UuidProvider()
        key_builder = builder
        database = ff.InMemoryDatabase(key_builder=builder)

    class Passed(ff.Node):
        def _process(self, data):
            yield data

    class Document(ff.BaseModel, Settings):
        raw = ff.PickleFeature(Passed, store=True)

    shape = ctx.choice([(), (3,), (2, 2)])
    nxt, lengths = 1, []
    for i in range(ctx.integer(1, 8)):
        m = ctx.choice([1, 5, ctx.integer(1, 60)])
        if i and ctx.coin(0.1):
            m = 0
        Document.process(raw=made(range(nxt, nxt + m), shape, np.float64))
        nxt += m
        lengths.append(m)
    cap = ctx.choice([1, 4, 25, 100])
    parallel = ctx.coin(0.6)
    ctx.say('documents of', lengths, 'capacity', cap, 'parallel' if parallel else '')
    drop = ctx.coin(0.3)
    sampler = InfiniteSampler(
        nsamples=cap, parallel=parallel, feature_filter=(lambda x: x[::2]) if drop else (lambda x: x))
    ctx.seed_global()
    rounds = ctx.integer(1, 4)
    with contextlib.redirect_stdout(io.StringIO()):
        with shift(ctx) as p:
            sizes = []
            allowed = set()
            for m, start in zip(lengths, np.cumsum([1] + lengths[:-1])):
                allowed |= set(range(start, start + m)[::2] if drop else range(start, start + m))
            for got in itertools.islice(sampler._process((Document, Document.raw)), rounds):
                ids = traced(ctx, got, shape, np.dtype(np.float64), 'infinite')
                ctx.expect(set(ids) <= allowed, 'infinite', 'never stored', sorted(set(ids) - allowed)[:5])
                ctx.expect(0 < len(ids) <= cap, 'infinite', 'size', len(ids))
                sizes.append(len(ids))
                ctx.count('infinite rounds')
    ctx.count('perturbed lines', p.lines)
    ctx.eq(sizes, sorted(sizes), 'infinite', 'shrank')
    ctx.eq(len(sizes), rounds, 'infinite', 'ended')
