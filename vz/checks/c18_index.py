"""C18: HammingIndex and brute-force searches over generated documents"""
import json
import os
import threading
import time

from featureflow import (
    BaseModel, EventLog, Feature, InMemoryChannel, InMemoryDatabase, JSONFeature, Node, PersistenceSettings,
    StringDelimitedKeyBuilder, UuidProvider)
from scipy.spatial.distance import cdist

from ..core import Check
from ..gen import *
from .c16_hammingdb import distance
from zounds.index import BruteForceSearch, HammingDistanceBruteForceSearch, HammingIndex
from zounds.persistence import ArrayWithUnitsFeature

CHECK = Check(
    'C18',
    'Documents with known hash series are indexed by add, add_all, and listening (replayed, live, resumed after '
    'reopening); every search result is judged against a list of (code, document, time slice, extra data).',
    technique='model-based runtime monitoring of indexing histories against a list model',
    require=['segments indexed', 'searches', 'reopened', 'live events', 'resumed', 'extra data', 'brute force searches'])


class Source(Node):
    """a root that hands out prepared chunks"""

    def _process(self, data):
        for chunk in data:
            yield chunk


class Reworked(Source):
    """hands out the same, and is another version of it"""


def model_of(scratch, log=True, node=Source):
    db = InMemoryDatabase(key_builder=StringDelimitedKeyBuilder())
    logger = EventLog(path=os.path.join(scratch, 'events'), channel=InMemoryChannel()) if log else None

    class Settings(PersistenceSettings):
        id_provider = UuidProvider()
        key_builder = StringDelimitedKeyBuilder()
        database = db
        if log:
            event_log = logger

    class Document(BaseModel, Settings):
        bits = ArrayWithUnitsFeature(node, store=True)
        other = ArrayWithUnitsFeature(Source, store=True)
        info = Feature(Source, store=False)
    return Document, logger


def codes_for(ctx, n, size, pool):
    kind = ctx.choice(['random', 'random', 'sparse', 'pool'])
    if kind == 'random' or not pool:
        c = ctx.rng.integers(0, 2, (n, size * 8))
    elif kind == 'sparse':
        c = (ctx.rng.random((n, size * 8)) < .05).astype(int)
    else:
        c = np.array([pool[ctx.integer(0, len(pool) - 1)] for _ in range(n)])
        flip = ctx.rng.random(c.shape) < .02
        c = c ^ flip
    pool.extend(c)
    return c.astype(np.uint8)


class Docs(object):
    def __init__(self, ctx, size, form, log=True, node=Source):
        self.ctx, self.size, self.form = ctx, size, form
        self.Document, self.log = model_of(ctx.scratch(), log, node)
        self.pool, self.series = [], {}

    def new(self, n=None):
        ctx = self.ctx
        n = ctx.integer(1, 25) if n is None else n
        bits = codes_for(ctx, n, self.size, self.pool)
        td = time_dim(ctx)
        codes = [np.packbits(b).tobytes() for b in bits]
        if self.form == 'uint8':
            raw = bits
        elif self.form == 'bool':
            raw = bits.astype(bool)
        else:
            raw = np.frombuffer(b''.join(codes), dtype=np.uint64).reshape(n, -1)
        arr = ArrayWithUnits(raw, [td, IdentityDimension()])
        cut = sorted({0, n} | {ctx.integer(0, n) for _ in range(ctx.integer(0, 3))})
        chunks = [arr[a:b] for a, b in zip(cut, cut[1:])]
        noise = ArrayWithUnits(1 - raw if self.form == 'uint8' else ~raw, [td, IdentityDimension()])
        _id = self.Document.process(bits=chunks, other=[noise])
        self.series[_id] = (td, codes)
        return _id

    def foreign(self):
        """an event that isn't about this version of this feature"""
        ctx, bits = self.ctx, self.Document.bits
        if self.series and ctx.coin(.3):
            name, version = ctx.choice([(bits.key, bits.version + 'x'), (bits.key, ''), ('elsewhere', bits.version),
                                        (self.Document.other.key, self.Document.other.version)])
            self.log.append(json.dumps(dict(_id=ctx.choice(sorted(self.series)), name=name, version=version)))
            ctx.count('foreign events')

    def entries(self, _id, extra):
        td, codes = self.series[_id]
        f, d = ps(td.frequency), ps(td.duration)
        return [(c, (_id, f * i, d, extra(_id, f * i) if extra else None)) for i, c in enumerate(codes)]


def extra_for(ctx):
    """extra data functions and what they give"""
    if ctx.coin(.5):
        return {}, None
    funcs = dict(
        name=lambda doc, ts: 'doc ' + str(doc._id),
        at=lambda doc, ts: int(ts.start / Picoseconds(1) // 10 ** 6),
        nested=lambda doc, ts: {'n': len(doc.bits), 'l': [1, 'two', None]})
    keep = [k for k in funcs if ctx.coin(.7)] or ['name']
    return {k: funcs[k] for k in keep}, keep


def observed(result, keep):
    if keep is None:
        _id, ts = result
        x = None
    else:
        _id, ts, x = result
        x = tuple(sorted((k, repr(v)) for k, v in x.items()))
    return (_id, ps(ts.start), ps(ts.duration), x)


def judge(ctx, got, model, query, n, ordered, key):
    """got: observed results; model: list of (code, entry)"""
    by = {}
    for c, e in model:
        by.setdefault(e, []).append(c)
    ctx.eq(len(got), min(n, len(model)), key + ':count', 'of', len(model))
    d = []
    for e in got:
        ctx.expect(e in by, key + ':entry', e)
        d.append(distance(by[e][0], query))
    for e in set(got):
        ctx.expect(got.count(e) <= len(by[e]), key + ':once', e)
    best = sorted(distance(c, query) for c, _ in model)[:n]
    ctx.eq(sorted(d), best, key + ':nearest')
    if ordered:
        ctx.eq(d, sorted(d), key + ':order')
    ctx.count('searches')


def query_form(ctx, index, code):
    """the same query as bytes, packed or unpacked"""
    bits = np.unpackbits(np.frombuffer(code, dtype=np.uint8))
    kind = ctx.choice(['bytes', 'uint64', 'uint8', 'bool', 'units'])
    if kind == 'bytes':
        q = code
    elif kind == 'uint64':
        q = np.frombuffer(code, dtype=np.uint64)
    elif kind == 'uint8':
        q = bits
    elif kind == 'bool':
        q = bits.astype(bool)
    else:
        q = ArrayWithUnits(bits, [IdentityDimension()])
    ctx.eq(index.encode_query(q), code, 'query:encode')
    ctx.eq(index.decode_query(code), bits, 'query:decode')
    return q


def search(ctx, index, model, size, keep, key='search'):
    if model and ctx.coin(.6):
        code = bytearray(model[ctx.integer(0, len(model) - 1)][0])
        for _ in range(ctx.integer(0, 3)):
            code[ctx.integer(0, size - 1)] ^= 1 << ctx.integer(0, 7)
        code = bytes(code)
    else:
        code = ctx.rng.bytes(size)
    n = max(0, ctx.choice([1, 3, len(model) - 1, len(model), len(model) + 2]))
    ordered = ctx.coin()
    if model and ctx.coin(.25):
        res = index.random_search(n, multithreaded=ctx.coin(.3), sort=ordered)
        code = bytes(res.query)
        ctx.expect(any(code == c for c, _ in model), key + ':random')
    else:
        res = index.search(query_form(ctx, index, code), n, multithreaded=ctx.coin(.3), sort=ordered)
        ctx.eq(bytes(res.query), code, key + ':query')
    judge(ctx, [observed(r, keep) for r in res], model, code, n, ordered, key)


def shut(index):
    db = index.hamming_db
    if id(index) % 32 < 16:
        index.close()
    else:
        with index as same:
            assert same is index
    pool = getattr(db, '_pool', None)
    if pool is not None:
        pool.terminate()


def extra_entry(docs, keep):
    if keep is None:
        return None

    def f(_id, start):
        x = dict(name='doc ' + str(_id), at=start // 10 ** 6,
                 nested={'n': len(docs.series[_id][1]), 'l': [1, 'two', None]})
        return tuple(sorted((k, repr(x[k])) for k in keep))
    return f


def opened(ctx, docs, funcs, **kw):
    return HammingIndex(docs.Document, docs.Document.bits, path=os.path.join(ctx.scratch(), 'index'),
                        db_size_bytes=50 * 10 ** 6, **kw, **funcs)


@CHECK.family(60, 800, cpu=200, need=['added:nearest', 'added:len', 'added:no-log'])
def added(ctx):
    """add, add_all and reopening, in any order"""
    size = ctx.choice([8, 16, 24])
    form = ctx.choice(['uint8', 'bool', 'uint64'])
    docs = Docs(ctx, size, form, ctx.coin(.8))
    funcs, keep = extra_for(ctx)
    ctx.count('extra data', len(keep or []))
    extra = extra_entry(docs, keep)
    index = opened(ctx, docs, funcs)
    ctx.eq(len(index), 0, 'added:len')
    model = []
    ctx.say('%d-byte codes, %s, extra %s' % (size, form, keep))
    for _ in range(ctx.integer(2, 7)):
        op = ctx.choice(['add', 'add', 'again', 'all', 'reopen'])
        if op == 'add' or not docs.series:
            _id = docs.new()
            index.add(_id)
            model += docs.entries(_id, extra)
        elif op == 'again':
            _id = ctx.choice(sorted(docs.series))
            index.add(_id)
            model += docs.entries(_id, extra)
        elif op == 'all':
            docs.new()
            index.add_all()
            for _id in docs.series:
                model += docs.entries(_id, extra)
        else:
            shut(index)
            index = opened(ctx, docs, funcs)
            ctx.count('reopened')
        ctx.say('%s -> %d' % (op, len(model)))
        ctx.eq(len(index), len(model), 'added:len')
        if model:
            search(ctx, index, model, size, keep, 'added')
    if docs.log is None:
        ctx.raises(lambda: index._synchronously_process_events(), 'added:no-log', types=ValueError)
    ctx.count('segments indexed', len(model))
    # every segment is found by its own code
    for c, e in [model[ctx.integer(0, len(model) - 1)] for _ in range(5)]:
        twins = sum(1 for k, _ in model if k == c)
        got = [observed(r, keep) for r in index.search(c, twins)]
        ctx.expect(e in got, 'added:findable', e)
    shut(index)


@CHECK.family(16, 200, cpu=200, need=['versions:nearest', 'versions:len'])
def versions(ctx):
    """indexes of several versions of a feature keep to themselves, wherever they are"""
    size = ctx.choice([8, 16])
    form = ctx.choice(['uint8', 'uint64'])
    one, two = Docs(ctx, size, form, False), Docs(ctx, size, form, False, Reworked)
    ctx.expect(one.Document.bits.version != two.Document.bits.version, 'versions:differ')
    funcs, keep = extra_for(ctx)
    kinds = {'old': (one, {}), 'new': (two, {}), 'named': (one, dict(version='by-hand')), 'other name': (two, dict(version='by-hand-2'))}
    names = ctx.rng.permutation(sorted(kinds))[:ctx.integer(2, 4)].tolist()
    models, indexes = {k: [] for k in names}, {}
    ctx.say('%d-byte codes, %s, %s, extra %s' % (size, form, names, keep))
    for _ in range(ctx.integer(3, 8)):
        k = ctx.choice(names)
        docs, kw = kinds[k]
        if k not in indexes:
            indexes[k] = opened(ctx, docs, funcs, **kw)
        elif ctx.coin(.3):
            shut(indexes[k])
            indexes[k] = opened(ctx, docs, funcs, **kw)
            ctx.count('reopened')
        _id = docs.new()
        indexes[k].add(_id)
        models[k] += docs.entries(_id, extra_entry(docs, keep))
        ctx.say('%s -> %d' % (k, len(models[k])))
        for j in indexes:
            ctx.eq(len(indexes[j]), len(models[j]), 'versions:len', j)
            search(ctx, indexes[j], models[j], size, keep, 'versions')
    ctx.count('segments indexed', sum(len(m) for m in models.values()))
    for index in indexes.values():
        shut(index)


@CHECK.family(40, 500, cpu=200, need=['listened:nearest', 'listened:len'])
def listened(ctx):
    """events replayed from the log, resumed after reopening"""
    size = ctx.choice([8, 16])
    docs = Docs(ctx, size, ctx.choice(['uint8', 'bool', 'uint64']))
    funcs, keep = extra_for(ctx)
    ctx.count('extra data', len(keep or []))
    extra = extra_entry(docs, keep)
    index = opened(ctx, docs, funcs)
    model, pending = [], []
    for step in range(ctx.integer(2, 6)):
        for _ in range(ctx.integer(0, 3)):
            pending.append(docs.new())
            docs.foreign()
        if ctx.coin(.4):
            shut(index)
            index = opened(ctx, docs, funcs)
            ctx.count('reopened')
        ctx.count('resumed', int(bool(model)))
        index._synchronously_process_events()
        for _id in pending:
            model += docs.entries(_id, extra)
        ctx.say('+%d documents, %d segments' % (len(pending), len(model)))
        pending = []
        if docs.series and ctx.coin(.3):
            # once more, by hand, which isn't anything the log knows about
            _id = ctx.choice(sorted(docs.series))
            index.add(_id)
            model += docs.entries(_id, extra)
            ctx.say('by hand', len(model))
        ctx.eq(len(index), len(model), 'listened:len')
        if model:
            search(ctx, index, model, size, keep, 'listened')
    ctx.count('segments indexed', len(model))
    shut(index)


@CHECK.family(16, 150, cpu=200, need=['live:nearest', 'live:len'])
def live(ctx):
    """a listening index takes up documents as they are processed"""
    size = ctx.choice([8, 16])
    docs = Docs(ctx, size, ctx.choice(['uint8', 'uint64']))
    funcs, keep = extra_for(ctx)
    extra = extra_entry(docs, keep)
    model = []
    before = [docs.new() for _ in range(ctx.integer(0, 2))]
    index = opened(ctx, docs, funcs, listen=True)
    for _id in before:
        model += docs.entries(_id, extra)

    def settle(n):
        end = time.monotonic() + 60
        while len(index) < n and time.monotonic() < end:
            if index.thread is not None and not index.thread.is_alive():
                time.sleep(.05)
                break
            time.sleep(.002)
    settle(len(model))
    def waiting():
        """until the listener waits for the next event"""
        end = time.monotonic() + 60
        while time.monotonic() < end:
            qs = docs.log.channel.generators
            if qs and len(qs[0].not_empty._waiters):
                return
            if not index.thread.is_alive():
                return
            time.sleep(.002)
    waiting()
    for _ in range(ctx.integer(1, 4)):
        model += docs.entries(docs.new(), extra)
        docs.foreign()
        ctx.count('live events')
        if ctx.coin(.5):
            settle(len(model))
            ctx.eq(len(index), len(model), 'live:len')
    settle(len(model))
    ctx.say('%d before, %d in all, %d segments' % (len(before), len(docs.series), len(model)))
    ctx.eq(len(index), len(model), 'live:len')
    waiting()
    search(ctx, index, model, size, keep, 'live')
    ctx.expect(index.thread.is_alive(), 'live:listening')
    ctx.count('segments indexed', len(model))
    shut(index)
    index = opened(ctx, docs, funcs)
    ctx.eq(len(index), len(model), 'live:len')
    index._synchronously_process_events()
    ctx.eq(len(index), len(model), 'live:len')
    search(ctx, index, model, size, keep, 'live')
    shut(index)


@CHECK.family(80, 1000, need=['brute:nearest', 'brute:slice'])
def brute_force(ctx):
    metric = ctx.choice(['euclidean', 'cosine', 'cityblock', 'sqeuclidean', 'chebyshev', 'correlation'])
    hamming = ctx.coin(.4)
    dims = ctx.choice([ctx.integer(1, 4), ctx.integer(5, 20)]) if hamming else ctx.integer(2, 12)
    middle = ctx.choice([0, 0, 1000])
    # (codes of many bits may be hundreds of them apart)
    density = ctx.choice([.5, .5, .03, .97])
    code = lambda *shape: np.packbits(ctx.rng.random(shape + (64,)) < density, axis=-1).view(np.uint64)[..., 0]
    items, docs = [], []
    for k in range(ctx.integer(1, 5)):
        n = ctx.integer(1, 12)
        td = time_dim(ctx)
        if hamming:
            raw = code(n, dims)
            flip = ctx.rng.random(n) < .2
            raw[flip] = ~raw[flip]
        else:
            raw = ctx.rng.normal(middle, 1, (n, dims))
        if ctx.coin(.3) and items:
            raw[0] = items[0][0]
        docs.append(('id%d' % k, ArrayWithUnits(raw, [td, IdentityDimension()])))
        items += [(raw[i], ('id%d' % k, ps(td.frequency) * i, ps(td.duration))) for i in range(n)]
    search = HammingDistanceBruteForceSearch(iter(docs)) if hamming else BruteForceSearch(iter(docs), metric)
    if not hamming and metric == 'euclidean' and ctx.coin():
        search = BruteForceSearch(iter(docs))
    ctx.say('%d documents, %d items, %s' % (len(docs), len(items), 'hamming' if hamming else metric))
    for _ in range(4):
        n = ctx.choice([0, 1, 2, len(items) - 1, len(items), len(items) + 4])
        if ctx.coin(.3):
            ctx.seed_global()
            res = search.random_search(n)
            q = np.asarray(res.query)
            ctx.expect(any(np.array_equal(q, x) for x, _ in items), 'brute:random')
        else:
            q = code(dims) if hamming else ctx.rng.normal(middle, 1, dims)
            if ctx.coin(.4):
                q = items[ctx.integer(0, len(items) - 1)][0]
            res = search.search(q, n)
        if hamming:
            d = np.array([distance(x.tobytes(), q.tobytes()) for x, _ in items], dtype=float)
        else:
            d = cdist(q[None], np.array([x for x, _ in items]), metric)[0]
        got = [(i, ps(ts.start), ps(ts.duration)) for i, ts in res]
        ctx.eq(len(got), min(n, len(items)), 'brute:count')
        where = {e: i for i, (_, e) in enumerate(items)}
        for e in got:
            ctx.expect(e in where, 'brute:slice', e)
        ctx.eq(len(set(got)), len(got), 'brute:once')
        gd = np.array([d[where[e]] for e in got])
        ctx.close(gd, np.sort(d)[:n], 'brute:nearest', rtol=1e-9, atol=1e-12)
        ctx.count('brute force searches')
