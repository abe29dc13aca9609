"""C16: HammingDb against a plain list of (code, value) pairs"""
import os

from ..core import Check
from ..gen import *
from zounds.index import hammingdb as mod
from zounds.index.hammingdb import HammingDb

CHECK = Check(
    'C16',
    'Histories of appends, searches, metadata writes, writes by another handle and reopening, '
    'judged against a list of (code, value) pairs with distances from Python integers.',
    technique='model-based runtime monitoring of operation histories against a list model',
    require=['reopened', 'searches', 'sorted searches', 'threaded searches', 'result counts beyond the size',
             'appends by another handle', 'growth steps'])


def distance(a, b):
    return bin(int.from_bytes(a, 'big') ^ int.from_bytes(b, 'big')).count('1')


class Shrunk:
    """start the in-memory table small so that short histories cross its growth steps"""

    def __init__(self, rows):
        self.rows = rows

    def __enter__(self):
        self.real = getattr(mod, 'Growable', None)
        if self.real is not None:
            real, rows = self.real, self.rows
            mod.Growable = lambda *args, **kw: real(*((args[0][:max(1, rows)],) + args[1:] if args else ()), **kw)
        return self

    def __exit__(self, *a):
        if self.real is not None:
            mod.Growable = self.real


def judge(ctx, got, model, query, n, ordered, key):
    """got: values; model: list of (code, value) the handle had to see"""
    got = list(got)
    ctx.expect(all(isinstance(v, bytes) for v in got), key + ':bytes')
    want = min(n, len(model))
    ctx.eq(len(got), want, key + ':count', 'of', len(model), 'asked', n)
    by_value = {}
    for code, value in model:
        by_value.setdefault(value, []).append(code)
    # values are unique in a history unless deliberately repeated with equal codes
    dists = []
    for v in got:
        ctx.expect(v in by_value, key + ':stored', v[:40])
        dists.append(distance(by_value[v][0], query))
    for v in set(got):
        ctx.expect(got.count(v) <= len(by_value[v]), key + ':once', v[:40])
    best = sorted(distance(c, query) for c, _ in model)[:want]
    ctx.eq(sorted(dists), best, key + ':nearest')
    if ordered:
        ctx.eq(dists, sorted(dists), key + ':order')


def new_code(ctx, size, seen):
    kind = ctx.choice(['random', 'random', 'near', 'dup', 'zero', 'one', 'half'])
    if kind in ('near', 'dup') and seen:
        c = bytearray(seen[ctx.integer(0, len(seen) - 1)])
        if kind == 'near':
            for _ in range(ctx.integer(1, 4)):
                c[ctx.integer(0, size - 1)] ^= 1 << ctx.integer(0, 7)
        return bytes(c)
    if kind == 'zero':
        return b'\0' * size
    if kind == 'one':
        return b'\xff' * size
    if kind == 'half':
        return b'\0' * (size // 2) + b'\xff' * (size - size // 2)
    return ctx.rng.bytes(size)


def new_value(ctx, i):
    kind = ctx.choice(['short', 'short', 'str', 'binary', 'long', 'nul'])
    tag = b'%d:' % i
    if kind == 'short':
        return tag, tag
    if kind == 'str':
        s = '%d:h\u00e9llo \u2603' % i
        return s, s.encode()
    if kind == 'binary':
        v = tag + ctx.rng.bytes(ctx.integer(0, 60))
    elif kind == 'nul':
        v = b'\0' + tag + b'\0\0'
    else:
        v = tag + ctx.rng.bytes(ctx.integer(500, 20000))
    return v, v


def query_for(ctx, size, model):
    if model and ctx.coin(.4):
        c = bytearray(model[ctx.integer(0, len(model) - 1)][0])
        for _ in range(ctx.integer(0, 3)):
            c[ctx.integer(0, size - 1)] ^= 1 << ctx.integer(0, 7)
        return bytes(c)
    return new_code(ctx, size, [c for c, _ in model])


def wanted(ctx, n):
    k = ctx.choice([0, 1, 2, 5, 10, n - 1, n, n + 1, 3 * n + 7, ctx.integer(0, n + 3)])
    if k > n:
        ctx.count('result counts beyond the size')
    return max(0, k)


def search(ctx, db, model, size, key='search'):
    q = query_for(ctx, size, model)
    n = wanted(ctx, len(model))
    ordered, threads = ctx.coin(), ctx.coin(.4)
    ctx.say('search(%d of %d%s%s)' % (n, len(model), ' sorted' if ordered else '', ' threads' if threads else ''))
    got = db.search(q, n, multithreaded=threads, sort=ordered)
    judge(ctx, got, model, q, n, ordered, key)
    ctx.count('searches')
    ctx.count('sorted searches', int(ordered))
    ctx.count('threaded searches', int(threads))


def close(db):
    db.close()
    pool = getattr(db, '_pool', None)
    if pool is not None:
        pool.terminate()


@CHECK.family(160, 2200, cpu=200, need=['search:nearest', 'len'])
def histories(ctx):
    size = ctx.choice([8, 8, 16, 24, 32, 64])
    path = os.path.join(ctx.scratch(), 'deep', 'db') if ctx.coin(.3) else os.path.join(ctx.scratch(), 'db')
    rows = ctx.choice([1, 2, 3, 7, 10 ** 6, 10 ** 6])
    ctx.say('code size %d, first table %d rows' % (size, rows))
    with Shrunk(rows):
        db = HammingDb(path, code_size=size)
        model, meta = [], {}
        n_ops = ctx.integer(5, 40 if not ctx.thorough else 90)
        for _ in range(n_ops):
            op = ctx.choice(['append'] * 3 + ['burst', 'search', 'search', 'len', 'bad', 'meta', 'reopen',
                                             'interleave', 'random', 'again'])
            if op in ('append', 'burst'):
                before = len(model)
                for _ in range(1 if op == 'append' else ctx.integer(2, 30)):
                    code = new_code(ctx, size, [c for c, _ in model])
                    value, raw = new_value(ctx, len(model))
                    arg = code
                    if ctx.coin(.1):
                        arg = 'ab%06d' % (len(model) % 10 ** 6) + 'z' * (size - 8)
                        code = arg.encode()
                    db.append(arg, value)
                    model.append((code, raw))
                ctx.count('growth steps', int(rows < len(model) and rows < 10 ** 6))
                if op == 'burst':
                    ctx.say('+%d' % (len(model) - before))
            elif op == 'again' and model:
                # the very same pair once more is one more entry
                c, v = model[ctx.integer(0, len(model) - 1)]
                db.append(c, v)
                model.append((c, v))
            elif op == 'search':
                search(ctx, db, model, size)
            elif op == 'len':
                ctx.eq(len(db), len(model), 'len')
            elif op == 'bad':
                bad = ctx.rng.bytes(ctx.choice([0, 1, size - 1, size + 1, 2 * size]))
                kind = ctx.choice(['append', 'search', 'str'])
                if kind == 'append':
                    ctx.raises(lambda: db.append(bad, b'never'), 'reject')
                elif kind == 'str':
                    # the right number of characters, but not of bytes
                    ctx.raises(lambda: db.append('\u00e9' * size, b'never'), 'reject')
                else:
                    ctx.raises(lambda: list(db.search(bad, 1)), 'reject')
                ctx.eq(len(db), len(model), 'reject')
            elif op == 'meta':
                k = ctx.choice([b'timestamp', b'a', b'k' * 100])
                ctx.eq(db.get_metadata(k), meta.get(k), 'metadata')
                meta[k] = ctx.rng.bytes(ctx.integer(0, 40))
                db.set_metadata(k, meta[k])
                ctx.eq(db.get_metadata(k), meta[k], 'metadata')
            elif op == 'interleave' and model:
                # an iteration already under way keeps its own answer
                q = query_for(ctx, size, model)
                n = ctx.integer(1, len(model))
                it = db.search(q, n, sort=True)
                first = next(it)
                frozen = list(model)
                more = new_code(ctx, size, [c for c, _ in model])
                for _ in range(ctx.integer(1, 5)):
                    v = b'%d:late' % len(model)
                    db.append(more, v)
                    model.append((more, v))
                search(ctx, db, model, size)
                judge(ctx, [first] + list(it), frozen, q, n, True, 'underway')
            elif op == 'random' and model:
                n, ordered = wanted(ctx, len(model)), ctx.coin()
                code, res = db.random_search(n, multithreaded=ctx.coin(.3), sort=ordered)
                ctx.expect(any(bytes(code) == c for c, _ in model), 'random:stored')
                judge(ctx, res, model, bytes(code), n, ordered, 'random')
            elif op == 'reopen':
                how = ctx.choice(['same size', 'no size', 'with', 'writeonly', 'wrong size'])
                ctx.say('reopen (%s)' % how)
                close(db)
                if how == 'wrong size':
                    ctx.raises(lambda: HammingDb(path, code_size=size + 8), 'reopen:size', ValueError)
                    how = 'no size'
                if how == 'with':
                    with HammingDb(path, code_size=size) as other:
                        ctx.eq(len(other), len(model), 'reopen:len')
                        search(ctx, other, model, size, 'reopen')
                    # it's been let go of at the end of the block
                    ctx.raises(lambda: other.append(b'\0' * size, b'never'), 'reopen:closed')
                    close(other)
                elif how == 'writeonly':
                    w = HammingDb(path, code_size=size, writeonly=True)
                    for _ in range(ctx.integer(0, 4)):
                        c, (v, raw) = new_code(ctx, size, [c for c, _ in model]), new_value(ctx, len(model))
                        w.append(c, v)
                        model.append((c, raw))
                    ctx.eq(len(w), len(model), 'writeonly:len')
                    ctx.raises(lambda: list(w.search(b'\0' * size, 1)), 'writeonly:refuses', types=RuntimeError)
                    close(w)
                db = HammingDb(path, code_size=None if how == 'no size' else size)
                ctx.eq(db.code_size, size, 'reopen:size')
                ctx.eq(len(db), len(model), 'reopen:len')
                for k, v in meta.items():
                    ctx.eq(db.get_metadata(k), v, 'metadata')
                search(ctx, db, model, size, 'reopen')
                ctx.count('reopened')
        ctx.eq(len(db), len(model), 'len')
        # everything that was stored comes back, with its distance
        q = query_for(ctx, size, model)
        judge(ctx, db.search(q, len(model) + 3, sort=True), model, q, len(model) + 3, True, 'search')
        for n in {1, len(model) // 2, len(model)}:
            judge(ctx, db.search(q, n), model, q, n, False, 'search')
        close(db)
        db = HammingDb(path)if size == 8 else HammingDb(path, code_size=size)
        judge(ctx, db.search(q, len(model) + 3, sort=True), model, q, len(model) + 3, True, 'reopen')
        close(db)


@CHECK.family(30, 300, cpu=200, need=['elsewhere:nearest', 'elsewhere:len'])
def elsewhere(ctx):
    """a handle in another process writes between this handle's operations"""
    size = ctx.choice([8, 16, 32])
    path = os.path.join(ctx.scratch(), 'db')
    rows = ctx.choice([1, 5, 10 ** 6])
    ctx.say('code size %d, first table %d rows' % (size, rows))
    ask, told = os.pipe(), os.pipe()
    first = ctx.coin()
    with Shrunk(rows):
        if first:
            HammingDb(path, code_size=size).close()
        plan = [ctx.integer(0, 12) for _ in range(ctx.integer(2, 6))]
        batches, count = [], 0
        for k in plan:
            batches.append([(ctx.rng.bytes(size), b'other %d' % (count + j)) for j in range(k)])
            count += k
        pid = os.fork()
        if not pid:
            code = 1
            try:
                os.close(ask[1]), os.close(told[0])
                os.read(ask[0], 1)
                other = HammingDb(path, code_size=size)
                os.write(told[1], b'.')
                for batch in batches:
                    os.read(ask[0], 1)
                    for c, v in batch:
                        other.append(c, v)
                    os.write(told[1], b'.')
                code = 0
            finally:
                os._exit(code)
        os.close(ask[0]), os.close(told[1])
        try:
            db = HammingDb(path, code_size=size)
            model = []

            def other_turn():
                os.write(ask[1], b'.')
                ctx.expect(os.read(told[0], 1) == b'.', 'elsewhere:writer', 'the other process failed')

            other_turn()
            for batch in batches:
                for _ in range(ctx.integer(0, 6)):
                    c, v = new_code(ctx, size, [c for c, _ in model]), b'own %d' % len(model)
                    db.append(c, v)
                    model.append((c, v))
                if ctx.coin():
                    search(ctx, db, model, size, 'elsewhere')
                other_turn()
                model.extend(batch)
                ctx.count('appends by another handle', len(batch))
                if ctx.coin(.3):
                    c, v = new_code(ctx, size, [c for c, _ in model]), b'own %d' % len(model)
                    db.append(c, v)
                    model.append((c, v))
                ctx.eq(len(db), len(model), 'elsewhere:len')
                search(ctx, db, model, size, 'elsewhere')
            q = query_for(ctx, size, model)
            judge(ctx, db.search(q, len(model), sort=True), model, q, len(model), True, 'elsewhere')
            close(db)
        finally:
            os.close(ask[1]), os.close(told[0])
            os.waitpid(pid, 0)


@CHECK.family(12, 100, cpu=200, need=['full:len', 'full:nearest'])
def full(ctx):
    """an append that the store has no room for fails without effect"""
    import lmdb
    size = ctx.choice([8, 16])
    path = os.path.join(ctx.scratch(), 'db')
    map_size = ctx.choice([128, 256, 512]) * 1024
    db = HammingDb(path, map_size=map_size, code_size=size)
    model, refused = [], 0
    while refused < 5 and len(model) < 5000:
        c = ctx.rng.bytes(size)
        v = b'%d:' % len(model) + b'x' * ctx.choice([10, 1000, 5000])
        try:
            db.append(c, v)
            model.append((c, v))
        except lmdb.Error:
            refused += 1
    ctx.say('%d KB, %d stored, %d refused' % (map_size // 1024, len(model), refused))
    ctx.count('appends refused for lack of room', refused)
    ctx.eq(len(db), len(model), 'full:len')
    search(ctx, db, model, size, 'full')
    judge(ctx, db.search(model[0][0], len(model), sort=True), model, model[0][0], len(model), True, 'full')
    close(db)
    db = HammingDb(path, map_size=map_size * 4, code_size=size)
    c, v = ctx.rng.bytes(size), b'more room'
    db.append(c, v)
    model.append((c, v))
    ctx.eq(len(db), len(model), 'full:len')
    judge(ctx, db.search(c, len(model), sort=True), model, c, len(model), True, 'full')
    close(db)


@CHECK.family(6, 40, cpu=250, need=['large:nearest'])
def large(ctx):
    """many codes, filled by bulk appends, searched by one thread and by several"""
    size = ctx.choice([8, 16, 64])
    n = ctx.integer(2000, 12000 if not ctx.thorough else 60000)
    path = os.path.join(ctx.scratch(), 'db')
    db = HammingDb(path, code_size=size)
    codes = ctx.rng.integers(0, 256, (n, size), dtype=np.uint8)
    if ctx.coin():
        codes[:, size // 2:] = 0
    for i, c in enumerate(codes):
        db.append(c.tobytes(), b'%d' % i)
    ctx.say('%d codes of %d bytes' % (n, size))
    for again in range(2):
        for _ in range(6):
            q = codes[ctx.integer(0, n - 1)].copy()
            q[ctx.integer(0, size - 1)] ^= 1 << ctx.integer(0, 7)
            d = np.unpackbits(codes ^ q, axis=1).sum(axis=1)
            k = ctx.choice([1, 10, 100, n // 2, n])
            ordered = ctx.coin()
            got = [int(v) for v in db.search(q.tobytes(), k, multithreaded=ctx.coin(), sort=ordered)]
            ctx.eq(len(set(got)), k, 'large:count')
            gd = d[got]
            ctx.expect(np.array_equal(np.sort(gd), np.sort(d)[:k]), 'large:nearest')
            if ordered:
                ctx.expect(np.all(np.diff(gd.astype(int)) >= 0), 'large:order')
        close(db)
        db = HammingDb(path, code_size=size)
        ctx.eq(len(db), n, 'large:len')
    close(db)


@CHECK.family(8, 40, need=['empty'])
def empty(ctx):
    size = ctx.choice([8, 16])
    path = os.path.join(ctx.scratch(), 'db')
    ctx.raises(lambda: HammingDb(path, code_size=None), 'unsized', ValueError)
    ctx.raises(lambda: HammingDb(path, code_size=size + 3), 'unsized', ValueError)
    db = HammingDb(path, code_size=size)
    ctx.eq(len(db), 0, 'empty')
    for threads in (False, True):
        ctx.eq(list(db.search(b'\0' * size, ctx.integer(0, 5), multithreaded=threads, sort=ctx.coin())), [], 'empty')
    ctx.raises(lambda: db.random_search(1), 'empty')
    db.append(b'\1' * size, b'')
    ctx.eq(list(db.search(b'\0' * size, 2)), [b''], 'empty', 'an empty value')
    ctx.eq(list(db.random_search(1)[1]), [b''], 'empty')
    close(db)
