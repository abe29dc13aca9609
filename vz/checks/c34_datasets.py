"""C34: datasets, and ingesting them"""
import csv
import io
import json
import os
import tarfile
import threading
import time
import urllib.parse

import featureflow as ff
import requests
import soundfile
import urllib3
from requests.adapters import HTTPAdapter

from ..core import Check
from ..gen import *
from ..perturb import Perturb
from zounds.datasets import (
    CompositeDataset, DataSetCache, Directory, FreeSoundSearch, InternetArchive, MusicNet, NSynth, PhatDrumLoops, PreDownload, ingest)
from zounds.soundfile import AudioMetaData

CHECK = Check(
    'C34',
    'Datasets of generated items (downloaded, fetched while processed, local, failing in several ways, already stored) are '
    'ingested serially, by threads and by processes; every item\'s processing is logged where it happens, and log and stores '
    'are compared with the items. Datasets read simulated sites that answer, fail and break off, while every request is '
    'recorded.',
    technique='exactly-once monitoring of logged events and model-based monitoring of the datasets\' requests',
    require=['items', 'failing items', 'already stored', 'reprocessed', 'with processes', 'with threads', 'one by one', 'downloads',
             'failed downloads', 'resumed', 'pages', 'files found', 'composites'])


# ---- the web, and the log

class Web(object):
    """answers every request made through requests while it's entered"""

    def __init__(self):
        self.pages = {}
        self.asked = []
        self.lock = threading.Lock()

    def put(self, url, body, status=200, fault=None, headers=None):
        self.pages[url] = (body, status, fault, headers or {})

    def send(self, adapter, request, **kwargs):
        url = request.url
        base = url.split('?')[0]
        with self.lock:
            self.asked.append(url)
        found = self.pages.get(url, self.pages.get(base))
        body, status, fault, headers = found or (b'not found', 404, None, {})
        if fault == 'refused':
            raise requests.exceptions.ConnectionError('refused', request=request)
        headers = dict(headers)
        if fault != 'no length':
            headers.setdefault('Content-Length', str(len(body)))
        if fault == 'broken off':
            body = body[:len(body) // 2]
        raw = urllib3.HTTPResponse(
            body=io.BytesIO(body), headers=headers, status=status, preload_content=False, request_method=request.method)
        return adapter.build_response(request, raw)

    def __enter__(self):
        self.original = HTTPAdapter.send
        web = self
        HTTPAdapter.send = lambda adapter, request, **kwargs: web.send(adapter, request, **kwargs)
        return self

    def __exit__(self, *a):
        HTTPAdapter.send = self.original


class Log(object):
    """appended to by every worker, whichever process it's in"""

    def __init__(self, path):
        self.path = path
        open(path, 'wb').close()

    def add(self, *event):
        line = (json.dumps(event) + '\n').encode()
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND)
        try:
            os.write(fd, line)
        finally:
            os.close(fd)

    def events(self):
        with open(self.path) as f:
            return [json.loads(line) for line in f]


NOW = {'log': None, 'slow': 0., 'fail': set()}


def id_of(meta):
    uri = getattr(meta, 'uri', meta)
    return getattr(uri, 'url', uri)


class Monitor(ff.Node):
    """processes the metadata, and says so"""

    def _process(self, data):
        _id = id_of(data)
        NOW['log'].add('start', _id, '%d:%d' % (os.getpid(), threading.get_ident()))
        if NOW['slow']:
            time.sleep(NOW['slow'])
        if _id in NOW['fail']:
            raise ValueError('told to fail for %s' % (_id,))
        yield data


class Describe(ff.Node):
    def _process(self, data):
        yield {'id': id_of(data), 'tags': getattr(data, 'tags', None)}


class End(ff.Node):
    """the last thing that happens to a document"""

    def __init__(self, needs=None):
        super(End, self).__init__(needs=needs)
        self.content = b''

    def _enqueue(self, data, pusher):
        self.content += bytes(data)

    def _dequeue(self):
        if not self._finalized:
            raise ff.NotEnoughData()
        return self.content

    def _process(self, data):
        NOW['log'].add('done', data.decode('latin1')[:60])
        yield {'length': len(data)}


def model(ctx, kind):
    kb = ff.StringDelimitedKeyBuilder('~')
    if kind == 'memory':
        db = ff.InMemoryDatabase(key_builder=kb)
    elif kind == 'files':
        db = ff.FileSystemDatabase(os.path.join(ctx.scratch(), 'documents'), key_builder=kb, createdirs=True)
    else:
        db = ff.LmdbDatabase(os.path.join(ctx.scratch(), 'documents'), key_builder=kb, map_size=10 ** 8)

    class Ingested(ff.BaseModel, ff.PersistenceSettings):
        id_provider = ff.UserSpecifiedIdProvider(key='_id')
        key_builder = kb
        database = db

        meta = ff.Feature(Monitor)
        about = ff.JSONFeature(Describe, needs=meta, store=True)
        raw = ff.ByteStreamFeature(ff.ByteStream, chunksize=ctx.choice([64, 1000, 4096]), needs=meta, store=True)
        end = ff.JSONFeature(End, needs=raw, store=True)

    return published(Ingested)


def published(cls):
    # worker processes look classes up by their names
    cls.__qualname__ = cls.__name__ = 'Ingested'
    cls.__module__ = __name__
    globals()['Ingested'] = cls
    return cls


def stored(cls, _id):
    doc = cls(_id)
    return b''.join(bytes(c) for c in doc.raw), doc.about, doc.end


# ---- ingest

class Item(object):
    def __init__(self, _id, content, thing, fails=False):
        self.id, self.content, self.thing, self.fails = _id, content, thing, fails


def content_for(ctx, k):
    n = ctx.choice([1, 10, 63, 64, 65, 500, 1000, 4096, 5000, 20000])
    head = b'%06d;' % k
    if ctx.coin(.4):
        # whole blocks, or some bytes more or less
        n = ctx.choice([1024, 2048, 4096, 8192]) + ctx.choice([0, 1, 1, -1]) - len(head)
    return head + bytes(bytearray(ctx.rng.integers(0, 256, n).astype(np.uint8)))


def items_for(ctx, web, count, files, flat):
    items = []
    folder = ctx.scratch()
    for k in range(count):
        name = ctx.choice(['item%d', 'http://example.com/sounds/%d.ogg', 'http://example.com/%d?a=b&c=d', 'ünï%d', 'with space %d'])
        if flat:
            name = name.replace('/', '.').replace(':', '.')
        _id = name % k
        content = content_for(ctx, k)
        kind = ctx.choice(['downloaded', 'downloaded', 'request', 'request', 'path'] + ['failing'] * ctx.choice([0, 1, 3]))
        tags = ctx.choice([None, 'tag%d' % k, ['a', 'b%d' % k]])
        if kind == 'downloaded':
            items.append(Item(_id, content, AudioMetaData(uri=PreDownload(content, _id), tags=tags)))
        elif kind == 'path' and not flat:
            path = os.path.join(folder, 'file%d.bin' % k)
            with open(path, 'wb') as f:
                f.write(content)
            thing = path if ctx.coin(.5) else AudioMetaData(uri=path, tags=tags)
            items.append(Item(path, content, thing))
        elif kind in ('request', 'path'):
            address = 'http://example.com/item%d' % k
            web.put(address, content)
            if flat:
                # (the file system's documents can't have slashes in their names)
                items.append(Item(_id, content, AudioMetaData(uri=PreDownload(content, _id), tags=tags)))
            else:
                request = requests.Request(method='GET', url=address, params=ctx.choice([None, {'token': 'abc'}]))
                items.append(Item(address, content, AudioMetaData(uri=request, tags=tags)))
        else:
            how = ctx.choice(['status', 'refused', 'broken', 'empty', 'told', 'no such path', 'nonsense', 'told'])
            address = 'http://example.com/failing%d' % k
            if flat and how in ('status', 'refused', 'broken', 'no such path'):
                how = 'told'
            if how == 'status':
                web.put(address, content, status=ctx.choice([404, 500, 403, 503]))
            elif how == 'refused':
                web.put(address, content, fault='refused')
            elif how == 'broken':
                web.put(address, content, fault='broken off')
            request = requests.Request(method='GET', url=address)
            if how in ('status', 'refused', 'broken'):
                items.append(Item(address, content, AudioMetaData(uri=request), True))
            elif how == 'empty':
                items.append(Item(_id, b'', AudioMetaData(uri=PreDownload(b'', _id)), True))
            elif how == 'told':
                items.append(Item(_id, content, AudioMetaData(uri=PreDownload(content, _id)), True))
                NOW['fail'].add(_id)
            elif how == 'no such path':
                path = os.path.join(folder, 'missing%d' % k)
                items.append(Item(path, content, path, True))
            else:
                thing = ctx.choice([None, k, k + .5])
                items.append(Item(thing, content, thing, True))
    return items


class DataSet(object):
    """iterable as often as wanted"""

    def __init__(self, things, breaks=False):
        self.things, self.breaks = things, breaks

    def __iter__(self):
        for t in self.things:
            yield t
        if self.breaks:
            raise IOError('the dataset broke')


def judge_ingest(ctx, mode, workers, count, backend):
    NOW['fail'] = set()
    NOW['log'] = log = Log(os.path.join(ctx.scratch(), 'log'))
    web = Web()
    cls = model(ctx, backend)
    items = items_for(ctx, web, count, True, backend == 'files')
    ctx.say(mode, workers, backend, [(i.id, len(i.content), i.fails) for i in items])
    NOW['slow'] = 0
    web.__enter__()
    try:
        # some are there already, with other contents
        there = {}
        for item in items:
            if item.fails or not ctx.coin(.3):
                continue
            old = b'old contents of ' + item.content[:7]
            cls.process(meta=AudioMetaData(uri=PreDownload(old, item.id)), _id=item.id)
            there[item.id] = old
        NOW['log'] = log = Log(log.path)
        skip = ctx.choice([None, True, True, False])
        kwargs = {} if skip is None else {'skip_if_exists': skip}
        if mode == 'processes':
            kwargs.update(multi_process=True)
        elif mode == 'threads':
            kwargs.update(multi_threaded=True)
        if mode != 'serial' and (workers or mode == 'processes'):
            kwargs.update(cores=workers or 3)
        breaks = ctx.coin(.1)
        NOW['slow'] = ctx.choice([0, 0, .001, .004]) if count < 30 else 0
        things = [i.thing for i in items]
        dataset = DataSet(things, breaks)
        form = ctx.integer(0, 2)
        if form == 1:
            dataset = iter(dataset)
        elif form == 2 and len(things) > 1:
            cut = ctx.integer(0, len(things))
            dataset = CompositeDataset(DataSet(things[:cut]), CompositeDataset(DataSet([]), DataSet(things[cut:], breaks)))
        threads = set(threading.enumerate())
        try:
            if mode == 'threads' and ctx.coin(.3) and count < 15:
                with Perturb(['datasets/ingest.py', 'datasets/composite.py', 'featureflow/persistence.py'], ctx.idx):
                    result = ingest(dataset, cls, **kwargs)
            else:
                result = ingest(dataset, cls, **kwargs)
        except IOError as e:
            ctx.expect(breaks and 'dataset broke' in str(e), 'ingest:raised', repr(e))
        left = [t for t in threading.enumerate() if t not in threads and t.is_alive()]
        # everything's over when ingest returns
        events = log.events()
        if NOW['slow']:
            time.sleep(3 * NOW['slow'])
        ctx.eq(len(log.events()), len(events), 'ingest:synchronous', mode)
        ctx.expect(not left or mode == 'serial', 'ingest:threads left', left)
        starts = [e[1] for e in events if e[0] == 'start']
        skipping = skip is None or skip
        for item in items:
            ctx.count('items')
            n = starts.count(item.id)
            if item.id is None:
                ctx.count('failing items')
                continue
            if item.id in there and skipping:
                ctx.eq(n, 0, 'ingest:skips', item.id, mode)
                raw, about, end = stored(cls, item.id)
                ctx.expect(raw == there[item.id], 'ingest:leaves what exists', item.id, raw[:50])
                ctx.count('already stored')
                continue
            if item.fails:
                ctx.count('failing items')
                ctx.expect(n <= 1, 'ingest:once', item.id, n, mode)
                continue
            ctx.eq(n, 1, 'ingest:once', item.id, mode, len(items))
            if item.id in there:
                ctx.count('reprocessed')
            ctx.expect(cls.exists(item.id), 'ingest:stored', item.id, mode)
            raw, about, end = stored(cls, item.id)
            ctx.expect(raw == item.content, 'ingest:contents', item.id, raw[:50], item.content[:50], len(raw), len(item.content))
            tags = getattr(item.thing, 'tags', None)
            ctx.expect(about == {'id': item.id, 'tags': tags}, 'ingest:metadata', about, item.id, tags)
            ctx.expect(end == {'length': len(item.content)}, 'ingest:contents', end)
            if isinstance(getattr(item.thing, 'uri', None), requests.Request):
                asked = [a for a in web.asked if a.split('?')[0] == item.id]
                if mode != 'processes':
                    ctx.eq(len(asked), 1, 'ingest:fetched once', item.id)
        wanted = {i.id for i in items}
        ctx.expect(set(starts) <= wanted, 'ingest:only the items', set(starts) - wanted)
        ctx.expect({str(_id) for _id in cls.database.iter_ids()} <= {str(w) for w in wanted}, 'ingest:only the items', 'ids')
        if mode != 'serial':
            seen = {e[2] for e in events if e[0] == 'start'}
            if 'cores' in kwargs:
                ctx.expect(len(seen) <= kwargs['cores'], 'ingest:workers', len(seen), kwargs)
            ctx.count('workers seen', len(seen))
        ctx.count({'serial': 'one by one', 'threads': 'with threads', 'processes': 'with processes'}[mode])
        # again: nothing's left to do but what failed
        if ctx.coin(.3):
            NOW['log'] = log = Log(log.path)
            web.put('unused', b'')
            ingest(DataSet(things), cls, **dict(kwargs, skip_if_exists=True))
            again = {e[1] for e in log.events() if e[0] == 'start'}
            ctx.expect(again <= {i.id for i in items if i.fails}, 'ingest:skips', 'second time', again)
    finally:
        web.__exit__()
        NOW['slow'] = 0


@CHECK.family(700, 8000, cpu=120, need=['ingest:once', 'ingest:contents', 'ingest:skips', 'ingest:synchronous'])
def serially(ctx):
    judge_ingest(ctx, 'serial', None, ctx.choice([0, 1, 2, 3, 5, 8, 20]), ctx.choice(['memory', 'memory', 'files', 'lmdb']))


@CHECK.family(600, 8000, cpu=120, need=['ingest:once', 'ingest:contents', 'ingest:skips', 'ingest:synchronous'])
def threaded(ctx):
    judge_ingest(ctx, 'threads', ctx.choice([None, 1, 2, 3, 8]), ctx.choice([0, 1, 2, 3, 5, 8, 20, 40]),
                 ctx.choice(['memory', 'memory', 'files', 'lmdb']))


@CHECK.family(250, 2500, cpu=120, need=['ingest:once', 'ingest:contents', 'ingest:skips', 'ingest:synchronous'])
def forked(ctx):
    judge_ingest(ctx, 'processes', ctx.choice([None, 1, 2, 4]), ctx.choice([0, 1, 2, 3, 5, 8, 20]), 'files')


# ---- datasets made of others

def some_items(ctx, n, base=0):
    return [AudioMetaData(uri=PreDownload(b'%d' % (base + k), 'http://example.com/%d' % (base + k)), tags='t%d' % (base + k))
            for k in range(n)]


@CHECK.family(300, 6000, need=['composite:items', 'directory:files', 'downloaded:same'])
def wrappers(ctx):
    # composites of composites enumerate their parts' items, in order, as often as wanted
    def build(depth, count):
        if depth == 0 or ctx.coin(.3):
            part = some_items(ctx, ctx.integer(0, 4), next(count) * 10)
            return (part if ctx.coin(.5) else DataSet(part)), part
        parts = [build(depth - 1, count) for _ in range(ctx.integer(0, 4))]
        return CompositeDataset(*[p for p, _ in parts]), [x for _, xs in parts for x in xs]
    import itertools
    dataset, wanted = build(ctx.integer(1, 3), itertools.count())
    for _ in range(2):
        got = list(dataset)
        ctx.expect(len(got) == len(wanted) and all(a is b for a, b in zip(got, wanted)), 'composite:items', len(got), len(wanted))
    # two iterations at once don't disturb each other
    if wanted:
        a, b = iter(dataset), iter(dataset)
        first = next(a)
        ctx.expect(first is next(b), 'composite:items', 'two iterations')
        ctx.expect([id(x) for x in a] == [id(x) for x in wanted[1:]], 'composite:items', 'two iterations')
    ctx.count('composites')
    # directories enumerate their files
    folder = ctx.scratch()
    names = set()
    for k in range(ctx.integer(0, 8)):
        name = ctx.choice(['a%d.wav', '.hidden%d', 'no extension %d', 'ünï%d.ogg', 'x%d.WAV', '%d']) % k
        with open(os.path.join(folder, name), 'wb') as f:
            f.write(b'x' * ctx.integer(0, 3))
        names.add(name)
    for k in range(ctx.integer(0, 3)):
        sub = os.path.join(folder, 'sub%d.wav' % k)
        os.mkdir(sub)
        with open(os.path.join(sub, 'inner.wav'), 'wb') as f:
            f.write(b'y')
    got = list(Directory(folder))
    ctx.expect(sorted(got) == sorted(os.path.join(folder, n) for n in names), 'directory:files', got, names)
    ctx.count('files found', len(got))
    # what has been downloaded is a file of that content, with an url
    content = bytes(bytearray(ctx.rng.integers(0, 256, ctx.integer(0, 300)).astype(np.uint8)))
    pdl = PreDownload(content, 'http://x/y')
    pos = ctx.integer(0, len(content))
    ctx.expect(pdl.read(pos) == content[:pos] and pdl.read() == content[pos:], 'downloaded:same')
    pdl.seek(0)
    ctx.expect(pdl.read() == content and pdl.url == 'http://x/y', 'downloaded:same')
    import pickle
    back = pickle.loads(pickle.dumps(AudioMetaData(uri=pdl, tags='x')))
    back.uri.seek(0)
    ctx.expect(back.uri.read() == content and back.uri.url == pdl.url and back.request.url == pdl.url, 'downloaded:same', 'pickled')
    ctx.raises(lambda: PreDownload(content, ctx.choice([None, ''])), 'downloaded:needs an url', (ValueError,))
    ctx.raises(lambda: AudioMetaData(uri=ctx.choice([None, ''])), 'metadata:needs an uri', (ValueError,))


# ---- downloads that are kept

FAULTS = ['refused', 'broken off', 404, 500, 503]


def fault(ctx, web, address, body):
    """a failing answer"""
    how = ctx.choice(FAULTS)
    if isinstance(how, int):
        web.put(address, b'an error page', status=how)
    else:
        web.put(address, body, fault=how)
    ctx.count('failed downloads')
    return how


def answer(ctx, web, address, body):
    web.put(address, body, fault=ctx.choice([None, None, 'no length']))


def attempt(ctx, dataset):
    """how far one gets, and whether that was all"""
    got = []
    try:
        for x in dataset:
            got.append(x)
    except requests.exceptions.RequestException:
        return got, False
    return got, True


@CHECK.family(500, 8000, need=['cache:contents', 'cache:downloads', 'cache:failures'])
def cached(ctx):
    """files downloaded once, whatever goes wrong in between"""
    folder = os.path.join(ctx.scratch(), ctx.choice(['cache', 'deeper/cache']))
    n = ctx.integer(0, 6)
    urls = ['http://example.com/' + ctx.choice(['%d.ogg', '%d?x=1', '%d/ü', '%d', 'get?id=%d']) % k for k in range(n)]
    if n > 1 and ctx.coin(.3):
        # two addresses that are next to the same
        urls[0], urls[-1] = ctx.choice([('http://example.com/Kick.ogg', 'http://example.com/kick.ogg'),
                                        ('http://example.com/kick', 'http://example.com/kick/'),
                                        ('http://example.com/a/kick.ogg', 'http://example.com/b/kick.ogg'),
                                        ('http://example.com/kick.ogg', 'http://example.com/kick.wav'),
                                        ('http://example.com/kick.ogg', 'http://example.org/kick.ogg'),
                                        ('http://example.com/kick.ogg', 'https://example.com/kick.ogg')])
    bodies = [content_for(ctx, k) for k in range(n)]
    if ctx.coin(.1) and n:
        bodies[0] = bytes(bytearray(ctx.rng.integers(0, 256, 70000).astype(np.uint8)))
    form = ctx.integer(0, 1)

    def things():
        for u in urls:
            r = requests.Request(method='GET', url=u, headers=ctx.choice([{}, {'Range': 'bytes=0-'}]))
            yield AudioMetaData(uri=r) if form else r

    class Source(object):
        def __iter__(self):
            return things()

    def web_url(u):
        return requests.Request(method='GET', url=u).prepare().url

    done = set()
    with Web() as web:
        for _ in range(ctx.integer(1, 5)):
            broken = set()
            for u, b in zip(urls, bodies):
                # a file that has been downloaded isn't asked for any more
                if ctx.coin(.25):
                    fault(ctx, web, web_url(u), b)
                    broken.add(u)
                else:
                    answer(ctx, web, web_url(u), b)
            web.asked = []
            dataset = DataSetCache(folder, Source())
            got, finished = attempt(ctx, dataset)
            reach = 0
            for u in urls:
                if u in broken and u not in done:
                    break
                reach += 1
            ctx.eq(len(got), reach, 'cache:failures', broken, done)
            ctx.eq(finished, reach == n, 'cache:failures', 'finished', broken)
            fresh = [web_url(u) for u in urls[:reach + 1] if u not in done]
            ctx.expect(web.asked == fresh, 'cache:downloads', web.asked, fresh)
            ctx.count('downloads', len(fresh))
            if done and fresh:
                ctx.count('resumed')
            for path, u, b in zip(got, urls, bodies):
                with open(path, 'rb') as f:
                    ctx.expect(f.read() == b, 'cache:contents', u)
                done.add(u)
            ctx.eq(len(set(got)), len(got), 'cache:contents', 'a file each')
            ctx.expect(len(os.listdir(folder)) == len(done), 'cache:failures', 'nothing else is left', os.listdir(folder), done)
            if finished and n:
                # a new one over the same folder finds everything
                web.asked = []
                ctx.expect(list(DataSetCache(folder, Source())) == got and not web.asked, 'cache:downloads', 'again', web.asked)


class Slow(Web):
    """bodies arrive bit by bit, and some of the requests fail"""

    def __init__(self, bits, faults):
        super(Slow, self).__init__()
        self.bits, self.faults = bits, faults

    def send(self, adapter, request, **kwargs):
        with self.lock:
            self.asked.append(request.url)
            fault = self.faults.pop(0) if self.faults else None
        body = self.pages[request.url][0]
        if fault == 'refused':
            raise requests.exceptions.ConnectionError('refused', request=request)
        bits = self.bits

        class Body(io.BytesIO):
            def read(self, n=-1):
                time.sleep(.001)
                return super(Body, self).read(bits if n is None or n < 0 else min(n, bits))
        raw = urllib3.HTTPResponse(
            body=Body(body[:len(body) // 2] if fault == 'broken off' else body), headers={'Content-Length': str(len(body))}, status=200,
            preload_content=False, request_method=request.method)
        return adapter.build_response(request, raw)


@CHECK.family(120, 2000, need=['together:contents', 'together:left'])
def together(ctx):
    """several take the same files from the same folder at the same time: each gets them whole"""
    n = ctx.integer(1, 3)
    urls = ['http://example.com/%d.ogg' % k for k in range(n)]
    bodies = [bytes(bytearray(ctx.rng.integers(0, 256, ctx.integer(1, 20000)).astype(np.uint8))) for _ in range(n)]
    folder = os.path.join(ctx.scratch(), 'cache')
    readers = ctx.integer(2, 4)
    faults = [ctx.choice([None, None, None, 'broken off', 'refused']) for _ in range(ctx.choice([0, 0, readers]))]
    delays = [ctx.choice([0, 0, .002, .01]) for _ in range(readers)]
    failing = len([f for f in faults if f])
    ctx.say(readers, 'readers', [len(b) for b in bodies], faults, delays)
    outcomes, errors = [], []

    def read(k):
        time.sleep(delays[k])
        got = []
        try:
            for path in DataSetCache(folder, [requests.Request(method='GET', url=u) for u in urls]):
                with open(path, 'rb') as f:
                    got.append(f.read())
            finished = True
        except requests.exceptions.RequestException:
            finished = False
        except Exception as e:
            errors.append(repr(e))
            return
        outcomes.append((got, finished))

    os.makedirs(folder)
    with Slow(ctx.choice([500, 2000, 10 ** 6]), faults) as web, Perturb(
            ['datasets/cache.py', 'datasets/util.py'], ctx.integer(0, 10 ** 9), p=ctx.choice([0.05, 0.3]), longest=ctx.choice([1e-4, 2e-3])):
        for u, b in zip(urls, bodies):
            web.put(u, b)
        threads = [threading.Thread(target=read, args=(k,)) for k in range(readers)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    ctx.eq(errors, [], 'together:contents', 'failed otherwise')
    for got, finished in outcomes:
        ctx.eq(got, bodies[:len(got)], 'together:contents')
        ctx.expect(not finished or len(got) == n, 'together:contents', 'items', len(got), n)
    ctx.expect(sum(not finished for _, finished in outcomes) <= failing, 'together:contents', 'failures', outcomes and len(outcomes), faults)
    left = sorted(os.listdir(folder))
    whole = []
    for name in left:
        with open(os.path.join(folder, name), 'rb') as f:
            whole.append(f.read())
    ctx.expect(len(left) <= n and all(w in bodies for w in whole), 'together:left', left)
    ctx.count('downloads', len(web.asked))


# ---- the sites

def wav(ctx, sr, seconds=None):
    n = ctx.integer(50, 2000)
    x = ctx.rng.uniform(-.9, .9, n)
    out = io.BytesIO()
    soundfile.write(out, x, sr, format='WAV', subtype='PCM_16')
    return out.getvalue(), soundfile.read(io.BytesIO(out.getvalue()))[0]


def text(ctx):
    return ctx.choice(['a title', 'ünïcöde', 'with, comma', 'with "quotes"', '', '17', 'two\nlines'])


@CHECK.family(60, 1200, need=['nsynth:items', 'nsynth:contents', 'archive:once'])
def nsynth(ctx):
    address = 'http://download.magenta.tensorflow.org/datasets/nsynth/nsynth-valid.jsonwav.tar.gz'
    notes = {}
    for k in range(ctx.integer(0, 6)):
        name = 'bass_%s_%03d-%03d' % (ctx.choice(['electronic', 'acoustic.x']), k, ctx.integer(0, 127))
        data, _ = wav(ctx, 16000)
        notes[name] = (data, {'pitch': int(ctx.integer(0, 127)), 'instrument_str': text(ctx), 'qualities': [0, 1, k]})
    out = io.BytesIO()
    members = [('nsynth-valid/examples.json', json.dumps({k: v[1] for k, v in notes.items()}).encode())]
    members += [('nsynth-valid/audio/%s.wav' % k, v[0]) for k, v in notes.items()]
    order = list(range(len(members)))
    ctx.rng.shuffle(order)
    with tarfile.open(fileobj=out, mode='w:gz') as tar:
        d = tarfile.TarInfo('nsynth-valid/audio')
        d.type = tarfile.DIRTYPE
        tar.addfile(d)
        for k in order:
            info = tarfile.TarInfo(members[k][0])
            info.size = len(members[k][1])
            tar.addfile(info, io.BytesIO(members[k][1]))
    body = out.getvalue()
    folder = ctx.scratch()
    with Web() as web:
        once(ctx, web, address, body, lambda: NSynth(folder), folder)
        got = list(NSynth(folder))
    ctx.eq(len(got), len(notes), 'nsynth:items')
    names = set()
    for item in got:
        name = item.uri.url.split('/')[-1]
        ctx.expect(name in notes and name not in names, 'nsynth:items', name)
        names.add(name)
        data, about = notes[name]
        ctx.expect(item.uri.read() == data, 'nsynth:contents', name)
        ctx.expect(all(getattr(item, k) == v for k, v in about.items()), 'nsynth:contents', name, about, item)


def once(ctx, web, address, body, dataset, folder):
    """the archive is downloaded once, and never seen half"""
    for _ in range(ctx.integer(0, 2)):
        fault(ctx, web, address, body)
        try:
            list(dataset())
            ctx.fail('archive:failure', 'nothing was said about a failed download')
        except requests.exceptions.RequestException:
            pass
    answer(ctx, web, address, body)
    web.asked = []
    first = list(dataset())
    ctx.expect(web.asked == [address], 'archive:once', web.asked)
    stored = []
    for f in os.listdir(folder):
        if os.path.isfile(os.path.join(folder, f)):
            with open(os.path.join(folder, f), 'rb') as g:
                stored.append(g.read())
    ctx.expect(stored == [body], 'archive:once', 'other than was sent', len(body), [len(b) for b in stored])
    web.put(address, b'gone', status=404)
    again = list(dataset())
    ctx.expect(web.asked == [address] and len(first) == len(again), 'archive:once', web.asked)
    ctx.count('downloads')


@CHECK.family(60, 1200, need=['musicnet:items', 'musicnet:contents', 'archive:once'])
def musicnet(ctx):
    address = 'https://homes.cs.washington.edu/~thickstn/media/musicnet_metadata.csv'
    folder = ctx.scratch()
    os.mkdir(os.path.join(folder, 'train_data'))
    known = {}
    out = io.StringIO()
    writer = csv.DictWriter(out, ['id', 'composer', 'composition', 'movement', 'ensemble', 'seconds'])
    writer.writeheader()
    count = ctx.integer(0, 5)
    for k in range(count):
        _id = str(1700 + k)
        about = dict(composer=text(ctx), composition=text(ctx), movement=text(ctx), ensemble='Solo', seconds=str(ctx.integer(1, 500)))
        if k == count - 1 and ctx.coin():
            # a file of whole blocks, or some bytes more
            rest = len(out.getvalue().encode()) + len(','.join([_id] + list(about.values()))) + 40
            about['composer'] = 'x' * (4096 - rest % 4096)
            trial = io.StringIO()
            csv.DictWriter(trial, ['id', 'composer', 'composition', 'movement', 'ensemble', 'seconds']).writerow(dict(about, id=_id))
            size = len((out.getvalue() + trial.getvalue()).encode())
            about['composer'] += 'x' * ((ctx.choice([0, 1, 1, 2]) - size) % 4096)
        writer.writerow(dict(about, id=_id))
        if ctx.coin(.8):
            data, x = wav(ctx, 44100)
            with open(os.path.join(folder, 'train_data', _id + '.wav'), 'wb') as f:
                f.write(data)
            known[_id] = (x, about)
    with Web() as web:
        once(ctx, web, address, out.getvalue().encode(), lambda: MusicNet(folder), folder)
        got = list(MusicNet(folder))
    ctx.expect(sorted(i.uri.url.split('/')[-1] for i in got) == sorted(known), 'musicnet:items', got)
    for item in got:
        x, about = known[item.uri.url.split('/')[-1]]
        ctx.expect(all(getattr(item, k) == v for k, v in about.items()), 'musicnet:contents', about, item)
        y, sr = soundfile.read(io.BytesIO(item.uri.read()))
        ctx.eq(sr, 44100, 'musicnet:contents', 'rate')
        ctx.eq(item.samplerate, 44100, 'musicnet:contents', 'rate')
        ctx.close(y, x, 'musicnet:contents', rtol=0, atol=1.01 / 2 ** 15)


@CHECK.family(300, 6000, need=['freesound:items', 'freesound:requests'])
def freesound(ctx):
    """a search with pages of results"""
    pages = [ctx.integer(0 if k else 0, 5) for k in range(ctx.integer(1, 4))]
    sounds, k = [], 0
    search = 'http://www.freesound.org/apiv2/search/text'
    with Web() as web:
        for p, count in enumerate(pages):
            results = []
            for _ in range(count):
                k += 1
                about = {'id': k, 'username': 'user%d' % (k % 3), 'samplerate': float(ctx.choice([44100, 48000])), 'channels': 1 + k % 2,
                         'license': 'by', 'description': text(ctx), 'tags': ['x%d' % k],
                         'previews': {'preview-hq-ogg': 'http://www.freesound.org/previews/%d.ogg' % k}}
                web.put('http://www.freesound.org/apiv2/sounds/%d' % k, json.dumps(about).encode())
                sounds.append(about)
                results.append({'id': k, 'name': 'x'})
            # the last page has no next one
            nxt = 'http://www.freesound.org/apiv2/search/text/page%d' % (p + 1) if p < len(pages) - 1 else None
            page = {'count': sum(pages), 'next': nxt, 'results': results}
            if p == len(pages) - 1 and ctx.coin(.3):
                page['next'] = '' if ctx.coin(.5) else None
            web.put(search if p == 0 else search + '/page%d' % p, json.dumps(page).encode())
        n = ctx.choice([None, 0, 1, 2, 3, 5, 10, 30])
        kwargs = {} if n is None else {'n_results': n}
        api = 'key%d' % ctx.integer(0, 99)
        query = ctx.choice(['guitar', 'two words', 'ünï', 'a&b=c'])
        dataset = FreeSoundSearch(api, query, delay=0, **kwargs)
        wanted = sounds[:10 if n is None else n]
        for _ in range(2):
            web.asked = []
            got = []
            for item in dataset:
                got.append(item)
                if len(got) > 60:
                    break
            ctx.eq(len(got), len(wanted), 'freesound:items', pages, n)
            for item, about in zip(got, wanted):
                ctx.expect(item.uri.url == about['previews']['preview-hq-ogg'] and item.tags == about['tags']
                           and item.description == about['description'] and item.channels == about['channels']
                           and item.samplerate == about['samplerate'] and item.licensing == about['license'],
                           'freesound:items', item, about)
                ctx.expect(about['username'] in item.web_url and '/%d/' % about['id'] in item.web_url, 'freesound:items', item.web_url, about)
                ctx.expect(item.uri.params.get('token') == api, 'freesound:token', item.uri.params)
            for a in web.asked:
                asked = urllib.parse.parse_qs(urllib.parse.urlparse(a).query)
                ctx.expect(asked.get('token') == [api], 'freesound:token', a)
                if a.split('?')[0] == search:
                    ctx.expect(asked.get('query') == [query], 'freesound:query', a)
            asked = [a.split('?')[0] for a in web.asked]
            ctx.eq(len(set(asked)), len(asked), 'freesound:requests', asked)
            ctx.expect(len([a for a in asked if '/sounds/' in a]) == len(wanted), 'freesound:requests', asked, len(wanted))
            ctx.count('pages', len([a for a in asked if 'search' in a]))
        if sounds:
            about = ctx.choice(sounds)
            item = dataset.get_by_id(about['id'])
            ctx.expect(item.uri.url == about['previews']['preview-hq-ogg'], 'freesound:by id')
    ctx.raises(lambda: FreeSoundSearch('', 'x'), 'freesound:needs', (ValueError,))
    ctx.raises(lambda: FreeSoundSearch('x', None), 'freesound:needs', (ValueError,))


@CHECK.family(300, 5000, need=['archive.org:items', 'archive.org:addresses'])
def internet_archive(ctx):
    name = ctx.choice(['Greatest_Speeches', 'beethoven_ingigong_850', 'a-b.c'])
    files, wanted = {}, []
    only = ctx.choice([None, 'VBR MP3', 'FLAC'])
    form = only or 'Ogg Vorbis'
    for k in range(ctx.integer(0, 6)):
        stem = '/%s%d' % (ctx.choice(['track ', 'ünï', '01. What? ', '#', '100% ', 'disc 1/track', 'a+b&c=d;e,']), k)
        original = {'source': 'original', 'format': ctx.choice(['FLAC', 'Ogg Vorbis', 'VBR MP3']), 'title': text(ctx), 'track': str(k)}
        key = stem + '.orig'
        files[key] = original
        if original['format'] == form:
            wanted.append((key, original))
        for f in ('Ogg Vorbis', 'VBR MP3', 'JPEG'):
            if ctx.coin(.4):
                files[stem + '.' + f[:3]] = {'source': 'derivative', 'format': f, 'original': key[1:], 'md5': str(k)}
                if f == form:
                    wanted.append((stem + '.' + f[:3], original))
    wanted = [dict(o, key=k) for k, o in wanted]
    # (what is given by the user goes before what the site says)
    attrs = ctx.choice([{}, {'web_site': 'x'}, {'tags': 'mine'}, {'track': 'mine', 'album': 'x'}])
    wanted = [dict(o, **attrs) for o in wanted]
    with Web() as web:
        web.put('https://archive.org/details/%s&output=json' % name, json.dumps({'files': files}).encode())
        args = {'format_filter': (lambda x: x['format'] == only)} if only else {}
        dataset = InternetArchive(name, **dict(args, **attrs))
        for _ in range(2):
            got = list(dataset)
            ctx.eq(len(got), len(wanted), 'archive.org:items', files)
            for item, about in zip(got, wanted):
                ctx.expect(item.title == about['title'] and item.track == about['track'], 'archive.org:items', item, about)
                for k, v in attrs.items():
                    ctx.expect(getattr(item, k) == v, 'archive.org:attributes', k)
                # the page about the whole collection
                page = urllib.parse.urlsplit(item.web_url)
                ctx.expect(page.netloc == 'archive.org' and page.path.replace('//', '/') == '/details/' + name,
                           'archive.org:attributes', item.web_url)
                # following the address leads to the file
                parsed = urllib.parse.urlsplit(item.uri.prepare().url)
                ctx.expect(urllib.parse.unquote(parsed.path) == '/download/%s%s' % (name, about['key'])
                           and not parsed.query and not parsed.fragment, 'archive.org:addresses', item.uri.url, about['key'])
        if ctx.coin(.2):
            web.put('https://archive.org/details/%s&output=json' % name, b'<html>no json</html>')
            ctx.expect(list(dataset) == [], 'archive.org:items', 'no json')
    ctx.raises(lambda: InternetArchive(''), 'archive.org:needs', (ValueError,))


@CHECK.family(60, 1000, need=['phatdrumloops:items'])
def phat_drum_loops(ctx):
    html, wanted = ['<html><body>'], []
    for k in range(ctx.integer(0, 8)):
        path = '/audio/wav/%s%d.wav' % (ctx.choice(['funk_', 'drum-break ', 'X']), k)
        kind = ctx.choice(['link', 'link', 'attributes', 'other', 'page', 'text'])
        if kind == 'link':
            html.append('<a href="%s">wav</a>' % path)
            wanted.append(path)
        elif kind == 'attributes':
            html.append('<td><a class="x" href="%s" title="é">%d</a></td>' % (path, k))
            wanted.append(path)
        elif kind == 'other':
            html.append('<a href="/audio/mp3/%d.mp3">mp3</a>' % k)
        elif kind == 'page':
            html.append('<a href="/beats.php?page=%d">next</a>' % k)
        else:
            html.append('<p>see %s é</p>' % path)
    attrs = ctx.choice([{}, {'tags': ['drums']}])
    with Web() as web:
        web.put('http://phatdrumloops.com/beats.php', ctx.choice(['\n', '']).join(html).encode(ctx.choice(['utf-8', 'latin1'])),
                headers=ctx.choice([{}, {'Content-Type': 'text/html'}, {'Content-Type': 'text/html; charset=utf-8'}]))
        dataset = PhatDrumLoops(**attrs)
        for _ in range(2):
            got = list(dataset)
            ctx.expect([i.uri.url for i in got] == ['http://phatdrumloops.com' + p for p in wanted], 'phatdrumloops:items', got, wanted)
            for item in got:
                for k, v in attrs.items():
                    ctx.expect(getattr(item, k) == v, 'phatdrumloops:attributes', k)
