"""C32: what the web app serves for features, ranges of them and search results"""
import base64
import io
import json
import urllib.parse

import featureflow as ff
import matplotlib
import soundfile
from matplotlib.image import imread

from ..core import Check
from ..gen import *
from ..web import Site
from zounds.index import SearchResults
from zounds.persistence import ArrayWithUnitsFeature, AudioSamplesFeature
from zounds.segment import TimeSliceFeature
from zounds.soundfile import OggVorbisFeature
from zounds.timeseries import AudioSamples, VariableRateTimeSeries
from zounds.ui import ZoundsApp, RangeUnitUnsupportedException
from zounds.ui.baseapp import RequestContext
from zounds.ui.contentrange import ContentRange, RangeRequest, UnsatisfiableRangeRequestException

CHECK = Check(
    'C32',
    'Documents with known contents are served by the real web app on the loopback interface, and requested whole and '
    'in ranges of every kind (within, across and beyond the end, empty, malformed). Status, content-range header and '
    'payload of every answer are judged against the stored bytes, the stored samples decoded by libsndfile, or the '
    'colours the array\'s cells must have.',
    technique='runtime monitoring of HTTP answers against the stored data',
    require=['byte ranges', 'audio ranges', 'array ranges', 'images', 'whole features', 'search results', 'onsets',
             'unsatisfiable', 'ignored ranges', 'followed links'])


def same(ctx, got, want, key, *what):
    ctx.expect(got == want, key, 'got', got, 'wanted', want, *what)


class Store(ff.Node):
    def _process(self, data):
        yield data


def settings(ctx, kind):
    if kind == 'memory':
        db = ff.InMemoryDatabase(key_builder=ff.StringDelimitedKeyBuilder())
    elif kind == 'files':
        db = ff.FileSystemDatabase(ctx.scratch(), key_builder=ff.StringDelimitedKeyBuilder(), createdirs=True)
    else:
        db = ff.LmdbDatabase(ctx.scratch(), key_builder=ff.StringDelimitedKeyBuilder(), map_size=10 ** 8)

    class Settings(ff.PersistenceSettings):
        id_provider = ff.UserSpecifiedIdProvider(key='_id')
        key_builder = ff.StringDelimitedKeyBuilder()
        database = db
    return Settings


def model(ctx, kind='memory', **features):
    """a model whose features are stored as they are given"""
    return type('Document', (ff.BaseModel, settings(ctx, kind)), features)


def app_for(doc, **kwargs):
    return ZoundsApp(model=doc, globals={}, locals={}, **kwargs)


def url(_id, feature):
    return '/zounds/%s/%s' % (urllib.parse.quote(_id, safe=''), feature)


def some_id(ctx, kind='memory'):
    if kind == 'memory':
        return ctx.choice(['abc', 'http://example.com/a b.wav', 'x%2Fy', 'ünïcode', 'a+b&c=d?e#f', '17', 'spaces in it'])
    return ctx.choice(['abc', 'a b', '17', 'some-thing.wav'])


BYTES = {'json': 'application/json', 'ogg': 'audio/ogg'}


def header_for(ctx, total, seconds=True):
    """a range header, and what it asks for: (start, stop) or None if that's not an ordinary range"""
    kind = ctx.choice(['inside'] * 5 + ['open'] * 2 + ['prefix', 'first', 'last', 'across', 'all', 'after', 'after', 'at end',
                      'empty', 'reversed', 'suffix', 'unit', 'time', 'malformed', 'zero'])
    a = ctx.integer(0, max(0, total - 1))
    b = ctx.integer(a + 1, max(a + 1, total))
    far = total + ctx.integer(1, 1000)
    if kind == 'inside':
        return 'bytes=%d-%d' % (a, b), (a, b)
    if kind == 'open':
        return 'bytes=%d-' % a, (a, total)
    if kind == 'prefix':
        return 'bytes=0-%d' % b, (0, b)
    if kind == 'first':
        return 'bytes=0-1', (0, 1)
    if kind == 'last':
        return 'bytes=%d-%d' % (total - 1, total), (total - 1, total)
    if kind == 'across':
        return 'bytes=%d-%d' % (a, far), (a, total)
    if kind == 'all':
        return 'bytes=0-%d' % total, (0, total)
    if kind == 'after':
        return ctx.choice(['bytes=%d-' % far, 'bytes=%d-%d' % (far, far + 10)]), 'beyond'
    if kind == 'at end':
        return ctx.choice(['bytes=%d-' % total, 'bytes=%d-%d' % (total, total + 5)]), 'beyond'
    if kind == 'empty':
        return 'bytes=%d-%d' % (a, a), 'nothing'
    if kind == 'zero':
        return 'bytes=0-0', 'nothing'
    if kind == 'reversed':
        return 'bytes=%d-%d' % (b, a), 'ignored'
    if kind == 'suffix':
        return 'bytes=-%d' % b, ('suffix', b)
    if kind == 'unit':
        return ctx.choice(['hours', 'samples', 'Bytes-ish', 'items']) + '=%d-%d' % (a, b), 'ignored'
    if kind == 'time':
        if not seconds:
            return None, 'ignored'
        return 'seconds=%d-%d' % (a, b), 'ignored'
    return ctx.choice(['bytes=x-%d' % b, 'bytes=%d-y' % a, 'bytes', '%d-%d' % (a, b), 'bytes=1.5-2', 'bytes=1-2,4-5', '=',
                       'bytes=--', 'seconds=a-b', 'seconds=nan-1', 'seconds=inf-', 'seconds=0-1e999', '-', 'bytes=1- 2x']), 'ignored'


def bounds(text):
    """content-range header -> unit, start, stop, total"""
    unit, rest = text.split(' ')
    rng, total = rest.split('/')
    a, b = rng.split('-')
    return unit, a, b, total


def judge_bytes(ctx, answer, raw, content_type, header, wanted):
    what = (header, len(raw), answer)
    if isinstance(wanted, tuple) and wanted[0] != 'suffix':
        a, b = wanted
        ctx.eq(answer.status, 206, 'bytes:status', *what)
        ctx.expect(answer.body == raw[a:b], 'bytes:payload', *what)
        ctx.expect(answer.header('Content-Range') is not None, 'bytes:content-range', *what)
        ctx.eq(answer.header('Content-Range'), 'bytes %d-%d/%d' % (a, b, len(raw)), 'bytes:content-range', *what)
        ctx.eq(answer.header('Content-Type'), content_type, 'bytes:type', *what)
        ctx.count('byte ranges')
    elif wanted in ('beyond', 'nothing'):
        # there's nothing that could be served
        ctx.expect(400 <= answer.status < 500, 'bytes:unsatisfiable', *what)
        ctx.count('unsatisfiable')
    else:
        suffix = wanted[0] == 'suffix' and answer.status == 206
        if suffix:
            ctx.expect(answer.body == raw[-wanted[1]:], 'bytes:suffix', *what)
        elif not 400 <= answer.status < 500:
            whole(ctx, answer, raw, content_type, *what)
        ctx.count('ignored ranges')


def whole(ctx, answer, raw, content_type, *what):
    ctx.eq(answer.status, 200, 'whole:status', *what)
    ctx.expect(answer.body == raw, 'whole:payload', len(answer.body), len(raw), *what)
    ctx.eq(answer.header('Content-Type'), content_type, 'whole:type', *what)
    ctx.eq(answer.header('Content-Range'), None, 'whole:content-range', *what)
    ctx.count('whole features')


@CHECK.family(120, 4000, need=['bytes:payload', 'bytes:content-range', 'whole:payload', 'cached'])
def byte_ranges(ctx):
    """stored bytes are served whole, or exactly the range asked for"""
    kind = ctx.choice(['memory', 'files', 'lmdb'])
    store_json = ctx.coin(.7) or kind == 'lmdb'
    Doc = model(ctx, kind, json=ff.JSONFeature(Store, store=True), ogg=OggVorbisFeature(Store, store=True),
                derived=ff.JSONFeature(Store, needs=None, store=True))
    ids = list({some_id(ctx, kind) for _ in range(ctx.integer(1, 3))})
    contents = {}
    for _id in ids:
        value = ctx.choice([0, '', {'a': _id}, list(range(ctx.integer(1, 400)))])
        blob = ctx.rng.bytes(ctx.choice([1, 2, 100, ctx.integer(1, 5000), 10 ** 5]))
        Doc.process(_id=_id, json=value, ogg=blob, derived=[_id, value])
        contents[_id, 'json'] = json.dumps(value).encode()
        contents[_id, 'ogg'] = blob
        contents[_id, 'derived'] = json.dumps([_id, value]).encode()
    types = dict(BYTES, derived='application/json')
    ctx.say(kind, ids)
    with Site(app_for(Doc)) as site:
        for _ in range(12):
            (_id, feature), raw = ctx.choice(sorted(contents.items()))
            path = url(_id, feature)
            if ctx.coin(.2):
                whole(ctx, site.get(path), raw, types[feature], path)
                continue
            header, wanted = header_for(ctx, len(raw), feature != 'ogg')
            if header is None or 'seconds' in header and feature == 'ogg':
                continue
            judge_bytes(ctx, site.get(path, Range=header), raw, types[feature], header, wanted)
        # whoever has the very content already need not get it again, and nobody else is told so
        for (_id, feature), raw in sorted(contents.items()):
            first = site.get(url(_id, feature))
            tag = first.header('ETag')
            ctx.expect(tag, 'cached', 'no ETag', first)
            same_ = site.get(url(_id, feature), **{'If-None-Match': tag})
            ctx.expect((same_.status, same_.body) in ((304, b''), (200, raw)), 'cached', same_)
            (other, f), theirs = ctx.choice(sorted(contents.items()))
            if theirs != raw:
                whole(ctx, site.get(url(other, f), **{'If-None-Match': tag}), theirs, types[f], 'cached')
            if len(raw) > 1:
                cut = ctx.integer(1, len(raw) - 1)
                part = site.get(url(_id, feature), Range='bytes=0-%d' % cut)
                ctx.expect(part.header('ETag') and (part.header('ETag') != tag or part.body == raw), 'cached', part, tag)
                whole(ctx, site.get(url(_id, feature), **{'If-None-Match': part.header('ETag')}), raw, types[feature], 'cached') \
                    if part.body != raw else None
        # pieces make up the whole, even with the last one open ended
        (_id, feature), raw = ctx.choice(sorted(contents.items()))
        cuts_ = sorted({0, len(raw)} | {ctx.integer(0, len(raw)) for _ in range(4)})
        got = b''
        for i, (a, b) in enumerate(zip(cuts_, cuts_[1:])):
            last = '' if b == len(raw) and ctx.coin() else b
            got += site.get(url(_id, feature), Range='bytes=%d-%s' % (a, last)).body
        ctx.expect(got == raw, 'bytes:payload', 'pieces', cuts_)


@CHECK.family(60, 1500, need=['whole:payload'])
def derived_bytes(ctx):
    """features that aren't stored are computed and served just the same"""
    Base = settings(ctx, ctx.choice(['memory', 'files']))

    class Words(ff.Node):
        def _process(self, data):
            yield dict(words=data, n=len(data))

    class Doc(ff.BaseModel, Base):
        root = ff.JSONFeature(Store, store=True)
        words = ff.JSONFeature(Words, needs=root, store=ctx.coin())

    items = ['w%d' % i for i in range(ctx.integer(0, 50))]
    Doc.process(_id='x', root=items)
    raw = json.dumps(dict(words=items, n=len(items))).encode()
    with Site(app_for(Doc)) as site:
        for _ in range(4):
            whole(ctx, site.get(url('x', 'words')), raw, 'application/json')
            header, wanted = header_for(ctx, len(raw))
            judge_bytes(ctx, site.get(url('x', 'words'), Range=header), raw, 'application/json', header, wanted)


# -- audio ---------------------------------------------------------------------------------------------------------

def tones(ctx, n, sr, channels):
    t = np.arange(n) / sr
    x = np.zeros((n, channels))
    for c in range(channels):
        f = ctx.rng.uniform(150, 900)
        x[:, c] = .35 * np.sin(2 * np.pi * f * t + c) * (0.6 + .4 * np.sin(2 * np.pi * .7 * t + c))
    return x


def ogg_bytes(x, sr):
    bio = io.BytesIO()
    with soundfile.SoundFile(bio, 'w', sr, x.shape[1], format='OGG', subtype='VORBIS') as f:
        for i in range(0, len(x), sr):
            f.write(x[i:i + sr])
    return bio.getvalue()


def part(raw, start, n):
    with soundfile.SoundFile(io.BytesIO(raw)) as f:
        f.seek(start)
        return f.read(n, always_2d=True)


def second(ctx, value):
    """a number of seconds, the way somebody would write it"""
    return ctx.choice(['%.1f', '%.3f', '%.12f', '%.6f'] + (['%d'] * 2 if value > 1 else [])) % value


def similar(ctx, got, want, key, *what):
    """the same audio, but for what a lossy codec does to it"""
    if len(want) < 2048:
        return
    k = min(len(got), len(want))
    err = np.sqrt(np.mean((got[:k] - want[:k]) ** 2))
    ref = np.sqrt(np.mean(want[:k] ** 2))
    ctx.expect(err < .2 * ref + 4e-3, key, err, ref, *what)
    for i in range(0, k - 4096, 4096):
        e = np.sqrt(np.mean((got[i:i + 4096] - want[i:i + 4096]) ** 2))
        r = np.sqrt(np.mean(want[i:i + 4096] ** 2))
        ctx.expect(e < .35 * r + 1.5e-2, key, 'stretch at', i, e, r, *what)


def audio_range(ctx, site, raw, sr, ch, total, a, b):
    """one request for seconds, judged; the number of frames served"""
    sa = a if isinstance(a, str) else second(ctx, a)
    sb = '' if b is None else b if isinstance(b, str) else second(ctx, b)
    a = float(sa)
    b = None if sb == '' else float(sb)
    header = 'seconds=%s-%s' % (sa, sb)
    answer = site.get(url('x', 'ogg'), Range=header)
    length = total / sr
    what = (header, length, sr, answer, answer.header('Content-Range'))
    end = length if b is None else min(b, length)
    if a >= length + 1e-6 or (b is not None and b <= a):
        ctx.expect(400 <= answer.status < 500 or (answer.status == 200 and b is not None and b < a), 'audio:unsatisfiable', *what)
        ctx.count('unsatisfiable')
        return 0
    if end - a < 2 / sr:
        return 0            # hardly anything left
    ctx.eq(answer.status, 206, 'audio:status', *what)
    ctx.eq(answer.header('Content-Type'), 'audio/ogg', 'audio:type', *what)
    unit, ca, cb, ct = bounds(answer.header('Content-Range'))
    ctx.eq(unit, 'seconds', 'audio:content-range', *what)
    ctx.close([float(ca), float(cb), float(ct)], [a, end, length], 'audio:content-range', *what, rtol=0, atol=1e-9)
    got, rate = soundfile.read(io.BytesIO(answer.body), always_2d=True)
    ctx.eq(rate, sr, 'audio:rate', *what)
    start, n = int(round(a * sr)), int(round(end * sr)) - int(round(a * sr))
    ctx.eq(got.shape[1], ch, 'audio:channels', *what)
    ctx.expect(abs(len(got) - n) <= 2, 'audio:length', len(got), n, *what)
    if a == 0 and end == length:
        ctx.eq(len(got), total, 'audio:length', 'from beginning to end', *what)
    # times between samples may be rounded either way
    parts = [part(raw, max(0, start + d), n) for d in (-1, 0, 1)]
    k = min(len(got), min(map(len, parts)))
    similar(ctx, got, min(parts, key=lambda p: np.sum((p[:k] - got[:k]) ** 2)), 'audio:signal', *what)
    ctx.count('audio ranges')
    return len(got)


def audio_document(ctx, seconds, sr, ch):
    Doc = model(ctx, ctx.choice(['memory', 'files']), ogg=OggVorbisFeature(Store, store=True))
    total = int(seconds * sr)
    raw = ogg_bytes(tones(ctx, total, sr, ch), sr)
    Doc.process(_id='x', ogg=raw)
    with soundfile.SoundFile(io.BytesIO(raw)) as f:
        total = len(f)
    return Doc, raw, total


@CHECK.family(40, 1500, need=['audio:signal', 'audio:content-range'])
def audio_ranges(ctx):
    """ranges of seconds of stored audio"""
    sr, ch = int(samplerate(ctx)), ctx.choice([1, 2])
    seconds = ctx.choice([ctx.rng.uniform(.2, 6), ctx.rng.uniform(.2, 6), around_seconds(ctx, sr) / sr + 1e-9])
    if ctx.coin(.2):
        # samples that last a whole number of picoseconds, all of them together a number that isn't one in floating point
        sr, n = 16000, ctx.integer(3000, 90000)
        while int(1e12 * (n / sr)) == n * 10 ** 12 // sr:
            n += 1
        seconds = n / sr + 1e-9
    Doc, raw, total = audio_document(ctx, seconds, sr, ch)
    length = total / sr
    ctx.say(sr, ch, total)
    with Site(app_for(Doc)) as site:
        answer = site.get(url('x', 'ogg'))
        ctx.expect(answer.status == 200 and answer.body == raw, 'audio:whole', answer)
        for _ in range(5):
            a = ctx.choice([0., ctx.rng.uniform(0, length), ctx.rng.uniform(0, length), length * 1.2 + .3])
            b = ctx.choice([None, a + ctx.rng.uniform(0, 2), a + ctx.rng.uniform(0, length), length, length + 2., a / 2])
            audio_range(ctx, site, raw, sr, ch, total, a, b)
        audio_range(ctx, site, raw, sr, ch, total, '0', ctx.choice(['', '%d' % (length + 2)]))
        x, y = sorted(ctx.rng.uniform(.02, length - .02) for _ in range(2))
        if y - x > .02:
            pieces = ['0', '%.4f' % x, '%.4f' % y, '']
            got = sum(audio_range(ctx, site, raw, sr, ch, total, a, b) for a, b in zip(pieces, pieces[1:]))
            ctx.expect(abs(got - total) <= 3, 'audio:length', 'pieces', got, total, pieces)


@CHECK.family(4, 40, cpu=200, need=['audio:signal'])
def long_audio_ranges(ctx):
    """more audio than the codec takes at once"""
    sr, ch = ctx.choice([22050, 44100, 48000]), ctx.choice([1, 2])
    Doc, raw, total = audio_document(ctx, ctx.rng.uniform(60, 150), sr, ch)
    with Site(app_for(Doc)) as site:
        audio_range(ctx, site, raw, sr, ch, total, 0., None)
        audio_range(ctx, site, raw, sr, ch, total, ctx.rng.uniform(0, 10), total / sr - ctx.rng.uniform(0, 5))


def around_seconds(ctx, sr):
    """whole seconds, or some samples more or less"""
    return ctx.integer(1, 2) * int(sr) + ctx.choice([0, 1, 1, -1, 2, ctx.integer(-70, 70)])


# -- images --------------------------------------------------------------------------------------------------------

VIRIDIS = matplotlib.colormaps['viridis']


def picture(ctx, payload, key):
    ctx.expect(payload[:8] == b'\x89PNG\r\n\x1a\n', key, 'not a PNG', payload[:20])
    return imread(io.BytesIO(payload), format='png')


def on_white(pixels):
    if pixels.shape[-1] == 3:
        return pixels
    a = pixels[..., 3:]
    return pixels[..., :3] * a + 1 - a


def judge_picture(ctx, payload, data, key='image', *what):
    """time goes to the right and the second axis upwards; a cell's colour tells its value"""
    img = picture(ctx, payload, key)
    data = np.asarray(data)
    if data.ndim == 1:
        ctx.expect(img.shape[0] > 10 and img.shape[1] > 10, key, 'size', img.shape)
        return
    rgb = data.ndim == 3
    cells = np.rot90(data if rgb else data.real)
    rows, cols = cells.shape[:2]
    h, w = img.shape[:2]
    if rows > h / 4 or cols > w / 4:
        return
    lo, hi = np.nanmin(cells), np.nanmax(cells)
    if not rgb and hi - lo < 1e-9 * max(abs(hi), abs(lo)) + 1e-300:
        return
    y = ((np.arange(rows) + .5) * h / rows).astype(int)
    x = ((np.arange(cols) + .5) * w / cols).astype(int)
    got = on_white(img[np.ix_(y, x)])
    want = on_white(cells) if rgb else VIRIDIS((cells - lo) / (hi - lo))[..., :3]
    if min(h / rows, w / cols) > 12:
        ctx.close(got, want, key, *what, rtol=0, atol=.06)
    else:
        # neighbouring cells blend
        ctx.expect(np.mean(np.abs(got - want)) < .1, key, np.mean(np.abs(got - want)), *what)
    ctx.count('images')


def array_of(ctx, td, n, most=9):
    kind = ctx.choice(['1d', '2d', '2d', '2d', 'complex', 'rgb', 'ints'])
    m = ctx.integer(1, most)
    if kind == '1d':
        return ArrayWithUnits(ctx.rng.normal(size=n), [td])
    if kind == 'rgb':
        return ArrayWithUnits(ctx.rng.random((n, m, ctx.choice([3, 4]))) * .98 + .01, [td, IdentityDimension(), IdentityDimension()])
    x = ctx.rng.normal(size=(n, m))
    if kind == 'complex':
        x = x + 1j * ctx.rng.normal(size=(n, m))
    if kind == 'ints':
        x = ctx.rng.integers(-100, 100, (n, m))
    return ArrayWithUnits(x, [td, IdentityDimension()])


@CHECK.family(40, 1500, need=['image', 'array:content-range'])
def array_ranges(ctx):
    """arrays and ranges of them are served as pictures"""
    step = ctx.choice([Milliseconds(ctx.integer(1, 300)), Seconds(1), Milliseconds(500), Picoseconds(ctx.integer(10 ** 9, 10 ** 11))])
    td = TimeDimension(step, step * ctx.choice([1, 1, 2]))
    x = array_of(ctx, td, ctx.integer(2, 20))
    if x.ndim == 3 and x.shape[-1] == 4 and ctx.coin():
        x[..., 3] = 1
    if x.shape[0] < 2:
        return
    Doc = model(ctx, ctx.choice(['memory', 'files']), arr=ArrayWithUnitsFeature(Store, store=True))
    Doc.process(_id='x', arr=x)
    freq, dur = ps(td.frequency), ps(td.duration)
    end = (len(x) - 1) * freq + dur
    ctx.say(x.shape, x.dtype, freq, dur)
    with Site(app_for(Doc)) as site:
        answer = site.get(url('x', 'arr'))
        same(ctx, (answer.status, answer.header('Content-Type')), (200, 'image/png'), 'image:status')
        ctx.eq(answer.header('Content-Range'), None, 'image:status')
        judge_picture(ctx, answer.body, x, 'image', 'whole', x.shape)
        ctx.count('whole features')
        for _ in range(4):
            a = ctx.choice([0., ctx.rng.uniform(0, end / 1e12), ctx.rng.uniform(0, end / 1e12), end / 1e12 + .5])
            b = ctx.choice([None, a + ctx.rng.uniform(0, end / 1e12) + .001, end / 1e12 + 1.])
            sa, sb = second(ctx, a), '' if b is None else second(ctx, b)
            a, b = float(sa), None if b is None else float(sb)
            header = 'seconds=%s-%s' % (sa, sb)
            answer = site.get(url('x', 'arr'), Range=header)
            what = (header, end / 1e12, x.shape, answer, answer.header('Content-Range'))
            if b is not None and b < a:
                continue
            if a * 1e12 >= end + 10 or b == a:
                ctx.expect(400 <= answer.status < 500, 'array:unsatisfiable', *what)
                ctx.count('unsatisfiable')
                continue
            if b is not None and b <= a or a * 1e12 >= end - 1e6:
                continue
            stop = end if b is None else min(int(round(b * 1e12)), end)
            same(ctx, (answer.status, answer.header('Content-Type')), (206, 'image/png'), 'array:status', *what)
            unit, ca, cb, ct = bounds(answer.header('Content-Range'))
            ctx.eq(unit, 'seconds', 'array:content-range', *what)
            ctx.close([float(ca), float(cb), float(ct)], [a, stop / 1e12, end / 1e12], 'array:content-range', *what, rtol=0, atol=1e-9)
            los, his = time_run(int(round(a * 1e12)), stop, freq, dur, len(x))
            if len(los) == 1 and len(his) == 1 and his[0] > los[0]:
                judge_picture(ctx, answer.body, np.asarray(x)[los[0]:his[0]], 'image', *what)
                ctx.count('array ranges')
        # a range of bytes makes no sense for a picture of a feature
        answer = site.get(url('x', 'arr'), Range='bytes=0-10')
        ctx.expect(400 <= answer.status < 500 or (answer.status == 200 and answer.body[:4] == b'\x89PNG'), 'image:bytes', answer)


@CHECK.family(60, 2500, need=['serialize:audio', 'image'])
def values(ctx):
    """values that don't belong to a feature"""
    app = app_for(model(ctx, json=ff.JSONFeature(Store, store=True)), )
    sr = samplerate(ctx)
    if ctx.coin():
        ch = ctx.choice([1, 2])
        n = ctx.choice([ctx.integer(1, 3000), ctx.integer(1, 3 * int(sr)), around_seconds(ctx, sr)])
        x = tones(ctx, n, int(sr), ch)
        samples = AudioSamples(x[:, 0] if ch == 1 else x, sr)
        result = app.serialize(RequestContext(value=samples, slce=slice(None)))
        ctx.eq(result.content_type, 'audio/ogg', 'serialize:audio')
        got, rate = soundfile.read(io.BytesIO(result.data), always_2d=True)
        same(ctx, (rate, got.shape), (int(sr), x.shape), 'serialize:audio')
        similar(ctx, got, x, 'serialize:audio')
    else:
        x = array_of(ctx, TimeDimension(Seconds(1)), ctx.integer(1, 20))
        if x.ndim == 3 and x.shape[-1] == 4 and ctx.coin(.2):
            x[..., 3] = 1
        value = x if ctx.coin() else np.asarray(x)
        result = app.serialize(RequestContext(value=value, slce=slice(None)))
        ctx.eq(result.content_type, 'image/png', 'serialize:image')
        judge_picture(ctx, result.data, x, 'image', 'value', x.shape)


@CHECK.family(25, 600, need=['audio:feature'])
def stored_samples(ctx):
    """audio samples stored as a feature are served as audio"""
    sr = samplerate(ctx)
    n = ctx.choice([ctx.integer(1, 2 * int(sr)), around_seconds(ctx, sr)])
    ch = ctx.choice([1, 2])
    x = tones(ctx, n, int(sr), ch)
    samples = AudioSamples(x[:, 0] if ch == 1 else x, sr)
    Doc = model(ctx, 'memory', pcm=AudioSamplesFeature(Store, store=True))
    Doc.process(_id='x', pcm=samples)
    with Site(app_for(Doc)) as site:
        answer = site.get(url('x', 'pcm'))
        same(ctx, (answer.status, answer.header('Content-Type')), (200, 'audio/ogg'), 'audio:feature')
        got, rate = soundfile.read(io.BytesIO(answer.body), always_2d=True)
        same(ctx, (rate, got.shape), (int(sr), x.shape), 'audio:feature')
        similar(ctx, got, x, 'audio:feature')
        ctx.count('whole features')


# -- onsets and search results ---------------------------------------------------------------------------------------

def some_slice(ctx):
    return TimeSlice(exact(ctx, ctx.integer(1, 10 ** 13)), exact(ctx, ctx.integer(0, 10 ** 13)))


def judge_slices(ctx, results, expected, names, key, site=None):
    """expected: (id, slice) in order; names: audio feature, visualization feature"""
    ctx.eq(len(results), len(expected), key, 'number of results')
    for got, (_id, ts) in zip(results, expected):
        ctx.close([got['slice']['start'], got['slice']['duration']], [ps(ts.start) / 1e12, ps(ts.duration) / 1e12], key, 'slice', got,
                  rtol=1e-12, atol=1e-12)
        for what, name in zip(('audio', 'visualization'), names):
            prefix, quoted, feature = got[what][:8], got[what][8:].split('/')[0], got[what].split('/')[-1]
            same(ctx, (prefix, urllib.parse.unquote(quoted), feature, got[what].count('/')), ('/zounds/', _id, name, 3), key, 'path', got)
            if site is not None and ctx.coin(.3):
                answer = site.get(got[what])
                same(ctx, (answer.status, json.loads(answer.body)), (200, [_id, name]), key, 'followed', got)
                ctx.count('followed links')


@CHECK.family(60, 2500, need=['onsets'])
def onsets(ctx):
    """slices of a document are served as links to their audio"""
    Doc = model(ctx, 'memory', slices=TimeSliceFeature(Store, store=True), sound=ff.JSONFeature(Store, store=True),
                look=ff.JSONFeature(Store, store=True))
    _id = some_id(ctx)
    td = []
    at = 0
    for _ in range(ctx.integer(1, 6)):
        at += ctx.integer(1, 10 ** 12)
        # (some are mere instants)
        td.append((TimeSlice(Picoseconds(ctx.choice([0, ctx.integer(1, 10 ** 12), ctx.integer(1, 10 ** 12)])), Picoseconds(at)), np.zeros(1)))
    series = VariableRateTimeSeries(td)
    Doc.process(_id=_id, slices=series, sound=[_id, 'sound'], look=[_id, 'look'])
    app = app_for(Doc, audio_feature=Doc.sound, visualization_feature=Doc.look)
    expected = [(_id, ts) for ts, _ in td]
    with Site(app) as site:
        answer = site.get(url(_id, 'slices'))
        same(ctx, (answer.status, answer.header('Content-Type')), (200, 'application/vnd.zounds.onsets+json'), 'onsets', answer)
        judge_slices(ctx, json.loads(answer.body)['results'], expected, ('sound', 'look'), 'onsets', site)
        result = app.serialize(RequestContext(document=Doc(_id), feature=Doc.slices, value=Doc(_id).slices, slce=slice(None)))
        judge_slices(ctx, json.loads(result.data)['results'], expected, ('sound', 'look'), 'onsets')
        ctx.count('onsets')


@CHECK.family(80, 3000, need=['search'])
def search_results(ctx):
    """results of searches are served as links to their audio, along with the query"""
    Doc = model(ctx, 'memory', sound=ff.JSONFeature(Store, store=True), look=ff.JSONFeature(Store, store=True))
    ids = [some_id(ctx) for _ in range(3)]
    for _id in ids:
        Doc.process(_id=_id, sound=[_id, 'sound'], look=[_id, 'look'])
    expected = [(ctx.choice(ids), some_slice(ctx)) for _ in range(ctx.integer(0, 6))]
    extra = ctx.coin()
    results = [(i, ts, {'web_url': 'x'}) if extra else (i, ts) for i, ts in expected]
    kind = ctx.choice(['bytes', 'bits', 'vector'])
    raw = ctx.rng.bytes(8 * ctx.integer(1, 4))
    query = {'bytes': raw, 'bits': np.frombuffer(raw, np.uint64), 'vector': np.frombuffer(raw, np.uint8).astype(np.float32)}[kind]
    app = app_for(Doc, audio_feature=Doc.sound, visualization_feature=Doc.look)
    out = app.serialize(RequestContext(value=SearchResults(query, iter(results) if ctx.coin() else results)))
    ctx.eq(out.content_type, 'application/vnd.zounds.searchresults+json', 'search')
    parsed = json.loads(out.data)
    ctx.expect(base64.b64decode(parsed['query']) == bytes(query), 'search', 'query', parsed['query'])
    if expected and ctx.coin(.3):
        with Site(app) as site:
            judge_slices(ctx, parsed['results'], expected, ('sound', 'look'), 'search', site)
    else:
        judge_slices(ctx, parsed['results'], expected, ('sound', 'look'), 'search')
    ctx.count('search results')


# -- headers ---------------------------------------------------------------------------------------------------------

def number(ctx):
    whole = ctx.integer(0, ctx.choice([9, 100, 5000]))
    digits = ctx.choice([0, 1, 2, 3, 6, 9, 12])
    if not digits:
        return str(whole)
    return '%d.%0*d' % (whole, digits, ctx.integer(0, 10 ** digits - 1))


@CHECK.family(2000, 60000, need=['parse:seconds', 'parse:bytes', 'parse:round trip'])
def headers(ctx):
    """headers mean the bounds they name, and are printed with the same bounds"""
    if ctx.coin():
        a, b, c = sorted({number(ctx) for _ in range(3)} | {'5001', '5002', '5003'}, key=Fraction)[:3]
        first, second_, rest = (RangeRequest('seconds=%s-%s' % p).range() for p in [(a, b), (b, c), (c, '')])
        pico = [Fraction(v) * 10 ** 12 for v in (a, b, c)]
        slack = 1 + float(pico[-1]) * 3e-16
        for ts, s, e in ((first, pico[0], pico[1]), (second_, pico[1], pico[2]), (rest, pico[2], None)):
            ctx.expect(abs(ps(ts.start) - s) <= slack, 'parse:seconds', 'start', ts, a, b, c)
            if e is None:
                ctx.eq(ts.duration, None, 'parse:seconds')
            else:
                ctx.expect(abs(ps(ts.start) + ps(ts.duration) - e) <= 2 * slack, 'parse:seconds', 'stop', ts, a, b, c)
        ctx.eq(ps(first.start) + ps(first.duration), ps(second_.start), 'parse:seconds', 'ranges do not meet', a, b, c)
        ctx.eq(ps(second_.start) + ps(second_.duration), ps(rest.start), 'parse:seconds', 'ranges do not meet', a, b, c)
        total = Seconds(6000)
        text = str(ContentRange.from_timeslice(first, total))
        unit, x, y, t = bounds(text)
        same(ctx, (unit, float(t)), ('seconds', 6000.), 'parse:round trip', text)
        ctx.close([float(x), float(y)], [float(a), float(b)], 'parse:round trip', text, rtol=1e-14, atol=1.1e-12)
        unit, x, y, t = bounds(str(ContentRange.from_timeslice(rest, total)))
        ctx.close([float(x), float(y)], [float(c), 6000.], 'parse:round trip', rtol=1e-14, atol=1.1e-12)
    else:
        a = ctx.choice([0, 0, 1, ctx.integer(0, 10 ** 6), ctx.integer(0, 10 ** 12)])
        b = a + ctx.choice([1, ctx.integer(1, 10 ** 6)])
        s = RangeRequest('bytes=%d-%d' % (a, b)).range()
        same(ctx, (s.start, s.stop, s.step), (a, b, None), 'parse:bytes')
        ctx.eq(str(ContentRange.from_slice(s, b + 5)), 'bytes %d-%d/%d' % (a, b, b + 5), 'parse:round trip')
        s = RangeRequest('bytes=%d-' % a).range()
        same(ctx, (s.start, s.stop, s.step), (a, None, None), 'parse:bytes')
        ctx.eq(str(ContentRange.from_slice(s, b)), 'bytes %d-%d/%d' % (a, b, b), 'parse:round trip')
        for text in (None, '', 'bytes=%d' % a, 'x'):
            ctx.eq(RangeRequest(text).range(), slice(None), 'parse:bytes', 'no range', text)
        header, wanted = header_for(ctx, 10)
        try:
            RangeRequest(header).range()
        except (RangeUnitUnsupportedException, UnsatisfiableRangeRequestException):
            ctx.expect(wanted in ('ignored', 'nothing', 'beyond') or wanted[0] == 'suffix', 'parse:bytes', header)
