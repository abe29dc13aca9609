import io
import json
import os
import zipfile

import requests
import soundfile
import featureflow as ff

from ..core import Check
from ..gen import *
from ..nodes import run
from .c21_stream_decode import PCM, encode, audio, RATES_INT, DEPTH
from zounds.soundfile import MetaData, AudioMetaData, AudioMetaDataEncoder, ChunkSizeBytes
from zounds.soundfile.byte_depth import chunk_size_samples

CHECK = Check(
    'C24', 'a case is one sound source (file, open file, bytes, url, request, zip member, ready-made metadata) taken through the metadata '
           'node, its JSON encoder and a document, or one chunk size computation',
    technique='runtime monitor: reported metadata compared with the file that was written; sizes compared with exact rational arithmetic')

WORDS = ['drums', 'été', 'a "quoted" tag', 'x' * 200, '', '0', 'line\nbreak', '日本語']


def details(ctx):
    d = {}
    for k in ('licensing', 'description', 'tags'):
        if ctx.coin():
            d[k] = ctx.choice([ctx.choice(WORDS), [ctx.choice(WORDS) for _ in range(ctx.integer(0, 3))]])
    for k in ('artist', 'bpm', 'score', 'nested'):
        if ctx.coin(.3):
            d[k] = ctx.choice([ctx.integer(-5, 500), 1.25, True, None, {'a': [1, 2, ctx.choice(WORDS)]}, ctx.choice(WORDS)])
    return d


FIELDS = ('uri', 'samplerate', 'channels', 'licensing', 'description', 'tags')


def encoded(meta):
    outs = run(lambda s: AudioMetaDataEncoder(needs=s), [meta])
    outs = [o for o in outs if o is not None]
    return json.loads(''.join(o if isinstance(o, str) else o.decode() for o in outs))


@CHECK.family(150, 2000, need=['meta:samplerate', 'meta:channels', 'json'])
def sources(ctx):
    sr, ch = ctx.choice(RATES_INT), ctx.choice([1, 2, 3])
    fmt, sub = ctx.choice([p for p in PCM if p[0] != 'NIST'] + [('FLAC', 'PCM_16'), ('OGG', 'VORBIS')])
    n = ctx.integer(1, 2000)
    raw = encode(audio(ctx, n, ch), sr, fmt, sub)
    kind = ctx.choice(['path', 'bytes', 'open', 'url', 'request', 'ready', 'ready', 'zip', 'other'])
    ctx.say('%s of %s/%s %d Hz x%d' % (kind, fmt, sub, sr, ch))
    d = ctx.scratch()
    path = os.path.join(d, ctx.choice(['a', 'with space', 'ünï']) + '.' + fmt.lower())
    with open(path, 'wb') as f:
        f.write(raw)
    want = dict.fromkeys(FIELDS)
    opened = None
    if kind == 'path':
        src, uri = path, path
        want.update(samplerate=sr, channels=ch)
    elif kind == 'bytes':
        src, uri = io.BytesIO(raw), None
        want.update(samplerate=sr, channels=ch)
    elif kind == 'open':
        src = opened = open(path, 'rb')
        uri = None
        want.update(samplerate=sr, channels=ch)
    elif kind == 'url':
        src = uri = 'http%s://example.com/%d/%s.wav?x=%s' % (
            ctx.choice(['', 's']), ctx.integer(0, 99), ctx.choice(['a', 'b%20c']), ctx.integer(0, 9))
    elif kind == 'request':
        uri = 'https://example.com/%d' % ctx.integer(0, 99)
        headers = dict([('X-Key', 'v')] if ctx.coin() else [])
        asked = None
        if ctx.coin():
            asked = 'bytes=%d-%d' % (ctx.integer(0, 9), ctx.integer(10, 99))
            headers[ctx.choice(['Range', 'range', 'RANGE'])] = asked
        src = requests.Request(method='GET', url=uri, headers=headers, params={'q': '1'} if ctx.coin() else {})
    elif kind == 'zip':
        zp = os.path.join(d, 'a.zip')
        with zipfile.ZipFile(zp, 'w') as zf:
            zf.write(path, 'member.wav')
        src = next(ff.iter_zip(zp))
        uri = None
    elif kind == 'other':
        src = uri = ctx.choice(['no such file', 'just-an-id', os.path.join(d, 'missing.wav')])
    else:
        extra = details(ctx)
        uri = ctx.choice([path, 'http://example.com/x', None])
        want.update(samplerate=ctx.choice([None, sr]), channels=ctx.choice([None, ch]))
        want.update(extra)
        kw = {k: v for k, v in want.items() if k != 'uri'}
        src = AudioMetaData(uri=io.BytesIO(raw) if uri is None else uri, **kw)
    want['uri'] = uri
    outs = [o for o in run(lambda s: MetaData(needs=s), [src]) if o is not None]
    ctx.eq(len(outs), 1, 'meta:one')
    m = outs[0]
    ctx.expect(isinstance(m, AudioMetaData), 'meta:type', type(m))
    for k, v in want.items():
        if k != 'uri':
            ctx.eq(getattr(m, k), v, 'meta:' + (k if k in FIELDS else 'extra'), kind)
    if kind == 'url' or kind == 'request':
        ctx.expect(m.request is not None, 'meta:request', kind)
        prepared = m.request.prepare()
        ctx.expect(prepared.url.startswith(uri), 'meta:request', prepared.url, uri)
        ctx.eq(prepared.method, 'GET', 'meta:request')
        wanted = asked if kind == 'request' and asked else 'bytes=0-'
        ctx.eq(prepared.headers['range'], wanted, 'meta:range')
        if kind == 'request' and 'X-Key' in headers:
            ctx.eq(prepared.headers['X-Key'], 'v', 'meta:request')
    elif kind in ('path', 'bytes', 'open', 'zip', 'other'):
        ctx.expect(m.uri is src, 'meta:uri', kind)
        ctx.expect(m.request is None, 'meta:request', kind)
    # what the byte stream reads afterwards is still the whole file
    if kind in ('bytes', 'open', 'path', 'zip'):
        from featureflow.bytestream import ByteStream
        data = b''.join(bytes(o) for o in run(lambda s: ByteStream(chunksize=4096, needs=s), [m]) if o is not None)
        ctx.expect(data == raw, 'meta:stream', len(data), len(raw))
    facts = dict(m.__dict__)
    got = encoded(m)
    ctx.eq(got, json.loads(json.dumps(want)), 'json', kind)
    # what has been written down is still what it was, for the nodes that come after
    ctx.expect(sorted(m.__dict__) == sorted(facts) and all(m.__dict__[k] is v for k, v in facts.items()), 'json:untouched', facts, m)
    ctx.eq(encoded(m), got, 'json:untouched', kind)
    if opened is not None:
        opened.close()
    ctx.count('sources described')


@CHECK.family(40, 400, need=['document'])
def documents(ctx):
    @z.simple_in_memory_settings
    class Doc(ff.BaseModel):
        meta = ff.JSONFeature(z.MetaData, store=True, encoder=z.AudioMetaDataEncoder)

    made = []
    for _ in range(ctx.integer(1, 4)):
        sr, ch = ctx.choice(RATES_INT), ctx.choice([1, 2])
        kw = dict(samplerate=sr, channels=ch, **details(ctx))
        uri = 'http://example.com/%d' % ctx.integer(0, 10 ** 6)
        made.append((Doc.process(meta=AudioMetaData(uri=uri, **kw)), dict(dict.fromkeys(FIELDS), uri=uri, **kw)))
    ctx.say('%d documents' % len(made))
    for _id, want in made:
        ctx.eq(dict(Doc(_id).meta), json.loads(json.dumps(want)), 'document')
        again = AudioMetaData(**Doc(_id).meta)
        ctx.expect(again == AudioMetaData(**want), 'document', 'not equal to the original')
        for k in ('samplerate', 'channels', 'licensing', 'description', 'tags'):
            other = dict(want, **{k: 'something else'})
            ctx.expect(not (again == AudioMetaData(**other)), 'meta:eq', k)


@CHECK.family(20, 100, need=['no-uri'])
def no_uri(ctx):
    ctx.say(str(ctx.idx))
    ctx.raises(lambda: AudioMetaData(**ctx.choice([{}, {'samplerate': 44100}, {'uri': ''}, {'uri': None}])), 'no-uri', types=(ValueError,))


@CHECK.family(200, 3000, need=['chunksize'])
def sizes(ctx):
    sr = samplerate(ctx)
    ch = ctx.integer(1, 6)
    bits = ctx.choice([8, 16, 24, 32, 64])
    k = ctx.choice(['samples', 'seconds', 'any'])
    if k == 'samples':
        n = ctx.integer(1, 10 ** 6)
        dur, lo, hi = sr.frequency * n, n, n
    elif k == 'seconds':
        s = ctx.integer(1, 600)
        dur = ctx.choice([z.Seconds(s), z.Milliseconds(1000 * s), z.Picoseconds(s * 10 ** 12)])
        # a second holds the sampling rate's number of samples; the picosecond frequency is a little short
        lo, hi = s * int(sr), s * int(sr) + s * int(sr) // 10 ** 7 + 1
    else:
        p = ctx.integer(10 ** 9, 10 ** 14) // 1000 * 1000
        dur = exact(ctx, p)
        f = ps(sr.frequency)
        lo, hi = (p // f, p // f)
    c = ChunkSizeBytes(sr, dur, channels=ch, bit_depth=bits)
    ctx.say('%d Hz %s x%d %d bits' % (int(sr), dur, ch, bits))
    got = int(c)
    per = bits // 8 * ch
    ctx.eq(got % per, 0, 'chunksize', 'not whole frames')
    ctx.expect(lo <= got // per <= hi, 'chunksize', got, lo * per, hi * per)
    ctx.expect(isinstance(got, int), 'chunksize', type(got))


@CHECK.family(150, 2000, need=['samples'])
def samples(ctx):
    """how many samples to ask for, given a chunk of bytes: never more than the chunk can hold, except for one
    second, and about six seconds less than that"""
    fmt, sub = ctx.choice([p for p in PCM if p[0] != 'NIST'] + [('FLAC', 'PCM_24'), ('OGG', 'VORBIS'), ('WAV', 'MS_ADPCM')])
    sr, ch = ctx.choice(RATES_INT), ctx.choice([1, 2])
    raw = encode(audio(ctx, 100, ch), sr, fmt, sub)
    secs = ctx.choice([0, .5, 1, 6.9, 7, 7.5, 8, 30, float(ctx.rng.uniform(0, 60))])
    per = DEPTH[sub] * ch * sr
    size = int(secs * per)
    sf = soundfile.SoundFile(io.BytesIO(raw))
    got = chunk_size_samples(sf, bytes(size))
    ctx.say('%s/%s %d Hz x%d, %d bytes -> %s' % (fmt, sub, sr, ch, size, got))
    want = max(Fraction(1), Fraction(size, per) - 6) * sr
    ctx.expect(abs(got - want) <= 1, 'samples', got, float(want))
