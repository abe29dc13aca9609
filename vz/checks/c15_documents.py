"""C15: documents processed by the library's graphs into real stores"""
import os

import featureflow as ff
import scipy.fft
import soundfile

from ..core import Check
from ..gen import *
from ..nodes import run
from .c21_stream_decode import audio, encode, mono_of
from zounds.basic import audio_graph, frequency_adaptive, resampled, stft, windowed, with_onsets
from zounds.soundfile import ChunkSizeBytes
from zounds.spectral import (
    BFCC, BarkBands, Chroma, FrequencyAdaptive, HanningWindowingFunc, SpectralCentroid)
from zounds.timeseries import AudioSamples, HalfLapped, VariableRateTimeSeries
from zounds.util import simple_in_memory_settings, simple_lmdb_settings

CHECK = Check(
    'C15',
    'Audio files processed through the library graphs into in-memory, file-system and LMDB stores; every feature is '
    'read back by several routes and compared with every other route and with direct computation.',
    technique='differential runtime monitoring across storage backends, read routes and direct computation',
    require=['documents', 'features compared', 'recomputed on demand', 'reopened', 'overwritten', 'backends compared',
             'onset slices'])


def plain(v):
    """a comparable form of any feature value"""
    if isinstance(v, VariableRateTimeSeries):
        return ('slices', [(ps(ts.start), ps(ts.duration)) for ts, _ in v], None)
    if isinstance(v, ArrayWithUnits):
        return (type(v).__name__, np.array(v), tuple(dims_of(v)))
    if isinstance(v, dict):
        return ('dict', sorted((k, repr(x)) for k, x in v.items()), None)
    if hasattr(v, 'duration_seconds'):
        x = v[TimeSlice(start=Seconds(0))]
        return ('ogg', np.array(x), (int(v.samplerate), v.channels))
    return ('other', repr(v), None)


def dims_of(arr):
    for d in arr.dimensions:
        if isinstance(d, TimeDimension):
            yield ('time', ps(d.frequency), ps(d.duration))
        else:
            yield (type(d).__name__, getattr(d, 'scale', None) and bands_of(d.scale))


def same(ctx, a, b, key, *msg):
    ctx.eq(a[0], b[0], key, 'type', *msg)
    if isinstance(a[1], np.ndarray):
        ctx.eq(a[1].dtype, b[1].dtype, key, 'dtype', *msg)
        ctx.eq(a[1], b[1], key, *msg)
    else:
        ctx.expect(a[1] == b[1], key, a[1], b[1], *msg)
    ctx.expect(a[2] == b[2], key, 'units', a[2], b[2], *msg)
    ctx.count('features compared')


def file_for(ctx, k, sr, seconds, channels):
    n = int(sr * seconds)
    x = audio(ctx, n, channels)
    # distinct documents: an offset of its own
    x = np.clip(x * .9 + .01 * (k % 7), -1, .99)
    path = os.path.join(ctx.scratch(), 'audio%d.wav' % k)
    with open(path, 'wb') as f:
        f.write(encode(x, sr, 'WAV', ctx.choice(['PCM_16', 'PCM_24', 'FLOAT'])))
    ref, _ = soundfile.read(path)
    return path, mono_of(ref)


def file_settings(path):
    kb = ff.StringDelimitedKeyBuilder('-')

    def decorator(cls):
        class Settings(ff.PersistenceSettings):
            id_provider = ff.UuidProvider()
            key_builder = kb
            database = ff.FileSystemDatabase(path=path, key_builder=kb, createdirs=True)

        class Model(cls, Settings):
            pass
        return Model
    return decorator


def backend(ctx, kind, k, cls, user_id=False):
    path = os.path.join(ctx.scratch(), '%s%d' % (kind, k))
    if kind == 'memory':
        return simple_in_memory_settings(cls)
    if kind == 'files':
        return file_settings(path)(cls)
    return simple_lmdb_settings(path, map_size=10 ** 8, user_supplied_id=user_id)(cls)


RATE_OF = {int(r()): r for r in RATES}


def graph_for(ctx, kind, sr, chunk, store, mixed=False):
    """a fresh class; store: whether optional features are stored (the decoded audio always is:
    features cannot be recomputed from further up, see again())"""
    cls = library_graph(ctx, kind, sr, chunk, store, mixed)
    # (an LMDB store holds ten features at most, so the widest graph keeps no pcm)
    for k in ('resampled',) if kind == 'audio' else ('pcm', 'resampled'):
        cls.features[k].store = True
    return cls


def library_graph(ctx, kind, sr, chunk, store, mixed=False):
    rate = RATE_OF[sr]()
    if kind == 'resampled':
        return resampled(chunksize_bytes=chunk, resample_to=rate, store_resampled=store)
    if kind == 'windowed':
        return windowed(HalfLapped(), chunksize_bytes=chunk, resample_to=rate, store_resampled=store,
                        store_windowed=store, wfunc=HanningWindowingFunc())
    if kind == 'stft':
        return stft(chunksize_bytes=chunk, resample_to=rate, store_fft=store, store_windowed=store and not mixed,
                    store_resampled=store)
    if kind == 'stft padded':
        return stft(chunksize_bytes=chunk, resample_to=rate, store_fft=store, fft_padding_samples=256)
    if kind == 'audio':
        return audio_graph(chunksize_bytes=chunk, resample_to=rate, store_fft=store)
    if kind == 'onsets':
        S = stft(chunksize_bytes=chunk, resample_to=rate, store_fft=True)

        class Sound(S, with_onsets(S.fft)):
            pass
        return Sound
    bands = GeometricScale(100, int(sr) * .45, .2, 24)
    long_rate = z.SampleRate(Milliseconds(500), Milliseconds(1000))
    return frequency_adaptive(long_rate, bands, store_freq_adaptive=store, chunksize_bytes=chunk,
                              resample_to=rate, store_resampled=store)


KINDS = ['resampled', 'windowed', 'stft', 'stft padded', 'audio', 'onsets', 'adaptive']


def features(cls):
    return sorted(k for k, f in cls.features.items() if k != 'raw' and (k != 'pcm' or f.store))


def read(cls, _id, names):
    doc = cls(_id)
    return {k: plain(getattr(doc, k)) for k in names}


def direct(ctx, cls, _id, kind, sr, samples):
    """features against computation that does not go through the graph"""
    doc = cls(_id)
    m = doc.meta
    ctx.eq(m['samplerate'], sr, 'direct:meta')
    if cls.features['pcm'].store:
        ctx.close(np.asarray(doc.pcm), samples, 'direct:pcm', rtol=1e-6, atol=1e-7)
    ctx.expect(isinstance(doc.resampled, AudioSamples) and int(doc.resampled.samplerate) == sr, 'direct:resampled')
    ctx.close(np.asarray(doc.resampled), samples, 'direct:resampled', rtol=1e-5, atol=1e-6)
    ctx.eq(int(doc.ogg.samplerate), sr, 'direct:ogg')
    o = np.asarray(doc.ogg[TimeSlice(start=Seconds(0))])
    ctx.eq(len(o), len(samples), 'direct:ogg')
    src = np.asarray(doc.resampled)
    if hasattr(cls, 'windowed') or hasattr(cls, 'long_windowed'):
        w = doc.windowed if hasattr(cls, 'windowed') else doc.long_windowed
        size = w.shape[1]
        step = int(np.round(ps(w.dimensions[0].frequency) / float(ps(doc.resampled.dimensions[0].frequency))))
        full = 1 + (len(src) - size) // step if len(src) >= size else 0
        ctx.expect(full <= len(w) <= full + 1, 'direct:windowed', len(w), full)
        f = np.hanning(size) if kind == 'windowed' else np.sin(.5 * np.pi * np.sin((np.arange(size) + .5) / size * np.pi) ** 2)
        for i in range(len(w)):
            seg = src[i * step:i * step + size]
            seg = np.concatenate([seg, np.zeros(size - len(seg))])
            if not np.allclose(np.asarray(w[i]), seg * f, rtol=1e-5, atol=1e-6):
                ctx.fail('direct:windowed', 'window', i, 'of', len(w))
        ctx.count('judged:direct:windowed')
    if hasattr(cls, 'fft'):
        pad = 256 if kind == 'stft padded' else 0
        ctx.close(np.asarray(doc.fft), np.fft.rfft(np.asarray(doc.windowed), size + pad, axis=-1, norm='ortho'),
                  'direct:fft', rtol=1e-4, atol=1e-5)
    if kind == 'audio':
        ctx.close(np.asarray(doc.dct), scipy.fft.dct(np.asarray(doc.windowed), norm='ortho', axis=-1),
                  'direct:dct', rtol=1e-4, atol=1e-5)
        band = FrequencyBand(20, RATE_OF[sr]().nyquist)
        for name, make, src_name in [
                ('bark', lambda s: BarkBands(frequency_band=band, needs=s), 'fft'),
                ('chroma', lambda s: Chroma(frequency_band=band, needs=s), 'fft'),
                ('bfcc', lambda s: BFCC(needs=s), 'fft'),
                ('centroid', lambda s: SpectralCentroid(needs=s), 'bark')]:
            out = [o for o in run(make, [getattr(doc, src_name)]) if o is not None]
            got = np.concatenate([np.asarray(o) for o in out])
            ctx.close(np.asarray(getattr(doc, name)), got, 'direct:' + name, rtol=1e-5, atol=1e-7)
    if kind == 'onsets':
        starts = [ps(ts.start) for ts, _ in doc.slices]
        ends = [ps(ts.start) + ps(ts.duration) for ts, _ in doc.slices]
        ctx.expect(all(a <= b for a, b in zip(starts, ends)), 'direct:slices')
        ctx.eq(starts[1:], ends[:-1], 'direct:slices', 'slices do not follow each other')
        if starts:
            ctx.eq(starts[0], 0, 'direct:slices')
        ctx.count('onset slices', len(starts))
    if kind == 'adaptive':
        ctx.expect(isinstance(doc.freq_adaptive, FrequencyAdaptive), 'direct:adaptive')
        ctx.eq(len(doc.freq_adaptive), len(doc.long_fft), 'direct:adaptive')


def close(cls):
    db = cls.database
    if hasattr(db, 'close'):
        db.close()


@CHECK.family(56, 600, cpu=300, need=['route', 'backend', 'direct:resampled', 'ids'])
def backends(ctx):
    """the same files in every backend, read by every route"""
    kind = KINDS[ctx.idx % len(KINDS)]
    sr = ctx.choice([11025, 16000, 22050, 44100])
    chunk = ctx.choice([4096, 65536, 2 ** 21, ChunkSizeBytes(
        samplerate=RATE_OF[sr](), duration=Seconds(1), bit_depth=16, channels=2)])
    least = 1.4 if kind in ('adaptive', 'onsets') else .3
    n_docs = ctx.integer(1, 3)
    files = [file_for(ctx, k, sr, least + ctx.rng.random() * (2 if not ctx.thorough else 6), ctx.choice([1, 2]))
             for k in range(n_docs)]
    store = ctx.coin(.6)
    kinds = ['memory', 'lmdb', 'files']
    ctx.say('%s at %d Hz, %d documents, chunks %s, %s' % (
        kind, sr, n_docs, chunk if isinstance(chunk, int) else 'of a second', 'stored' if store else 'not stored'))
    base, ids, classes = None, {}, {}
    for b in kinds:
        cls = backend(ctx, b, 0, graph_for(ctx, kind, sr, chunk, store))
        classes[b] = cls
        names = features(cls)
        ids[b] = [cls.process(meta=path) for path, _ in files]
        ctx.eq(len(set(ids[b])), n_docs, 'ids')
        ctx.eq(sorted(cls.database), sorted(ids[b]), 'ids')
        ctx.eq(sorted(d._id for d in cls), sorted(ids[b]), 'ids')
        vals = []
        for _id in ids[b]:
            ctx.expect(cls.exists(_id), 'ids')
            v = read(cls, _id, names)
            again = read(cls, _id, list(reversed(names)))
            for k in names:
                same(ctx, again[k], v[k], 'route', b, k)
            ctx.count('recomputed on demand', sum(1 for k in names if not cls.features[k].store))
            vals.append(v)
        if base is None:
            base = vals
            for (_, samples), _id in zip(files, ids[b]):
                direct(ctx, cls, _id, kind, sr, samples)
                ctx.count('documents')
        else:
            for v, w in zip(vals, base):
                for k in names:
                    same(ctx, v[k], w[k], 'backend', b, k)
            ctx.count('backends compared')
    # reopened store, fresh classes
    close(classes['lmdb'])
    for b in ('lmdb', 'files'):
        cls = backend(ctx, b, 0, graph_for(ctx, kind, sr, chunk, store))
        ctx.eq(sorted(cls.database), sorted(ids[b]), 'ids')
        k = ctx.integer(0, n_docs - 1)
        v = read(cls, ids[b][k], names)
        for name in names:
            same(ctx, v[name], base[k][name], 'reopened', b, name)
        ctx.count('reopened')
        close(cls)


@CHECK.family(24, 250, cpu=300, need=['stored-or-not'])
def stored_or_not(ctx):
    """whether a feature is stored makes no difference to its value"""
    kind = KINDS[ctx.idx % len(KINDS)]
    sr = ctx.choice([11025, 22050, 44100])
    path, samples = file_for(ctx, 0, sr, 1.4 + ctx.rng.random() * 2, ctx.choice([1, 2]))
    chunk = ctx.choice([8192, 2 ** 20])
    a = simple_in_memory_settings(graph_for(ctx, kind, sr, chunk, True, mixed=ctx.coin()))
    b = simple_in_memory_settings(graph_for(ctx, kind, sr, chunk, False))
    ctx.say('%s at %d Hz, %d samples' % (kind, sr, len(samples)))
    ia, ib = a.process(meta=path), b.process(meta=path)
    names = features(a)
    va, vb = read(a, ia, names), read(b, ib, names)
    for k in names:
        same(ctx, va[k], vb[k], 'stored-or-not', k)
    # one feature at a time, each from a fresh handle
    for k in names:
        same(ctx, plain(getattr(b(ib), k)), va[k], 'stored-or-not', k)
    ctx.count('recomputed on demand', len(names))


@CHECK.family(21, 200, cpu=300, need=['kept'])
def kept(ctx):
    """the database holds what was asked to be stored, what's stored by default, and nothing else"""
    kind = KINDS[ctx.idx % len(KINDS)]
    sr = ctx.choice([11025, 22050, 44100])
    path, samples = file_for(ctx, 0, sr, 1.4 + ctx.rng.random(), 1)
    wanted = {'meta', 'ogg'}
    how = {}

    def flag(name, feature, default=False):
        k = ctx.choice([None, True, False])
        if k is not None:
            how[name] = k
        if default if k is None else k:
            wanted.add(feature)
    if kind != 'audio':
        flag('store_resampled', 'resampled', kind == 'windowed')
    if kind in ('windowed', 'stft', 'stft padded', 'onsets'):
        flag('store_windowed', 'windowed')
    if kind in ('stft', 'stft padded', 'audio', 'onsets'):
        flag('store_fft', 'fft')
    if kind == 'adaptive':
        flag('store_freq_adaptive', 'freq_adaptive')
    rate = RATE_OF[sr]()
    if kind == 'resampled':
        cls = resampled(resample_to=rate, **how)
    elif kind == 'windowed':
        cls = windowed(HalfLapped(), resample_to=rate, **how)
    elif kind == 'audio':
        cls = audio_graph(resample_to=rate, **how)
        wanted |= {'dct', 'bark', 'centroid', 'chroma', 'bfcc'}
    elif kind == 'adaptive':
        cls = frequency_adaptive(z.SampleRate(Milliseconds(500), Milliseconds(1000)),
                                 GeometricScale(100, int(sr) * .45, .2, 24), resample_to=rate, **how)
    else:
        cls = stft(resample_to=rate, **how)
        if kind == 'onsets':
            class Sound(cls, with_onsets(cls.fft)):
                pass
            cls = Sound
            wanted.add('slices')
    ctx.say(kind, sr, how)
    if kind == 'adaptive' and ctx.coin(.5):
        # bands that hardly touch cannot be put together again, if that's asked for
        for scale, fits in ((GeometricScale(100, int(sr) * .45, .2, 24), False), (GeometricScale(100, int(sr) * .45, 1., 24), True)):
            strict = simple_in_memory_settings(frequency_adaptive(
                z.SampleRate(Milliseconds(500), Milliseconds(1000)), scale, resample_to=rate, check_scale_overlap_ratio=True))
            if fits:
                strict.process(meta=path)
            else:
                ctx.raises(lambda: strict.process(meta=path), 'overlap', types=(ValueError,))
    cls = simple_in_memory_settings(cls)
    _id = cls.process(meta=path)
    held = {key.split(':')[1] for key in cls.database._dict}
    ctx.expect(held == {cls.features[k].key for k in wanted}, 'kept', kind, how, 'stored', sorted(held), 'instead of', sorted(wanted))
    ctx.expect(list(cls.database.iter_ids()) == [_id], 'kept', 'ids')


@CHECK.family(24, 250, cpu=300, need=['chunks:resampled'])
def chunk_sizes(ctx):
    """how much is read at a time makes no difference"""
    kind = ctx.choice(['stft', 'audio', 'windowed'])
    sr = ctx.choice([11025, 22050, 44100])
    path, samples = file_for(ctx, 0, sr, .5 + ctx.rng.random() * 3, ctx.choice([1, 2]))
    sizes = [ctx.choice([2048, 5000, 30011]), 2 ** 24]
    vals = []
    for c in sizes:
        cls = simple_in_memory_settings(graph_for(ctx, kind, sr, c, True))
        _id = cls.process(meta=path)
        vals.append(read(cls, _id, [k for k in features(cls) if k != 'ogg']))
    ctx.say('%s at %d Hz, %d samples, chunks of %d' % (kind, sr, len(samples), sizes[0]))
    for k in vals[0]:
        if isinstance(vals[0][k][1], np.ndarray):
            a, b = vals[0][k], vals[1][k]
            ctx.close(a[1], b[1], 'chunks:' + k, rtol=1e-4, atol=1e-5)
            ctx.expect(a[2] == b[2], 'chunks:' + k, 'units')


@CHECK.family(20, 200, cpu=300, need=['overwrite:value', 'overwrite:others'])
def overwriting(ctx):
    """documents under ids of the user's choice replace, and leave the others alone"""
    kind = ctx.choice(['resampled', 'stft', 'windowed'])
    sr = ctx.choice([11025, 22050])
    cls = backend(ctx, 'lmdb', 0, graph_for(ctx, kind, sr, 65536, True), user_id=True)
    names = [k for k in features(cls)]
    pool = ['a', 'b', 'song one', 'x' * 40, 'http://example.com/a.ogg', 'a:resampled', 'a-b']
    state, files = {}, 0
    ctx.say('%s at %d Hz' % (kind, sr))
    for _ in range(ctx.integer(3, 7)):
        _id = ctx.choice(pool)
        path, samples = file_for(ctx, files, sr, .3 + ctx.rng.random(), ctx.choice([1, 2]))
        files += 1
        if _id in state and ctx.coin(.3):
            ctx.raises(lambda: cls.process(meta=path, _id=_id, raise_if_exists=True), 'overwrite:refused')
        else:
            got = cls.process(meta=path, _id=_id)
            ctx.eq(got, _id, 'overwrite:id')
            ctx.count('overwritten', int(_id in state))
            ctx.close(np.asarray(cls(_id).resampled), samples, 'overwrite:value', rtol=1e-5, atol=1e-6)
            state[_id] = read(cls, _id, names)
        if ctx.coin(.3):
            close(cls)
            cls = backend(ctx, 'lmdb', 0, graph_for(ctx, kind, sr, 65536, True), user_id=True)
        ctx.eq(sorted(cls.database), sorted(state), 'overwrite:ids')
        ctx.eq(sorted(d._id for d in cls), sorted(state), 'overwrite:ids')
        for k, v in state.items():
            w = read(cls, k, names)
            for name in names:
                same(ctx, w[name], v[name], 'overwrite:others', k, name)
    close(cls)


@CHECK.family(7, 35, cpu=300, need=['source:again'])
def again(ctx):
    """features for which the audio has to be read once more, from where the metadata says it is"""
    kind = KINDS[ctx.idx % len(KINDS)]
    sr = 22050
    path, samples = file_for(ctx, 0, sr, 1.6, ctx.choice([1, 2]))
    cls = simple_in_memory_settings(library_graph(ctx, kind, sr, 65536, False))
    doc = cls(cls.process(meta=path))
    ctx.say('%s at %d Hz, %d samples' % (kind, sr, len(samples)))
    try:
        got = doc.pcm
    except AttributeError as e:
        ctx.expect('seek' in str(e), 'source:error', repr(e))
        ctx.finding('source:again', 'doc.pcm, not stored:', repr(e))
        return
    ctx.expect(True, 'source:again')
    ctx.close(np.asarray(got), samples, 'source:value', rtol=1e-6, atol=1e-7)
