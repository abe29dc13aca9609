"""Single source of the property list: id, title, statement, quantifier, why, anchors."""

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None,
         state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files,
             mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a['hook_needed'] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=a))


prop('C01', 'Unit-aware indexing reads and writes exactly the overlapped elements',
     'Indexing an array whose axes carry time, frequency or no units - with any mix of integers, integer slices '
     '(steps and negative bounds included), integer lists, an ellipsis, a new axis, boolean masks, time slices and '
     'frequency bands - returns exactly the elements plain numpy returns for the equivalent integer index. '
     'The equivalent of a time slice is the run of samples it overlaps, of a frequency band the run of bands it overlaps, '
     'and assigning through an index changes the elements the same read returns and no others.',
     ['inputs'], 'all array shapes up to 4 axes, all axis kinds, all index expressions built from the supported parts, read and write',
     'Tests try a few dozen index expressions one at a time; the index grammar is combinatorial and position bookkeeping '
     '(ellipsis, new axes, integers) only goes wrong in mixtures.',
     ['zounds/core/axis.py', 'zounds/core/dimensions.py', 'zounds/timeseries/timeseries.py', 'zounds/spectral/frequencyscale.py'],
     [('index translation', 'ArrayWithUnits._compute_indices'), ('read/assign', 'ArrayWithUnits.__getitem__/__setitem__')],
     ['return value and array contents around __getitem__/__setitem__'])

prop('C02', 'Axis metadata stays truthful through every array operation',
     'After any slicing, reduction, transposition, reshape, squeeze, concatenation, sliding window or elementwise operation '
     'that returns an array with units, that array has one dimension per axis and every dimension still describes its own axis: '
     'untouched axes keep their dimension, a windowed time axis gains the stride and window duration of the windows, '
     'a band-sliced frequency axis gets exactly the selected bands, and size/span follow the actual length. '
     'Axes that no longer have a meaning become unit-less, and no operation changes the metadata or data of its input.',
     ['inputs', 'histories'], 'all shapes, axis kinds and chains of operations',
     'Tests check single operations on one or two shapes; labels drift only in chains and unusual axis orders.',
     ['zounds/core/axis.py', 'zounds/timeseries/timeseries.py', 'zounds/spectral/frequencyscale.py'],
     [('metadata propagation', 'ArrayWithUnits._new_dims/_apply_reduction_to_dimensions/_compute_new_dims'),
      ('dimension slices', 'TimeDimension.metaslice/modified_dimension, FrequencyDimension.metaslice')],
     ['.dimensions of results and of inputs after the call'])

prop('C03', 'Time slices form a consistent algebra and select precisely what they overlap',
     'Time slices order by start time, compare and hash equal exactly when they denote the same start and duration whatever '
     'duration unit is used, shift by any duration, and their overlap is symmetric, never negative and equal to the true intersection length. '
     'A time slice applied to a constant-rate axis selects every sample it overlaps and none that it does not (to one percent of a sample), '
     'open-ended and negative bounds count from the end, and iterating a constant-rate series yields one slice per element placed at that '
     'element\'s true start and duration.',
     ['inputs'], 'all starts, durations, duration units, sample rates with and without overlap',
     'Picosecond truncation, unit mixtures and overlapping windows give edge cases no fixed example covers.',
     ['zounds/timeseries/timeseries.py', 'zounds/timeseries/duration.py', 'zounds/timeseries/constantrate.py'],
     [('slice algebra', 'TimeSlice'), ('slice to samples', 'TimeDimension.integer_based_slice'),
      ('iteration', 'ConstantRateTimeSeries.iter_slices')])

prop('C04', 'Sample-rate arithmetic is exact and self-consistent',
     'Windowing a sample rate by (step, size) samples gives frequency = step samples and duration = size samples plus the existing overlap, '
     'and asking any such rate how many discrete samples it spans of a series returns the original step and size. '
     'Overlap, overlap ratio, Nyquist and samples-per-second follow from frequency and duration, resampling by a ratio scales both, '
     'every supported audio rate is found by its integer samples-per-second and every other value is rejected, and nearest lookup returns a closest rate.',
     ['inputs'], 'all supported audio rates, all step/size pairs, all resampling ratios',
     'Integer picoseconds truncate (44100 Hz is not a whole number of picoseconds); tests sample a handful of rate/window pairs.',
     ['zounds/timeseries/samplerate.py', 'zounds/timeseries/timeseries.py'],
     [('rate arithmetic', 'SampleRate/AudioSampleRate'), ('lookup', 'audio_sample_rate, nearest_audio_sample_rate')])

prop('C05', 'Variable-rate series stay sorted, query by overlap and lose nothing',
     'A variable-rate time series built from slices in any order presents them sorted by start with each slice still paired with its own data; '
     'slicing by time returns exactly the entries overlapping the query, in order; concatenation is the sorted union; '
     'span, end and length follow from the entries. Encoding and decoding a series, including through a stored feature, reproduces '
     'every start and duration to the picosecond and every data value, shape and type.',
     ['inputs', 'histories'], 'all sets of slices (overlapping, duplicate starts, zero-length queries, empty), all payload shapes',
     'Tests use hand-made disjoint slices; overlap and tie behaviour and empty results are not sampled.',
     ['zounds/timeseries/variablerate.py'],
     [('sorting', 'VariableRateTimeSeries.__init__'), ('overlap query', 'VariableRateTimeSeries.__getitem__'),
      ('codec', 'VariableRateTimeSeriesEncoder/Decoder')])

prop('C06', 'Audio samples keep their signal, rate and channels through every operation',
     'Encoding audio samples to a lossless container and decoding them back preserves sample count, channel count and sampling rate, and every sample '
     'to the precision of the subtype; stereo duplicates a mono signal, mono is a fixed scale of the channel sum, silence has the requested length, '
     'padding appends exactly the requested silence after unchanged samples, and windowing an audio signal returns its consecutive overlapping slices. '
     'Construction rejects non-audio rates and more than two axes, and mixing different sampling rates is an error.',
     ['inputs'], 'all supported rates, mono and stereo, all lengths including shorter than a window, container formats and subtypes',
     'Tests use one second of one or two rates; no test encodes then compares samples across subtypes, channels and lengths.',
     ['zounds/timeseries/audiosamples.py', 'zounds/persistence/audiosamples.py'],
     [('codec', 'AudioSamples.encode/from_file'), ('channel operations', 'AudioSamples.mono/stereo/pad_with_silence')])

prop('C07', 'Frequency scales are ordered band sequences that answer band queries exactly',
     'Every scale (linear, geometric, bark, mel, chroma-like, explicit) has exactly the requested number of bands, with strictly increasing centre '
     'frequencies inside the requested range, and band edges, centres, bandwidths and quality factors that agree with each other. '
     'Looking up a frequency band returns exactly the contiguous run of bands that overlap it, indexing or slicing a scale gives the corresponding bands, '
     'forcing even counts yields an even count, enforcing an overlap ratio makes each pair of consecutive bands overlap by at least that ratio, '
     'and scales compare equal exactly when their bands are the same.',
     ['inputs'], 'all scale types, ranges, band counts and query bands, including outside or touching the range',
     'Tests check a few scales and queries; off-by-one at band edges depends on float coincidence and on the query straddling range ends.',
     ['zounds/spectral/frequencyscale.py'],
     [('bands', 'FrequencyScale._compute_bands'), ('query', 'FrequencyScale.get_slice'), ('overlap', 'FrequencyScale.ensure_overlap_ratio')])

prop('C08', 'Frequency-axis and frequency-adaptive slicing selects the right bands',
     'Slicing an array by a frequency band along a regular or explicit frequency axis returns the columns of the bands that overlap it, labelled by those bands, '
     'and slicing again composes. A frequency-adaptive array keeps one block per band: it returns exactly the original block for each band, slices by time and by band '
     'to exactly the overlapping rows and blocks, converts to a square array without mixing bands, and survives concatenation and reconstruction from its parts.',
     ['inputs'], 'all scales, block widths, time spans and query bands',
     'Tests cover one geometric scale and full-range slices only.',
     ['zounds/spectral/frequencyscale.py', 'zounds/spectral/frequencyadaptive.py'],
     [('explicit axis', 'ExplicitFrequencyDimension'), ('blocks', 'FrequencyAdaptive')])

prop('C09', 'Perceptual weightings scale each band by its own weight and are reversible',
     'Applying a frequency weighting to any array that has a frequency axis multiplies each band, wherever that axis is, by the weight of that band\'s centre frequency; '
     'dividing by the weighting restores the original and multiplying and dividing agree whether the weighting is on the left or the right. '
     'The A-weighting curve matches its standard definition (0 dB near 1 kHz, strictly less at the extremes), and arrays without a frequency axis are refused.',
     ['inputs'], 'all scales, array shapes and axis positions',
     'Tests only check that results differ from the input or do not raise.',
     ['zounds/spectral/weighting.py', 'zounds/spectral/frequencyscale.py'],
     [('weights', 'FrequencyWeighting/AWeighting')])

prop('C10', 'Streaming windowing gives the same windows for every chunking of the input',
     'Splitting a signal into overlapping windows yields, for any way of cutting the signal into chunks, the same sequence of windows in order: '
     'every full window once, each containing the right samples multiplied by the window function, with nothing lost or repeated at chunk boundaries '
     'and the tail zero-padded only when padding is on. The result is labelled with the windowing rate, and overlap-adding windows with the '
     'overlap-adding node reconstructs the signal where the windowing function sums to one.',
     ['inputs', 'schedules'], 'all signal lengths, window/step pairs, chunk boundaries, padding on or off',
     'Tests feed one or two chunkings; leftovers between chunks matter only when boundaries fall inside a window.',
     ['zounds/spectral/sliding_window.py', 'zounds/nputil/npx.py', 'zounds/core/axis.py'],
     [('leftovers', 'SlidingWindow._process, ArrayWithUnits.sliding_window_with_leftovers'), ('window functions', 'WindowingFunc')])

prop('C11', 'Analysis followed by synthesis reproduces the signal',
     'For every supported transform (FFT, DCT, DCT-IV, MDCT), windowed analysis followed by the matching synthesizer reproduces the original audio samples, '
     'away from the first and last partial window, with the right sample count and rate; the underlying forward/inverse transform pairs are exact inverses '
     'and agree with an independent reference implementation.',
     ['inputs'], 'all signals, lengths, sampling rates and windowing schemes supporting perfect reconstruction',
     'Tests check shapes or listenability on one signal, rarely the samples themselves.',
     ['zounds/synthesize/synthesize.py', 'zounds/spectral/spectral.py', 'zounds/spectral/functional.py'],
     [('synthesis', 'FFTSynthesizer/DCTSynthesizer/DCTIVSynthesizer/MDCTSynthesizer'), ('analysis', 'FFT/DCT/DCTIV/MDCT')])

prop('C12', 'Spectral operations compute what their definition says for every signal',
     'The Fourier transform of any time axis, zero padded or not, equals its DFT and the short-time transform that of each windowed frame; time-stretching by a factor scales duration by its inverse while keeping pitch, pitch-shifting keeps '
     'duration while scaling pitch, phase-shifting is a unitary rotation that leaves magnitudes unchanged; band decompositions split a signal into bands that are linear in the signal, '
     'carry only their own frequencies and sum back to it; filter banks contain one filter per scale band peaking in that band; and auto-correlograms equal per-channel autocorrelation.',
     ['inputs'], 'all signals, batch sizes, lengths, rates, scales and factors',
     'Tests assert shapes on random or sinusoidal input; numeric content is barely constrained.',
     ['zounds/spectral/functional.py', 'zounds/spectral/tfrepresentation.py'],
     [('transforms', 'fft, stft, phase_shift, time_stretch, pitch_shift, frequency_decomposition, fir_filter_bank, morlet_filter_bank')])

prop('C13', 'Spectral features match their definition, frame by frame and chunk by chunk',
     'Chroma, bark bands, spectral centroid, spectral flatness, BFCC, onset and transience features computed on any spectrogram equal their mathematical definition for each frame, '
     'keep the time axis of the input, and do not depend on how frames are grouped into chunks; scaling the input by a positive constant leaves scale-free features unchanged '
     'and silent frames produce finite values.',
     ['inputs', 'schedules'], 'all spectrograms (silent and single-bin frames included), scales and chunk sizes',
     'Tests check shapes of the result for one signal, never values, chunk-invariance or silence.',
     ['zounds/spectral/spectral.py', 'zounds/spectral/tfrepresentation.py', 'zounds/segment/onset.py'],
     [('features', 'Chroma, BarkBands, SpectralCentroid, SpectralFlatness, BFCC')])

prop('C14', 'Stored arrays come back identical, values and axes, for every chunking',
     'Encoding any array with units - audio samples, time-frequency arrays on every scale type, explicit frequency axes, frequency-adaptive arrays, bit-packed arrays - '
     'and decoding it returns the same values, dtype, shape and axes, independent of how it was split into chunks along the first axis while encoding. '
     'Time values, slices and scales survive their own encoding exactly, and axes that cannot be encoded are refused rather than silently altered.',
     ['inputs', 'schedules'], 'all dtypes, shapes (zero length included), dimension combinations and chunkings',
     'Tests roundtrip one or two arrays and compare dimensions or shape, not values across chunkings.',
     ['zounds/persistence/arraywithunits.py', 'zounds/persistence/dimension.py', 'zounds/persistence/frequencydimension.py',
      'zounds/persistence/timedimension.py', 'zounds/persistence/timeslice.py', 'zounds/persistence/frequencyadaptive.py', 'zounds/persistence/audiosamples.py'],
     [('array codec', 'ArrayWithUnitsEncoder/Decoder'), ('axis codec', 'DimensionEncoder/Decoder')])

prop('C15', 'Documents processed into a store read back the same, in any backend',
     'Processing audio through a feature graph and reading any feature back - immediately, from a fresh handle, after reopening the store, or recomputed on demand because it is not stored - '
     'gives the same arrays, and the same result for in-memory, file-system and LMDB backends; stored features equal direct computation of the same transform. '
     'Documents do not affect each other, every processed id is listed exactly once, and removing or overwriting one leaves the others unchanged.',
     ['inputs', 'histories', 'configurations'], 'all graphs built by the library helpers, audio lengths, backends, and sequences of process/read/reopen',
     'Tests process one document in memory; equality of stored, recomputed and cross-backend values is not checked.',
     ['zounds/basic/audiograph.py', 'zounds/util/persistence.py', 'zounds/persistence/arraywithunits.py', 'zounds/segment/onset.py'],
     [('settings', 'simple_in_memory_settings, simple_lmdb_settings, simple_object_storage_settings'), ('graphs', 'audio_graph, stft, windowed, frequency_adaptive, with_onsets')])

prop('C16', 'The hash database returns the true nearest codes and survives reopening',
     'For any sequence of appends, sorted or unsorted searches, sizes, metadata writes, and close/reopen, the hash database behaves like a plain list of (code, value) pairs: '
     'its size counts every acknowledged append, every search returns exactly the requested number of stored values (all of them if fewer are stored), whose codes have the smallest Hamming distances '
     'to the query, nearest first when sorting. Codes of the wrong length are rejected without effect, values come back byte-for-byte, and a reopened database answers the same as before.',
     ['inputs', 'histories'], 'all code sizes, code multisets (duplicates included), result counts and operation histories with reopen',
     'Tests use a handful of random codes and check only the top hit; boundary counts and reopen-after-many-appends are not exercised.',
     ['zounds/index/hammingdb.py'],
     [('search', 'HammingDb.search/_np_search'), ('durability', 'HammingDb.append/_init_new/_init_existing')],
     ['client boundary of append/search/len/get_metadata/set_metadata'],
     [('in-memory code table', 'mirror of the codes stored in LMDB', 'HammingDb._codes/_ids'), ('LMDB environment', 'durable code->data map', 'HammingDb.env')])

prop('C17', 'The hash database is safe under concurrency, other writers and crashes',
     'When threads append and search one database at once, or several handles and processes share its directory, every search returns only values whose append was invoked before the search returned, '
     'never misses a nearer code whose append finished and was visible before it began, and never returns a value under another code\'s distance. '
     'A process killed at any point leaves a database that reopens, contains every acknowledged append exactly once, and nothing that was never appended.',
     ['schedules', 'crash_points', 'histories'], 'all interleavings of appends, searches and synchronisation; all kill points',
     'Tests have one multithreaded search and one external modification, at a single timing.',
     ['zounds/index/hammingdb.py'],
     [('append critical section', 'HammingDb.append/_add_code'), ('catch-up with other writers', 'HammingDb._check_for_external_modifications')],
     ['call/return events at the client boundary, SIGKILL and reopen'])

prop('C18', 'A document index finds the nearest segments of every indexed document',
     'A Hamming index over documents returns, for any query code, segments of the indexed documents ranked by true Hamming distance of their stored hash, each identified by document id, the right time slice and its extra data; '
     'every segment of every added document is findable, adding twice or listening for new documents indexes each document, and query encoding/decoding roundtrips. '
     'Brute-force search likewise returns the exact nearest items by the metric.',
     ['inputs', 'histories'], 'all document sets, hash widths, metrics, add/listen orders and result counts',
     'Tests use one or two documents and only check that the query finds itself.',
     ['zounds/index/index.py', 'zounds/index/brute_force.py'],
     [('indexing', 'HammingIndex.add/_add_id/_listen'), ('result parsing', 'HammingIndex._parse_result'), ('brute force', 'BruteForceSearch')])

prop('C19', 'Array helpers window, pad, grow and normalise without losing or inventing data',
     'Sliding windows of any size and step over any array contain exactly the elements at those offsets, the remainder not covered by full windows is returned as leftovers, and padding adds only zeros; '
     'growing arrays hold exactly what was appended in order through any number of growth steps; joining, flattening, padding and normalising helpers keep order and values, '
     'unit-normalised vectors have norm one and zero vectors stay zero.',
     ['inputs', 'histories'], 'all shapes, dtypes, memory layouts, window/step pairs, append sequences',
     'Tests check small one-dimensional cases; leftovers and multi-dimensional strides have many boundary cases.',
     ['zounds/nputil/npx.py'],
     [('windows', 'windowed, sliding_window'), ('growth', 'Growable')])

prop('C20', 'Bit counting and packed Hamming distance are exact and memory-safe',
     'For every array of unsigned words, population counts and packed Hamming distances equal the number of set (differing) bits, for every shape, width, byte pattern and memory layout accepted, and they agree with '
     'unpacking the bits; the query and the table are never modified. '
     'No call reads or writes outside the arrays it was given or relies on undefined behaviour.',
     ['inputs'], 'all uint8/uint64 contents, sizes from zero upward, contiguous and strided layouts',
     'Native code; tests touch one or two shapes and a memory error need not change a result.',
     ['zounds/nputil/countbits.pyx', 'zounds/nputil/npx.py'],
     [('native loops', 'countbits.pyx'), ('wrappers', 'packed_hamming_distance, count_bits, hamming_distance')],
     ['results, and AddressSanitizer/UBSan reports of an instrumented build'])

prop('C21', 'Streaming audio decoding delivers every sample once, in order',
     'Decoding an encoded audio stream that arrives in chunks of any size yields exactly the samples a one-shot decode of the same bytes yields, once each and in order, '
     'at the right rate and channel count, whatever the requested chunk duration; mono conversion is applied per sample. '
     'The byte buffer behind it behaves like one contiguous file over the bytes written: reads return exactly the unread bytes in order and never lose, repeat or corrupt any.',
     ['inputs', 'schedules'], 'all formats libsndfile reads, byte chunkings, sample chunk sizes, read/write/seek sequences',
     'Tests feed well-aligned chunks of one file; buffer compaction and end-of-stream handling depend on how reads and writes interleave.',
     ['zounds/soundfile/audiostream.py', 'zounds/soundfile/chunksize.py', 'zounds/soundfile/byte_depth.py'],
     [('buffer', 'MemoryBuffer'), ('decode loop', 'AudioStream._process')])

prop('C22', 'Compressed audio stays addressable by time',
     'Encoding a stream of audio chunks to Ogg Vorbis and reading it back gives the same duration, rate and channels for any chunking, and a signal close to the original. '
     'Reading a time range of the stored audio returns exactly the samples that a full decode contains at those positions, ranges beyond the end are clipped, '
     'and iterating chunks concatenates to the full decode.',
     ['inputs', 'schedules'], 'all lengths, chunkings, rates, channel counts and time ranges',
     'Tests check sizes for one stereo file; sample-accurate equality of arbitrary ranges is not tested.',
     ['zounds/soundfile/ogg_vorbis.py'],
     [('encode', 'OggVorbis._process'), ('ranges', 'OggVorbisWrapper.__getitem__/iter_chunks')])

prop('C23', 'Resampling is the same for any chunking, keeps duration and stays in bounds',
     'Resampling audio between any two supported rates keeps duration (to within the converter\'s latency), channel count and channel order, labels the result with the new rate, passes the signal through unchanged when rates are equal, '
     'and preserves tones below both Nyquist frequencies. '
     'Feeding the same signal in differently sized chunks gives the same output, and no native buffer is read or written out of bounds.',
     ['inputs', 'schedules'], 'all rate pairs, mono/stereo, chunkings, memory layouts',
     'Tests check lengths of one or two conversions of one chunking.',
     ['zounds/soundfile/resample.py'],
     [('native converter', 'Resample'), ('node', 'Resampler')])

prop('C24', 'Audio file metadata and size arithmetic describe the actual data',
     'Metadata extracted from a sound file, byte stream or web resource reports the real sampling rate, channel count, sample count and licence information supplied, and survives its JSON roundtrip; '
     'chunk sizes computed from a duration give the bytes or samples of at least that duration for the rate, channels and bit depth, and bit depths are looked up per audio format.',
     ['inputs'], 'all formats, rates, channels, durations',
     'Tests use mocks of one file or one HTTP response.',
     ['zounds/soundfile/audio_metadata.py', 'zounds/soundfile/chunksize.py', 'zounds/soundfile/byte_depth.py'],
     [('metadata', 'MetaData/AudioMetaData'), ('chunk size', 'ChunkSizeBytes, chunk_size_samples')])

prop('C25', 'Amplitude codings are monotone, bounded and exactly undone by their inverses',
     'Log-modulus and mu-law companding are odd, monotone, sign-preserving and undone by their inverses for every finite input; instance, unit and decibel scalings map into their stated range; '
     'quantising samples to categories gives exactly one active category per sample, monotone in amplitude, and its inverse returns a signal within a quantisation step; '
     'constant and silent inputs give finite results.',
     ['inputs'], 'all finite real inputs, shapes, silent and constant arrays, mu values',
     'Tests try random uniform noise; silence, constants, negatives and extreme magnitudes are where divisions and logs break.',
     ['zounds/loudness/loudness.py', 'zounds/timeseries/functional.py', 'zounds/nputil/npx.py'],
     [('companding', 'log_modulus, mu_law and inverses'), ('scaling', 'instance_scale, unit_scale, decibel'), ('categories', 'categorical, inverse_categorical')])

prop('C26', 'Preprocessing pipelines apply their steps in order and invert exactly',
     'A trained preprocessing pipeline applied to any data equals applying each of its steps in order with the parameters learned from the training data, and applying the inverse restores the input of every invertible step, '
     'including when the pipeline is sliced, is applied to data of another batch size than it was trained on, or is inverted more than once in any order. '
     'Constant, silent and single-example data give finite results, and the caller\'s input is not modified.',
     ['inputs', 'histories'], 'all step combinations and orders, shapes, training and application batches',
     'Tests run each step alone with one batch; inverse data captured per call interacts between uses.',
     ['zounds/learn/preprocess.py', 'zounds/learn/sklearn_preprocessor.py'],
     [('forward/backward operations', 'Op, Preprocessor, PreprocessResult'), ('pipelines', 'PreprocessingPipeline, Pipeline')])

prop('C27', 'Trained models and pipelines survive persistence with the same behaviour',
     'A trained pipeline, neural network or clustering model, stored and loaded back - pickled, encoded as a feature, or in a fresh process - transforms every input exactly as the original did and inverts the same way. '
     'Its version identifier is the same for identical code and parameters and changes when they change, and loading does not depend on the modules or objects of the process that trained it.',
     ['inputs', 'configurations', 'histories'], 'all step types and parameters, stores, fresh processes',
     'Tests load in the same process and compare shapes or a single batch.',
     ['zounds/learn/preprocess.py', 'zounds/learn/pytorch_model.py', 'zounds/learn/learn.py', 'zounds/learn/sklearn_preprocessor.py'],
     [('marshalled functions', 'Op.__getstate__/__setstate__'), ('network state', 'PyTorchPreprocessResult')])

prop('C28', 'Binary and cluster codes are a function of the example alone',
     'Sim-hash codes equal the signs of the projections of the example on the learned hyperplanes, cluster codes are one-hot at the nearest centroid, and one-hot/categorical learned codes have exactly one active unit; '
     'encoding examples together, one at a time or in another order gives the same code for each example, and similar vectors never get farther codes than the hyperplanes separating them.',
     ['inputs'], 'all batches, shapes and code sizes',
     'Tests check shape and density for one random batch.',
     ['zounds/learn/preprocess.py', 'zounds/learn/sklearn_preprocessor.py', 'zounds/learn/learn.py'],
     [('hashing', 'SimHash'), ('clusters', 'KMeans/SklearnModel'), ('one-hot', 'one_hot/categorical')])

prop('C29', 'Sample reservoirs hold only real samples, aligned, within capacity',
     'A sample reservoir never holds more than its capacity and contains only samples that were added, intact and of their type, newly added samples replacing at most as many old ones; every slot is as likely as any other, '
     'batches are drawn evenly from what is held, and batches larger than that, or samples and indices of different numbers, are refused without effect. '
     'A multiplexed reservoir keeps the rows of all its keys aligned to the same original sample, refused additions included. '
     'ReservoirSampler keeps every sample of a stream that fits, in random order, and otherwise as many as fit, each with the same chance however the stream is cut into chunks; ShuffledSamples and InfiniteSampler, '
     'whose threads fill one reservoir in parallel, hand out only samples they were given.',
     ['inputs', 'schedules', 'histories'], 'all add/get sequences, sizes, dtypes, thread interleavings',
     'Tests add one or two batches in one thread and check lengths.',
     ['zounds/learn/random_samples.py'],
     [('reservoirs', 'Reservoir, MultiplexedReservoir'), ('nodes', 'ReservoirSampler, ShuffledSamples, InfiniteSampler')])

prop('C30', 'Training touches only what it should and sees every batch it is given',
     'Training runs the configured number of epochs, checkpoint by checkpoint; supervised training passes every example that is not held out once an epoch, with its own label, through the network in training mode, and held out examples only influence the reported test error; '
     'adversarial training makes the given number of critic steps on minibatches of the data, newly generated samples and the gradient penalty of points in between for every step of the generator; triplets are made of anchors, their own deformations and other examples. '
     'Every step moves only the network being trained, by exactly what the optimizer makes of the gradient of that minibatch alone, frozen parameters and the data stay untouched, and callbacks, which may come and go while training runs, get the scores of the batch just done. '
     'The result is the trained network itself, in evaluation behaviour, usable on any batch size; the last checkpoint of endless training can be loaded. '
     'Applying a network in chunks gives the same answer as applying it to the whole batch, whatever the chunk size.',
     ['inputs', 'configurations'], 'all dataset sizes, batch sizes, epoch counts, chunk sizes, trainer types',
     'Tests run one or two epochs and check that a result exists.',
     ['zounds/learn/trainer.py', 'zounds/learn/supervised.py', 'zounds/learn/wgan.py', 'zounds/learn/embedding.py', 'zounds/learn/util.py', 'zounds/learn/pytorch_model.py'],
     [('training loops', 'SupervisedTrainer, WassersteinGanTrainer, TripletEmbeddingTrainer'), ('chunked application', 'apply_network')])

prop('C31', 'Neural spectral layers compute the transform they stand for',
     'The differentiable cosine transform is the orthonormal cosine transform along any axis: linear, invertible and energy-preserving; its resampling and frequency decomposition keep or drop coefficients of the signal and its short-time frames are in order and use the window given. '
     'A filter bank layer is the correlation of the signal with its filters, and its transposed convolution is the adjoint, returning to the signal domain with the original length. Sinc layers pass their own scale\'s bands at unit gain and reject other frequencies. '
     'Convolution, gated and multi-resolution layers equal their parts applied in turn, with gates bounded by 1; unit-norm, mean-std and per-sample norms have the statistics they are named after. '
     'The perceptual loss is lowest (-1, or 0 for the basis loss) and the band loss zero for equal signals; critic losses and the gradient penalty are those of the Wasserstein objective for each sample, and the categorical loss of categorical inputs is cross entropy.',
     ['inputs'], 'all batch sizes, lengths, factors, axes, filter counts',
     'Tests assert output shapes only.',
     ['zounds/learn/dct_transform.py', 'zounds/learn/spectral.py', 'zounds/learn/sinclayer.py', 'zounds/learn/loss.py', 'zounds/learn/util.py', 'zounds/learn/functional.py'],
     [('layers', 'DctTransform, FilterBank, SincLayer'), ('losses', 'PerceptualLoss, BandLoss, critic losses')])

prop('C32', 'Byte and time ranges served are exactly the bytes and seconds asked for',
     'A stored or computed feature requested over HTTP without a range is served whole (status 200, no content-range). A request for bytes=a-b or seconds=a-b (bounds are half open, the end may be missing or lie beyond the end of the resource) '
     'is answered with status 206, exactly the part of the feature within these bounds, and a content-range naming that part and the total; consecutive ranges make up the whole. A range containing nothing is refused, '
     'and headers that are malformed or in units the feature has none of give the whole resource or an error, never other data. Range headers parse to the bounds they print, and every serializer\'s payload decodes to what it was given: '
     'audio to the same samples (but for the codec), arrays to pictures whose cells have the colours of their values, time slices and search results to their bounds, links to the documents\' features and the query.',
     ['inputs'], 'all range headers, resource sizes, feature types and serializers',
     'Tests check one or two ranges of each kind with mid-file bounds.',
     ['zounds/ui/contentrange.py', 'zounds/ui/serializer.py', 'zounds/ui/baseapp.py'],
     [('range parsing', 'RangeRequest/ContentRange'), ('serializers', 'zounds/ui/serializer.py')])

prop('C33', 'The web apps expose exactly the documents, and gate what they must',
     'A web app serves every stored document\'s features under its routes and nothing else. When it is started with a secret, pages, features, results and statements are refused (without side effects) to requests that lack the cookie its login hands out '
     'for that secret, and served to those with it. Statements are evaluated as an interpreter would: their value or what they print is answered, variables keep their values, errors are reported, and features named by a statement can be fetched as results. '
     'Search routes return the index\'s own results along with a query that can be repeated; unknown documents and features, wrong methods and broken requests produce errors rather than other data and do not affect later requests. '
     'Clients monitoring a training loop receive its batches in order, at the frequency asked for, and never disturb it by coming or going; apps can be started and stopped one after another on one port.',
     ['inputs', 'histories'], 'all request sequences, with and without secret, valid and malformed',
     'Tests start the server and fetch a page or two.',
     ['zounds/ui/baseapp.py', 'zounds/ui/api.py', 'zounds/ui/search.py', 'zounds/ui/featureparser.py', 'zounds/ui/training_monitor.py'],
     [('routes', 'BaseZoundsApp, ZoundsApp'), ('secret', 'BaseZoundsApp secret handling'), ('features', 'FeatureParser')])

prop('C34', 'Dataset ingestion processes every item exactly once',
     'Ingesting a dataset processes every one of its (distinct) items exactly once before it returns, serially or with any number of threads or processes (never more than asked for), storing each item\'s own contents and metadata under its url or path; '
     'items already stored are left as they are unless asked to be reprocessed; a failing item (an error while it is fetched or processed, an unusable item) does not prevent the others from being stored. '
     'Composite datasets enumerate exactly the items of their parts in order, directories exactly their files, searches as many results as asked for across pages and no more, sites\' listings exactly their files with addresses that lead to them. '
     'Cached and downloaded datasets fetch each file once, however often they are iterated, and a download that fails or breaks off is reported and repeated, never taken for the file.',
     ['inputs', 'schedules', 'fault_sequences'], 'all dataset sizes, worker counts, pre-existing subsets, failing items, download failures',
     'Tests iterate a composite of two datasets; ingest and the downloads are not tested at all.',
     ['zounds/datasets/ingest.py', 'zounds/datasets/composite.py', 'zounds/datasets/cache.py', 'zounds/datasets/filesystem.py', 'zounds/datasets/predownload.py', 'zounds/datasets/freesound.py', 'zounds/datasets/util.py'],
     [('ingest', 'zounds/datasets/ingest.py'), ('dataset wrappers', 'CompositeDataset, DataSetCache, PreDownload, Directory'), ('downloads', 'zounds/datasets/util.py'), ('sites', 'FreeSoundSearch, InternetArchive, PhatDrumLoops, NSynth, MusicNet')])

prop('C35', 'Segmentation partitions the timeline and does not depend on chunking',
     'Onset and peak pickers turn any onset-strength curve into time slices that are consecutive, non-overlapping and cover the curve from its beginning to its end, each starting at a detected frame; '
     'a frame is a peak exactly when it exceeds its neighbourhood average and adjacent frames, slices have the spacing requested where the interval is fixed, and splitting the curve into chunks changes nothing.',
     ['inputs', 'schedules'], 'all curves, aggregation windows, chunk boundaries',
     'Tests use one hand-made curve in one or two chunks.',
     ['zounds/segment/onset.py'],
     [('peak picking', 'MovingAveragePeakPicker, SparseTimestampEncoder/TimeSliceDecoder')])

prop('C36', 'MIDI notes and their names are mutual inverses',
     'Naming a MIDI note number and reading the name back gives the number, for every note and beyond in every integer type; names carry the pitch class (with sharps) and octave, read monotonically, an octave being twelve numbers; '
     'names that are none are refused, and every instrument number of General MIDI has one name of its own.',
     ['inputs'], 'all notes, octaves and malformed names',
     'Tests check seven notes.',
     ['zounds/util/midi.py'], [('conversion', 'midi_to_note, note_to_midi, midi_instrument')])

prop('C37', 'Generated test signals have the length, rate and content asked for',
     'Sine, tick, noise and silence synthesizers produce exactly duration x rate samples (fractions of a sample rounded either way) labelled with their sampling rate; sine output is the sum of the requested frequencies (any of them, together) with equal shares, accurate from beginning to end and within full scale, '
     'ticks are identical, decay within a tenth of a second and repeat at exactly the requested spacing, also where they overlap; noise is bounded, uniform, white, without repetition and different every time; silence is all zeros.',
     ['inputs'], 'all rates, durations (in every unit), frequency sets and tick spacings',
     'Tests check lengths of whole seconds and a peak for one setting.',
     ['zounds/synthesize/synthesize.py'], [('generators', 'SineSynthesizer, TickSynthesizer, NoiseSynthesizer, SilenceSynthesizer')])

prop('C38', 'Aggregating nodes combine their inputs without losing or misaligning frames',
     'Nodes that slice, sum, take maxima, binarize, pool or merge features produce for any chunking, and any interleaving of several inputs, the same result as applying the operation to the whole features: slices select the requested columns or band, pooled slices aggregate exactly the frames '
     'they span, and merged rows pair the frames of all inputs at the same position up to the end of the shortest, with the resulting axes describing the new data; the same holds for documents stored in any store. Inputs at different rates are refused.',
     ['inputs', 'schedules'], 'all shapes, chunk sizes, interleavings and operations',
     'Tests compare shapes for one chunk size.',
     ['zounds/basic/basic.py'], [('nodes', 'Slice, Sum, Max, Pooled, Merge, Binarize')])


# ---- wordings made exact after the checks were built

def amend(pid, old, new):
    p, = [p for p in P if p['id'] == pid]
    assert p['statement'].count(old) == 1, (pid, old)
    p['statement'] = p['statement'].replace(old, new)


amend('C01', 'of a frequency band the run of bands it overlaps,', 'of a frequency band the run of bands it overlaps (bands that merely touch it may or may not belong),')
amend('C02', 'After any slicing, reduction, transposition,', 'After any slicing, sum, maximum, dot product, transposition,')
amend('C02', 'transposition, reshape, squeeze, concatenation,', 'transposition in any order of axes, broadcasting, reductions with kept axes, bit packing, reshape, squeeze, concatenation,')
amend('C03', 'and their overlap is symmetric, never negative and equal to the true intersection length.', 'and their overlap is symmetric, never negative and equal to the true intersection, beginning where the later one begins.')
amend('C07', 'returns exactly the contiguous run of bands that overlap it,', 'returns exactly the contiguous run of bands that overlap it (bands that merely touch it may or may not belong),')
amend('C09', 'dividing by the weighting restores the original and multiplying and dividing agree whether the weighting is on the left or the right.',
      'dividing the product by the weighting restores the original, and multiplying gives the same whether the weighting is on the left or the right.')
amend('C09', 'The A-weighting curve matches its standard definition (0 dB near 1 kHz, strictly less at the extremes),',
      'The A-weighting of a scale is the standard curve of its band centres in decibels, less its least value, plus one,')
amend('C10', 'with nothing lost or repeated at chunk boundaries and the tail zero-padded only when padding is on.',
      'with nothing lost or repeated at chunk boundaries (for windows of two samples or more and steps no longer than the window) and what remains in the end making one last, zero-padded window.')
amend('C10', 'overlap-adding windows with the overlap-adding node reconstructs', 'overlap-adding windows with the windowed audio synthesizer reconstructs')
amend('C13', 'BFCC, onset and transience features', 'BFCC, spectral flux, complex-domain onset and transience features')
amend('C15', 'or recomputed on demand because it is not stored -', 'or recomputed on demand from stored features because it is not stored itself -')
amend('C15', 'and removing or overwriting one leaves the others unchanged.', 'and overwriting one leaves the others unchanged.')
amend('C17', 'or several handles and processes share its directory,', 'or several processes share its directory,')
amend('C17', 'A process killed at any point leaves', 'A process killed at any point after the database was created leaves')
amend('C18', 'every segment of every added document is findable, adding twice or listening for new documents indexes each document,',
      'every segment of every added document is findable as often as it was added, documents processed while listening are indexed too,')
amend('C19', 'and padding adds only zeros;', 'and padding adds only zeros and loses nothing;')
amend('C21', 'whatever the requested chunk duration;', 'whatever the requested chunk duration (with chunks that hold a compressed format\'s header);')
amend('C22', 'returns exactly the samples that a full decode contains at those positions,', 'returns exactly the samples the codec itself decodes there,')
amend('C24', 'give the bytes or samples of at least that duration for the rate,', 'give the bytes or samples of that duration, in whole frames, for the rate,')
amend('C25', 'constant and silent inputs give finite results.', 'constant and silent inputs give finite results (except for the decibels of silence).')
amend('C26', 'restores the input of every invertible step,', 'restores the input of every invertible step (constant features for the constants they were trained on),')
amend('C27', 'pickled, encoded as a feature, or in a fresh process -', 'as a document\'s feature in any store, in the same or a fresh process -')
amend('C28', 'and one-hot/categorical learned codes have exactly one active unit;', 'and categorical codes of samples have exactly one active unit;')
amend('C35', 'a frame is a peak exactly when it exceeds its neighbourhood average and adjacent frames,',
      'a slice begins exactly where a frame exceeds both adjacent frames and the next one is 1.25 times above the aggregate of its neighbourhood,')
