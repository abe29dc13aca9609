"""C36: MIDI notes and instruments"""
from ..core import Check
from ..gen import *
from zounds.util import midi_instrument, midi_to_note, note_to_midi

CHECK = Check(
    'C36',
    'Every note number of the range (and far beyond, in every integer type) is named and read back, and compared with its pitch '
    'class and octave; names that are none must be refused; instruments are compared with the General MIDI families.',
    technique='exhaustive runtime monitoring of conversions over the note range',
    require=['notes', 'names refused', 'instruments'])

CLASSES = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']

# what General MIDI has at some of the numbers, in any spelling
KNOWN = {
    0: 'grand', 4: 'piano', 6: 'harpsi', 8: 'celesta', 9: 'glock', 11: 'vibra', 12: 'marimba', 13: 'xylo', 14: 'bell', 15: 'dulcimer',
    16: 'organ', 19: 'organ', 21: 'accordion', 22: 'harmonica', 24: 'guitar', 25: 'steel', 29: 'overdrive', 30: 'distortion', 31: 'guitar',
    32: 'bass', 35: 'fretless', 36: 'slap', 39: 'synth', 40: 'violin', 41: 'viola', 42: 'cello', 43: 'contrabass', 44: 'tremolo',
    46: 'harp', 47: 'timpani', 48: 'ensemble', 52: 'choir', 55: 'orchestra', 56: 'trumpet', 57: 'trombone', 58: 'tuba', 60: 'french',
    61: 'brass', 64: 'soprano', 65: 'alto', 66: 'tenor', 67: 'baritone', 68: 'oboe', 69: 'horn', 70: 'bassoon', 71: 'clarinet',
    72: 'piccolo', 73: 'flute', 74: 'recorder', 75: 'pan', 77: 'shak', 78: 'whistle', 79: 'ocarina', 80: 'lead', 81: 'saw', 88: 'pad',
    95: 'sweep', 96: 'rain', 103: 'sci', 104: 'sitar', 105: 'banjo', 107: 'koto', 108: 'kalimba', 109: 'bag', 110: 'fiddle',
    112: 'bell', 113: 'agogo', 114: 'steel', 116: 'taiko', 119: 'cymbal', 120: 'fret', 121: 'breath', 122: 'seashore', 123: 'bird',
    124: 'telephone', 125: 'helicopter', 126: 'applause', 127: 'gun'}


def judge(ctx, n, typed):
    name = midi_to_note(typed)
    ctx.expect(isinstance(name, str), 'note:name', n, name)
    ctx.expect(name == CLASSES[n % 12] + str(n // 12), 'note:name', n, type(typed), name)
    back = note_to_midi(name)
    ctx.expect(back == n, 'note:round trip', n, name, back)
    ctx.count('notes')


@CHECK.family(14, 200, need=['note:name', 'note:round trip', 'note:order'])
def notes(ctx):
    block = ctx.idx
    if block < 6:
        # the whole range, and the octaves around it
        ns = range(-48 + 32 * block, -48 + 32 * (block + 1))
    else:
        ns = [ctx.integer(-10 ** ctx.integer(1, 9), 10 ** ctx.integer(1, 9)) for _ in range(60)]
    for n in ns:
        judge(ctx, n, n)
        for t in (np.int64, np.int32, np.int16, np.uint8):
            if np.iinfo(t).min <= n <= np.iinfo(t).max:
                judge(ctx, n, t(n))
        # an octave up is the same name, a higher number
        a, b = midi_to_note(n), midi_to_note(n + 12)
        ctx.expect(a.rstrip('-0123456789') == b.rstrip('-0123456789'), 'note:order', a, b)
        ctx.expect(note_to_midi(b) - note_to_midi(a) == 12, 'note:order', a, b)
        ctx.expect(note_to_midi(midi_to_note(n + 1)) - note_to_midi(a) == 1, 'note:order', a)
    for name in CLASSES:
        for octave in range(-1, 12):
            n = note_to_midi('%s%d' % (name, octave))
            ctx.expect(n == octave * 12 + CLASSES.index(name), 'note:number', name, octave, n)
            ctx.expect(midi_to_note(n) == '%s%d' % (name, octave), 'note:round trip', name, octave)


@CHECK.family(10, 100, need=['note:refused', 'note:alternatives'])
def names(ctx):
    for _ in range(20):
        octave = ctx.integer(-2, 10)
        bad = ctx.choice(['', 'H%d', 'c%d', 'x', 'C', 'C#', '#%d', '%d', 'C##%d', 'Cx%d', 'C%d.5', 'C#%dx', 'CC%d', 'note', 'C%d#', '♯%d', 'R%d'])
        bad = bad % octave if '%d' in bad else bad
        ctx.raises(lambda: note_to_midi(bad), 'note:refused', (Exception,))
        ctx.count('names refused')
        # other spellings are that note, if they're known at all
        alt, n = ctx.choice([('Db%d', 1), ('Eb%d', 3), ('Gb%d', 6), ('Ab%d', 8), ('Bb%d', 10), ('E#%d', 5), ('B#%d', 12), ('Cb%d', -1), ('Fb%d', 4)])
        try:
            got = note_to_midi(alt % octave)
        except Exception:
            got = None
        ctx.expect(got is None or got == octave * 12 + n, 'note:alternatives', alt, octave, got)
        ctx.raises(lambda: midi_to_note(ctx.choice([None, 'C', 'x', []])), 'note:refused', (Exception,))


@CHECK.family(2, 4, need=['instrument:name', 'instrument:refused'])
def instruments(ctx):
    seen = set()
    for k in range(128):
        for t in (int, np.int64, np.uint8):
            name = midi_instrument(t(k))
            ctx.expect(isinstance(name, str) and name.strip(), 'instrument:name', k, name)
        seen.add(name)
        if k in KNOWN:
            ctx.expect(KNOWN[k] in name.lower(), 'instrument:name', k, name)
        ctx.count('instruments')
    ctx.expect(len(seen) == 128, 'instrument:name', 'one name each', len(seen))
    for k in (128, -1, 1000, None, 'Violin', .5):
        ctx.raises(lambda: midi_instrument(k), 'instrument:refused', (Exception,))
