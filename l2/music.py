"""Executable contracts of music theory (M01, M02)."""
from common import *
from neural_graph_composer.midi.midi_scales import MusicTheory, ScaleType
from neural_graph_composer.midi import midi_scales
from neural_graph_composer.midi.midi_note import MidiNote

Iv = midi_scales.Interval
NAMES = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]
# semitones of the scales and intervals, from music theory (not from the code)
SCALES = dict(major=(0, 2, 4, 5, 7, 9, 11), minor=(0, 2, 3, 5, 7, 8, 10), dorian=(0, 2, 3, 5, 7, 9, 10),
              phrygian=(0, 1, 3, 5, 7, 8, 10), lydian=(0, 2, 4, 6, 7, 9, 11), mixolydian=(0, 2, 4, 5, 7, 9, 10),
              aeolian=(0, 2, 3, 5, 7, 8, 10), locrian=(0, 1, 3, 5, 6, 8, 10),
              harmonic_minor=(0, 2, 3, 5, 7, 8, 11), melodic_minor=(0, 2, 3, 5, 7, 9, 11))
SEMI = dict(P1=0, m2=1, M2=2, m3=3, M3=4, P4=5, A4=6, d5=6, Tritone=6, P5=7, A5=8, m6=8, M6=9, m7=10, M7=11, P8=12)
KINDS = (ValueError, TypeError, KeyError)


def gen_scale(rng):
    return dict(scale=rng.choice(sorted(SCALES)), root=rng.choice(list(range(12)) + NAMES + [n.lower() for n in NAMES]),
                how=rng.choice(["text", "enum"]))


@unit("M01", "scales", None, boundary=[dict(scale=s, root=r, how=h) for s in sorted(SCALES)
                                       for r in list(range(12)) + NAMES + [n.lower() for n in NAMES]
                                       for h in ("text", "enum")],
      rule="every scale on every root, by number and by name in either case, scale by name and by value (complete)")
def m01_scales(c):
    s = c["scale"] if c["how"] == "text" else ScaleType(c["scale"])
    r = c["root"] if isinstance(c["root"], int) else NAMES.index(c["root"].upper())
    got = MusicTheory.notes_from_scale(c["root"], s)
    want = [NAMES[(r + i) % 12] for i in SCALES[c["scale"]]]
    ensure(list(got) == want, "notes of %s %s are %r, expected %r", c["root"], c["scale"], got, want)
    iv = MusicTheory.intervals_from_scale(s)
    ensure(sorted(MusicTheory.intervals[i] for i in iv) == list(SCALES[c["scale"]]),
           "intervals of %s are %r", c["scale"], iv)
    ensure(sorted(i.value for i in iv) == list(SCALES[c["scale"]]), "interval values of %s are %r", c["scale"], iv)


def gen_chord(rng):
    ks = [rng.choice(sorted(SEMI)) for _ in range(ln(rng, 0, 7))]
    return dict(root=rng.choice(list(range(12)) + NAMES + [n.lower() for n in NAMES]), ivs=ks,
                how=rng.choice(["text", "value", "frozen"]))


@unit("M01", "chord pitches", gen_chord, n=3000, big=(20, 60, 200),
      boundary=[dict(root=r, ivs=[i], how=h) for r in list(range(12)) + NAMES for i in sorted(SEMI)
                for h in ("text", "value")],
      rule="every root with every single interval, and lists of up to seven intervals up to an octave")
def m01_chords(c):
    r = c["root"] if isinstance(c["root"], int) else NAMES.index(c["root"].upper())
    ivs = list(c["ivs"]) if c["how"] == "text" else [Iv[k] for k in c["ivs"]]
    if c["how"] == "frozen":
        ivs = frozenset(ivs)
        got = MusicTheory.chord_pitch_from_interval(c["root"], ivs)
        ensure(multiset(got) == multiset((r + SEMI[i.name]) % 12 for i in ivs), "chord pitches are %r", got)
        return
    keep = list(ivs)
    got = MusicTheory.chord_pitch_from_interval(c["root"], ivs)
    ensure(list(got) == [(r + SEMI[k]) % 12 for k in c["ivs"]], "chord pitches of %r on %r are %r", c["ivs"], r, got)
    ensure(ivs == keep, "the interval list was changed")


def gen_steps(rng):
    if rng.random() < .5 and not BIG[0]:
        st = list(rng.choice(sorted(MusicTheory.chord_intervals.values())))
        if rng.random() < .5:
            k = rng.randrange(len(st))
            st = rng.choice([st[:k], st[:k] + [rng.randint(1, 7)] + st[k + 1:], st + [rng.randint(1, 5)], st[::-1]])
        return dict(steps=st)
    return dict(steps=[rng.randint(1, 7) for _ in range(ln(rng, 0, 6))])


@unit("M01", "chord names", gen_steps, n=3000, big=(12, 40, 200),
      boundary=[dict(steps=list(v)) for v in MusicTheory.chord_intervals.values()],
      rule="the step list of every chord, changed step lists, random lists of up to six steps")
def m01_names(c):
    st = c["steps"]
    known = [k for k, v in MusicTheory.chord_intervals.items() if list(v) == st]
    for what, got in (("list", MusicTheory.get_chord_name(list(st))),
                      ("interval list", MusicTheory.get_chord_name_from_intervals(list(st))),
                      ("tuple", MusicTheory.get_chord_name_from_intervals(tuple(st)))):
        if known:
            ensure(got in known, "chord of steps %r (%s) is %r, expected one of %r", st, what, got, known)
            ensure(list(MusicTheory.get_chord_intervals(got)) == st, "steps of %r are not %r", got, st)
        else:
            ensure(got is None, "unknown steps %r (%s) give chord %r", st, what, got)


@unit("M01", "refusals", boundary=[dict(k=k) for k in ("root-1", "root12", "rootH", "rootE", "scale", "scaletxt", "tuple",
                                                       "mixed", "ints", "stepstr", "stepset", "steptup", "croot-1", "croot12", "crootX")],
      rule="roots outside 0..11, unknown names, unknown scales, arguments of other kinds")
def m01_refuse(c):
    M = MusicTheory
    f = {"root-1": lambda: M.notes_from_scale(-1, "major"), "root12": lambda: M.notes_from_scale(12, "major"),
         "rootH": lambda: M.notes_from_scale("H", "major"), "rootE": lambda: M.notes_from_scale("", "minor"),
         "scale": lambda: M.notes_from_scale("C", "blues"), "scaletxt": lambda: M.intervals_from_scale("nothing"),
         "tuple": lambda: M.chord_pitch_from_interval(0, ("P1",)),
         "mixed": lambda: M.chord_pitch_from_interval(0, ["P1", Iv.M3]),
         "ints": lambda: M.chord_pitch_from_interval(0, [0, 4]),
         "stepstr": lambda: M.get_chord_name(["4", 3]), "stepset": lambda: M.get_chord_name_from_intervals({4, 3}),
         "steptup": lambda: M.get_chord_name((4, 3)),
         "croot-1": lambda: M.chord_pitch_from_interval(-1, ["P1"]),
         "croot12": lambda: M.chord_pitch_from_interval(12, ["P1"]),
         "crootX": lambda: M.chord_pitch_from_interval("X", ["P1"])}[c["k"]]
    must_refuse(c["k"], f, KINDS)


# ------------------------------------------------------------------ M02
@unit("M02", "compound", lambda rng: dict(v=edgy_int(rng, 0, 400), s=edgy_int(rng, 0, 11), o=edgy_int(rng, 0, 10)), n=3000,
      boundary=[dict(v=v, s=v % 14 - 1, o=v // 14 - 1) for v in range(-2, 200)],
      rule="all intervals -2..199, all sizes -1..12 with octaves from -1, random values")
def m02_compound(c):
    M, v, s, o = MusicTheory, c["v"], c["s"], c["o"]
    if v < 0:
        must_refuse("interval %d" % v, lambda: M.compound_interval_to_base(v))
    else:
        a, b = M.compound_interval_to_base(v)
        ensure(0 <= a <= 11 and b >= 0, "parts of %d are %r", v, (a, b))
        ensure((a, b) == (v % 12, v // 12), "parts of %d are %r", v, (a, b))
        ensure(M.base_to_compound_interval(a, b) == v, "composing the parts of %d gives another interval", v)
    if s < 0 or s > 11 or o < 0:
        must_refuse("size %d octave %d" % (s, o), lambda: M.base_to_compound_interval(s, o))
    else:
        w = M.base_to_compound_interval(s, o)
        ensure(w == s + 12 * o, "size %d in octave %d is %r", s, o, w)
        ensure(tuple(M.compound_interval_to_base(w)) == (s, o), "splitting (%d, %d) composed gives others", s, o)


@unit("M02", "names", lambda rng: dict(p=rng.randint(0, 400)), n=300, boundary=[dict(p=p) for p in range(128)],
      rule="all pitches 0..127 and random ones")
def m02_names(c):
    p = c["p"]
    w = NAMES[p % 12] + str(p // 12)
    ensure(MusicTheory.pitch_to_note(p) == w, "pitch %d is named %r", p, MusicTheory.pitch_to_note(p))


@unit("M02", "frequency", boundary=[dict(p=p) for p in range(128)], rule="all notes 0..127 (complete)")
def m02_freq(c):
    p = c["p"]
    f = 440.0 * 2.0 ** ((p - 69) / 12.0)
    g = MidiNote.note_to_freq(p)
    ensure(close(g, f), "note %d has frequency %r, expected %r", p, g, f)
    ensure(close(MidiNote.note_to_freq(p + 12), 2 * g), "an octave above note %d is not twice as high", p)
    ensure(p != 69 or g == 440, "A4 is %r", g)
    # by name: scientific pitch notation, A4 = 440
    name, octave = NAMES[p % 12], p // 12 - 1
    h = MidiNote.pitch_to_freq(name, octave)
    ensure(close(h, f), "%s%d has frequency %r, expected %r", name, octave, h, f)
