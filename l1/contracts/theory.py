"""Contracts of music theory, velocity scaling (M01, M02, V01)."""
from .base import *
from .listspec import *

NAMES = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]
SCALES = dict(major=(0, 2, 4, 5, 7, 9, 11), minor=(0, 2, 3, 5, 7, 8, 10), dorian=(0, 2, 3, 5, 7, 9, 10),
              phrygian=(0, 1, 3, 5, 7, 8, 10), lydian=(0, 2, 4, 6, 7, 9, 11), mixolydian=(0, 2, 4, 5, 7, 9, 10),
              aeolian=(0, 2, 3, 5, 7, 8, 10), locrian=(0, 1, 3, 5, 6, 8, 10),
              harmonic_minor=(0, 2, 3, 5, 7, 8, 11), melodic_minor=(0, 2, 3, 5, 7, 9, 11))
SEMI = dict(P1=0, m2=1, M2=2, m3=3, M3=4, P4=5, A4=6, d5=6, Tritone=6, P5=7, A5=8, m6=8, M6=9, m7=10, M7=11, P8=12)
KINDS = (ValueError, TypeError, KeyError, AssertionError)


def mt(w):
    return w.load(PKG + "midi.midi_scales").MusicTheory


def root_in(e, valid=True):
    """a root: a symbolic pitch class, or every name in either case"""
    r = e.int("root", 0, 11) if valid else e.int("root")
    x = e.choose([r] + NAMES + [n.lower() for n in NAMES])
    return x, (x if x is r else NAMES.index(x.upper()))


@contract("M01", "MusicTheory.notes_from_scale, intervals_from_scale", share=2)
def m01_scale(w):
    e = E()
    M = mt(w)
    S = w.load(PKG + "midi.midi_scales").ScaleType
    name = e.choose(sorted(SCALES))
    how = e.choose(["text", "enum"])
    root, r = root_in(e, False)
    case("scales", scale=name, root=root, how=how)
    arg = name if how == "text" else S(name)
    o = outcome(M.notes_from_scale, root, arg)
    inside = between(0, r, 11)
    if not o.ok:
        ensure("only a root outside 0..11 is refused", And(Not(inside), o.refused(KINDS)))
        return
    ensure("a root outside 0..11 is refused", inside)
    got = list(o.value)
    ensure("a scale has the notes of its intervals", len(got) == len(SCALES[name]))
    for g, k in zip(got, SCALES[name]):
        p = NAMES.index(g)
        ensure("each note is the root shifted by its interval, in increasing order from the root", eq((r + k) % 12, p))
    iv = M.intervals_from_scale(arg)
    ensure("the intervals of a scale are those of its definition",
           sorted(M.intervals[i] for i in iv) == list(SCALES[name]) and sorted(i.value for i in iv) == list(SCALES[name]))


@contract("M01", "MusicTheory.chord_pitch_from_interval", bounded="lists of up to two intervals", share=2)
def m01_chord(w):
    e = E()
    M = mt(w)
    I = w.load(PKG + "midi.midi_scales").Interval
    how = e.choose(["text", "value", "frozen"])
    root, r = root_in(e, False)
    if root is r:
        ks = [e.choose(sorted(SEMI)) for _ in range(e.choose([0, 1]))]
        if ks and e.choose([0, 1]):
            ks.append(e.choose(["P1", "M3", "P5", "P8", ks[0]]))
    else:
        ks = e.choose([["P5"], ["M3", "m7"]])
    case("chord pitches", root=root, ivs=ks, how=how)
    arg = list(ks) if how == "text" else [I[k] for k in ks]
    arg = rt.VSet(arg, True) if how == "frozen" else rt.VList(arg)
    o = outcome(M.chord_pitch_from_interval, root, arg)
    if not o.ok:
        ensure("only a root outside 0..11 is refused", And(Not(between(0, r, 11)), o.refused(KINDS)))
        return
    ensure("a root outside 0..11 is refused", between(0, r, 11))
    got = list(o.value)
    if how == "frozen":
        ks = list({I[k].value: k for k in ks}.values())
    ensure("a chord has one pitch per interval", len(got) == len(ks))
    for g, k in zip(got, ks):
        ensure("each pitch is the root shifted by its interval modulo twelve", eq(g, (r + SEMI[k]) % 12))


@contract("M01", "MusicTheory.chord_pitch_from_interval (any number of intervals)", share=2)
def m01_chord_all(w):
    nocase()
    e = E()
    M = mt(w)
    I = w.load(PKG + "midi.midi_scales").Interval
    text = e.choose([True, False])
    r = e.int("root")         # named roots: in the bounded unit; the name is turned to a number before the loop
    root = r if text else e.choose([r, "c#"])
    r = r if root is r else wrap(z3.IntVal(1))
    names = sorted(SEMI)
    n = e.int("len.chord", 0)
    which = z3.Function("which_interval", z3.IntSort(), z3.IntSort())
    things = [k if text else I[k] for k in names]

    def at(i):
        for k, x in enumerate(things[:-1]):
            if e.branch(which(i) == k):
                return x
        return things[-1]
    sp = lists.Space(n.t, "chord")
    arg = SymList([lists.Seg(sp, lists.always, at, lambda i: [between(0, wrap(which(i)), len(things) - 1)])])
    o = outcome(M.chord_pitch_from_interval, root, arg)
    if not o.ok:
        ensure("only a root outside 0..11 is refused", And(Not(between(0, r, 11)), o.refused(KINDS)))
        return
    ensure("a root outside 0..11 is refused", between(0, r, 11))

    def semi(i):
        v = SEMI[names[-1]]
        for k, x in list(enumerate(names))[:-1]:
            v = If(wrap(which(i) == k), SEMI[x], v)
        return v
    want = SymList([lists.Seg(sp, lists.always, lambda i: (r + semi(i)) % 12)])
    equal_lists("each pitch is the root shifted by its interval modulo twelve, in order", o.value, want, eq)


@contract("M01", "MusicTheory.get_chord_name, get_chord_name_from_intervals, get_chord_intervals", share=3)
def m01_name(w):
    e = E()
    M = mt(w)
    chords = {k: list(v) for k, v in M.chord_intervals.items()}
    top = max(len(v) for v in chords.values())
    n = e.choose(list(range(top + 1)) + ["longer"])
    how = e.choose(["list", "interval list", "tuple"])
    if n == "longer":
        steps = lists.num_list("steps", e.int("len", top + 1))
        e.scopes = (top + 2,)
        case("chord names", steps=lists.Rows(steps, lambda v: v))
        o = outcome(M.get_chord_name if how == "list" else M.get_chord_name_from_intervals, rt.BUILTINS["tuple"](steps) if how == "tuple" else steps)
        if returns("a list of steps is looked up", o):
            ensure("an unknown step list has no chord", o.value is None)
        return
    steps = [e.int("s%d" % i) for i in range(n)]
    case("chord names", steps=steps)
    f = M.get_chord_name if how == "list" else M.get_chord_name_from_intervals
    o = outcome(f, tuple(steps) if how == "tuple" else rt.VList(steps))
    if not returns("a list of steps is looked up", o):
        return
    is_ = {k: And(*[eq(a, b) for a, b in zip(steps, v)]) for k, v in chords.items() if len(v) == n}
    if o.value is None:
        ensure("a known step list has a chord", And(*[Not(c) for c in is_.values()]))
    else:
        ensure("the chord found has exactly the given steps", is_.get(o.value, False))
        ensure("the steps of a chord are looked up by its name", lists.deep_eq(M.get_chord_intervals(o.value), rt.VList(chords[o.value])))


@contract("M01", "MusicTheory, refusals", bounded="a few texts and kinds that are no root, scale or list")
def m01_refuse(w):
    e = E()
    M = mt(w)
    I = w.load(PKG + "midi.midi_scales").Interval
    V = rt.VList
    n = e.int("n", 0, 11)
    cs = dict(rootH=(M.notes_from_scale, "H", "major"), rootE=(M.notes_from_scale, "", "minor"),
              scale=(M.notes_from_scale, "C", "blues"), scaletxt=(M.intervals_from_scale, "nothing"),
              tuple=(M.chord_pitch_from_interval, n, ("P1",)), mixed=(M.chord_pitch_from_interval, n, V(["P1", I.M3])),
              ints=(M.chord_pitch_from_interval, n, V([n, 4])), stepstr=(M.get_chord_name, V(["4", n])),
              steptup=(M.get_chord_name, (n, 3)), croot12=(M.chord_pitch_from_interval, 12 + n, V(["P1"])),
              crootX=(M.chord_pitch_from_interval, "X", V(["P1"])))
    k = e.choose(sorted(cs))
    case("refusals", k=k)
    refuses("unknown roots, scales and kinds are refused", outcome(*cs[k]), KINDS)


# --------------------------------------------------------------------- M02
@contract("M02", "MusicTheory.compound_interval_to_base, base_to_compound_interval")
def m02_compound(w):
    e = E()
    M = mt(w)
    v, s, k = e.int("v"), e.int("s"), e.int("o")
    which = e.choose(["split", "compose"])
    case("compound", v=v, s=s, o=k)
    if which == "split":
        o = outcome(M.compound_interval_to_base, v)
        if not o.ok:
            ensure("only a negative interval is refused", And(v < 0, o.refused()))
            return
        ensure("a negative interval is refused", v >= 0)
        a, b = o.value
        ensure("the size is in 0..11, the octave not negative", And(between(0, a, 11), b >= 0))
        ensure("size and octave are those of the interval", eq(v, a + 12 * b))
        p = outcome(M.base_to_compound_interval, a, b)
        if returns("the parts are composed", p):
            ensure("composing the parts gives the interval", eq(p.value, v))
    else:
        o = outcome(M.base_to_compound_interval, s, k)
        ok = And(between(0, s, 11), k >= 0)
        if not o.ok:
            ensure("only negative parts and sizes above 11 are refused", And(Not(ok), o.refused()))
            return
        ensure("negative parts and sizes above 11 are refused", ok)
        ensure("an interval is its size plus twelve per octave", eq(o.value, s + 12 * k))
        p = outcome(M.compound_interval_to_base, o.value)
        if returns("the interval is split", p):
            a, b = p.value
            ensure("splitting gives the parts", And(eq(a, s), eq(b, k)))


@contract("M02", "MusicTheory.pitch_to_note")
def m02_name(w):
    e = E()
    p = e.int("p", 0)
    case("names", p=p)
    o = outcome(mt(w).pitch_to_note, p)
    if returns("a pitch has a name", o):
        for i, n in enumerate(NAMES):
            if e.branch(boo(eq(p % 12, i))):
                ensure("the name is the pitch class followed by the octave", lists.deep_eq(o.value, lists.Text([n, p // 12])))
                return


@contract("M02", "MidiNote.note_to_freq, pitch_to_freq")
def m02_freq(w):
    e = E()
    N = w.load(PKG + "midi.midi_note").MidiNote
    p = e.int("p", 0, 127)
    case("frequency", p=p)
    f = N.note_to_freq(p)
    ensure("a frequency is positive", f > 0)
    ensure("the frequency doubles every twelve semitones", eq(N.note_to_freq(p + 12), f * 2))
    ensure("A4 is 440", And(eq(N.note_to_freq(69), 440), Implies(eq(p, 69), eq(f, 440))))
    for i, n in enumerate(NAMES):
        if e.branch(boo(eq(p % 12, i))):
            ensure("a note given by name and octave has the frequency of its number",
                   eq(N.pitch_to_freq(n, p // 12 - 1), f))
            return
