"""Contracts of writing files (F02): refusals, and from a collection to what the library writes."""
from .base import *
from pyvc.lists import SymList, Tok, Elem, Seg, Space
from .listspec import *
from .coll import coll_mod
from .reading import Thing, reader, rows_equal, same_parts, things

I, R, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Os:
    """the files there are"""
    __pv_opaque__ = True

    def __init__(self, there):
        self.path, self.there = self, there

    def exists(self, name):
        return self.there

    isfile = lexists = exists


def writing(w, what, seq=None, name="some.mid", start=None, end=None, overwrite=None, there=None):
    """(outcome, what was made, what was written)"""
    e = E()
    nocase()
    M, cls = coll_mod(w).MidiNoteSequences, reader(w)
    made, written = [], []

    class Made(Thing):
        def write(self, n):
            written.append(n)

    def convert(s, from_start=None, to_end=None):
        made.append((s, from_start, to_end))
        return Made()
    n = e.int("tracks", 1)
    by_contract(M, "__len__", lambda s: 3, "R01 MidiNoteSequences.__len__")
    by_contract(cls, "to_pretty_midi", convert, "MidiReader.to_pretty_midi", static=True)
    mod = w.load(PKG + "midi_reader")
    mod.os = Os(there if there is not None else e.bool("there is such a file"))
    seq = M() if seq is None else seq
    k = {} if overwrite is None else dict(do_overwrite=overwrite)
    o = outcome(cls.write, seq, name, start, end, **k)
    return o, made, written, seq


def nothing_done(what, o, made, written, kinds=(ValueError, TypeError)):
    refuses("%s is refused" % what, o, kinds)
    ensure("%s: no file is touched" % what, not written)


@contract("F02", "MidiReader.write (arguments that are refused)")
def f02_refused(w):
    for what, k in (("no collection", dict(seq=3)), ("a list", dict(seq=[])), ("an empty name", dict(name="")), ("no name", dict(name=None)),
                    ("a name that is no text", dict(name=5)), ("a start that is no number", dict(start="1")),
                    ("an end that is no number", dict(end="1"))):
        o, made, written, _ = writing(w, what, there=False, **k)
        nothing_done(what, o, made, written)


@contract("F02", "MidiReader.write (a file that exists)")
def f02_exists(w):
    o, made, written, _ = writing(w, "a file that exists", there=True)
    nothing_done("overwriting without permission", o, made, written, (FileExistsError,))
    o, made, written, _ = writing(w, "a file that exists", there=True, overwrite=False)
    nothing_done("overwriting without permission", o, made, written, (FileExistsError,))


def bounds(w, start, end):
    e = E()
    a = e.real("start") if start else None
    b = e.real("end") if end else None
    over = [None, True][e.decide([None, None])]
    there = e.bool("there is such a file")
    o, made, written, seq = writing(w, "bounds", start=a, end=b, overwrite=over, there=there)
    if over is None and e.branch(boo(there)):
        nothing_done("overwriting without permission", o, made, written, (FileExistsError,))
        return
    bad = Or(*([a < 0] if start else []), *([b < 0] if end else []), *([a > b] if start and end else []))
    if (start or end) and e.branch(boo(bad)):
        nothing_done("a negative bound, or bounds in the wrong order", o, made, written)
        return
    if returns("what is allowed is written", o):
        ensure("the file is written once", len(written) == 1 and written[0] == "some.mid")
        if ensure("it holds the collection", len(made) == 1 and made[0][0] is seq):
            ensure("within the bounds", And(*[y is None if x is None else (y is not None and eq(x, y)) for x, y in zip((a, b), made[0][1:])]))


for _s in (False, True):
    for _e in (False, True):
        contract("F02", "MidiReader.write (%s)" % (" and ".join((["start"] if _s else []) + (["end"] if _e else [])) or "no bounds"))(
            lambda w, s=_s, e=_e: bounds(w, s, e))


# ------------------------------------------------------------------ what is written
class Written:
    """the object of the library that is written: what it is given"""
    __pv_opaque__ = True

    def __init__(self, resolution=220, initial_tempo=120.0):
        self.resolution, self.initial_tempo = resolution, initial_tempo
        self.instruments, self.time_signature_changes, self.key_signature_changes = SymList([]), SymList([]), SymList([])
        self.scales = rt.VList()
        rt.R.stamp(self)
        self.end = E().real("end of what is written", 0)
        self.adjusted = []
        self.tick = z3.Function("tick_of_time", R, I)

    def time_to_tick(self, t):
        return wrap(self.tick(num(rt._float(t))))

    def update_scale(self, new):
        self.scales.append((new[0], new[1]))

    def _update_tick_to_time(self, t):
        pass

    def get_end_time(self):
        return self.end

    def adjust_times(self, a, b):
        self.adjusted.append((a, b))


class Instrument(Thing):
    def __init__(self, program, is_drum=False, name=""):
        Thing.__init__(self, program=program, is_drum=is_drum, name=name, notes=SymList([]), pitch_bends=SymList([]),
                       control_changes=SymList([]))
        rt.R.stamp(self)


class Source:
    """a collection with any tracks, which hold any notes, bends and controls"""
    __pv_opaque__ = True

    def __init__(self, w):
        e = E()
        self.resolution = e.int("resolution", 1)
        self.last, self.tempo = e.real("last note end", 0), e.real("initial tempo", 0)
        e.add(And(self.last > 0, self.tempo > 0))
        self.n = e.int("tracks", 0)
        self.space = Space(num(self.n), "tracks")
        e.keep.append(self.space)
        self.number = z3.Function("number_of_track", I, I)
        self.prog, self.drum = z3.Function("program_of_track", I, I), z3.Function("track_is_drum", I, BOOL)
        t = w.load(PKG + "midi.midi_key_signature").KeySignatureType
        self.bounds, self.made = [], {}
        at = lambda x: [x.midi_time >= 0]
        self.meters, self.meter_seg = things("meters", dict(numerator=I, denominator=I, midi_time=R), pre=at)
        self.keys, self.key_seg = things("keys", dict(midi_key=I, midi_time=R, minor=BOOL), pre=at)
        self.tempi, self.tempo_seg = things("tempi", dict(qpm=R, midi_time=R, resolution=I), pre=lambda x: at(x) + [x.qpm > 0])
        self.keys = SymList([Seg(self.key_seg.space, lists.always, lambda i: self.keyed(t, self.key_seg.value(i)), self.key_seg.facts)])
        self.instruments = SymList([])

    def keyed(self, t, x):
        return Thing(midi_key=x.midi_key, midi_time=x.midi_time, mode=rt.ite(x.minor, t.MINOR, t.MAJOR) if hasattr(rt, "ite") else Mode(x.minor, t))

    def truncate(self):
        return self.last

    def initial_tempo(self):
        return self.tempo

    def sliced(self, l, bound, k):
        ensure("nothing up to the last note is left out", bound is None or bound >= self.last)
        return l

    def slice_time_signatures(self, upper_bound=None, **k):
        return self.sliced(self.meters, upper_bound, k)

    def slice_key_signatures(self, upper_bound=None, **k):
        return self.sliced(self.keys, upper_bound, k)

    def slice_tempo_signature(self, upper_bound=None, **k):
        return self.sliced(self.tempi, upper_bound, k)

    def __iter__(self):
        return SymList([Seg(self.space, lists.always, lambda i: wrap(self.number(i)))])

    def at(self, i):
        t = z3.simplify(i)
        if t.get_id() not in self.made:
            k = len(self.made)
            x = Thing(instrument=Thing(instrument_num=wrap(self.prog(t)), is_drum=wrap(self.drum(t)), name=Tok("name", (wrap(t),))))
            x.notes, x.note_seg = of(t, "notes", dict(velocity=I, pitch=I, start_time=R, end_time=R))
            x.pitch_bends, x.bend_seg = of(t, "bends", dict(amount=I, midi_time=R))
            x.control_changes, x.control_seg = of(t, "controls", dict(cc_number=I, cc_value=I, cc_time=R))
            self.made[t.get_id()] = x, t
        return self.made[t.get_id()][0]

    def __getitem__(self, k):
        t = num(k)
        if not (z3.is_app(t) and t.decl().eq(self.number)):
            raise Unsupported("a track by another number")
        return self.at(t.arg(0))


class Mode:
    """the mode of a key: one of two"""
    __pv_opaque__ = True

    def __init__(self, minor, t):
        self.minor, self.t = minor, t

    def __eq__(self, o):
        return self.minor if o is self.t.MINOR else Not(self.minor) if o is self.t.MAJOR else False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None


def of(i, name, fields):
    """what track i holds"""
    e = E()
    n = z3.Function("number_of_" + name, I, I)
    e.fact(n(i) >= 0)
    sp = Space(n(i), "%s_of%d" % (name, len(e.keep)))
    e.keep.append(sp)
    f = {k: z3.Function("%s_%s" % (name, k), I, I, s) for k, s in fields.items()}
    s = Seg(sp, lists.always, lambda j: Thing(**{k: wrap(g(i, j)) for k, g in f.items()}))
    return SymList([s]), s


class TrackByTrack(rt.Invariant):
    """there is an instrument for each track before k"""

    def __init__(self, s, pms):
        self.s, self.pms, self.ready = s, pms, False

    def match(self, seg, cells):
        if self.ready or seg.space is not self.s.space or not self.pms:
            return False
        self.list = self.pms[0].instruments
        self.ready = True
        return True

    def modifies(self):
        return [rt.Loc("list", self.list, None)]

    def havoc(self, k):
        e = E()
        self.k = num(k)
        sp = Space(num(e.int("earlier", 0)), "earlier%d" % len(e.keep))
        e.keep.append(sp)
        self.earlier = [Seg(sp, lists.always, lambda i: Tok("instrument", (wrap(i),)))]
        self.list.segs = self.first + self.earlier

    def check(self, k, when):
        s, e = self.s, E()
        if isinstance(k, int):
            self.first = list(self.list.segs)
            ensure("what is made besides the tracks is empty", all(
                isinstance(x, Elem) and isinstance(x.v, Instrument) and not any(
                    l.segs for l in (x.v.notes, x.v.pitch_bends, x.v.control_changes)) for x in self.first))
            return
        n = len(self.first) + 1
        ensure("the tracks before stay, %s" % when, same_parts(self.list.segs[:n], self.first + self.earlier))
        new = self.list.segs[n:]
        if not ensure("one instrument for each track, %s" % when, len(new) == 1 and isinstance(new[0], Elem) and isinstance(new[0].v, Instrument)):
            return
        x, t = new[0].v, s.at(self.k)
        ensure("it has the program, drum flag and name of its track, %s" % when, And(
            eq(x.program, t.instrument.instrument_num), Iff(x.is_drum, t.instrument.is_drum), same(x.name, t.instrument.name)))
        rows_equal("every note of the track, %s" % when, x.notes, t.note_seg, lambda v: (
            "Note", v.velocity, v.pitch, v.start_time, v.end_time))
        within = lambda seg, f: Seg(seg.space, lambda j: boo(getattr(seg.value(j), f) < s.last), seg.value)
        rows_equal("every bend before the last note end, %s" % when, x.pitch_bends, within(t.bend_seg, "midi_time"), lambda v: (
            "PitchBend", v.amount, v.midi_time))
        rows_equal("every control change before the last note end, %s" % when, x.control_changes, within(t.control_seg, "cc_time"), lambda v: (
            "ControlChange", v.cc_number, v.cc_value, v.cc_time))


@contract("F02", "MidiReader.to_pretty_midi")
def f02_convert(w):
    e = E()
    nocase()
    s = Source(w)
    mod = w.load(PKG + "midi_reader")
    pms = []

    def create(**k):
        pms.append(Written(**k))
        return pms[-1]
    mod.CustomPrettyMIDI = create
    lib = Thing(Instrument=Instrument)
    for n in ("TimeSignature", "KeySignature", "Note", "PitchBend", "ControlChange"):
        setattr(lib, n, lambda *a, n=n: (n,) + a)
    mod.pretty_midi = lib
    inv = TrackByTrack(s, pms)
    e.invariants.append(inv)
    o = outcome(reader(w).to_pretty_midi, s)
    if not returns("a collection can be converted", o):
        return
    if not ensure("what was made is returned", len(pms) == 1 and o.value is pms[0]):
        return
    pm = o.value
    ensure("with the resolution of the collection", eq(pm.resolution, s.resolution))
    ensure("and its first tempo", eq(pm.initial_tempo, s.tempo))
    rows_equal("every meter", pm.time_signature_changes, s.meter_seg, lambda x: ("TimeSignature", x.numerator, x.denominator, x.midi_time))
    rows_equal("every key, minor from 12", pm.key_signature_changes, s.key_seg, lambda x: (
        "KeySignature", x.midi_key + If(x.minor, 12, 0), x.midi_time))
    rows_equal("every tempo at its tick", pm.scales, s.tempo_seg, lambda x: (
        pm.time_to_tick(x.midi_time), 60 / (rt._float(s.resolution) * x.qpm)))
    ensure("without bounds no time is changed", not pm.adjusted)
    if not inv.ready:
        raise Unsupported("the loop over the tracks was not found")
    ensure("nothing is added after the tracks", same_parts(segs_of(pm.instruments), inv.first + inv.earlier))
