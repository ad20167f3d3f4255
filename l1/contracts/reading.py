"""Contracts of reading files (F01): from what the decoder found to a collection."""
from .base import *
from pyvc.lists import SymList, Tok, Elem, Seg, Space
from .listspec import *
from .coll import coll_mod

I, R, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def reader(w):
    return w.load(PKG + "midi_reader").MidiReader


class Thing:
    """an object of the decoder: its fields, nothing else"""
    __pv_opaque__ = True

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("%s of a decoded object" % k)


class NpFloat(core.SymReal):
    """a number of numpy"""

    def astype(self, kind):
        return wrap(self.t)

    def item(self):
        return wrap(self.t)


def things(name, fields, n=None, pre=None):
    """any number of objects with the given fields (name -> sort)"""
    e = E()
    sp = Space(num(e.int("len." + name, 0) if n is None else n), name)
    e.keep.append(sp)
    fs = {k: z3.Function("%s_%s" % (name, k), I, s) for k, s in fields.items()}
    made = {}

    def at(i):
        t = z3.simplify(i)
        if t.get_id() not in made:
            made[t.get_id()] = Thing(**{k: wrap(f(t)) for k, f in fs.items()}), t
        return made[t.get_id()][0]
    s = Seg(sp, lists.always, at, (lambda i: [boo(c) for c in pre(at(i))]) if pre else None)
    return SymList([s]), s


def recorded(cls, name, row, where):
    out = rt.VList()
    by_contract(cls, name, lambda self, x: out.append(row(self, x)), where)
    return out


def rows_equal(what, got, seg, row):
    want = SymList([Seg(seg.space, seg.guard, lambda i: row(seg.value(i)), seg.facts)])
    equal_lists(what, got, want, lambda a, b: And(*[x is y if isinstance(x, str) else eq(x, y) for x, y in zip(a, b)]))


# ------------------------------------------------------------------ time lines
def mode(w, k):
    t = w.load(PKG + "midi.midi_key_signature").KeySignatureType
    if k.mode not in (t.MAJOR, t.MINOR):
        raise Unsupported("another mode")
    return 0 if k.mode is t.MAJOR else 1


@contract("F01", "MidiReader.read_key_signature")
def f01_keys(w):
    e = E()
    nocase()
    M = coll_mod(w).MidiNoteSequences
    m = M()
    l, s = things("keys", dict(time=R, key_number=I), pre=lambda k: [k.time >= 0, between(0, k.key_number, 23)])
    added = recorded(M, "add_key_signatures", lambda self, k: (k.midi_time, k.midi_key, mode(w, k)), "T01 add_key_signatures")
    o = outcome(reader(w).read_key_signature, m, Thing(key_signature_changes=l))
    if returns("keys are read", o):
        rows_equal("every key signature, in order: its time, its key modulo 12, major below 12 and minor from 12", added, s,
                   lambda k: (k.time, k.key_number % 12, If(k.key_number < 12, 0, 1)))


@contract("F01", "MidiReader.read_time_signature")
def f01_meters(w):
    e = E()
    nocase()
    M = coll_mod(w).MidiNoteSequences
    m = M()
    l, s = things("meters", dict(time=R, numerator=I, denominator=I),
                  pre=lambda k: [k.time >= 0, k.numerator >= 1, k.denominator >= 1, core.ispow2(k.denominator), k.numerator <= 255,
                                 k.denominator <= 255])
    added = recorded(M, "add_time_signatures", lambda self, k: (k.midi_time, k.numerator, k.denominator), "T01 add_time_signatures")
    o = outcome(reader(w).read_time_signature, m, Thing(time_signature_changes=l))
    if returns("meters are read", o):
        rows_equal("every meter, in order, with its parts and time", added, s, lambda k: (k.time, k.numerator, k.denominator))


@contract("F01", "MidiReader.read_tempo_changes")
def f01_tempi(w):
    e = E()
    nocase()
    M = coll_mod(w).MidiNoteSequences
    m = M()
    n, res = e.int("len.tempi", 0), e.int("resolution", 1)
    T, Q = z3.Function("tempo_time", I, R), z3.Function("tempo_rate", I, R)
    a, b = Space(num(n), "tempo times"), Space(num(n), "tempo rates")
    ts = SymList([Seg(a, lists.always, lambda i: NpFloat(T(i)), lambda i: [T(i) >= 0])])
    qs = SymList([Seg(b, lists.always, lambda i: NpFloat(Q(i)), lambda i: [Q(i) > 0])])
    added = recorded(M, "add_tempo_signature", lambda self, k: (k.midi_time, k.qpm, k.resolution), "T01 add_tempo_signature")
    o = outcome(reader(w).read_tempo_changes, m, Thing(get_tempo_changes=lambda: (ts, qs), resolution=res))
    if returns("tempi are read", o):
        seg = Seg(a, lists.always, lambda i: (wrap(T(i)), wrap(Q(i)), res))
        rows_equal("every tempo, in order, with its time and rate", added, seg, lambda k: k)


@contract("F01", "the time lines of a new collection")
def f01_start(w):
    """without an entry at time 0 each line starts with the default"""
    nocase()
    m = coll_mod(w).MidiNoteSequences()
    for name, get in (("meter", lambda: m.time_signatures), ("key", lambda: m.key_signatures), ("tempo", lambda: m.tempo_signatures)):
        l = SymList(segs_of(get()))
        if not ensure("a collection starts with a %s at time 0" % name, And(eq(rt._len(l), 1), eq(l[0].midi_time, 0))):
            return
    ensure("it is 4/4", And(eq(m.time_signatures[0].numerator, 4), eq(m.time_signatures[0].denominator, 4)))
    ensure("it is C major", And(eq(m.key_signatures[0].midi_key, 0), mode(w, m.key_signatures[0]) == 0))
    ensure("it is 120", eq(m.tempo_signatures[0].qpm, 120))
    ensure("a collection without notes ends at 0", eq(m.total_time, 0))


# ------------------------------------------------------------------ instruments
class Parsed:
    """a decoded file with any instruments; what an instrument holds are any notes, bends and
    control changes"""

    def __init__(self, w):
        e = E()
        self.n = e.int("instruments", 0)
        self.space = Space(num(self.n), "instruments")
        self.prog, self.drum = z3.Function("program", I, I), z3.Function("is_drum", I, BOOL)
        self.made = {}
        self.seg = Seg(self.space, lists.always, self.at, lambda i: [z3.And(self.prog(i) >= 0, self.prog(i) <= 127)])
        self.midi = Thing(instruments=SymList([self.seg]))

    def at(self, i):
        t = z3.simplify(i)
        if t.get_id() not in self.made:
            x = Thing(program=wrap(self.prog(t)), name=Tok("name", (wrap(t),)), is_drum=wrap(self.drum(t)))
            k = len(self.made)
            x.notes, x.notes_seg = things("notes%d" % k, dict(start=R, end=R, pitch=I, velocity=I), pre=lambda v: [
                v.start >= 0, v.end >= v.start, between(0, v.pitch, 127), between(0, v.velocity, 127),
                Or(eq(v.start, v.end), And(v.end - v.start > tol_of(v.end), v.end > 0))])
            x.pitch_bends, x.pitch_bends_seg = things("bends%d" % k, dict(time=R, pitch=I))
            x.control_changes, x.control_changes_seg = things("controls%d" % k, dict(time=R, number=I, value=I))
            x.index = t
            self.made[t.get_id()] = x, t
        return self.made[t.get_id()][0]


def tol_of(t):
    return t * wrap(z3.RealVal("2/1000000000"))


class Walking:
    """a generator over the events of the instruments of a decoded file"""

    def __init__(self, w, name, field):
        e = E()
        nocase()
        e.assumption("note times are equal or differ by more than two billionths of the later")
        self.field = field
        self.p = p = Parsed(w)
        M = coll_mod(w).MidiNoteSequences
        self.m = m = M()
        self.track = Thing(total_time=None)
        rt.R.stamp(self.track)
        self.calls = []
        by_contract(M, "create_track", self.create, "R01 MidiNoteSequences.create_track")
        by_contract(M, "__getitem__", self.fetch, "R01 MidiNoteSequences.__getitem__")
        self.outer, self.inner = ByInstrument(self), ByEvent(self)
        e.invariants += [self.outer, self.inner]
        self.o = outcome(lambda: SymList(segs_of(getattr(reader(w), name)(m, p.midi))))

    def create(self, m, number, program, name=None, is_drum=False, *a, **k):
        self.calls.append((number, program, name, is_drum))
        return number

    def fetch(self, m, number):
        ensure("the track of the instrument is looked at", bool(self.calls) and eq(number, self.calls[-1][0]))
        return self.track


class Walk(rt.Invariant):
    def __init__(self, p):
        self.p, self.ready = p, False

    def modifies(self):
        p = self.p
        return [rt.Loc("list", self.out, None), rt.Loc("attr", p.m, "total_time"), rt.Loc("attr", p.track, "total_time")]

    def some(self, name):
        e = E()
        sp = Space(num(e.int(name, 0)), name + str(len(e.keep)))
        e.keep.append(sp)
        return Seg(sp, lists.always, lambda i: Tok(name, (wrap(i),)))

    def any_totals(self):
        p, e = self.p, E()
        p.total, p.own = e.real("total", 0), e.real("total_of_track", 0)
        rt.R.note_attr(p.m, "total_time")
        p.m.total_time = p.total
        rt.R.note_attr(p.track, "total_time")
        p.track.total_time = p.own

    def find(self, cells):
        if self.ready or "_pv_out" not in cells:
            return False
        self.out = rt.cell_get(cells["_pv_out"])
        self.ready = True
        return True


def same_parts(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


class ByInstrument(Walk):
    """what the instruments before k hold was given"""

    def match(self, seg, cells):
        return seg.space is self.p.p.space and self.find(cells)

    def havoc(self, k):
        p = self.p
        self.before = [self.some("of_earlier")]
        self.out.segs = list(self.before)
        self.any_totals()
        self.k, p.calls[:] = num(k), []

    def check(self, k, when):
        p = self.p
        if isinstance(k, int):
            ensure("nothing is given before the first instrument", not self.out.segs)
            return
        x = p.p.at(self.k)
        if ensure("a track is created for each instrument, %s" % when, len(p.calls) == 1):
            a, b, c, d = p.calls[0]
            ensure("the number of the track is that of the instrument, %s" % when, eq(a, wrap(self.k)))
            ensure("the track has its program, name and drum flag, %s" % when, And(eq(b, x.program), same(c, x.name), Iff(d, x.is_drum)))
        if not p.inner.ready:
            raise Unsupported("the loop over the events of an instrument was not found")
        ensure("what the instrument holds is given after that of the earlier, %s" % when, same_parts(
            self.out.segs, self.before + p.inner.before))


class ByEvent(Walk):
    """what the instrument holds before event j was given"""

    def match(self, seg, cells):
        p = self.p
        if not p.outer.ready or seg.space is not getattr(p.p.at(p.outer.k), p.field + "_seg").space:
            return False
        self.seg = seg
        return self.find(cells)

    def havoc(self, j):
        self.prefix = list(self.p.outer.before)
        self.before = [self.some("of_this")]
        self.out.segs = self.prefix + self.before
        self.any_totals()
        self.j = num(j)

    def check(self, j, when):
        p, e = self.p, E()
        if isinstance(j, int):
            ensure("nothing of the instrument is given before its first event", same_parts(self.out.segs, p.outer.before))
            return
        x = p.p.at(p.outer.k)
        v = self.seg.value(self.j)
        n = len(self.prefix) + 1
        ensure("what was given stays, %s" % when, same_parts(self.out.segs[:n], self.prefix + self.before))
        new = self.out.segs[n:]
        total, own = p.m.total_time, p.track.total_time
        if p.field == "notes" and e.branch(boo(eq(v.start, v.end))):
            ensure("a note of zero length is left out, %s" % when, not new)
            ensure("it does not count for the end, %s" % when, And(eq(total, p.total), eq(own, p.own)))
            return
        if p.field == "notes":
            ensure("the end of the collection is the latest note end, %s" % when, eq(total, mx(p.total, v.end)))
            ensure("the end of the track is its latest note end, %s" % when, eq(own, mx(p.own, v.end)))
        if ensure("every event is given once, %s" % when, len(new) == 1 and isinstance(new[0], Elem)):
            t = new[0].v
            ensure("with its instrument and track, %s" % when, isinstance(t, tuple) and len(t) == 4 and t[0] is x and t[2] is v and
                   eq(t[1], wrap(p.outer.k)) is not False)
            ensure("with the number of its instrument and track, %s" % when, And(eq(t[1], wrap(p.outer.k)), eq(t[3], wrap(p.outer.k))))


def walked(w, name, field):
    p = Walking(w, name, field)
    if not returns("the events of the instruments are given", p.o):
        return
    if not p.outer.ready:
        raise Unsupported("the loop over the instruments was not found")
    ensure("only what the instruments hold is given", same_parts(p.o.value.segs, p.outer.before))


@contract("F01", "MidiReader.read_instrument")
def f01_notes(w):
    walked(w, "read_instrument", "notes")


@contract("F01", "MidiReader.read_instrument_pitch_bends")
def f01_bends(w):
    walked(w, "read_instrument_pitch_bends", "pitch_bends")


@contract("F01", "MidiReader.read_instrument_control_changes")
def f01_controls(w):
    walked(w, "read_instrument_control_changes", "control_changes")


# ------------------------------------------------------------------ the whole file
class Track:
    """a track of the collection, known by its number; what is added to it is recorded"""
    __pv_opaque__ = True

    def __init__(self, owner, number):
        self.owner, self.number = owner, number

    def add_note(self, n):
        self.owner.notes.append((self.number, n.pitch, n.start_time, n.end_time, n.velocity, n.program, n.instrument, n.is_drum,
                                 n.numerator, n.denominator, n.is_quantized()))

    def add_pitch_bends(self, b):
        self.owner.bends.append((self.number, b.amount, b.midi_time, b.program, b.instrument, b.is_drum))

    def add_control_changes(self, c):
        self.owner.controls.append((self.number, c.cc_number, c.cc_value, c.cc_time, c.program, c.instrument, c.is_drum))


class Reading:
    def __init__(self, w, source):
        e = E()
        nocase()
        M = self.M = coll_mod(w).MidiNoteSequences
        cls = self.cls = reader(w)
        self.done, self.opened = [], []
        self.res = e.int("resolution", 1)
        self.decoded = Thing(resolution=self.res)
        by_contract(cls, "_read_pretty_midi", self.open, "the decoder (bounded)", static=True)
        by_contract(cls, "mido_to_pretty_midi", self.open, "the decoder (bounded)", static=True)
        for k in ("read_key_signature", "read_tempo_changes", "read_time_signature"):
            by_contract(cls, k, lambda m, d, k=k: self.lines(k, m, d), "MidiReader." + k, static=True)
        self.num, self.den = z3.Function("meter_num", R, I), z3.Function("meter_den", R, I)
        by_contract(M, "time_signature", self.meter, "T02 time_signature")
        by_contract(M, "get_track", self.track, "R01 MidiNoteSequences.get_track")
        self.notes, self.bends, self.controls = rt.VList(), rt.VList(), rt.VList()
        prog = dict(program=I, idx=I, seq=I)
        inst = lambda x: [between(0, x.program, 127), between(0, x.idx, 127), between(0, x.seq, 127)]
        self.given = {}
        self.events("read_instrument", dict(prog, pitch=I, start=R, end=R, velocity=I), lambda x: inst(x) + [
            x.start >= 0, x.end > x.start, between(0, x.pitch, 127), between(0, x.velocity, 127)] + self.any_meter(x.start)[2])
        self.events("read_instrument_pitch_bends", dict(prog, pitch=I, time=R), lambda x: inst(x) + [
            x.time >= 0, between(-8192, x.pitch, 8191)])
        self.events("read_instrument_control_changes", dict(prog, number=I, value=I, time=R), lambda x: inst(x) + [
            x.time >= 0, between(0, x.number, 127), between(0, x.value, 127)])
        self.o = outcome(cls.read, source)
        self.m = self.o.value

    def open(self, f):
        self.opened.append(f)
        return self.decoded

    def lines(self, k, m, d):
        self.done.append((k, m, d))

    def meter(self, m, t):
        e = E()
        e.trust("the meter in force has parts between 1 and 255, the lower a power of two")
        a, b, facts = self.any_meter(t)
        e.add(And(*facts))
        return a, b

    def any_meter(self, t):
        a, b = wrap(self.num(num(rt._float(t)))), wrap(self.den(num(rt._float(t))))
        return a, b, [between(1, a, 255), between(1, b, 255), core.ispow2(b)]

    def track(self, m, number, name=None, program=None, is_drum=None):
        self.asked = (number, name, program, is_drum)
        return Track(self, number)

    def events(self, name, fields, pre):
        drum = z3.Function(name + "_drum", I, BOOL)
        l, s = things(name, fields, pre=pre)

        def row(i):
            x = s.value(i)
            t = Thing(program=x.program, is_drum=wrap(drum(i)), name=Tok("name of", (x.idx,)))
            return t, x.idx, x, x.seq
        seg = Seg(s.space, lists.always, row, s.facts)
        self.given[name] = seg
        by_contract(self.cls, name, lambda m, d: self.walk(name, m, d, seg), "MidiReader." + name, static=True)

    def walk(self, name, m, d, seg):
        self.done.append((name, m, d))
        return SymList([seg])


def reads(w, source, what):
    p = Reading(w, source)
    if not returns("%s is read" % what, p.o):
        return
    names = [k for k, m, d in p.done]
    for k in ("read_key_signature", "read_tempo_changes", "read_time_signature", "read_instrument", "read_instrument_pitch_bends",
              "read_instrument_control_changes"):
        ensure("%s runs once (%s)" % (k, what), names.count(k) == 1)
    ensure("all of them go to the collection that is returned (%s)" % what, all(m is p.m and d is p.decoded for k, m, d in p.done))
    ensure("meters are known before the notes (%s)" % what, names.index("read_time_signature") < names.index("read_instrument"))
    ensure("the file given is decoded, once (%s)" % what, len(p.opened) == 1 and p.opened[0] is source)
    ensure("the collection has the resolution of the file (%s)" % what, eq(p.m.resolution, p.res))
    for name, got, row in (
            ("notes", p.notes, lambda r: (r[3], r[2].pitch, r[2].start, r[2].end, r[2].velocity, r[0].program, r[0].program, r[0].is_drum,
                                          wrap(p.num(num(r[2].start))), wrap(p.den(num(r[2].start))), False)),
            ("bends", p.bends, lambda r: (r[3], r[2].pitch, r[2].time, r[0].program, r[1], r[0].is_drum)),
            ("controls", p.controls, lambda r: (r[3], r[2].number, r[2].value, r[2].time, r[0].program, r[1], r[0].is_drum))):
        seg = p.given[dict(notes="read_instrument", bends="read_instrument_pitch_bends", controls="read_instrument_control_changes")[name]]
        rows_equal("every %s, in order, in its track and with its values (%s)" % (name[:-1], what), got, seg, row)


@contract("F01", "MidiReader.read (name of a file)")
def f01_read_name(w):
    reads(w, "some.mid", "the name of a file")


@contract("F01", "MidiReader.read (bytes)")
def f01_read_bytes(w):
    reads(w, b"some", "a name in bytes")


@contract("F01", "MidiReader.read (anything else)")
def f01_read_other(w):
    for v in (None, 3, [], Thing()):
        p = Reading(w, v)
        refuses("what is no file is refused", p.o)
        ensure("nothing is opened", not p.opened)
