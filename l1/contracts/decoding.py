"""Contracts of the decoder of MIDI files (F01, Q01)."""
from .base import *
from pyvc.lists import SymList, Tok, Elem, Seg, Space
from pyvc import stubs
from .listspec import *
from .reading import Thing, same_parts, rows_equal

I, R, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
KINDS = ("set_tempo", "key_signature", "time_signature", "lyrics", "track_name", "program_change", "note_on", "note_off", "pitchwheel",
         "control_change", "end_of_track", "anything else")


def module(w):
    return w.load(PKG + "custom_pretty_midi")


class Kind:
    """the type of an event"""
    __pv_opaque__ = True

    def __init__(self, code):
        self.code = code

    def __eq__(self, o):
        if isinstance(o, str):
            return eq(self.code, KINDS.index(o) if o in KINDS else -1)
        return NotImplemented

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None


class Events:
    """the events of a track, at ticks in order"""

    def __init__(self, fields, pre=None, size=None):
        e = E()
        self.n = e.int("events", 0)
        self.space = Space(num(self.n), "events")
        e.keep.append(self.space)
        self.T, self.K = z3.Function("tick_of_event", I, I), z3.Function("kind_of_event", I, I)
        self.f = {k: z3.Function("event_" + k, I, s) for k, s in fields.items()}
        self.made = {}

        def facts(i):
            x = self.at(i)
            out = [self.T(i) >= 0, self.K(i) >= 0, self.K(i) < len(KINDS)] + [boo(c) for c in (pre(x) if pre else [])]
            return out + ([self.T(i) < num(size)] if size is not None else [])
        self.seg = Seg(self.space, lists.always, self.at, facts)
        n = num(self.n)
        e.forall(self.space, lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(*[boo(wrap(c)) for c in facts(i)])), "the events")
        e.forall2(self.space, lambda i, j: z3.Implies(z3.And(i >= 0, i <= j, j < n), self.T(i) <= self.T(j)), "events in order")
        self.list = SymList([self.seg])

    def at(self, i):
        t = z3.simplify(i)
        if t.get_id() not in self.made:
            x = Thing(time=wrap(self.T(t)), type=Kind(wrap(self.K(t))), **{k: wrap(f(t)) for k, f in self.f.items()})
            self.made[t.get_id()] = x, t
        return self.made[t.get_id()][0]


def decoder(w):
    cls = module(w).CustomPrettyMIDI
    return cls.__new__(cls)


# ------------------------------------------------------------------ tempi
class Tempi(rt.Invariant):
    """of the events before k: the last entry of the map is the tempo in force"""

    def __init__(self, p):
        self.p, self.ready = p, False

    def match(self, seg, cells):
        if self.ready or seg.space is not self.p.events.space:
            return False
        self.list = self.p.m._tick_scales
        self.ready = isinstance(self.list, SymList)
        return self.ready

    def modifies(self):
        return [rt.Loc("list", self.list, None), rt.Loc("attr", self.p.m, "_tick_scales")]

    def havoc(self, k):
        p, e = self.p, E()
        self.k, k = wrap(num(k)), num(k)
        self.earlier = Space(num(e.int("earlier", 0)), "earlier%d" % len(e.keep))
        e.keep.append(self.earlier)
        s, c = z3.Function("earlier_tick", I, I), z3.Function("earlier_scale", I, R)
        self.tick = e.int("last_tick", 0)
        self.given = [Seg(self.earlier, lists.always, lambda i: (wrap(s(i)), wrap(c(i))))]
        self.list.segs = self.given + [Elem((self.tick, wrap(p.RATE(k))))]
        rt.R.note_attr(p.m, "_tick_scales")
        p.m._tick_scales = self.list
        p.events.space.use(z3.simplify(k - 1))
        p.step(k)
        e.add(Or(eq(wrap(self.earlier.n), 0), self.tick > 0))
        e.add(Or(eq(self.tick, 0), And(wrap(k >= 1), self.tick <= wrap(p.events.T(k - 1)))))

    def check(self, k, when):
        p = self.p
        l = p.m._tick_scales
        if isinstance(k, int):
            l = SymList(segs_of(l))
            if ensure("before the first event there is one tempo", eq(rt._len(l), 1)):
                ensure("which is 120 from tick 0", And(eq(l[0][0], 0), eq(l[0][1], wrap(p.RATE(z3.IntVal(0))))))
            return
        e = E()
        i = num(self.k)
        p.events.space.use(i)
        p.step(i)
        x = p.events.at(i)
        segs = segs_of(l)
        now = wrap(p.RATE(i + 1))
        tempo = x.type == "set_tempo"
        if e.branch(boo(And(tempo, eq(x.time, 0)))):
            if ensure("a tempo at the start is the only one, %s" % when, len(segs) == 1 and isinstance(segs[0], Elem)):
                ensure("it holds from tick 0, %s" % when, And(eq(segs[0].v[0], 0), eq(segs[0].v[1], now)))
            return
        if not ensure("the tempi before stay, %s" % when, len(segs) >= 2 and same_parts(segs[:1], self.given) and isinstance(segs[1], Elem)):
            return
        ensure("and so does the last, %s" % when, And(eq(segs[1].v[0], self.tick), eq(segs[1].v[1], wrap(p.RATE(i)))))
        changes = And(tempo, Not(eq(now, wrap(p.RATE(i)))))
        if e.branch(boo(changes)):
            if ensure("another tempo is one more entry, %s" % when, len(segs) == 3 and isinstance(segs[2], Elem)):
                ensure("from the tick of the event on, %s" % when, And(eq(segs[2].v[0], x.time), eq(segs[2].v[1], now)))
        else:
            ensure("without another tempo there is no entry, %s" % when, len(segs) == 2)


class TempoEvents:
    def __init__(self, w):
        e = E()
        nocase()
        self.events = Events(dict(tempo=I), pre=lambda x: [x.tempo >= 1])
        self.res = e.int("resolution", 1)
        self.RATE = z3.Function("scale_in_force", I, R)
        e.fact(self.RATE(0) == num(self.scale(500000)))
        self.m = decoder(w)
        self.m.resolution = self.res
        rt.R.stamp(self.m)

    def scale(self, tempo):
        """seconds per tick for so many millionths of a second per quarter note"""
        return rt._float(tempo) / (rt._float(self.res) * 1000000)

    def step(self, i):
        x = self.events.at(i)
        E().fact(z3.Implies(z3.And(i >= 0, i < num(self.events.n)), self.RATE(i + 1) == z3.If(boo(x.type == "set_tempo"), num(self.scale(x.tempo)),
                                                                                           self.RATE(i))))


@contract("Q01", "CustomPrettyMIDI._load_tempo_changes")
def q01_tempi(w):
    p = TempoEvents(w)
    inv = Tempi(p)
    E().invariants.append(inv)
    o = outcome(p.m._load_tempo_changes, Thing(tracks=[p.events.list]))
    if not returns("the tempi of a file can be read", o):
        return
    if not inv.ready:
        raise Unsupported("the loop over the events was not found")
    l = SymList(segs_of(p.m._tick_scales))
    ensure("the last entry is the tempo in force at the end", eq(l[-1][1], wrap(p.RATE(num(p.events.n)))))


# ------------------------------------------------------------------ keys, meters, words
def timed(w, size):
    """a decoder that knows the times of its ticks"""
    m = decoder(w)
    e = E()
    time = z3.Function("time_of_tick", I, R)
    m.tick_times = stubs.Arr(SymList([Seg(Space(num(size), "ticks"), lists.always, lambda t: wrap(time(t)), None)]))
    return m, lambda t: wrap(time(num(t)))


def made(mod, *names):
    """what the library constructs: its kind and its arguments"""
    for n in names:
        setattr(mod, n, lambda *a, n=n: (n,) + a)


@contract("F01", "CustomPrettyMIDI._load_metadata")
def f01_metadata(w):
    e = E()
    nocase()
    size = e.int("ticks", 1)
    ev = Events(dict(key=I, numerator=I, denominator=I, text=I), size=size)
    m, time = timed(w, size)
    mod = module(w)
    made(mod, "KeySignature", "TimeSignature", "Lyric")
    number = z3.Function("number_of_key", I, I)
    e.trust("pretty_midi.key_name_to_key_number is a function of the name")
    mod.key_name_to_key_number = lambda k: wrap(number(num(k)))
    o = outcome(m._load_metadata, Thing(tracks=[ev.list]))
    if not returns("the keys, meters and words of a file can be read", o):
        return
    for what, kind, got, row in (
            ("key", "key_signature", m.key_signature_changes, lambda x: ("KeySignature", wrap(number(num(x.key))), time(x.time))),
            ("meter", "time_signature", m.time_signature_changes, lambda x: ("TimeSignature", x.numerator, x.denominator, time(x.time))),
            ("word", "lyrics", m.lyrics, lambda x: ("Lyric", x.text, time(x.time)))):
        seg = Seg(ev.space, lambda i: boo(ev.at(i).type == kind), ev.at, ev.seg.facts)
        rows_equal("every %s of the first track, in order, at the time of its tick" % what, got, seg, row)


# ------------------------------------------------------------------ notes
class Sounding:
    """the notes that sound: for each channel and pitch where they began, and how loud"""
    __pv_opaque__ = True

    def __init__(self, key, there, notes):
        self.key, self.there, self.notes = key, there, notes
        self.kept, self.removed = None, False

    def mine(self, key):
        ensure("the notes of the channel and pitch are meant", And(eq(key[0], self.key[0]), eq(key[1], self.key[1])))

    def __contains__(self, key):
        self.mine(key)
        return self.there

    def __getitem__(self, key):
        self.mine(key)
        return self.notes

    def __setitem__(self, key, v):
        self.mine(key)
        self.kept = v

    def __delitem__(self, key):
        self.mine(key)
        self.removed = True


class Closing:
    """a decoder, an event at which notes end, and the instruments by their contract"""

    def __init__(self, w):
        e = E()
        nocase()
        size = e.int("ticks", 1)
        self.m, self.time = timed(w, size)
        self.size = size
        self.end, self.channel, self.note = e.int("end", 0), e.int("channel", 0, 15), e.int("note", 0, 127)
        e.add(self.end < size)
        self.event = Thing(channel=self.channel, note=self.note, time=self.end)
        prog = z3.Function("program_of_channel", I, I)
        self.program = lambda c: wrap(prog(num(c)))
        self.programs = Programs(self.program)
        self.track = e.int("track", 0)
        made(module(w), "Note")
        self.added = rt.VList()

    def instrument(self, program, channel, track, create):
        ensure("the instrument is made if it is not there", boo(wrap(create)) if not isinstance(create, (bool, int)) else bool(create))
        return Thing(notes=Adding(self.added, (program, channel, track)))


class Adding:
    """the notes of an instrument; what is added is recorded with the instrument"""
    __pv_opaque__ = True

    def __init__(self, out, who):
        self.out, self.who = out, who

    def append(self, n):
        self.out.append(self.who + n)


class Programs:
    """the program of each channel"""
    __pv_opaque__ = True

    def __init__(self, f):
        self.f = f

    def __getitem__(self, c):
        return self.f(c)


@contract("F01", "CustomPrettyMIDI._note_off_event")
def f01_note_off(w):
    """the notes of a channel and pitch that began before end here, and only those"""
    e = E()
    p = Closing(w)
    n = e.int("open", 1)
    sp = Space(num(n), "open")
    S, V = z3.Function("began", I, I), z3.Function("velocity", I, I)
    known = lambda i: z3.And(S(i) >= 0, S(i) <= num(p.end))
    e.forall(sp, lambda i: z3.Implies(z3.And(i >= 0, i < num(n)), known(i)), "notes began before")
    seg = Seg(sp, lists.always, lambda i: (wrap(S(i)), wrap(V(i))))
    there = e.bool("there")
    on = Sounding((p.channel, p.note), there, SymList([seg]))
    o = outcome(p.m._note_off_event, p.event, on, p.instrument, p.programs, p.track)
    if not returns("notes can end", o):
        return
    if not e.branch(boo(there)):
        ensure("nothing ends where nothing sounds", not p.added.segs and on.kept is None and not on.removed)
        return
    ends = Seg(sp, lambda i: z3.Not(S(i) == num(p.end)), seg.value)
    rows_equal("every note that began before ends here, in the instrument of its channel's program", p.added, ends, lambda v: (
        p.program(p.channel), p.channel, p.track, "Note", v[1], p.note, p.time(v[0]), p.time(p.end)))
    stays = SymList([Seg(sp, lambda i: S(i) == num(p.end), seg.value)])
    if on.kept is not None:
        ensure("what began here is kept", not on.removed)
        equal_lists("what began here goes on", on.kept, stays, same)
    elif on.removed:
        equal_lists("nothing goes on", SymList([]), stays, same)
    else:
        ensure("notes that ended are dropped", False)


class AllSounding:
    """all notes that sound, in any number"""
    __pv_opaque__ = True

    def __init__(self, items):
        self.all, self.removed = items, rt.VList()

    def items(self):
        return self.all

    def __delitem__(self, key):
        self.removed.append(key)


def finishing(w, final):
    e = E()
    p = Closing(w)
    n = e.int("sounding", 0)
    sp = Space(num(n), "sounding")
    C, N, S, V = (z3.Function("sounding_" + k, I, I) for k in ("channel", "note", "tick", "velocity"))
    e.forall(sp, lambda i: z3.Implies(z3.And(i >= 0, i < num(n)), z3.And(
        C(i) >= 0, C(i) <= 15, N(i) >= 0, N(i) <= 127, S(i) >= 0, S(i) <= num(p.end))), "notes began before")

    def value(i):
        return (wrap(C(i)), wrap(N(i))), SymList([Elem((wrap(S(i)), wrap(V(i))))])
    seg = Seg(sp, lists.always, value)
    on = AllSounding(SymList([seg]))
    o = outcome(p.m._finish_notes, p.event, on, p.instrument, p.programs, p.track, *([True] if final else []))
    if not returns("notes can end", o):
        return
    what = "at the end of the track" if final else "at a new note"
    ends = Seg(sp, lambda i: z3.BoolVal(True) if final else S(i) < num(p.end), seg.value)
    rows_equal("every note that began before ends %s" % what, p.added, ends, lambda v: (
        p.program(v[0][0]), v[0][0], p.track, "Note", v[1][0][1], v[0][1], p.time(v[1][0][0]), p.time(p.end)))
    rows_equal("what ended no longer sounds %s" % what, on.removed, ends, lambda v: v[0])


@contract("F01", "CustomPrettyMIDI._finish_notes (new note)")
def f01_finish(w):
    finishing(w, False)


@contract("F01", "CustomPrettyMIDI._finish_notes (end of track)")
def f01_finish_all(w):
    finishing(w, True)


# ------------------------------------------------------------------ the instruments
def serial():
    e = E()
    e.keep.append(None)
    return len(e.keep)


class Held:
    """an instrument of the decoder: what it holds"""
    __pv_opaque__ = True

    def __init__(self, p, what):
        self.p, self.what = p, what
        self.notes, self.pitch_bends, self.control_changes = Bag(self, "notes"), Bag(self, "bends"), Bag(self, "controls")


class Bag:
    """a list of an instrument; what is added to it is noted"""
    __pv_opaque__ = True

    def __init__(self, of, kind):
        self.of, self.kind = of, kind

    def append(self, v):
        self.of.p.added.append((self, v))


class Table:
    """a table with any entries: what is asked is answered in any way, what is set is noted"""
    __pv_opaque__ = True

    def __init__(self, p, name, width):
        self.p, self.name, self.width = p, name, width
        self.forget()

    def forget(self):
        self.sets, self.seen = [], []
        self.there = z3.Function("%s_has%d" % (self.name, serial()), *[I] * self.width, BOOL)

    def key(self, k):
        if not isinstance(k, tuple) or len(k) != self.width or not all(is_num(x) for x in k):
            raise Unsupported("another kind of key")
        if self.sets:
            raise Unsupported("a look after a change")
        return k

    def has(self, k):
        return wrap(self.there(*[num(x) for x in k]))

    def __contains__(self, k):
        return self.has(self.key(k))

    def __getitem__(self, k):
        k = self.key(k)
        if not E().branch(boo(self.has(k))):
            raise KeyError(k)
        for q, x in self.seen:
            if all(num(a).eq(num(b)) for a, b in zip(q, k)):
                return x
        x = Held(self.p, (self.name, k))
        self.seen.append((k, x))
        return x

    def get(self, k, d=None):
        return self[k] if self.__contains__(k) else d

    def __setitem__(self, k, v):
        self.sets.append((self.key(k), v))

    def values(self):
        return self.p.everything


class Names:
    """the name of each track"""
    __pv_opaque__ = True

    def __init__(self, p):
        self.p = p

    def __getitem__(self, k):
        return Tok("name of track", (k,))

    def __setitem__(self, k, v):
        self.p.named.append((k, v))


class Channels:
    """the program of each channel: 0 when a track begins"""
    __pv_opaque__ = True

    def __init__(self, p):
        self.p, self.sets, self.f = p, [], None

    def forget(self):
        f = z3.Function("program_now%d" % serial(), I, I)
        self.sets, self.f = [], lambda c: wrap(f(num(c)))

    def __getitem__(self, c):
        if self.sets:
            raise Unsupported("a look after a change")
        return self.f(c) if self.f else 0

    def __setitem__(self, c, v):
        self.sets.append((c, v))


class Begun:
    """the notes that sound: what is added is noted"""
    __pv_opaque__ = True

    def __init__(self, p):
        self.p, self.adds = p, []

    def forget(self):
        self.adds = []

    def __getitem__(self, k):
        return Thing(append=lambda v: self.adds.append((k, v)))


class Loading:
    """reading any tracks of any events"""

    def __init__(self, w):
        e = E()
        nocase()
        e.assumption("within one event a table of the decoder is not looked into after it changed (else: not decided)")
        self.size = e.int("ticks", 1)
        self.m, self.time = timed(w, self.size)
        self.m.drum_channel = e.int("drum_channel", 0, 15)
        self.n = e.int("tracks", 0)
        self.space = Space(num(self.n), "tracks")
        self.events = {}
        self.midi = Thing(tracks=SymList([Seg(self.space, lists.always, lambda i: self.track(i).list)]))
        self.added, self.named, self.created, self.ended = [], [], [], []
        self.everything = SymList([Seg(Space(num(e.int("instruments", 0)), "instruments"), lists.always, lambda i: Tok("instrument", (wrap(i),)))])
        self.maps, self.begun, self.programs = [], None, None
        self.stragglers = None
        mod = module(w)
        mod.collections = Thing(OrderedDict=self.table, defaultdict=self.default)
        mod.np = Thing(zeros=self.zeros, int32=int)
        mod.Instrument = self.create
        made(mod, "PitchBend", "ControlChange")
        cls = mod.CustomPrettyMIDI
        by_contract(cls, "_finish_notes", self.finish, "F01 CustomPrettyMIDI._finish_notes")
        by_contract(cls, "_note_off_event", lambda *a: self.ended.append(("off",) + a[1:]), "F01 CustomPrettyMIDI._note_off_event")

    def table(self):
        self.maps.append(Table(self, "instrument", 3))
        return self.maps[-1]

    def default(self, f):
        if isinstance(f(), str):
            return Names(self)
        self.begun = Begun(self)
        return self.begun

    def zeros(self, n, **k):
        ensure("each of the 16 channels has a program", n == 16)
        self.programs = Channels(self)
        return self.programs

    def create(self, *a):
        x = Held(self, ("new", a))
        self.created.append(x)
        return x

    def finish(self, m, event, begun, get, programs, track, end_of_seq=False):
        self.ended.append(("finish", event, begun, get, programs, track, end_of_seq))

    def track(self, i):
        t = z3.simplify(i)
        if t.get_id() not in self.events:
            self.events[t.get_id()] = Events(dict(channel=I, program=I, note=I, velocity=I, pitch=I, control=I, value=I), size=self.size, pre=lambda x: [
                between(0, x.channel, 15), between(0, x.velocity, 127), between(0, x.note, 127)]), t
            ev = self.events[t.get_id()][0]
            at = ev.at

            def named(i):
                x = at(i)
                x.__dict__.setdefault("name", Tok("text", (x.time,)))
                return x
            ev.at = ev.seg.value_ = named
        return self.events[t.get_id()][0]

    def getter(self, cells):
        """what finds or makes an instrument, and the tables it uses"""
        for c in cells.values():
            f = rt.cell_get(c)
            cl = getattr(f, "__closure__", None) or ()
            inside = [rt.cell_get(x) for x in cl]
            plain = [x for x, v in zip(cl, inside) if isinstance(v, rt.VDict)]
            if any(v is x for v in inside for x in self.maps) and len(plain) == 1:
                return f, plain[0]
        return None

    def forget(self):
        self.added[:], self.named[:], self.created[:], self.ended[:] = [], [], [], []
        for t in self.maps + [self.stragglers]:
            t.forget()


class ByTrack(rt.Invariant):
    def __init__(self, p):
        self.p, self.ready = p, False

    def match(self, seg, cells):
        p = self.p
        if self.ready or seg.space is not p.space or len(p.maps) != 1:
            return False
        g = p.getter(cells)
        if g is None:
            return False
        self.get, self.cell = g
        self.ready = True
        return True

    def modifies(self):
        return []

    def havoc(self, k):
        p = self.p
        if p.stragglers is None:
            p.stragglers = Table(p, "straggler", 2)
            rt.cell_set(self.cell, p.stragglers)
        self.k = num(k)
        p.forget()
        p.begun = p.programs = None

    def check(self, k, when):
        p = self.p
        if isinstance(k, int):
            ensure("nothing is there before the first track", not p.maps[0].sets and rt._len(rt.cell_get(self.cell)) == 0 and not p.created)
            return
        if not p.inner.ready:
            raise Unsupported("the loop over the events was not found")


class OneEvent(rt.Invariant):
    def __init__(self, p):
        self.p, self.ready = p, False

    def match(self, seg, cells):
        p = self.p
        if not p.outer.ready or seg.space is not p.track(p.outer.k).space or p.begun is None or p.programs is None:
            return False
        self.ready = True
        return True

    def modifies(self):
        return []

    def havoc(self, k):
        p = self.p
        self.k = num(k)
        p.forget()
        p.begun.forget()
        p.programs.forget()

    def check(self, k, when):
        p, e = self.p, E()
        tr = wrap(p.outer.k)
        if isinstance(k, int):
            ensure("a track begins with program 0 on each channel and no note sounding", p.programs.f is None and not p.programs.sets and
                   not p.begun.adds)
            return
        x = p.track(p.outer.k).at(self.k)
        is_ = lambda *kinds: Or(*[x.type == q for q in kinds])
        case = 0
        for q, c in enumerate((is_("program_change"), And(is_("note_on"), x.velocity > 0), Or(is_("note_off"), And(is_("note_on"), eq(x.velocity, 0))),
                               is_("pitchwheel"), is_("control_change"), is_("end_of_track"))):
            if e.branch(boo(c)):
                case = q + 1
                break
        sets = p.programs.sets
        if case == 1:
            ensure("a program change sets the program of its channel, %s" % when, len(sets) == 1 and eq(sets[0][0], x.channel) is not False and
                   boo_of(And(eq(sets[0][0], x.channel), eq(sets[0][1], x.program))))
        else:
            ensure("no other event sets a program, %s" % when, not sets)
        want = {2: ("finish", False), 3: ("off", None), 6: ("finish", True)}.get(case)
        if want is None:
            ensure("no other event ends notes, %s" % when, not p.ended)
        elif ensure("notes end once, %s" % when, len(p.ended) == 1):
            a = p.ended[0]
            ensure("the right notes end, %s" % when, a[0] == want[0] and a[1] is x and a[2] is p.begun and a[4] is p.programs)
            ensure("in the right track, %s" % when, eq(a[5], tr))
            if want[0] == "finish":
                ensure("all at the end of the track, else those that began before, %s" % when, bool(a[6]) == want[1])
        if case == 2:
            if ensure("a note begins, %s" % when, len(p.begun.adds) == 1):
                (c, n), (t, v) = p.begun.adds[0]
                ensure("on its channel and pitch, at its tick and as loud as it says, %s" % when, And(
                    eq(c, x.channel), eq(n, x.note), eq(t, x.time), eq(v, x.velocity)))
        else:
            ensure("no other event begins a note, %s" % when, not p.begun.adds)
        if case not in (4, 5):
            ensure("no other event adds to an instrument, %s" % when, not p.added and not p.created and not p.maps[0].sets and not p.stragglers.sets)
            return
        if not ensure("a bend or control change is kept once, %s" % when, len(p.added) == 1):
            return
        bag, v = p.added[0]
        bend = case == 4
        ensure("as what it is, %s" % when, bag.kind == ("bends" if bend else "controls"))
        want = ("PitchBend", x.pitch, p.time(x.time)) if bend else ("ControlChange", x.control, x.value, p.time(x.time))
        ensure("with its value and time, %s" % when, len(v) == len(want) and v[0] == want[0] and boo_of(And(*[eq(a, b) for a, b in zip(
            v[1:], want[1:])])))
        key, key2 = (p.programs.f(x.channel), x.channel, tr), (x.channel, tr)
        what, of = bag.of.what
        ensure("no instrument of the file is made for it, %s" % when, not p.maps[0].sets)
        if e.branch(boo(p.maps[0].has(key))):
            ensure("in the instrument of its program, channel and track, %s" % when, what == "instrument" and boo_of(And(*[eq(a, b) for a, b in zip(
                of, key)])))
            ensure("nothing else is made, %s" % when, not p.created and not p.stragglers.sets)
        elif e.branch(boo(p.stragglers.has(key2))):
            ensure("else with what waits for an instrument of its channel and track, %s" % when, what == "straggler" and boo_of(And(
                *[eq(a, b) for a, b in zip(of, key2)])))
            ensure("nothing else is made, %s" % when, not p.created and not p.stragglers.sets)
        else:
            s = p.stragglers.sets
            ensure("else it begins to wait, %s" % when, what == "new" and len(s) == 1 and s[0][1] is bag.of and boo_of(And(
                *[eq(a, b) for a, b in zip(s[0][0], key2)])))


def boo_of(c):
    return c


def loading(w):
    p = Loading(w)
    p.outer, p.inner = ByTrack(p), OneEvent(p)
    E().invariants += [p.outer, p.inner]
    o = outcome(p.m._load_instruments, p.midi)
    return p, o


@contract("F01", "CustomPrettyMIDI._load_instruments")
def f01_instruments(w):
    p, o = loading(w)
    if not returns("instruments can be read", o):
        return
    if not p.outer.ready:
        raise Unsupported("the loop over the tracks was not found")
    equal_lists("all of them are there, in the order they were made", p.m.instruments, p.everything, same)


@contract("F01", "CustomPrettyMIDI._load_instruments (the instrument of an event)")
def f01_instrument(w):
    """what finds or makes an instrument, called in any state"""
    p, o = loading(w)
    e = E()
    if not p.outer.ready or p.stragglers is None:
        raise Unsupported("what makes an instrument was not found")
    p.forget()
    t = p.maps[0]
    prog, ch, tr = e.int("program", 0, 127), e.int("channel", 0, 15), wrap(p.outer.k)
    o = outcome(p.outer.get, prog, ch, tr, 1)
    if not returns("there is an instrument", o):
        return
    x = o.value
    if e.branch(boo(t.has((prog, ch, tr)))):
        ensure("one that was made before is used", x.what[0] == "instrument" and boo_of(And(*[eq(a, b) for a, b in zip(x.what[1], (prog, ch, tr))])))
        ensure("no other is made", not p.created and not t.sets and not p.stragglers.sets)
        return
    if not ensure("else one is made", len(p.created) == 1 and x is p.created[0] and len(t.sets) == 1 and t.sets[0][1] is x):
        return
    ensure("for its program, channel and track", And(*[eq(a, b) for a, b in zip(t.sets[0][0], (prog, ch, tr))]))
    a = x.what[1]
    ensure("with its program", len(a) == 3 and eq(a[0], prog))
    ensure("a drum instrument on the drum channel alone", Iff(a[1], eq(ch, p.m.drum_channel)))
    if e.branch(boo(p.stragglers.has((ch, tr)))):
        s = p.stragglers[(ch, tr)]
        ensure("it takes what waited for it", x.pitch_bends is s.pitch_bends and x.control_changes is s.control_changes)
    else:
        ensure("it begins empty", x.pitch_bends.of is x and x.control_changes.of is x)
