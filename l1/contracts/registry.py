"""Contracts of the registry of tracks of a collection (R01..R03)."""
from .base import *
from pyvc.lists import num_list
from .listspec import *
from .coll import coll_mod
from .dicts import well_formed, maps, ABSENT, distinct
from .seqs import Seqn, info, notes_list, row, seq_mod, note_spec, NOTE_FIELDS, end_of, ordered_notes, lex
import copy


def seq_cls(w):
    return seq_mod(w).MidiNoteSequence


class Registry:
    """a collection with any tracks; of the sequences only the identity is known"""

    def __init__(self, w, name="m", empty=False, fields=None):
        e = E()
        self.m = m = coll_mod(w).MidiNoteSequences()
        self.empty = empty
        self.n = 0
        if empty:
            return
        n = e.int("len." + name, 0)
        obj = lists.opaque_objects(seq_cls(w), "sequence", "s_" + name, fields)
        self.base = rt.Base(name, n.t, z3.IntSort(), obj)
        idx = copy.copy(self.base)
        idx.name, idx.value_, idx.order = name + "_idx", lambda i: self.base.key(i), None
        d = w.load(PKG + "midi.sorted_dict").SortedDict()
        sg = self.base.seg
        d._base, d._keys = self.base, SymList([sg])
        e.forall2(self.base.space, lambda i, j: z3.Implies(i < j, boo(sg.value(i) < sg.value(j))), "increasing")
        if not hasattr(m, "_MidiNoteSequences__midi_tracks") or not isinstance(m._track_to_idx, rt.VDict):
            raise Unsupported("the tracks are kept in another way")
        m._MidiNoteSequences__midi_tracks = d
        m._track_to_idx._base = idx
        self.n = n

    def had(self, t):
        return self.base.at(t)[0] if not self.empty else False

    def old(self, t):
        """the sequence of the track before, decided on this path"""
        if self.empty or not E().branch(boo(self.had(t))):
            return ABSENT
        return self.base.value(self.base.at(t)[1])

    def rows(self):
        return [] if self.empty else lists.Rows(SymList([self.base.seg]), lambda v: v)


def new_track(n, w, s, program, name, drum, res):
    """s is a new empty sequence with the given instrument"""
    if not ensure(n, isinstance(s, seq_cls(w)) and not is_view(s)):
        return
    i = s.instrument
    ensure(n + ", empty", eq(rt._len(s.notes), 0))
    ensure(n + ", with the given instrument", And(eq(i.instrument_num, program), i.is_drum == drum if name is None else
                                                  And(i.is_drum == drum, lists.deep_eq(i.name, name))))
    ensure(n + ", with the resolution of the collection", eq(s.resolution, res))


OPS = ["create", "get", "index", "assign", "set", "assign_list", "set_list"]


def r01_op(w, op):
    e = E()
    start = e.choose(["any", "none"])
    s = Registry(w, empty=start == "none")
    m = s.m
    t, p, q = e.int("t"), e.int("p"), e.int("q", 0, 127)
    drum = e.choose([False, True])
    case("one use", keys=s.rows(), op=op, t=t, p=p, drum=drum, q=q)
    inside = e.branch(boo(between(0, t, 127)))
    if op == "create" and not inside:
        return
    program = e.branch(boo(between(0, p, 127)))
    was = s.old(t)
    new = None
    if op == "create":
        o = outcome(m.create_track, t, p, "name", drum)
        bad = not program
    elif op == "get":
        o = outcome(m.get_track, t, "name", p, drum)
        bad = not inside or (was is ABSENT and not program)
    elif op == "index":
        o = outcome(lambda: m[t])
        bad = not inside
    else:
        if op.endswith("list"):
            new = notes_list(w, "given", 0, False)
        else:
            new = seq_cls(w)(instrument=info(w, e.int("inst", 0, 127), drum))
        o = outcome(m.set_sequence, t, new) if op.startswith("set") else outcome(lambda: m.__setitem__(t, new))
        bad = not inside
    if bad:
        refuses("numbers out of range are refused", o)
        now = was
        if not o.refused():
            return
    else:
        if not returns("a valid use is carried out", o):
            return
        if op == "create":
            ensure("creating gives the number", eq(o.value, t))
        now = m[t]
        if op in ("get", "index"):
            ensure("fetching gives the sequence of the track", lists.same_object(o.value, now))
        if op in ("create", "get", "index"):
            if was is not ABSENT:
                ensure("a track that is present keeps its sequence", lists.same_object(now, was))
            elif op == "index":
                new_track("a track indexed first is a new sequence", w, now, t, None, False, m.resolution)
            else:
                new_track("a new track is a new sequence", w, now, p, "name", drum, m.resolution)
        elif op.endswith("list"):
            ensure("an assigned list becomes a sequence", isinstance(now, seq_cls(w)))
            equal_lists("an assigned list becomes a sequence of its notes", now.notes, new, lists.same_object)
        else:
            ensure("assigning sets the sequence of the track", now is new)
    ensure("the number of tracks follows", eq(rt._len(m), s.n + (1 if was is ABSENT and now is not ABSENT else 0)))
    # every other track
    listed = e.choose([True, False]) if not op.endswith("list") else False
    if e.branch(boo(eq(q, t))):
        other = now
        if not listed:
            return
    else:
        other = s.old(q)
    if listed:
        ks = SymList(segs_of(rt._iter(m)))
        if other is ABSENT:
            each("no other track appears", ks, lambda k: Not(eq(k, q)))
        else:
            some("no track is lost", ks, lambda k: eq(k, q))
    elif other is ABSENT:
        new_track("another track that was missing still is: indexing it gives a new sequence", w, m[q], q, None, False, m.resolution)
    else:
        o = outcome(lambda: (m[q], m.get_track(q, "other", 1, True), m.create_track(q, 1, "other", True), m[q]))
        if returns("another track can still be used", o):
            for x in (0, 1, 3):
                ensure("another track keeps its sequence", lists.same_object(o.value[x], other))


NAMES = dict(create="create_track", get="get_track", index="__getitem__", assign="__setitem__", set="set_sequence",
             assign_list="__setitem__ with a list", set_list="set_sequence with a list")
for _o in OPS:
    contract("R01", "MidiNoteSequences." + NAMES[_o])(lambda w, op=_o: r01_op(w, op))


@contract("R01", "refusal of wrong kinds")
def r01_kinds(w):
    e = E()
    s = Registry(w)
    m = s.m
    t, q = e.int("t", 0, 127), e.int("q", 0, 127)
    k = e.choose(list(range(7)))
    nocase()
    was, n = s.old(q), s.n
    f = [lambda: m["a"], lambda: m[1.5], lambda: m.__setitem__(t, 5), lambda: m.__setitem__("a", seq_cls(w)()),
         lambda: m.create_track(t, 1.5, "a", False), lambda: m.create_track(t, 1, 5, False),
         lambda: m.create_track(t, 1, "a", 5)][k]
    refuses("an argument of a wrong kind is refused", outcome(f))
    ensure("a refused use adds no track", eq(rt._len(m), n))
    if was is not ABSENT:
        ensure("a refused use changes no track", lists.same_object(m[q], was))


# --------------------------------------------------------------------- R02
class Merges:
    """calls of merge by its contract: afterwards the sequence has some list of notes
    in order, of which it is known whose notes it holds"""

    def __init__(self, w):
        self.w, self.made = w, {}
        by_contract(seq_cls(w), "merge", self.spec, "S02 MidiNoteSequence.merge")

    def spec(self, a, b):
        if type(a) is not type(b):
            raise ValueError("other kinds")
        if a.instrument != b.instrument or a.resolution != b.resolution:
            raise ValueError("other instruments")
        a.validate_instrument()
        b.validate_instrument()
        parts = self.parts(a.notes) + self.parts(b.notes)
        r = notes_list(self.w, "merged%d" % len(self.made), a.instrument.instrument_num, a.instrument.is_drum)
        assume_ordered(r, lex)
        self.made[r.segs[0].space] = parts
        a.notes = r
        a._adjust_total_time()

    def parts(self, l):
        """the segments of the given sequences that make up a list, when it is known"""
        out = []
        for s in segs_of(l):
            out += self.made.get(getattr(s, "space", None), [s])
        return out


PATTERNS = ["", "a", "ab", "aa", "aba", "aab", "abb", "aaa", "abc"]


def r02_build(w, pattern):
    e = E()
    ordered_notes(w)
    merges = Merges(w) if len(pattern) > 2 else None
    inst, seqs = {}, []
    for k, c in enumerate(pattern):
        if c not in inst:
            inst[c] = e.int("inst_" + c, 0, 127)
            for d in inst:
                if d != c:
                    e.add(Not(eq(inst[d], inst[c])))
        seqs.append(Seqn(w, "s%d" % k, inst[c], False))
    case("constructor", seqs=[s.case() for s in seqs], single=False)
    xs = rt.VList([s.x for s in seqs])
    if len(pattern) == 1 and e.choose([True, False]):
        xs = seqs[0].x
    o = outcome(lambda: coll_mod(w).MidiNoteSequences(midi_seq=xs))
    if not returns("a collection is built", o):
        return
    m = o.value
    ensure("there is one track per instrument number", And(eq(rt._len(m), len(inst)), eq(m.num_track(), len(inst)),
                                                        eq(m.num_instruments(), len(inst))))
    for c, i in inst.items():
        mine = [s for s, d in zip(seqs, pattern) if d == c]
        t = m[i]
        ensure("a track has its instrument", eq(t.instrument.instrument_num, i))
        segs = [g for s in mine for g in s.segs]
        if len(mine) == 1:
            equal_lists("the track of a single sequence holds its notes as they were", t.notes, segs, lists.same_object)
        else:
            got = t.notes if merges is None else merges.parts(t.notes)
            same_members("a track holds exactly the notes of all sequences of its instrument", got, segs)
            in_order("the notes of a merged track are in order", t.notes, lex)
        for s in mine:
            each("the notes are as they were", s.segs, lambda v: same(s.before(v), nstate(v)))
        u = outcome(lambda: (m.get_track(i, "other", 1, True), m.create_track(i, 1, "other", False), m[i]))
        if returns("a track can be used later", u):
            ensure("a later use of the number continues the track", u.value[0] is t and u.value[2] is t)
    ensure("later uses add no track", eq(rt._len(m), len(inst)))


for _p in PATTERNS:
    contract("R02", "MidiNoteSequences.__init__ with %s" % (" ".join(_p) or "no sequences"),
             bounded="up to three sequences, of any number of notes each")(lambda w, p=_p: r02_build(w, p))


@contract("R02", "MidiNoteSequences._add_midi_note_sequence", share=2)
def r02_step(w):
    """one more sequence for a collection of any tracks"""
    e = E()
    calls = []
    empty = e.choose([False, True])
    s = Registry(w, empty=empty)
    m = s.m
    by_contract(seq_cls(w), "merge", lambda a, b: calls.append((a, b)), "S02 MidiNoteSequence.merge")
    inst, q = e.int("inst", 0, 127), e.int("q", 0, 127)
    x = seq_cls(w)(instrument=info(w, inst, e.choose([False, True])))
    was, n = s.old(inst), s.n
    nocase()
    o = outcome(m._add_midi_note_sequence, x)
    if not returns("a sequence is added", o):
        return
    now = m[inst]
    if was is ABSENT:
        ensure("the first sequence of an instrument is its track", now is x and not calls)
    else:
        ensure("a further sequence is merged into the track of its instrument, once",
               And(lists.same_object(now, was), len(calls) == 1 and lists.same_object(calls[0][0], was) and calls[0][1] is x))
    ensure("the number of tracks follows", eq(rt._len(m), n + (1 if was is ABSENT else 0)))
    if not e.branch(boo(eq(q, inst))):
        other = s.old(q)
        if other is not ABSENT:
            ensure("the other tracks keep their sequences", lists.same_object(m[q], other))


@contract("R02", "MidiNoteSequences.__init__, every sequence once")
def r02_every(w):
    """the constructor adds the given sequences one by one, in order"""
    e = E()
    n = e.int("len.given", 0)
    obj = lists.opaque_objects(seq_cls(w), "sequence", "given")
    sp = lists.Space(n.t, "given")
    given = SymList([Seg(sp, lists.always, obj, None)])
    want = list(given.segs)
    added = rt.VList()
    nocase()
    C = coll_mod(w).MidiNoteSequences
    if "_add_midi_note_sequence" not in C.__dict__:
        raise Unsupported("sequences are added in another way")
    by_contract(C, "_add_midi_note_sequence", lambda self, x: added.append(x), "R02 MidiNoteSequences._add_midi_note_sequence")
    o = outcome(lambda: C(midi_seq=given))
    if returns("a collection is built", o):
        equal_lists("every given sequence is added once, in order", added, want, lists.same_object)
        equal_lists("the given list is as it was", given, want, lists.same_object)


# --------------------------------------------------------------------- R03
QUANTIZED = z3.Function("sequence_quantized", z3.IntSort(), z3.BoolSort())
LENGTH = z3.Function("sequence_length", z3.IntSort(), z3.IntSort())
INFO = z3.Function("sequence_instrument", z3.IntSort(), z3.IntSort())


@contract("R03", "MidiNoteSequences.__iter__, __len__, num_track, instruments, instrument_midi_seq_len, is_quantized", share=2)
def r03_views(w):
    e = E()
    C = seq_cls(w)
    by_contract(C, "is_quantized", lambda self: wrap(QUANTIZED(self._pv_ref)), "R03 MidiNoteSequence.is_quantized")
    inst = lists.Opaque(w.load(PKG + "midi.midi_instruments").MidiInstrumentInfo, "instrument",
                        dict(instrument_num=lambda r: wrap(INFO(r))))

    def notes(r):
        e.fact(LENGTH(r) >= 0)
        return num_list("notes_of_%s" % r, wrap(LENGTH(r)))
    s = Registry(w, fields=dict(instrument=lambda r: inst.view(r), notes=notes))
    m, sg = s.m, s.base.seg
    view = e.choose(["iter", "len", "instruments", "length of a track", "quantized"])
    t = e.int("t")
    case("of given tracks", keys=s.rows(), t=t, q=None)
    if view == "len":
        ensure("the length is the number of tracks", And(eq(rt._len(m), s.n), eq(m.num_track(), s.n)))
        return
    if view == "length of a track":
        o = outcome(m.instrument_midi_seq_len, t)
        was = s.old(t)
        if returns("a length is given", o):
            ensure("the length of a track is the number of its notes",
                   eq(o.value, 0 if was is ABSENT else wrap(LENGTH(was._pv_ref))))
        ensure("a view adds no track", eq(rt._len(m), s.n))
        return
    seqs = [Seg(s.base.space, lists.always, lambda i: s.base.value(s.base.at(sg.value(i))[1]), None)]
    if view == "iter":
        o = outcome(lambda: SymList(segs_of(rt._iter(m))))
        if returns("the tracks are listed", o):
            equal_lists("iteration lists the tracks by increasing number", o.value, [sg], eq)
            in_order("iteration lists the tracks by increasing number", o.value, lambda a, b: a < b)
    elif view == "instruments":
        o = outcome(lambda: m.instruments)
        if returns("the instruments are listed", o):
            equal_lists("the instruments are those of the tracks by increasing number", o.value,
                        [Seg(s.base.space, lists.always, lambda i: seqs[0].value(i).instrument, None)], lists.same_object)
    else:
        o = outcome(m.is_quantized)
        if returns("whether it is quantized is told", o):
            with e.scope():
                e.add(o.value)
                each("a quantized collection has quantized tracks only", seqs, lambda v: v.is_quantized())
            with e.scope():
                e.add(Not(o.value))
                some("a collection that is not quantized has a track that is not", seqs, lambda v: Not(v.is_quantized()))


@contract("R03", "MidiNoteSequence.is_quantized")
def r03_quantized(w):
    e = E()
    s = Seqn(w)
    case("of given tracks", keys=[0], t=0, q=s.case())
    o = outcome(s.x.is_quantized)
    if returns("whether it is quantized is told", o):
        good = lambda v: And(v.quantized_start_step >= 0, v.quantized_end_step >= 0)
        with e.scope():
            e.add(o.value)
            each("a quantized track has quantized notes only", s.segs, good)
        with e.scope():
            e.add(Not(o.value))
            some("a track that is not quantized has a note that is not", s.segs, lambda v: Not(good(v)))


@contract("R03", "MidiNoteSequences.get_all_sequence_events", bounded="up to three tracks, of any number of notes each", share=2)
def r03_events(w):
    e = E()
    k = e.choose([0, 1, 2, 3])
    m = coll_mod(w).MidiNoteSequences()
    seqs, inst = [], []
    for j in range(k):
        i = e.int("inst%d" % j, 0, 127)
        for x in inst:
            e.add(Not(eq(i, x)))
        inst.append(i)
        seqs.append(Seqn(w, "s%d" % j, i, False))
        m[i] = seqs[-1].x
    case("all events", seqs=[s.case() for s in seqs])
    o = outcome(m.get_all_sequence_events)
    if not returns("the events are listed", o):
        return
    same_members("the list of all events holds each note of each track once and nothing else", o.value, [g for s in seqs for g in s.segs])
    in_order("the list of all events is in order of start time", o.value, lambda a, b: a.start_time < b.start_time)
    for s, i in zip(seqs, inst):
        ensure("listing the events changes no track", m[i] is s.x)
        equal_lists("listing the events changes no track", s.x.notes, s.segs, lists.same_object)
        each("the notes are as they were", s.segs, lambda v: same(s.before(v), nstate(v)))


class Gathered(rt.Invariant):
    """one list holds what was gathered from the tracks before k"""

    def __init__(self, s, events):
        self.s, self.events, self.ready = s, events, False

    def match(self, seg, cells):
        if self.ready or seg.space is not self.s.base.space:
            return False
        ls = [v for v in (rt.cell_get(c) for c in cells.values()) if isinstance(v, SymList)]
        if len(ls) != 1:
            return False
        self.list, self.ready = ls[0], True
        return True

    def modifies(self):
        return [rt.Loc("list", self.list, None)]

    def havoc(self, k):
        e = E()
        self.k = num(k)
        sp = lists.Space(num(e.int("gathered", 0)), "gathered%d" % len(e.keep))
        e.keep.append(sp)
        self.before = [Seg(sp, lists.always, self.events("earlier"), None)]
        self.list.segs = list(self.before)

    def check(self, k, when):
        if isinstance(k, int):
            ensure("nothing is gathered before the first track", not self.list.segs)
            return
        t = self.s.base.value(self.s.base.at(self.s.base.seg.value(self.k))[1])
        got = self.list.segs
        if ensure("what was gathered stays, %s" % when, len(got) >= 1 and got[0] is self.before[0]):
            equal_lists("the events of the track, each once, come after it, %s" % when, got[1:], segs_of(t.get_midi_events()), lists.same_object)


@contract("R03", "MidiNoteSequences.get_all_sequence_events (any number of tracks)", share=2)
def r03_all(w):
    e = E()
    nocase()
    C = seq_cls(w)
    start = z3.Function("start_of_event", z3.IntSort(), z3.RealSort())
    note = lists.Opaque(w.load(PKG + "midi.midi_note").MidiNote, "note", dict(start_time=lambda r: wrap(start(r)))).view
    count = z3.Function("events_of_track", z3.IntSort(), z3.IntSort())
    spaces = {}

    def ref(name, *a):
        f = z3.Function(name, *[z3.IntSort()] * (len(a) + 2))
        return lambda i: note(f(*a, i))

    def events(self):
        r = z3.simplify(self._pv_ref)
        if r.get_id() not in spaces:
            e.fact(count(r) >= 0)
            spaces[r.get_id()] = lists.Space(count(r), "events_of%d" % len(spaces)), r
        return SymList([Seg(spaces[r.get_id()][0], lists.always, ref("event_of", r), None)])
    by_contract(C, "get_midi_events", events, "R03 MidiNoteSequence.get_midi_events")
    s = Registry(w)
    inv = Gathered(s, ref)
    e.invariants.append(inv)
    o = outcome(s.m.get_all_sequence_events)
    if not returns("the events are listed", o):
        return
    if not inv.ready:
        raise Unsupported("the loop over the tracks was not found")
    same_members("the list holds what was gathered, once each", o.value, inv.before)
    in_order("the list of all events is in order of start time", o.value, lambda a, b: a.start_time < b.start_time)


@contract("R03", "MidiNoteSequence.get_midi_events")
def r03_events_of(w):
    s = Seqn(w)
    nocase()
    o = outcome(s.x.get_midi_events)
    if returns("the events of a track are given", o):
        equal_lists("they are its notes", o.value, s.segs, lists.same_object)
