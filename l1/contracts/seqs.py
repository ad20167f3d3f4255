"""Contracts of note sequences (S01..S06).  Sequences of any length: the notes
are the elements of a symbolic list, each a note in any state its constructor
can give it."""
from .base import *
from .listspec import *
from .events import cc_mod, mk_cc, mk_pb, CC, PB, state

KINDS_NOTE = dict(pitch="int", start="real", end="real", program="int", instrument="int", velocity="int", qs="int", qe="int",
                  voice="int", num="int", den="int", drum="bool")


def note_pre(a):
    return [between(0, a["pitch"], 127), between(0, a["program"], 255), between(0, a["instrument"], 127),
            between(0, a["velocity"], 127), a["qs"] >= -1, a["qe"] >= -1, between(1, a["num"], 255),
            between(1, a["den"], 255), core.ispow2(a["den"]), a["start"] >= 0, a["end"] > a["start"]]


def note_spec(w):
    return lists.ObjSpec("note", KINDS_NOTE, lambda a: mk_note(w, a), note_pre)


def row(v):
    """a note of a failing case"""
    if is_view(v):
        t = type(v).__pv_view__
        return {k: t.arg(k, v._pv_ref) for k in KINDS_NOTE}
    return dict(zip(("pitch", "start", "end", "program", "instrument", "velocity", "qs", "qe", "voice", "num", "den",
                     "drum"), nstate(v)))


def seq_mod(w):
    return w.load(PKG + "midi.midi_sequence")


def info(w, inst, drum):
    return w.load(PKG + "midi.midi_instruments").MidiInstrumentInfo(inst, "X", drum)


def notes_list(w, name, inst=None, drum=None, extra=None):
    """any number of notes (of one instrument)"""
    e = E()
    n = e.int("len." + name, 0)

    def more(v, i):
        out = []
        if inst is not None:
            out.append(eq(v.instrument, inst))
        if drum is not None:
            out.append(eq(v.is_drum, drum))
        if extra is not None:
            out += extra(v)
        return out
    l, sp, seg = lists.object_list(note_spec(w), n.t, name, more)
    return l


class Seqn:
    """a sequence with any notes and any total time not before its last end"""

    def __init__(self, w, name="s", inst=None, drum=None, res=220, total=False, extra=None):
        e = E()
        self.inst = e.int(name + ".inst", 0, 127) if inst is None else inst
        self.drum = e.choose([False, True]) if drum is None else drum
        self.res = res
        self.notes = notes_list(w, name, self.inst, self.drum, extra)
        self.segs = list(self.notes.segs)
        self.x = seq_mod(w).MidiNoteSequence(notes=self.notes, instrument=info(w, self.inst, self.drum), resolution=res)
        self.total = None
        if total:
            self.total = e.real(name + ".total", 0)
            e.add(self.total >= self.x.total_time)
            self.x.total_time = self.total
        self.before = Before(NOTE_FIELDS)

    def case(self, **more):
        d = dict(inst=self.inst, drum=self.drum, res=self.res, notes=lists.Rows(SymList(self.segs), row))
        if self.total is not None:
            d["total"] = self.total
        d.update(more)
        return d

    def spared(self, name):
        """its notes are the same objects with the same state, and its total the same"""
        equal_lists(name, self.x.notes, self.segs, lists.same_object)
        each(name, self.segs, lambda v: same(self.before(v), nstate(v)))
        if self.total is not None:
            ensure(name, eq(self.x.total_time, self.total))


end_of = lambda v: v.end_time


# --------------------------------------------------------------------- S03
@contract("S03", "MidiNoteSequence.slice", share=3)
def s03_slice(w):
    e = E()
    s = Seqn(w, total=True)
    a, b = e.real("from"), e.real("to")
    e.add(And(a >= 0, a < b))
    case("slice", seq=s.case(), start=a, end=b, count=1)
    o = outcome(s.x.slice, a, b)
    if not returns("a slice is returned", o):
        return
    r = o.value
    seg, = s.segs
    want = [Seg(seg.space, lambda i: And(seg.value(i).start_time >= a, seg.value(i).start_time < b), seg.value, None)]

    def cut(x, y):
        return changed_only(s.before(y), nstate(x), NOTE_FIELDS, end_time=mn(y.end_time, b))
    equal_lists("a slice holds exactly the notes that start inside the window, cut at its end", r.notes, want, cut)
    each("the notes of a slice are copies", r.notes, lambda v: not is_view(v))
    ensure("the total time of a slice is the smaller of the total time and the end of the window", eq(r.total_time, mn(s.total, b)))
    ensure("a slice has the instrument of the sequence", r.instrument == s.x.instrument)
    s.spared("slicing leaves the sequence as it was")


@contract("S03", "MidiNoteSequence.truncate")
def s03_truncate(w):
    e = E()
    s = Seqn(w, total=True)
    b = e.real("to", 0)
    case("truncate and cut", seq=s.case(), start=0.0, end=b, count=1)
    o = outcome(s.x.truncate, b)
    if not returns("a truncated sequence is returned", o):
        return
    r = o.value
    seg, = s.segs
    want = [Seg(seg.space, lambda i: seg.value(i).end_time <= b, seg.value, None)]
    equal_lists("truncation holds exactly the notes that end by then", r.notes, want, lambda x, y: same(nstate(x), s.before(y)))
    each("the notes of a truncated sequence are copies", r.notes, lambda v: not is_view(v))
    ensure("it has the instrument of the sequence", r.instrument == s.x.instrument)
    s.spared("truncating leaves the sequence as it was")


@contract("S03", "MidiNoteSequence.cut, cut_in_place", share=2)
def s03_cut(w):
    e = E()
    s = Seqn(w, total=True)
    k = e.int("count", 0)
    case("truncate and cut", seq=s.case(), start=0.0, end=1.0, count=k)
    how = e.choose(["new", "in place"])
    o = outcome(s.x.cut if how == "new" else s.x.cut_in_place, k)
    if not returns("cutting returns", o):
        return
    r = o.value if how == "new" else s.x
    n = wrap(s.segs[0].space.n)
    g, x = segs_of(r.notes), s.segs[0]
    if not g:
        ensure("a cut holds as many notes as counted, or all", eq(mn(k, n), 0))
        return
    if len(g) != 1 or not isinstance(g[0], Seg):
        g = [rt.linear(r.notes)]
    ensure("a cut holds as many notes as counted, or all", eq(wrap(num(SymList(g).length())), mn(k, n)))
    i = x.space.generic("any")
    g[0].space.use(i)
    with e.scope():
        e.add(And(wrap(i) >= 0, wrap(i) < mn(k, n)))
        ensure("a cut holds the first notes in order", same(nstate(g[0].value(i)), s.before(x.value(i))))
    if how == "new":
        ensure("it has the instrument of the sequence", r.instrument == s.x.instrument)
        s.spared("cutting leaves the sequence as it was")
    latest("the total time of the cut is its latest end", r.total_time, g, end_of, 0)


# --------------------------------------------------------------------- S04
@contract("S04", "MidiNoteSequence.shift_times", share=2)
def s04_shift(w):
    e = E()
    s = Seqn(w, total=True)
    by = e.real("by")
    seg, = s.segs
    e.add(seg.space.n >= 1)       # an empty sequence counts as quantized
    case("shift and stretch", seq=s.case(), op="shift", by=by)
    o = outcome(s.x.shift_times, by)
    isq = lambda v: And(*[x >= 0 for x in s.before(v, ("quantized_start_step", "quantized_end_step"))])
    if not o.ok:
        ensure("only a fully quantized sequence is refused", o.refused())
        each("only a fully quantized sequence is refused", s.segs, isq)
        s.spared("a refused shift changes nothing")
        return
    some("a fully quantized sequence is refused", s.segs, lambda v: Not(isq(v)))
    equal_lists("the notes are the same, in the same order", s.x.notes, s.segs, lists.same_object)

    def moved(v):
        b = s.before(v)
        return changed_only(b, nstate(v), NOTE_FIELDS, start_time=b[1] + by, end_time=b[2] + by)
    each("each note is shifted once, and only in time", s.x.notes, moved)
    ensure("the total time has moved by the offset, but not below zero", eq(s.x.total_time, mx(0, s.total + by)))


@contract("S04", "MidiNoteSequence.stretch")
def s04_stretch(w):
    e = E()
    s = Seqn(w, total=True)
    by = e.real("by", 0)
    case("shift and stretch", seq=s.case(), op="stretch", by=by)
    o = outcome(s.x.stretch, by)
    if not returns("stretching returns", o):
        return
    equal_lists("the notes are the same, in the same order", s.x.notes, s.segs, lists.same_object)

    def moved(v):
        b = s.before(v)
        return changed_only(b, nstate(v), NOTE_FIELDS, start_time=b[1] * by, end_time=b[2] * by)
    each("each note is stretched once, and only in time", s.x.notes, moved)
    latest("the total time is the latest end", s.x.total_time, s.x.notes, end_of, 0)


# --------------------------------------------------------------------- S01
def max_total(s, notes=None):
    latest("the total time is the latest end of the notes, 0 without notes", s.total_time, s.notes if notes is None else notes,
           end_of, 0)


@contract("S01", "MidiNoteSequence.__init__, from_notes, notes.setter, truncate_to_last_event", share=2)
def s01_build(w):
    e = E()
    M = seq_mod(w).MidiNoteSequence
    how = e.choose(["constructor", "from notes", "assign", "last"])
    if how == "from notes":
        l = notes_list(w, "s")
        case("from notes", notes=lists.Rows(l, row))
        o = outcome(M.from_notes, l)
        if returns("the sequence is built", o):
            equal_lists("a sequence built from notes holds them", o.value.notes, l, lists.same_object)
            max_total(o.value)
        return
    s = Seqn(w, total=how != "constructor")
    if how == "constructor":
        case("edit history", seq=s.case(), ops=[])
        equal_lists("a sequence built from notes holds them", s.x.notes, s.segs, lists.same_object)
        max_total(s.x)
    elif how == "assign":
        l = notes_list(w, "t", s.inst, s.drum)
        case("edit history", seq=s.case(), ops=[["assign", lists.Rows(l, row)]])
        s.x.notes = l
        equal_lists("the notes assigned are the notes", s.x.notes, l, lists.same_object)
        max_total(s.x)
    else:
        off = e.real("offset")
        case("edit history", seq=s.case(), ops=[["last", off]])
        o = outcome(s.x.truncate_to_last_event, off)
        if returns("the end is returned", o):
            latest("the end relative to the last event is the latest end plus the offset", o.value - off, s.segs, end_of, 0)
            s.spared("asking for the end changes nothing")


@contract("S01", "MidiNoteSequence.append, extend, add_note", share=2)
def s01_add(w):
    e = E()
    s = Seqn(w, total=True)
    op = e.choose(["append", "extend", "add", "append_list", "extend_list"])
    if op.endswith("list"):
        l = notes_list(w, "t", s.inst, s.drum)
        arg, more, js = l, l.segs, lists.Rows(l, row)
    else:
        d = note_args("t")
        e.add(And(d["start"] >= 0, eq(d["instrument"], s.inst)))
        d["drum"] = s.drum
        arg = mk_note(w, d)
        more, js = [Elem(arg)], d
    case("edit history", seq=s.case(), ops=[[op, js]])
    o = outcome({"app": s.x.append, "ext": s.x.extend, "add": s.x.add_note}[op[:3]], arg)
    if not returns("the notes are added", o):
        return
    equal_lists("the notes are those before, then the new ones", s.x.notes, s.segs + list(more), lists.same_object)
    each("the notes before are as they were", s.segs, lambda v: same(s.before(v), nstate(v)))
    latest("the total time is the larger of the previous one and the latest end added", s.x.total_time, list(more), end_of, s.total)


@contract("S01", "MidiNoteSequence.insert, merge, stretch, shift_times, cut_in_place", share=4)
def s01_edit(w):
    e = E()
    op = e.choose(["insert", "stretch", "shift", "cut", "merge"])
    s = Seqn(w, total=True)
    ordered_notes(w)
    if op == "insert":
        assume_ordered(s.segs, before_note)
        d = note_args("t")
        e.add(And(d["start"] >= 0, eq(d["instrument"], s.inst)))
        d["drum"] = s.drum
        n = mk_note(w, d)
        case("edit history", seq=s.case(), ops=[["insert", d]])
        o = outcome(s.x.insert, n)
    elif op == "merge":
        t = Seqn(w, "t", s.inst, s.drum)
        case("edit history", seq=s.case(), ops=[["merge", lists.Rows(SymList(t.segs), row)]])
        o = outcome(s.x.merge, t.x)
    elif op == "stretch":
        by = e.real("by", 0)
        case("edit history", seq=s.case(), ops=[["stretch", by]])
        o = outcome(s.x.stretch, by)
    elif op == "cut":
        k = e.int("count", 0)
        case("edit history", seq=s.case(), ops=[["cut", k]])
        o = outcome(s.x.cut_in_place, k)
    else:
        by = e.real("by")
        e.add(s.segs[0].space.n >= 1)
        e.forall(s.segs[0].space, lambda i: boo(s.segs[0].value(i).quantized_start_step < 0))
        case("edit history", seq=s.case(), ops=[["shift", by]])
        o = outcome(s.x.shift_times, by)
        if returns("the edit is made", o):
            ensure("a shift moves the total time by the offset, but not below zero", eq(s.x.total_time, mx(0, s.total + by)))
        return
    if returns("the edit is made", o):
        max_total(s.x)


# --------------------------------------------------------------------- S02
def lex(a, b):
    """the order of notes: by start, then end, then pitch"""
    x, y = (a.start_time, a.end_time, a.pitch), (b.start_time, b.end_time, b.pitch)
    return rt.lt_value(x, y)


before_note = lex
APART = "two times of notes of one track are equal or more than a microsecond apart"


def ordered_notes(w):
    by_contract(w.load(PKG + "midi.midi_note").MidiNote, "__lt__", lex, "S02 MidiNote.__lt__")


def apart(a, b):
    return Or(eq(a, b), absdiff(a, b) > 1e-6)


@contract(("S01", "S02", "R02"), "MidiNote.__lt__")
def note_lt(w):
    e = E()
    a, b = note_args("a"), note_args("b")
    e.assumption(APART)
    e.add(And(apart(a["start"], b["start"]), apart(a["end"], b["end"])))
    x, y = mk_note(w, a), mk_note(w, b)
    if e.unit_pid == "R02":
        case("constructor", pid="R02", seqs=[dict(inst=0, drum=False, notes=[d]) for d in (a, b)], single=False)
    else:
        case("insert" if e.unit_pid == "S02" else "edit history", pid=e.unit_pid, **(
        dict(seq=dict(inst=0, drum=False, notes=[a]), note=b) if e.unit_pid == "S02" else
        dict(seq=dict(inst=0, drum=False, notes=[a]), ops=[["insert", b]])))
    o = outcome(lambda: x < y)
    if returns("two notes can be compared", o):
        ensure("the order of notes is by start, then end, then pitch", Iff(o.value, lex(x, y)))


@contract("S02", "MidiNoteSequence.insert", share=2)
def s02_insert(w):
    e = E()
    s = Seqn(w)
    ordered_notes(w)
    assume_ordered(s.segs, before_note)
    d = note_args("t")
    e.add(And(d["start"] >= 0, eq(d["instrument"], s.inst)))
    d["drum"] = s.drum
    n = mk_note(w, d)
    case("insert", seq=s.case(), note=d)
    b = nstate(n)
    o = outcome(s.x.insert, n)
    if not returns("the note is inserted", o):
        return
    same_members("inserting keeps every note and adds the new one", s.x.notes, s.segs + [Elem(n)])
    in_order("the notes are in order after the insertion", s.x.notes, before_note)
    each("the notes are as they were", s.segs, lambda v: same(s.before(v), nstate(v)))
    ensure("the new note is as it was", same(b, nstate(n)))


@contract("S02", "MidiNoteSequence.merge", share=4)
def s02_merge(w):
    e = E()
    s = Seqn(w)
    t = Seqn(w, "t", s.inst, s.drum)
    ordered_notes(w)
    case("merge", a=s.case(), b=t.case(), bad=None)
    tt = t.x.total_time
    o = outcome(s.x.merge, t.x)
    if not returns("sequences of one instrument are merged", o):
        return
    same_members("merging keeps every note of both, each as often", s.x.notes, s.segs + t.segs)
    in_order("the merged notes are in order", s.x.notes, before_note)
    each("the notes are as they were", s.segs, lambda v: same(s.before(v), nstate(v)))
    t.spared("merging leaves the merged-in sequence as it was")
    ensure("merging leaves the merged-in sequence as it was", eq(t.x.total_time, tt))


@contract("S02", "MidiNoteSequence.merge, refusals", share=2)
def s02_refuse(w):
    e = E()
    bad = e.choose(["instrument", "resolution", "drum", "note a", "note b", "kind"])
    if bad == "kind":
        s = Seqn(w, total=True)
        other = e.choose([None, 3, "x", rt.VList([])])
        nocase()
        o = outcome(s.x.merge, other)
        refuses("merging with something else is refused", o)
        s.spared("a refused merge changes nothing")
        return
    s = Seqn(w, total=True) if bad != "note a" else wrong(w, "s")
    if bad == "note b":
        t = wrong(w, "t", s.inst, s.drum)
    else:
        inst = e.int("t.inst", 0, 127) if bad == "instrument" else s.inst
        if bad == "instrument":
            e.add(Not(eq(inst, s.inst)))
        t = Seqn(w, "t", inst, (not s.drum) if bad == "drum" else s.drum, 480 if bad == "resolution" else 220, total=True)
    case("merge", a=s.case(), b=t.case(), bad=bad.split()[0])
    o = outcome(s.x.merge, t.x)
    refuses("merging with another instrument, resolution or foreign notes is refused", o)
    s.spared("a refused merge changes nothing")
    t.spared("a refused merge changes nothing")


class wrong(Seqn):
    """a sequence with at least one note of another instrument"""

    def __init__(self, w, name, inst=None, drum=None):
        e = E()
        self.inst = e.int(name + ".inst", 0, 127) if inst is None else inst
        self.drum = e.choose([False, True]) if drum is None else drum
        self.res = 220
        self.notes = notes_list(w, name, None, self.drum)
        self.segs = list(self.notes.segs)
        s = self.segs[0]
        k = s.space.generic("wrong")
        e.add(s.inr(k))
        e.add(Not(eq(s.value(k).instrument, self.inst)))
        self.x = seq_mod(w).MidiNoteSequence(notes=self.notes, instrument=info(w, self.inst, self.drum), resolution=220)
        self.total = e.real(name + ".total", 0)
        e.add(self.total >= self.x.total_time)
        self.x.total_time = self.total
        self.before = Before(NOTE_FIELDS)


@contract("S02", "MidiNoteSequence.__add__", share=2)
def s02_sum(w):
    e = E()
    bad = e.choose(["", "instrument", "drum", "note a", "note b", "kind"])
    s = Seqn(w, total=True) if bad != "note a" else wrong(w, "s")
    if bad == "kind":
        other = e.choose([None, 3, "x", rt.VList([])])
        nocase()
        refuses("adding something else is refused", outcome(lambda: s.x + other))
        s.spared("a refused sum changes nothing")
        return
    if bad == "note b":
        t = wrong(w, "t", s.inst, s.drum)
    else:
        inst = e.int("t.inst", 0, 127) if bad == "instrument" else s.inst
        if bad == "instrument":
            e.add(Not(eq(inst, s.inst)))
        t = Seqn(w, "t", inst, (not s.drum) if bad == "drum" else s.drum, total=True)
    case("sum", a=s.case(), b=t.case(), bad=bad.split()[0] if bad else None)
    o = outcome(lambda: s.x + t.x)
    if bad:
        refuses("the sum with another instrument or foreign notes is refused", o)
    elif returns("sequences of one instrument are added", o):
        r = o.value
        equal_lists("a sum holds the notes of the first, then of the second", r.notes, s.segs + t.segs, lists.same_object)
        ensure("a sum has the instrument of both", eq(r.instrument, s.x.instrument))
        latest("the total time of a sum is its latest end", r.total_time, s.segs + t.segs, end_of, 0)
    s.spared("a sum leaves both sequences as they were")
    t.spared("a sum leaves both sequences as they were")


# --------------------------------------------------------------------- S05
QARGS = ("start", "end", "sps", "amount")
QFUN = {f: z3.Function("note_alone_" + f, z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.RealSort(), s)
        for f, s in (("start", z3.RealSort()), ("end", z3.RealSort()), ("qs", z3.IntSort()), ("qe", z3.IntSort()))}
QCC = z3.Function("control_change_alone", z3.RealSort(), z3.IntSort(), z3.RealSort(), z3.IntSort())


def alone(s, v, sps, amount, before=None):
    """times and steps of a note quantized alone: functions of its times and the arguments"""
    a = (real(num(v[0])), real(num(v[1])), num(sps), real(num(amount)))
    r = {f: wrap(F(*a)) for f, F in QFUN.items()}
    s.fact(z3.And(*[boo(c) for c in (r["qs"] >= 0, r["qs"] < r["qe"], r["start"] >= 0, r["start"] < r["end"])]))
    return r


def quantized_alone(w):
    """calls of quantize by the contracts of notes and control changes"""
    N, C = w.load(PKG + "midi.midi_note").MidiNote, cc_mod(w).MidiControlChange

    def note(self, sps=4, amount=0.5, min_step=None):
        e = E()
        ensure("a note is quantized within the contract of quantizing", And(
            sps >= 1, amount > 0, amount <= 1, self.start_time >= 0, min_step is None, Not(self.is_quantized())))
        q = alone(e, (self.start_time, self.end_time), sps, amount)
        r = rt.deepcopy(self)
        for f, k in (("_start_time", "start"), ("_end_time", "end"), ("_quantized_start_step", "qs"), ("_quantized_end_step", "qe")):
            if f not in lists.attrs(r):
                raise Unsupported("the attributes of a note have other names")
            object.__setattr__(r, f, q[k])
        object.__setattr__(r, "_is_quantized", True)
        return r

    def cc(self, sps=4, amount=0.5, min_step=None):
        e = E()
        ensure("a control change is quantized within the contract of quantizing", And(
            sps >= 1, sps <= 32, amount > 0, amount <= 1, min_step is None))
        t = wrap(QCC(real(num(self.cc_time)), num(sps), real(num(amount))))
        e.fact(boo(t >= 0))
        r = rt.deepcopy(self)
        for f, v in (("_quantized_start_step", t), ("_quantized_end_step", t + 1), ("_is_quantized", True)):
            if f not in lists.attrs(r):
                raise Unsupported("the attributes of a control change have other names")
            object.__setattr__(r, f, v)
        r.quantized_step = sps
        return r
    by_contract(N, "quantize", note, "S05 MidiNote.quantize and MidiNote.quantize_in_place (N03, N04)")
    by_contract(C, "quantize", cc, "S05 MidiControlChange.quantize (C01)")


KINDS_CC = dict(number="int", value="int", time="real", program="int", instrument="int", drum="bool", step="int", qs="int",
                qe="int")
KINDS_PB = dict(amount="int", time="real", program="int", instrument="int", drum="bool")


def cc_list(w, name):
    e = E()
    pre = lambda a: [between(0, a[k], 255) for k in ("number", "value", "program", "instrument")] + \
        [a["time"] >= 0, between(1, a["step"], 32), a["qs"] >= -1, a["qe"] >= -1]
    l, sp, seg = lists.object_list(lists.ObjSpec("cc", KINDS_CC, lambda a: mk_cc(w, a), pre), e.int("len." + name, 0).t, name)
    return l


def pb_list(w, name):
    e = E()
    pre = lambda a: [between(-8192, a["amount"], 8191), between(0, a["program"], 127), between(0, a["instrument"], 127),
                     a["time"] >= 0]
    l, sp, seg = lists.object_list(lists.ObjSpec("pb", KINDS_PB, lambda a: mk_pb(w, a), pre), e.int("len." + name, 0).t, name)
    return l


def arg_row(kinds):
    return lambda v: {k: type(v).__pv_view__.arg(k, v._pv_ref) for k in kinds}


@contract("S05", "MidiNoteSequence.quantize", share=3)
def s05_quantize(w):
    e = E()
    s = Seqn(w, extra=lambda v: [Not(And(v.quantized_start_step >= 0, v.quantized_end_step >= 0))])
    ccs = cc_list(w, "cc")
    s.x.control_changes = ccs
    held = list(ccs.segs)
    bcc = Before(CC)
    prev = e.int("steps", 0)
    set_private(s.x, "total_quantized_steps", prev)
    sps, a = e.int("sps", 1, 32), e.real("amount")
    e.add(And(a > 0, a <= 1))
    quantized_alone(w)
    case("quantize", seq=s.case(ccs=lists.Rows(SymList(held), arg_row(KINDS_CC))), sps=sps, amount=a, twice=False)
    o = outcome(s.x.quantize, sps=sps, amount=a)
    if not returns("quantizing returns", o):
        return

    def as_alone(x, y):
        b = s.before(y)
        q = alone(e, b[1:3], sps, a)
        return changed_only(b, nstate(x), NOTE_FIELDS, start_time=q["start"], end_time=q["end"],
                            quantized_start_step=q["qs"], quantized_end_step=q["qe"])
    equal_lists("every note is quantized as it would be alone, in the same order", s.x.notes, s.segs, as_alone)
    each("every note counts as quantized", s.x.notes, lambda v: v.is_quantized())

    def cc_alone(x, y):
        t = wrap(QCC(real(num(bcc(y)[2])), num(sps), real(num(a))))
        return changed_only(bcc(y), state(x, CC), CC, quantized_step=sps, quantized_start_step=t, quantized_end_step=t + 1)
    equal_lists("every control change is quantized as it would be alone", s.x.control_changes, held, cc_alone)
    each("the note objects held before are unchanged", s.segs, lambda v: same(s.before(v), nstate(v)))
    each("the control changes held before are unchanged", held, lambda v: same(bcc(v), state(v, CC)))
    latest("the total number of steps is the largest end step, or the previous total", s.x.total_quantized_steps, s.x.notes,
           lambda v: v.quantized_end_step, prev)
    o = outcome(s.x.is_quantized)
    if returns("a sequence can be asked whether it is quantized", o):
        ensure("the sequence reports itself quantized", o.value)


def set_private(o, name, v):
    """sets an attribute without a setter, whatever its private name"""
    for k in lists.attrs(o):
        if k.lstrip("_").endswith(name) and k != name:
            object.__setattr__(o, k, v)
            return
    raise Unsupported("no attribute for %s" % name)


@contract("S05", "MidiNoteSequence.is_quantized")
def s05_isq(w):
    e = E()
    s = Seqn(w)
    case("quantized exactly when all notes are", q=lists.Rows(SymList(s.segs), lambda v: [row(v)["qs"], row(v)["qe"]]))
    isq = lambda v: And(v.quantized_start_step >= 0, v.quantized_end_step >= 0)
    o = outcome(s.x.is_quantized)
    if not returns("a sequence can be asked whether it is quantized", o):
        return
    if e.branch(boo(o.value)):
        each("a quantized sequence has only quantized notes", s.segs, isq)
    else:
        some("a sequence that is not quantized has a note that is not", s.segs, lambda v: Not(isq(v)))
    s.spared("asking changes nothing")


# --------------------------------------------------------------------- S06
SETTINGS = ("resolution", "total_time", "ticks_per_quarter", "total_quantized_steps", "quantized_step")


@contract("S06", "MidiNoteSequence.clone, clone_empty", share=2)
def s06_clone(w):
    e = E()
    res = e.int("res", 1, 960)
    s = Seqn(w, res=res, total=True)
    ccs, pbs = cc_list(w, "cc"), pb_list(w, "pb")
    s.x.control_changes, s.x.pitch_bends = ccs, pbs
    hcc, hpb = list(ccs.segs), list(pbs.segs)
    bcc, bpb = Before(CC), Before(PB)
    tpq, qstep = e.int("tpq", 0, 480), e.int("qstep", 0, 8)
    s.x.ticks_per_quarter, s.x.quantized_step = tpq, qstep
    steps = e.int("steps", 0)
    set_private(s.x, "total_quantized_steps", steps)
    case("clone", seq=s.case(ccs=lists.Rows(SymList(hcc), arg_row(KINDS_CC)), pbs=lists.Rows(SymList(hpb), arg_row(KINDS_PB))),
         tpq=tpq, qstep=qstep, total=None, q=steps > 0)
    how = e.choose(["clone", "empty"])
    o = outcome(s.x.clone if how == "clone" else s.x.clone_empty)
    if not returns("a clone is returned", o):
        return
    k = o.value
    settings = lambda x: tuple(getattr(x, f) for f in SETTINGS)
    for f, v in zip(SETTINGS, (res, s.total, tpq, steps, qstep)):
        ensure("a clone has the same settings", eq(getattr(k, f), v), f)
    i, j = k.instrument, s.x.instrument
    ensure("a clone has the same instrument", And(eq(i.instrument_num, j.instrument_num), i.name == j.name, eq(i.is_drum, j.is_drum)))

    def mine():
        s.spared("making or changing the clone leaves the sequence as it was")
        equal_lists("making or changing the clone leaves the sequence as it was", s.x.control_changes, hcc, lists.same_object)
        each("making or changing the clone leaves the sequence as it was", hcc, lambda v: same(bcc(v), state(v, CC)))
        equal_lists("making or changing the clone leaves the sequence as it was", s.x.pitch_bends, hpb, lists.same_object)
        each("making or changing the clone leaves the sequence as it was", hpb, lambda v: same(bpb(v), state(v, PB)))
        ensure("making or changing the clone leaves the sequence as it was",
               And(*[eq(x, y) for x, y in zip(settings(s.x), (res, s.total, tpq, steps, qstep))]))

    def theirs(name):
        if how == "empty":
            for x in (k.notes, k.drum_events, k.control_changes, k.pitch_bends, k._notes, k._drum_events):
                equal_lists(name % "events", x, [], lists.same_object)
            return
        equal_lists(name % "notes", k.notes, s.segs, lambda x, y: same(nstate(x), s.before(y)))
        equal_lists(name % "drum events", k.drum_events, s.segs if s.drum else [], lambda x, y: same(nstate(x), s.before(y)))
        equal_lists(name % "control changes", k.control_changes, hcc, lambda x, y: same(state(x, CC), bcc(y)))
        equal_lists(name % "pitch bends", k.pitch_bends, hpb, lambda x, y: same(state(x, PB), bpb(y)))
    theirs("a clone has equal copies of the %s" if how == "clone" else "an empty clone has no %s")
    for x in (k.notes, k.control_changes, k.pitch_bends):
        each("the events of a clone are other objects", x, lambda v: not is_view(v))
    mine()
    # whatever is done to the events of the sequence does not show in the clone: the lists are others
    for a, b in ((k.notes, s.x.notes), (k.control_changes, s.x.control_changes), (k.pitch_bends, s.x.pitch_bends)):
        ensure("the lists of a clone are its own", a is not b)
    d = note_args("later")
    n = mk_note(w, d)
    who = e.choose(["clone", "sequence"])
    x = k if who == "clone" else s.x
    x.notes.append(n)
    x.control_changes.append(e.int("later.cc"))
    x.pitch_bends.append(e.int("later.pb"))
    if who == "clone":
        mine()
    else:
        for l, f in ((s.segs, lambda v: setattr(v, "pitch", 1)), (hcc, lambda v: setattr(v, "cc_value", 1)),
                     (hpb, lambda v: setattr(v, "program", 1))):
            rt.loop(SymList(l), lambda v, f=f: f(v))
        theirs("later changes of the sequence do not show in the %s of a clone")


# --------------------------------------------------------------------- S07
@contract("S07", "MidiNoteSequence.extract (up to three windows)", share=3, bounded="at most three windows; any number of notes")
def s07_extract(w):
    e = E()
    s = Seqn(w, drum=False)
    k = e.choose([1, 2, 3])
    t = [e.real("t%d" % i, 0) for i in range(k + 1)]
    for x, y in zip(t, t[1:]):
        e.add(x <= y)
    seg, = s.segs
    e.add(Not(s.x.is_quantized()))
    for x in t[:-1]:
        e.add(x < s.x.total_time)
    case("extract", seq=s.case(), times=t)
    o = outcome(s.x.extract, list(t))
    if not returns("the windows are returned", o):
        return
    r = o.value
    if not ensure("there is one sequence for each window", len(r) == k):
        return
    for q, (a, b) in enumerate(zip(t, t[1:])):
        got = r[q].notes
        images("a window holds a copy of exactly the notes that start in it, moved back and cut to end by its length", got, seg,
               lambda v, a=a, b=b: And(v.start_time >= a, v.start_time < b),
               lambda y, v, a=a, b=b: And(lists.same_object(y, v) is not True, changed_only(
                   s.before(v), nstate(y), NOTE_FIELDS, start_time=v.start_time - a, end_time=mn(v.end_time, b) - a)))
        in_order("the notes of a window are in order of their start", got, lambda x, y: x.start_time < y.start_time)
        latest("the total time of a window is its latest end", r[q].total_time, segs_of(got), end_of, 0)
    s.spared("extracting leaves the sequence as it was")


@contract("S07", "MidiNoteSequence.extract, refusals", share=1)
def s07_refuse(w):
    e = E()
    s = Seqn(w, drum=False)
    seg, = s.segs
    k = e.choose([0, 1, 2, 3])
    t = [e.real("t%d" % i, 0) for i in range(k)]
    why = e.choose(["quantized", "few" if k < 2 else "descending" if k == 2 else "late"])
    if why == "quantized":
        e.add(s.x.is_quantized())
    else:
        e.add(Not(s.x.is_quantized()))
    if why == "descending":
        e.add(t[0] > t[1])
    if why == "late":
        e.add(Or(t[0] >= s.x.total_time, t[1] >= s.x.total_time))
        e.add(And(t[0] <= t[1], t[1] <= t[2]))
    case("extract", seq=s.case(), times=t)
    refuses("too few, descending or late times and quantized notes are refused", outcome(s.x.extract, list(t)))
    s.spared("a refused extraction leaves the sequence as it was")


@contract("S07", "MidiNoteSequence.split, compute_intervals (up to two notes and two inner times)", share=6,
          bounded="at most two notes and two times")
def s07_split(w):
    e = E()
    ds = []
    for i in range(e.choose([1, 2])):
        d = note_args("n%d" % i)
        d["drum"] = False
        e.add(And(d["start"] >= 0, eq(d["instrument"], 0), eq(d["qs"], -1), eq(d["qe"], -1)))
        ds.append(d)
    notes = [mk_note(w, d) for d in ds]
    s = seq_mod(w).MidiNoteSequence(notes=rt.VList(notes), instrument=info(w, 0, False))
    before = [nstate(n) for n in notes]
    total = s.total_time
    skip = e.choose([False, True])
    k = e.choose([0, 1, 2])
    if e.choose(["times", "length"]) == "times":
        t = [e.real("t%d" % i, 0) for i in range(k)]
        for x in t:
            e.add(x < total)
        for x, y in zip(t, t[1:]):
            e.add(x >= y)           # given in descending order, to be sorted
        by = rt.VList(list(t))
        case("split", seq=dict(inst=0, drum=False, notes=ds), by=t, skip=skip)
    else:
        by = e.real("span", 0)
        t = [by * i for i in range(k, 0, -1)]
        e.add(And(by > 0, by * k < total, by * (k + 1) >= total))
        case("split", seq=dict(inst=0, drum=False, notes=ds), by=by, skip=skip)
    o = outcome(s.split, by, skip)
    if not returns("the parts are returned", o):
        return
    bounds = [0.0]
    for x in reversed(t):
        if not (skip and any(bool(And(n.start_time < x, n.end_time > x)) for n in notes)):
            bounds.append(x)
    if bool(total > bounds[-1]):
        bounds.append(total)
    parts = o.value
    if not ensure("there is one part between each two times kept", eq(len(parts), len(bounds) - 1 if len(bounds) > 1 else 0)):
        return
    for part, a, b in zip(rt.it_list(parts), bounds, bounds[1:]):
        mine = [n for n in notes if bool(And(n.start_time >= a, n.start_time < b))]
        got = list(rt.it_list(part.notes))
        if not ensure("a part holds a copy of exactly the notes that start in it", eq(len(got), len(mine))):
            continue
        if len(mine) == 2 and bool(mine[1].start_time < mine[0].start_time):
            mine.reverse()
        for x, n in zip(got, mine):
            ensure("the notes of a part are moved back and cut to end by its length", And(x is not n, changed_only(
                nstate(n), nstate(x), NOTE_FIELDS, start_time=n.start_time - a, end_time=mn(n.end_time, b) - a)))
    ensure("splitting leaves the sequence as it was", And(eq(s.total_time, total), *[same(b, nstate(n)) for b, n in zip(before, notes)]))
