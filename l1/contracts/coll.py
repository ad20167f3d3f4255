"""Contracts of collections of sequences: signature time lines (T01..T03) and the
registry of tracks (R01..R03).  Time lines of any length."""
from .base import *
from .listspec import *
from .seqs import Seqn, info, notes_list, row, seq_mod, note_spec

KIND = ("time", "key", "tempo")
LINE = dict(time="time_signatures", key="key_signatures", tempo="tempo_signatures")
ADD = dict(time="add_time_signatures", key="add_key_signatures", tempo="add_tempo_signature")
LOOK = dict(time="time_signature", key="key_signature", tempo="tempo_signature")
SLICE = dict(time="slice_time_signatures", key="slice_key_signatures", tempo="slice_tempo_signature")
FIELDS = dict(time=("midi_time", "numerator", "denominator", "seq"), key=("midi_time", "midi_key", "mode", "seq"),
              tempo=("midi_time", "qpm", "resolution", "seq"))
SPACED = ("two signatures of one time line that are not within a microsecond of the first entry have equal times or times more "
          "than a microsecond and a billionth of the time apart")


def coll_mod(w):
    return w.load(PKG + "midi.midi_sequences")


def sig_cls(w, kind):
    if kind == "key":
        return w.load(PKG + "midi.midi_key_signature").MidiKeySignature
    m = w.load(PKG + "midi.midi_time_signature")
    return m.MidiTimeSignature if kind == "time" else m.MidiTempoSignature


def mk_sig(w, kind, a):
    c = sig_cls(w, kind)
    if kind == "time":
        s = c(a["t"], a["p"], a["q"])
    elif kind == "key":
        s = c(a["t"], a["p"], 0)
        s.mode = a["q"]
    else:
        s = c(a["t"], a["p"], a["q"])
    s.seq = a["seq"]
    return s


ARGS = dict(time=dict(t="real", p="int", q="int", seq="int"), key=dict(t="real", p="int", q="int", seq="int"),
            tempo=dict(t="real", p="real", q="int", seq="int"))


def sig_pre(kind, a):
    out = [a["t"] >= 0, a["seq"] >= 0]
    if kind == "time":
        out += [a["p"] >= 1, a["q"] >= 1, core.ispow2(a["q"])]
    elif kind == "key":
        out += [between(0, a["p"], 11), between(0, a["q"], 1)]
    else:
        out += [a["p"] > 0, a["q"] >= 1]
    return out


def sig_row(kind):
    def f(v):
        if is_view(v):
            t = type(v).__pv_view__
            return {k: t.arg(k, v._pv_ref) for k in ARGS[kind]}
        return dict(zip(("t", "p", "q", "seq"), (getattr(v, x) for x in FIELDS[kind])))
    return f


def lex(a, b):
    """the order of a time line: by time, then by arrival"""
    return rt.lt_value((a.midi_time, a.seq), (b.midi_time, b.seq))


def apart(a, b):
    """equal or certainly distinct for every comparison of times"""
    m = mx(1, mx(a, b))
    return Or(eq(a, b), And(absdiff(a, b) > 1e-6, absdiff(a, b) > 1e-9 * mx(a, b)))


def by_order(w, kind):
    by_contract(sig_cls(w, kind), "__lt__", lex, "T01 __lt__ of signatures")


class Line:
    """a collection with any time line of one kind, in order"""

    def __init__(self, w, kind, name="l", ordered=True, first=False):
        e = E()
        self.kind = kind
        n = e.int("len." + name, 0)
        self.list, self.sp, self.seg = lists.object_list(sig_spec(w, kind), n.t, name)
        self.segs = list(self.list.segs)
        if ordered:
            assume_ordered(self.segs, lex)
        if first:
            # only the first entry lies within a microsecond of the first entry
            v = self.seg.value
            f = v(z3.IntVal(0))
            self.sp.use(z3.IntVal(0))
            e.forall(self.sp, lambda i: z3.Implies(i >= 1, boo(v(i).midi_time - f.midi_time > 1e-6)))
        self.x = coll_mod(w).MidiNoteSequences(**{LINE[kind]: self.list})
        self.before = Before(FIELDS[kind])

    line = property(lambda s: getattr(s.x, LINE[s.kind]))

    def rows(self):
        return lists.Rows(SymList(self.segs), sig_row(self.kind))

    def add(self, v):
        return outcome(getattr(self.x, ADD[self.kind]), v)

    def look(self, t):
        return outcome(getattr(self.x, LOOK[self.kind]), t)


def sig_spec(w, kind):
    return lists.ObjSpec(kind, ARGS[kind], lambda a: mk_sig(w, kind, a), lambda a: sig_pre(kind, a))


def new_sig(w, kind, name="v"):
    """a signature that is on no time line, and how to make it"""
    l, sp, seg = lists.object_list(sig_spec(w, kind), z3.IntVal(1), name)
    sp.use(z3.IntVal(0))
    v = seg.value(z3.IntVal(0))
    return v, sig_row(kind)(v)


@contract(("T01", "T02", "T03"), "__lt__ of signatures")
def t01_lt(w):
    e = E()
    kind = e.choose(KIND)
    e.assumption(SPACED)
    x, a = new_sig(w, kind, "a")
    y, b = new_sig(w, kind, "b")
    x.seq, y.seq = e.int("a.seq", 0), e.int("b.seq", 0)
    e.add(apart(a["t"], b["t"]))
    if e.unit_pid == "T01":
        case("one addition", kind=kind, line=[dict(a, seq=x.seq)], v=dict(b, seq=y.seq))
    elif e.unit_pid == "T02":
        case("any line", pid="T02", kind=kind, line=[a], ask=[], v=b, t=b["t"])
    else:
        case("any enumeration", pid="T03", kind=kind, line=[dict(b, seq=y.seq), dict(a, seq=x.seq)], bound=None, sort_first=True)
    o = outcome(lambda: x < y)
    if returns("two signatures can be compared", o):
        ensure("the order of signatures is by time, then by arrival", Iff(o.value, lex(x, y)))


@contract("T01", "MidiNoteSequences.add_time_signatures, add_key_signatures, add_tempo_signature", share=3)
def t01_add(w):
    e = E()
    kind = e.choose(KIND)
    by_order(w, kind)
    e.assumption(SPACED)
    l = Line(w, kind, first=True)
    v, a = new_sig(w, kind)
    t = a["t"]
    case("one addition", kind=kind, line=l.rows(), v=a)
    n = l.sp.n
    b = tuple(getattr(v, f) for f in FIELDS[kind][:3])
    o = l.add(v)
    if not returns("a signature is added", o):
        return
    ensure("the signature is as it was", same(b, tuple(getattr(v, f) for f in FIELDS[kind][:3])))
    each("the signatures before are as they were", l.segs, lambda s: same(l.before(s), tuple(getattr(s, f) for f in FIELDS[kind])))
    near = False
    if e.branch(n > 0):
        f = l.seg.value(z3.IntVal(0))
        near = e.branch(boo(absdiff(l.before(f)[0], t) < 1e-6))
    if near:
        want = [Elem(v), Seg(l.sp, lambda i: i >= 1, l.seg.value_, l.seg.facts)]
        equal_lists("a signature within a microsecond of the first entry replaces it", l.line, want, lists.same_object)
    else:
        want = [Seg(l.sp, lambda i: boo(l.seg.value(i).midi_time <= t), l.seg.value_, l.seg.facts), Elem(v),
                Seg(l.sp, lambda i: boo(l.seg.value(i).midi_time > t), l.seg.value_, l.seg.facts)]
        equal_lists("a new signature comes after those at or before its time and before the later ones", l.line, want,
                    lists.same_object)
    in_order("the time line is in order of time and arrival", l.line, lex)


def known_at(kind, w, segs, t, default):
    """value of the last signature at or before t"""


def sigval(kind, s):
    if kind == "time":
        return (s.numerator, s.denominator)
    if kind == "key":
        return (s.mode, s.midi_key)
    return (core.trunc_(s.qpm), s.resolution)


def ensure_lookup(name, kind, o, segs, t):
    """o: the outcome of a lookup at t in the time line"""
    e = E()
    if not returns(name + ": an answer is given", o):
        return
    r = o.value
    pos = rt.linear(SymList(segs_of(segs)))
    sp = pos.space
    with e.scope():
        # the last one at or before t
        i = sp.generic("last")
        sp.use(z3.simplify(i + 1))
        e.add(pos.inr(i))
        e.add(pos.value(i).midi_time <= t)
        e.add(Or(wrap(i + 1 >= sp.n), wrap(z3.Not(boo(pos.value(z3.simplify(i + 1)).midi_time <= t)))))
        ensure(name, same(tuple(r), sigval(kind, pos.value(i))))
    with e.scope():
        e.forall(sp, lambda i: z3.Not(boo(pos.value(i).midi_time <= t)))
        if kind == "time":
            ensure(name + ": 4/4 before the first meter", same(tuple(r), (4, 4)))
        elif kind == "key":
            ensure(name + ": (0, 0) before the first key", same(tuple(r), (0, 0)))


@contract("T02", "MidiNoteSequences.time_signature, key_signature, tempo_signature", share=2)
def t02_look(w):
    e = E()
    kind = e.choose(KIND)
    l = Line(w, kind)
    t0, t = e.real("t0", 0), e.real("t", 0)
    case("any line", kind=kind, line=l.rows(), ask=[t0], v=None, t=t)
    l.look(t0)
    ensure_lookup("a lookup gives the last signature at or before the time", kind, l.look(t), l.segs, t)
    equal_lists("a lookup leaves the time line as it was", l.line, l.segs, lists.same_object)


def t02_fresh(w, kind):
    e = E()
    by_order(w, kind)
    e.assumption(SPACED)
    l = Line(w, kind, first=True)
    v, a = new_sig(w, kind)
    t0, t = e.real("t0", 0), e.real("t", 0)
    case("any line", kind=kind, line=l.rows(), ask=[t0], v=a, t=t)
    l.look(t0)
    if kind == "tempo":
        outcome(l.x.initial_tempo)
    if not returns("a signature is added", l.add(v)):
        return
    # by the contract of the addition (T01) the time line is some time line in order now
    m = Line(w, kind, "m")
    e.assumption("the time line after an addition by the contract of the addition, proved in: T01 MidiNoteSequences.add_*")
    setattr(l.x, LINE[kind], m.list)
    ensure_lookup("a lookup after an addition reflects the time line as it is", kind, l.look(t), m.segs, t)
    if kind == "tempo":
        initial(l)


for _k in KIND:
    contract("T02", "%s after an addition" % LOOK[_k], share=2)(lambda w, k=_k: t02_fresh(w, k))


@contract("T02", "MidiNoteSequences.initial_tempo")
def t02_initial(w):
    e = E()
    l = Line(w, "tempo")
    case("any line", kind="tempo", line=l.rows(), ask=[], v=None, t=0.0)
    initial(l)


def initial(l):
    e = E()
    o = outcome(l.x.initial_tempo)
    if not returns("the initial tempo is known", o):
        return
    pos = rt.linear(l.line)
    sp = pos.space
    sp.use(z3.IntVal(0))
    with e.scope():
        i = sp.generic("zero")
        e.add(pos.inr(i))
        e.add(eq(pos.value(i).midi_time, 0))
        e.forall(sp, lambda j: z3.Implies(j < i, z3.Not(boo(eq(pos.value(j).midi_time, 0)))))
        ensure("the initial tempo is the tempo at time 0", eq(o.value, pos.value(i).qpm))
    with e.scope():
        e.add(sp.n > 0)
        e.forall(sp, lambda j: z3.Not(boo(eq(pos.value(j).midi_time, 0))))
        ensure("without one the initial tempo is the first tempo", eq(o.value, pos.value(z3.IntVal(0)).qpm))


@contract("T02", "lookups of two collections")
def t02_two(w):
    e = E()
    kind = e.choose(KIND)
    l, m = Line(w, kind), Line(w, kind, "m")
    t0, t = e.real("t0", 0), e.real("t", 0)
    nocase()
    l.look(t0)
    ensure_lookup("lookups on another collection do not mix", kind, m.look(t), m.segs, t)


@contract("T03", "MidiNoteSequences.slice_time_signatures, slice_key_signatures, slice_tempo_signature", share=2)
def t03_enum(w):
    e = E()
    kind = e.choose(KIND)
    by_order(w, kind)
    sort = e.choose([True, False, "given out of order"])
    l = Line(w, kind, ordered=sort != "given out of order")
    sort = bool(sort)
    b = e.choose(["none", "bound"])
    bound = None if b == "none" else e.real("bound")
    case("any enumeration", kind=kind, line=l.rows(), bound=bound, sort_first=sort)
    o = outcome(lambda: SymList(segs_of(getattr(l.x, SLICE[kind])(bound, sort_first=sort))))
    if not returns("an enumeration is given", o):
        return
    want = [Seg(l.sp, (lambda i: l.seg.value(i).midi_time <= bound) if bound is not None else lists.always, l.seg.value_, l.seg.facts)]
    got = o.value
    same_members("an enumeration gives each signature at or before the bound once and no other", got, want)
    in_order("an enumeration is in order of time", got, lambda x, y: x.midi_time < y.midi_time)
    equal_lists("an enumeration leaves the time line as it was", l.line, l.segs, lists.same_object)
    each("an enumeration leaves the signatures as they were", l.segs,
         lambda s: same(l.before(s), tuple(getattr(s, f) for f in FIELDS[kind])))
