"""Contracts of notes (N01..N05)."""
from .base import *


def M(w):
    return w.load(PKG + "midi.midi_note")


# --------------------------------------------------------------------- N01
@contract("N01", "MidiNote.__init__")
def n01_init(w):
    d = note_args(valid=False)
    e = E()
    num_, den = e.int("n.num"), e.int("n.den")
    d["num"], d["den"] = num_, den
    e.add(And(num_ <= 255, den <= 255))
    build(w, d, "init", lambda: mk_note(w, d))


@contract("N01", "MidiNote.from_json")
def n01_json(w):
    d = note_args(valid=False)
    e = E()
    d["num"], d["den"] = e.int("n.num"), e.int("n.den")
    e.add(And(d["num"] <= 255, d["den"] <= 255))
    doc = rt.mkdict((("pitch", d["pitch"]), ("start_time", d["start"]), ("end_time", d["end"]),
                     ("program", d["program"]), ("instrument", d["instrument"]), ("velocity", d["velocity"]),
                     ("voice", d["voice"]), ("numerator", d["num"]), ("denominator", d["den"]), ("is_drum", d["drum"])))
    build(w, d, "json", lambda: M(w).MidiNote.from_json(doc))


@contract("N01", "MidiNote.make_copy")
def n01_copy(w):
    d = note_args()
    n = mk_note(w, d)
    build(w, d, "copy", lambda: n.make_copy())


@contract("N01", "MidiNote.from_name")
def n01_name(w):
    d = note_args(valid=False)
    e = E()
    e.add(between(0, d["pitch"], 127))
    d.update(num=4, den=4, voice=0)
    name = lists.Tok("pitch_name", (d["pitch"],))
    build(w, d, "name", lambda: M(w).MidiNote.from_name(
        name, d["start"], d["end"], velocity=d["velocity"], program=d["program"], instrument=d["instrument"],
        is_drum=d["drum"]))


def build(w, d, path, make):
    case("construct", path=path, **d)
    o = outcome(make)
    ok = And(d["end"] > d["start"], d["num"] > 0, d["den"] > 0, core.ispow2(d["den"]))
    if not o.ok:
        ensure("only an empty note or an invalid meter is refused", And(Not(ok), o.refused()), repr(o.value)[:200])
        return
    ensure("an empty note or an invalid meter is refused", ok)
    n = o.value
    for f, k, hi in (("pitch", "pitch", 127), ("velocity", "velocity", 127), ("instrument", "instrument", 127),
                     ("program", "program", 255)):
        ensure("%s becomes the nearest value in 0..%d" % (f, hi), eq(getattr(n, f), clamp(d[k], 0, hi)))
    ensure("times, meter, voice and drum flag are kept", And(
        eq(n.start_time, d["start"]), eq(n.end_time, d["end"]), eq(n.numerator, d["num"]),
        eq(n.denominator, d["den"]), eq(n.voice, d["voice"]), eq(n.is_drum, d["drum"])))
    ensure("the pitch name belongs to the pitch", lists.deep_eq(n.pitch_name, lists.Tok("pitch_name", (n.pitch,))))


@contract("N01", "MidiNote.pitch, program setters")
def n01_set(w):
    d = note_args()
    n = mk_note(w, d)
    e = E()
    f = e.choose(["pitch", "program"])
    v = e.int("value")
    case("setters", note=d, field=f, value=v)
    before = nstate(n)
    o = outcome(setattr, n, f, v)
    ok = between(0, v, 127 if f == "pitch" else 255)
    if o.ok:
        ensure("a %s outside its range is refused" % f, ok)
        ensure("setting the %s changes nothing else" % f, changed_only(before, nstate(n), NOTE_FIELDS, **{f: v}))
    else:
        ensure("a %s inside its range is accepted" % f, And(Not(ok), o.refused()))
        ensure("a refused %s leaves the note as it was" % f, same(before, nstate(n)))


# --------------------------------------------------------------------- N02
@contract("N02", "MidiNote.start_time, end_time setters")
def n02_set(w):
    d = note_args()
    n = mk_note(w, d)
    e = E()
    f = e.choose(["start", "end"])
    v = e.real("value")
    case("time edits", note=d, op=f, value=v)
    before = nstate(n)
    o = outcome(setattr, n, f + "_time", v)
    ok = And(v >= 0, v < d["end"] if f == "start" else v > d["start"])
    if o.ok:
        ensure("a %s that is negative or empties the note is refused" % f, ok)
        ensure("exactly the %s is set" % f, changed_only(before, nstate(n), NOTE_FIELDS, **{f + "_time": v}))
        ensure("the start is before the end", n.start_time < n.end_time)
    else:
        ensure("a possible %s is accepted" % f, And(Not(ok), o.refused()))
        ensure("a refused %s changes nothing" % f, same(before, nstate(n)))


@contract("N02", "MidiNote.shift_time, stretch")
def n02_move(w):
    d = note_args()
    n = mk_note(w, d)
    e = E()
    op = e.choose(["shift", "stretch"])
    v = e.real("value")
    case("time edits", note=d, op=op, value=v)
    before = nstate(n)
    o = outcome(n.shift_time if op == "shift" else n.stretch, v)
    if returns("%s returns" % op, o):
        g = (lambda t: t + v) if op == "shift" else (lambda t: t * v)
        ensure("%s moves both times and nothing else" % op, changed_only(
            before, nstate(n), NOTE_FIELDS, start_time=g(d["start"]), end_time=g(d["end"])))
        ensure("the duration is end minus start after %s" % op, eq(n.duration(), n.end_time - n.start_time))


@contract("N02", "MidiNote.quantized step setters")
def n02_steps(w):
    d = note_args()
    n = mk_note(w, d)
    e = E()
    f = e.choose(["quantized_start_step", "quantized_end_step"])
    v = e.choose([e.int("value"), e.real("valuer")])
    case("step edits", note=d, field=f, value=v)
    before = nstate(n)
    o = outcome(setattr, n, f, v)
    if o.ok:
        ensure("a negative step is refused", v >= 0)
        ensure("exactly the step is set", changed_only(before, nstate(n), NOTE_FIELDS, **{f: v}))
    else:
        ensure("a non-negative step is accepted", And(v < 0, o.refused()))
        ensure("a refused step changes nothing", same(before, nstate(n)))


# --------------------------------------------------------------------- N03
@contract("N03", "MidiNote.make_copy")
def n03_copy(w):
    d = note_args()
    n = mk_note(w, d)
    e = E()
    qs = e.choose([None, e.int("over.qs", 0)])
    qe = e.choose([None, e.int("over.qe", 0)])
    case("copy", note=d, qs=qs, qe=qe)
    before = nstate(n)
    o = outcome(n.make_copy, qs, qe)
    if not returns("a copy is returned", o):
        return
    m = o.value
    over = {}
    if qs is not None:
        over["quantized_start_step"] = qs
    if qe is not None:
        over["quantized_end_step"] = qe
    ensure("the copy is another note", m is not n)
    ensure("the copy has every attribute, except the steps the caller overrides",
           changed_only(before, nstate(m), NOTE_FIELDS, **over))
    ensure("copying leaves the note as it was", same(before, nstate(n)))
    p, t = e.int("later.pitch", 0, 127), e.real("later.end", 0)
    e.add(t > d["start"])
    m.pitch = p
    m.end_time = t
    ensure("changing the copy leaves the note as it was", same(before, nstate(n)))


@contract(("N03", "S05"), "MidiNote.quantize", share=2, abstract=True)
def n03_quantize(w):
    d = note_args(quantized=False)
    e = E()
    e.add(d["start"] >= 0)
    n = mk_note(w, d)
    sps = e.int("sps", 1)
    a = e.real("amount")
    e.add(And(a > 0, a <= 1))
    case("quantized copy", note=d, sps=sps, amount=a)
    before = nstate(n)
    o = outcome(n.quantize, sps=sps, amount=a)
    if not returns("a quantized note is returned", o):
        return
    m = o.value
    ensure("the quantized note is another note", m is not n)
    ensure("quantizing to a new note leaves the note as it was", same(before, nstate(n)))
    ensure("the quantized note keeps pitch, velocity, program, instrument, voice, meter and drum flag",
           same(tuple(getattr(m, f) for f in KEPT), tuple(getattr(n, f) for f in KEPT)))


KEPT = ("pitch", "velocity", "program", "instrument", "voice", "numerator", "denominator", "is_drum")


@contract("N03", "MidiNote.from_json, MidiNoteJSONDecoder.object_hook")
def n03_doc(w):
    d = note_args()
    e = E()
    via = e.choose(["from_json", "decoder"])
    doc = [("pitch", d["pitch"]), ("start_time", d["start"]), ("end_time", d["end"]), ("program", d["program"]),
           ("instrument", d["instrument"]), ("velocity", d["velocity"])]
    opt = [("quantized_start_step", d["qs"], -1), ("quantized_end_step", d["qe"], -1), ("voice", d["voice"], 0),
           ("numerator", d["num"], 4), ("denominator", d["den"], 4), ("is_drum", d["drum"], False)]
    # every optional value alone, none and all of them
    sel = e.choose(list(range(len(opt))) + ["none", "all"])
    want = dict(doc)
    given = dict(doc)
    for i, (k, v, dflt) in enumerate(opt):
        if sel == "all" or sel == i:
            given[k] = want[k] = v
        else:
            want[k] = dflt
    case("document", doc=given, via=via)
    vd = rt.mkdict(tuple(given.items()))
    if via == "from_json":
        o = outcome(M(w).MidiNote.from_json, vd)
    else:
        o = outcome(M(w).MidiNoteJSONDecoder.object_hook, rt.mkdict((("__MidiNote__", True), ("data", vd))))
    if not returns("a document of a note is read", o):
        return
    for k, v in want.items():
        ensure("%s of the document, or its default" % k, eq(getattr(o.value, k), v))


# --------------------------------------------------------------------- N04
@contract(("N04", "S05"), "MidiNote.quantize_in_place", share=3, abstract=True)
def n04_quantize(w):
    e = E()
    d = note_args(quantized=False)
    e.add(d["start"] >= 0)
    n = mk_note(w, d)
    sps = e.int("sps")
    a = e.real("amount")
    e.add(a <= 1)
    case("quantize", start=d["start"], end=d["end"], sps=sps, amount=a)
    before = nstate(n)
    o = outcome(n.quantize_in_place, sps=sps, amount=a)
    ok = And(sps > 0, a > 0)
    if not o.ok:
        ensure("only a non-positive resolution or amount is refused", And(Not(ok), o.refused()), repr(o.value))
        return
    ensure("a non-positive resolution or amount is refused", ok)
    x, y = d["start"] * sps + 1 - a, d["end"] * sps + 1 - a
    qs, qe = n.quantized_start_step, n.quantized_end_step
    ensure("the start step is max(0, floor(start*sps + 1 - a))", eq(qs, mx(0, floor_(x))))
    ensure("the end step is ceil(end*sps + 1 - a)", eq(qe, mx(0, ceil_(y))))
    ensure("the start step is below the end step", qs < qe)
    ensure("the note counts as quantized", n.is_quantized())
    ensure("0 <= start < end", And(0 <= n.start_time, n.start_time < n.end_time))
    ensure("nothing but times and steps changes", And(*[same(p, q) for f, p, q in zip(NOTE_FIELDS, before, nstate(n))
                                                        if f in KEPT]))


@contract("N04", "MidiNote.quantize_to_nearest_step", abstract=True)
def n04_nearest(w):
    e = E()
    t, sps, a = e.real("time", 0), e.int("sps"), e.real("amount", None, 1)
    fl = e.choose([True, False])
    case("quantize", start=t, end=t + 1, sps=sps, amount=a)
    o = outcome(M(w).MidiNote.quantize_to_nearest_step, t, sps, a, is_floor=fl)
    ok = And(sps > 0, a > 0)
    if not o.ok:
        ensure("only a non-positive resolution or amount is refused", And(Not(ok), o.refused()))
        return
    ensure("a non-positive resolution or amount is refused", ok)
    x = t * sps + 1 - a
    ensure("the step is the %s of time*sps + 1 - a, at least 0" % ("floor" if fl else "ceiling"),
           eq(o.value, mx(0, floor_(x) if fl else ceil_(x))))


# --------------------------------------------------------------------- N05
def near(a, b, rel="1e-9"):
    """within 1e-9: as math.isclose of the documented tolerance"""
    from pyvc import stubs
    return stubs.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)


def as_bool(x):
    return boo(x) if not isinstance(x, (bool, SymBool)) else x


@contract("N05", "MidiNote.__eq__")
def n05_eq(w):
    c, d = note_args("a"), note_args("b")
    a, b = mk_note(w, c), mk_note(w, d)
    case("relations", a=c, b=d)
    rest = And(*[eq(x, y) for f, x, y in zip(NOTE_FIELDS, nstate(a), nstate(b)) if f not in ("start_time", "end_time")])
    r = rt.pure_bool(lambda: a == b)
    ensure("equal notes have equal attributes and times within 1e-9 (of the larger)",
           Implies(r, And(rest, near(a.start_time, b.start_time), near(a.end_time, b.end_time))))
    ensure("notes with equal attributes and times are equal",
           Implies(And(rest, eq(a.start_time, b.start_time), eq(a.end_time, b.end_time)), r))
    ensure("notes whose times are within 1e-9 and agree otherwise are equal",
           Implies(And(rest, absdiff(a.start_time, b.start_time) <= 1e-9, absdiff(a.end_time, b.end_time) <= 1e-9), r))
    ensure("equality is symmetric", Iff(r, rt.pure_bool(lambda: b == a)))
    ensure("equality is reflexive", rt.pure_bool(lambda: a == a))
    ensure("a note equals no other kind of thing", And(Not(a == 5), Not(a == None), Not(a == "n")))  # noqa


@contract("N05", "MidiNote.__lt__")
def n05_lt(w):
    c, d = note_args("a"), note_args("b")
    a, b = mk_note(w, c), mk_note(w, d)
    case("relations", a=c, b=d)
    s, t = absdiff(c["start"], d["start"]) > 1e-6, absdiff(c["end"], d["end"]) > 1e-6
    want = If(s, c["start"] < d["start"], If(t, c["end"] < d["end"], c["pitch"] < d["pitch"]))
    r = rt.pure_bool(lambda: a < b)
    ensure("the order is by start, then end, then pitch, within a microsecond", Iff(r, want))
    ensure("the order is never true both ways", Not(And(r, rt.pure_bool(lambda: b < a))))
    ensure("no note is before itself", Not(rt.pure_bool(lambda: a < a)))


@contract("N05", "MidiNote.overlaps")
def n05_overlap(w):
    c, d = note_args("a"), note_args("b")
    a, b = mk_note(w, c), mk_note(w, d)
    case("relations", a=c, b=d)
    want = And(c["start"] < d["end"], d["start"] < c["end"])
    ensure("two notes overlap exactly when each starts before the other ends", Iff(rt.pure_bool(lambda: a.overlaps(b)), want))
    ensure("overlap is symmetric", Iff(rt.pure_bool(lambda: b.overlaps(a)), want))
