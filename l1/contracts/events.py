"""Contracts of control changes, pitch bends, instruments, tempo, meter, key,
intervals (C01, P01, I01, T04, D03)."""
from .base import *

CC = ("cc_number", "cc_value", "cc_time", "program", "instrument", "is_drum", "quantized_step",
      "quantized_start_step", "quantized_end_step")


def cc_mod(w):
    return w.load(PKG + "midi.midi_control_change")


def cc_args(name, valid=True):
    e = E()
    r = lambda f: "%s.%s" % (name, f)
    b = (0, 255) if valid else (None, None)
    d = dict(number=e.int(r("number"), *b), value=e.int(r("value"), *b), time=e.real(r("time"), 0 if valid else None),
             program=e.int(r("program"), *b), instrument=e.int(r("instrument"), *b), drum=e.bool(r("drum")),
             step=e.int(r("step"), *((1, 32) if valid else (None, None))), qs=e.int(r("qs"), -1), qe=e.int(r("qe"), -1))
    return d


def mk_cc(w, d):
    return cc_mod(w).MidiControlChange(
        d["number"], d["value"], cc_time=d["time"], program=d["program"], instrument=d["instrument"], is_drum=d["drum"],
        quantized_step=d["step"], quantized_start_step=d["qs"], quantized_end_step=d["qe"])


def state(x, fields):
    return tuple(getattr(x, f) for f in fields)


@contract("C01", "MidiControlChange.__init__")
def c01_init(w):
    d = cc_args("c", valid=False)
    case("construct", **d)
    o = outcome(mk_cc, w, d)
    if not returns("any control change is accepted", o):
        return
    x = o.value
    for f, k, lo, hi in (("cc_number", "number", 0, 255), ("cc_value", "value", 0, 255), ("program", "program", 0, 255),
                         ("instrument", "instrument", 0, 255), ("quantized_step", "step", 1, 32)):
        ensure("%s becomes the nearest value in %d..%d" % (f, lo, hi), eq(getattr(x, f), clamp(d[k], lo, hi)))
    ensure("the time becomes the nearest non-negative time", eq(x.cc_time, mx(d["time"], 0)))
    ensure("drum flag and steps are kept", And(eq(x.is_drum, d["drum"]), eq(x.quantized_start_step, d["qs"]),
                                               eq(x.quantized_end_step, d["qe"])))
    ensure("it counts as quantized exactly when both steps are set", Iff(x.is_quantized(), And(d["qs"] >= 0, d["qe"] >= 0)))


@contract("C01", "MidiControlChange.make_copy")
def c01_copy(w):
    e = E()
    d = cc_args("c")
    x = mk_cc(w, d)
    t = e.choose([None, e.real("over.time", 0)])
    qs = e.choose([None, e.int("over.qs", 0)])
    qe = e.choose([None, e.int("over.qe", 0)])
    case("copy and quantize", cc=d, time=t, qs=qs, qe=qe, sps=4, amount=0.5)
    before = state(x, CC)
    o = outcome(x.make_copy, t, qs, qe)
    if not returns("a copy is returned", o):
        return
    want = {k: v for k, v in (("cc_time", t), ("quantized_start_step", qs), ("quantized_end_step", qe)) if v is not None}
    y = o.value
    ensure("the copy is another control change", y is not x)
    ensure("the copy has every attribute, except what the caller overrides", changed_only(before, state(y, CC), CC, **want))
    ensure("copying leaves the original as it was", same(before, state(x, CC)))
    y.cc_time = e.real("later", 0)
    y.quantized_step = e.int("later.step", 1, 32)
    ensure("changing the copy leaves the original as it was", same(before, state(x, CC)))


@contract(("C01", "S05"), "MidiControlChange.quantize, quantize_in_place", share=3, abstract=True)
def c01_quantize(w):
    e = E()
    d = cc_args("c")
    x = mk_cc(w, d)
    sps = e.int("sps", 1, 32)
    a = e.real("amount", None, 1)
    e.add(a > 0)
    how = e.choose(["new", "in place"])
    case("copy and quantize", cc=d, time=None, qs=None, qe=None, sps=sps, amount=a)
    before = state(x, CC)
    o = outcome(x.quantize if how == "new" else x.quantize_in_place, sps=sps, amount=a)
    if not returns("quantizing returns", o):
        return
    y = o.value if how == "new" else x
    if how == "new":
        ensure("the quantized control change is another one", y is not x)
        ensure("quantizing to a new one leaves the original as it was", same(before, state(x, CC)))
    step = mx(0, floor_(d["time"] * sps + 1 - a))
    ensure("the start step is floor(time*sps + 1 - amount)", eq(y.quantized_start_step, step))
    ensure("it is one step long", eq(y.quantized_end_step, y.quantized_start_step + 1))
    ensure("it counts as quantized", y.is_quantized())
    keep = ("cc_number", "cc_value", "program", "instrument", "is_drum", "cc_time")
    ensure("nothing but the steps changes", same(tuple(before[CC.index(f)] for f in keep), state(y, keep)))


@contract("C01", "MidiControlChange.__lt__")
def c01_lt(w):
    e = E()
    a, b = e.real("a", 0), e.real("b", 0)
    sa, sb = e.int("sa", 0), e.int("sb", 0)
    C = cc_mod(w).MidiControlChange
    x, y = C(1, 2, a), C(3, 4, b)
    x.seq, y.seq = sa, sb
    # times that differ by less than the tolerance of the order count as one time
    e.assumption("two event times are equal or further apart than 1e-9 of the larger")
    e.add(Or(eq(a, b), absdiff(a, b) > mx(a, b) * 1e-9))
    case("order", a=a, b=b, sa=sa, sb=sb, f="cc_number", c=dict(number=1, value=2, time=0.0, program=0, instrument=0,
                                                                drum=False, step=4, qs=-1, qe=-1))
    r = rt.pure_bool(lambda: x < y)
    ensure("the order is by time, ties by sequence number", Iff(r, If(eq(a, b), sa < sb, a < b)))
    ensure("the order is never true both ways", Not(And(r, rt.pure_bool(lambda: y < x))))
    ensure("nothing is before itself", Not(rt.pure_bool(lambda: x < x)))


@contract("C01", "MidiControlChange.__eq__")
def c01_eq(w):
    c, d = cc_args("a"), cc_args("b")
    x, y = mk_cc(w, c), mk_cc(w, d)
    r = rt.pure_bool(lambda: x == y)
    ensure("two are equal exactly when all attributes are", Iff(r, same(state(x, CC), state(y, CC))))
    ensure("unequal is not equal", Iff(rt.pure_bool(lambda: x != y), Not(r)))


# --------------------------------------------------------------------- P01
PB = ("amount", "midi_time", "program", "instrument", "is_drum")


def pb_args(name, valid=True):
    e = E()
    r = lambda f: "%s.%s" % (name, f)
    v = lambda lo, hi: (lo, hi) if valid else (None, None)
    return dict(amount=e.int(r("amount"), *v(-8192, 8191)), time=e.real(r("time"), *v(0, None)),
                program=e.int(r("program"), *v(0, 127)), instrument=e.int(r("instrument"), *v(0, 127)), drum=e.bool(r("drum")))


def mk_pb(w, d):
    return w.load(PKG + "midi.midi_pitch_bend").MidiPitchBend(
        d["amount"], midi_time=d["time"], program=d["program"], instrument=d["instrument"], is_drum=d["drum"])


@contract("P01", "MidiPitchBend.__init__")
def p01_init(w):
    d = pb_args("b", valid=False)
    case("construct", **d)
    o = outcome(mk_pb, w, d)
    ok = And(between(-8192, d["amount"], 8191), between(0, d["program"], 127), between(0, d["instrument"], 127), d["time"] >= 0)
    if not o.ok:
        ensure("only values outside the ranges are refused", And(Not(ok), o.refused()), repr(o.value)[:200])
        return
    ensure("values outside the ranges are refused", ok)
    x = o.value
    ensure("accepted values are stored unchanged", same(state(x, PB), (d["amount"], d["time"], d["program"], d["instrument"], d["drum"])))
    ensure("start and end of the event are its time", And(eq(x.event_start_time, d["time"]), eq(x.event_end_time, d["time"])))


@contract("P01", "MidiPitchBend.program, instrument, midi_time setters")
def p01_set(w):
    e = E()
    d = pb_args("b")
    x = mk_pb(w, d)
    f = e.choose(["program", "instrument", "midi_time"])
    v = e.real("value") if f == "midi_time" else e.int("value")
    case("set and compare", b=d, f=f, v=v, d="drum")
    before = state(x, PB)
    o = outcome(setattr, x, f, v)
    ok = v >= 0 if f == "midi_time" else between(0, v, 127)
    if o.ok:
        ensure("a %s outside its range is refused" % f, ok)
        ensure("setting the %s changes nothing else" % f, changed_only(before, state(x, PB), PB, **{f: v}))
        ensure("start and end of the event are its time", And(eq(x.event_start_time, x.midi_time), eq(x.event_end_time, x.midi_time)))
    else:
        ensure("a %s inside its range is accepted" % f, And(Not(ok), o.refused()))
        ensure("a refused %s changes nothing" % f, same(before, state(x, PB)))


@contract("P01", "MidiPitchBend.__eq__")
def p01_eq(w):
    c, d = pb_args("a"), pb_args("b")
    x, y = mk_pb(w, c), mk_pb(w, d)
    r = rt.pure_bool(lambda: x == y)
    ensure("two are equal exactly when amount, program, instrument, time and drum flag are", Iff(r, same(state(x, PB), state(y, PB))))
    ensure("unequal is not equal", Iff(rt.pure_bool(lambda: x != y), Not(r)))


# --------------------------------------------------------------------- I01
FAMILY = ["Piano", "Chromatic Percussion", "Organ", "Guitar", "Bass", "Strings", "Ensemble", "Brass", "Reed",
          "Pipe", "Synth Lead", "Synth Pad", "Synth Effects", "Ethnic", "Percussive", "Sound Effects"]


def info(w):
    return w.load(PKG + "midi.midi_instruments").MidiInstrumentInfo


@contract("I01", "MidiInstrumentInfo.__init__, to_dict, from_dict")
def i01_init(w):
    e = E()
    n = e.int("num")
    b = e.bool("drum")
    name = e.choose(["", "Lead"])
    case("construct", num=n, name=name, drum=b)
    I = info(w)
    o = outcome(I, n, name, b)
    ok = between(0, n, 255)
    if not o.ok:
        ensure("only a number outside 0..255 is refused", And(Not(ok), o.refused()), repr(o.value)[:200])
        return
    ensure("a number outside 0..255 is refused", ok)
    x = o.value
    ensure("number and drum flag are stored", And(eq(x.instrument_num, n), eq(x.is_drum, b)))
    if name:
        ensure("a given name is stored", eq(x.name, name))
    else:
        none = I(0, "").name
        for k, f in enumerate(FAMILY):
            ensure("an unnamed instrument gets the family name of its number",
                   Implies(between(8 * k + 1, n, 8 * k + 8), eq(x.name, f)))
        ensure("an unnamed instrument of no family gets one fixed name", Implies(Or(n < 1, n > 128), eq(x.name, none)))
    o = outcome(lambda: I.from_dict(x.to_dict()))
    if returns("the dictionary is read back", o):
        y = o.value
        ensure("a dictionary and back gives an equal description", And(
            rt.pure_bool(lambda: x == y), eq(x.instrument_num, y.instrument_num), eq(x.name, y.name), eq(x.is_drum, y.is_drum)))


@contract("I01", "MidiInstrumentInfo.__init__, wrong kinds")
def i01_kinds(w):
    e = E()
    k = e.choose(["num", "name", "drum"])
    a = dict(num=e.int("num", 0, 255), name="x", drum=e.bool("drum"))
    a[k] = e.choose({"num": [e.real("r"), "3", None], "name": [e.int("i"), None, True], "drum": [e.int("i"), "no", None]}[k])
    case("construct", **a)
    refuses("a %s of another kind is refused" % k, outcome(info(w), a["num"], a["name"], a["drum"]))


@contract("I01", "MidiInstrumentInfo.__eq__, __hash__, __lt__")
def i01_rel(w):
    e = E()
    ds = [(e.int(x + ".num", 0, 255), e.choose(["a", "b"]), e.bool(x + ".drum")) for x in "xy"]
    x, y = [info(w)(*d) for d in ds]
    case("relations", a=list(ds[0]), b=list(ds[1]))
    want = same(ds[0], ds[1])
    r = rt.pure_bool(lambda: x == y)
    ensure("equal exactly when number, name and drum flag are", Iff(r, want))
    ensure("unequal is not equal", Iff(rt.pure_bool(lambda: x != y), Not(r)))
    h1, h2 = rt.BUILTINS["hash"](x), rt.BUILTINS["hash"](y)
    ensure("equal descriptions have equal hashes", Implies(want, lists.deep_eq(h1, h2)))
    ensure("the order is by number", Iff(rt.pure_bool(lambda: x < y), ds[0][0] < ds[1][0]))
    ensure("a description equals no number", Not(x == 3))


# --------------------------------------------------------------------- T04
def sig(w):
    return w.load(PKG + "midi.midi_time_signature")


FINE = dict(q=120.0, r=480, num=4, den=4, mode=0)


@contract("T04", "MidiTempoSignature.__init__, seconds_per_quarter, seconds_per_tick, bpm")
def t04_tempo(w):
    e = E()
    q, r, t = e.real("q"), e.int("r"), e.real("t")
    b = e.real("bpm")
    e.add(b > 0)
    case("refusals", **dict(FINE, q=q, r=r))
    o = outcome(sig(w).MidiTempoSignature, midi_time=t, qpm=q, resolution=r)
    ok = And(q > 0, r > 0)
    if not o.ok:
        ensure("only a tempo or resolution that is not positive is refused", And(Not(ok), o.refused()), repr(o.value)[:200])
        return
    ensure("a tempo or resolution that is not positive is refused", ok)
    s = o.value
    case("tempo", q=q, r=r, t=t, b=b, m=1.0)
    ensure("tempo, resolution and time are stored", And(eq(s.qpm, q), eq(s.resolution, r), eq(s.midi_time, t)))
    x = s.seconds_per_quarter
    ensure("a quarter note lasts 60/q seconds", eq(x * q, 60))
    ensure("a tick lasts 60/(q*r) seconds", eq(s.seconds_per_tick * q * r, 60))
    ensure("beats per minute are q/4", eq(s.bpm * 4, q))
    s.bpm = b
    ensure("setting the beats per minute changes the tempo to match", And(eq(s.bpm, b), eq(s.qpm, 4 * b)))
    ensure("a quarter note follows the new tempo", eq(s.seconds_per_quarter * 4 * b, 60))


@contract("T04", "MidiTempoSignature.tempo_to_qpm")
def t04_micro(w):
    e = E()
    m = e.real("m")
    e.add(m > 0)
    case("tempo", q=120.0, r=220, t=0.0, b=30.0, m=m)
    o = outcome(sig(w).MidiTempoSignature.tempo_to_qpm, m)
    if returns("a tempo is converted", o):
        ensure("m microseconds per quarter note are 60000000/m quarter notes per minute", eq(o.value * m, 60000000))


@contract("T04", "MidiTimeSignature.__init__")
def t04_meter(w):
    e = E()
    n, d, t = e.int("num"), e.int("den", None, 4096), e.real("t", 0)
    bad = e.choose([None, "num", "den"])
    if bad:
        v = e.choose([e.real("other"), "4", None])
        n, d = (v, d) if bad == "num" else (n, v)
    case("refusals", **dict(FINE, num=n, den=d))
    o = outcome(sig(w).MidiTimeSignature, midi_time=t, numerator=n, denominator=d)
    if bad:
        refuses("a meter whose parts are not whole numbers is refused", o)
        return
    ok = And(n > 0, d > 0, core.ispow2(d))
    if not o.ok:
        ensure("only an invalid meter is refused", And(Not(ok), o.refused()), repr(o.value)[:200])
        return
    ensure("a meter whose parts are not positive or whose denominator is no power of two is refused", ok)
    s = o.value
    ensure("numerator, denominator and time are stored", And(eq(s.numerator, n), eq(s.denominator, d), eq(s.midi_time, t)))


@contract("T04", "MidiKeySignature.__init__, major_or_minor")
def t04_mode(w):
    e = E()
    K = w.load(PKG + "midi.midi_key_signature")
    m, k, t = e.int("mode"), e.int("key", 0, 11), e.real("t", 0)
    case("refusals", **dict(FINE, mode=m))
    o = outcome(K.MidiKeySignature, midi_time=t, midi_key=k, midi_mode=m)
    ok = Or(eq(m, 0), eq(m, 1))
    if not o.ok:
        ensure("only a mode other than major and minor is refused", And(Not(ok), o.refused()), repr(o.value)[:200])
        return
    ensure("a mode other than major (0) and minor (1) is refused", ok)
    s = o.value
    T = K.KeySignatureType
    ensure("mode 0 is major, 1 is minor", And(Implies(eq(m, 0), s.mode is T.MAJOR), Implies(eq(m, 1), s.mode is T.MINOR)))
    ensure("key and time are stored", And(eq(s.midi_key, k), eq(s.midi_time, t)))


# --------------------------------------------------------------------- D03
def ival(w, name, ordered=True):
    e = E()
    s, t = e.real(name + ".start"), e.real(name + ".end")
    if ordered:
        e.add(s <= t)
    return w.load(PKG + "midi.Interval").Interval(s, t)


def ends(i):
    return [i.start, i.end]


@contract("D03", "Interval.__contains__, overlaps, intersection, union")
def d03_sets(w):
    e = E()
    a, b, c = ival(w, "a"), ival(w, "b"), ival(w, "c")
    x = e.real("x")
    case("relations", a=ends(a), b=ends(b), c=ends(c), p=x, f=False)
    ina = rt.pure_bool(lambda: x in a)
    inb = rt.pure_bool(lambda: x in b)
    ensure("a point is inside exactly when it is between the ends, inclusively", Iff(ina, between(a.start, x, a.end)))
    ov = rt.pure_bool(lambda: a.overlaps(b))
    # a shared point exists exactly when the larger start is shared
    top = mx(a.start, b.start)
    ensure("overlapping intervals share a point", Implies(ov, And(between(a.start, top, a.end), between(b.start, top, b.end))))
    ensure("intervals that share a point overlap", Implies(And(ina, inb), ov))
    ensure("overlap is symmetric", Iff(ov, rt.pure_bool(lambda: b.overlaps(a))))
    i = a.intersection(b)
    if i is None:
        ensure("an intersection is absent only when no point is shared", Not(And(ina, inb)))
    else:
        ensure("an intersection contains exactly the shared points", Iff(rt.pure_bool(lambda: x in i), And(ina, inb)))
        ensure("an intersection is absent when no point is shared", ov)
        ensure("an intersection has its start before its end", i.start <= i.end)
    u = a.union(b)
    ensure("a union contains every point of both", Implies(Or(ina, inb), rt.pure_bool(lambda: x in u)))
    ensure("a union reaches no further than both", And(Or(eq(u.start, a.start), eq(u.start, b.start)),
                                                      Or(eq(u.end, a.end), eq(u.end, b.end))))


@contract(("D03", "D02"), "Interval.__eq__, __hash__, __lt__, __le__")
def d03_order(w):
    a, b, c = ival(w, "a"), ival(w, "b"), ival(w, "c")
    if core.eng().unit_pid == "D02":
        case("one operation on intervals", pid="D02", keys=[ends(a), ends(b), ends(c)], op="look", k=ends(a), q=ends(b))
    else:
        case("relations", a=ends(a), b=ends(b), c=ends(c), p=0, f=False)
    p = lambda f: rt.pure_bool(f)
    equal = And(eq(a.start, b.start), eq(a.end, b.end))
    ensure("equal exactly when the ends are", Iff(p(lambda: a == b), equal))
    H = rt.BUILTINS["hash"]
    ensure("equal intervals have equal hashes", Implies(equal, lists.deep_eq(H(a), H(b))))
    lt = Or(a.start < b.start, And(eq(a.start, b.start), a.end < b.end))
    ensure("the order is by start, then end", Iff(p(lambda: a < b), lt))
    ensure("before or equal", Iff(p(lambda: a <= b), Or(lt, equal)))
    ensure("the order is total", Or(p(lambda: a < b), p(lambda: b < a), p(lambda: a == b)))
    ensure("the order is strict", And(Not(p(lambda: a < a)), Not(And(p(lambda: a < b), p(lambda: b < a)))))
    ensure("the order is transitive", Implies(And(p(lambda: a < b), p(lambda: b < c)), p(lambda: a < c)))
