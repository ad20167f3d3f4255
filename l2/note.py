"""Executable contracts of notes (N01..N05) and control changes, pitch bends,
instruments (C01, P01, I01)."""
import copy
import json
import math
from fractions import Fraction as Fr
from common import *
from neural_graph_composer.midi.midi_note import MidiNote, MidiNoteJSONDecoder
from neural_graph_composer.midi.midi_control_change import MidiControlChange
from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend
from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo


def clamp(v, lo, hi):
    return lo if v < lo else hi if v > hi else v


# ------------------------------------------------------------------ N01
def gen_construct(rng):
    s = rng.choice([r_time(rng), -r_time(rng), 0.0])
    e = rng.choice([s, s + rng.choice([0.25, 1.0, 1e-9]), s - 0.5, r_time(rng), s + 1])
    if rng.random() < 0.6:
        e = s + rng.choice([0.125, 0.5, 2.0])
    return dict(path=rng.choice(["init", "init", "init", "json", "decoder", "copy", "name"]),
                pitch=edgy_int(rng, 0, 127), start=s, end=e, program=edgy_int(rng, 0, 255),
                instrument=edgy_int(rng, 0, 127), velocity=edgy_int(rng, 0, 127),
                qs=-1, qe=-1, voice=rng.randint(0, 4),
                num=rng.choice([1, 2, 3, 4, 6, 12, 200, 255, 0, -1, 7] if rng.random() < .3 else [4, 3, 6]),
                den=rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 0, -4, 3, 5, 6, 7, 12, 24, 96, 127]
                               if rng.random() < .4 else [4, 8, 2]),
                drum=rng.random() < .3)


NAMES = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]


@unit("N01", "construct", gen_construct, n=4000, boundary=[
    dict(path=p, pitch=pi, start=0.0, end=1.0, program=pr, instrument=i, velocity=v, qs=-1, qe=-1,
         voice=0, num=4, den=4, drum=False)
    for p in ("init", "json", "decoder", "name", "copy")
    for (pi, pr, i, v) in [(0, 0, 0, 0), (127, 255, 127, 127), (-1, -1, -1, -1), (128, 256, 128, 128),
                           (60, 128, 64, 1), (1, 254, 126, 126), (126, 1, 1, 2)]],
      rule="construction path x in/out-of-range fields")
def n01_construct(c):
    c = dict(c)
    if c["path"] == "name":
        c["pitch"] = clamp(c["pitch"], 0, 127)
        c["num"] = c["den"] = 4
        c["voice"] = 0
    ok = (c["end"] > c["start"] and c["num"] > 0 and c["den"] > 0 and bin(c["den"]).count("1") == 1)
    if c["num"] > 255 or c["den"] > 255:
        raise Skip

    def build():
        doc = dict(pitch=c["pitch"], start_time=c["start"], end_time=c["end"], program=c["program"],
                   instrument=c["instrument"], velocity=c["velocity"], voice=c["voice"],
                   numerator=c["num"], denominator=c["den"], is_drum=c["drum"])
        p = c["path"]
        if p == "init":
            return mk_note(c)
        if p == "json":
            return MidiNote.from_json(doc)
        if p == "decoder":
            return json.loads(json.dumps({"__MidiNote__": True, "data": doc}), cls=MidiNoteJSONDecoder)
        if p == "copy":
            return mk_note(c).make_copy()
        return MidiNote.from_name("%s%d" % (NAMES[c["pitch"] % 12], c["pitch"] // 12 - 1), c["start"],
                                  c["end"], velocity=c["velocity"], program=c["program"],
                                  instrument=c["instrument"], is_drum=c["drum"])
    if not ok:
        must_refuse("a note with end %r start %r meter %r/%r" % (c["end"], c["start"], c["num"], c["den"]),
                    build)
        return
    n = build()
    for f, v, lo, hi in (("pitch", c["pitch"], 0, 127), ("velocity", c["velocity"], 0, 127),
                         ("instrument", c["instrument"], 0, 127), ("program", c["program"], 0, 255)):
        got = getattr(n, f)
        ensure(lo <= got <= hi, "%s %r is outside %d..%d", f, got, lo, hi)
        ensure(got == clamp(v, lo, hi), "%s given as %r became %r", f, v, got)
    ensure(n.start_time == c["start"] and n.end_time == c["end"], "times %r, %r became %r, %r",
           c["start"], c["end"], n.start_time, n.end_time)
    ensure(n.numerator == c["num"] and n.denominator == c["den"], "meter %r/%r became %r/%r",
           c["num"], c["den"], n.numerator, n.denominator)
    ensure(n.voice == c["voice"] and bool(n.is_drum) == c["drum"], "voice or drum flag changed")


@unit("N01", "setters", lambda rng: dict(note=note_case(rng), field=rng.choice(["pitch", "program"]),
                                         value=edgy_int(rng, 0, rng.choice([127, 255]))), n=1500,
      boundary=[dict(note=note_case(__import__("random").Random(1)), field=f, value=v)
                for f in ("pitch", "program") for v in (-1, 0, 1, 126, 127, 128, 254, 255, 256)],
      rule="pitch/program setter with edge values")
def n01_setters(c):
    n = mk_note(c["note"])
    hi = 127 if c["field"] == "pitch" else 255
    before = nstate(n)
    ok = 0 <= c["value"] <= hi
    r = refused(lambda: setattr(n, c["field"], c["value"]))
    ensure(r == (not ok), "setting %s to %r was %s", c["field"], c["value"], "refused" if r else "accepted")
    want = list(before)
    if ok:
        want[NOTE_FIELDS.index(c["field"])] = c["value"]
    ensure(nstate(n) == tuple(want), "note is %r, expected %r", nstate(n), tuple(want))


# ------------------------------------------------------------------ N02
def gen_time_edit(rng):
    n = note_case(rng, rng.choice(["grid", "any"]))
    v = rng.choice([n["start"], n["end"], -0.25, 0.0, -1e-9, n["start"] + 0.125, n["end"] - 0.125,
                    n["end"] + 0.125, r_time(rng), -r_time(rng), (n["start"] + n["end"]) / 2, 1e9,
                    0, int(n["end"])])
    return dict(note=n, op=rng.choice(["start", "end", "shift", "stretch"]), value=v)


@unit("N02", "time edits", gen_time_edit, n=4000, rule="note x edit x value, boundaries of the note included")
def n02_edit(c):
    n = mk_note(c["note"])
    s, e = n.start_time, n.end_time
    want = list(nstate(n))
    iS, iE = NOTE_FIELDS.index("start_time"), NOTE_FIELDS.index("end_time")
    v = c["value"]
    if c["op"] in ("start", "end"):
        ok = v >= 0 and (v < e if c["op"] == "start" else v > s)
        r = refused(lambda: setattr(n, c["op"] + "_time", v))
        ensure(r == (not ok), "%s=%r of note [%r,%r) was %s", c["op"], v, s, e,
               "refused" if r else "accepted")
        if ok:
            want[iS if c["op"] == "start" else iE] = v
    elif c["op"] == "shift":
        n.shift_time(v)
        want[iS], want[iE] = s + v, e + v
    else:
        n.stretch(v)
        want[iS], want[iE] = s * v, e * v
    got = list(nstate(n))
    for i in (iS, iE):
        ensure(close(got[i], want[i]), "times are %r, %r, expected %r, %r", got[iS], got[iE], want[iS], want[iE])
        got[i] = want[i] = 0
    ensure(got == want, "note is %r, expected %r", got, want)
    ensure(close(n.duration(), n.end_time - n.start_time), "duration %r", n.duration())


def gen_step_edit(rng):
    return dict(note=note_case(rng, qs=rng.choice([-1, 0, 3]), qe=rng.choice([-1, 4, 7])),
                field=rng.choice(["quantized_start_step", "quantized_end_step"]),
                value=rng.choice([-1, -2, 0, 1, 3, 4, 5, 9, 100, -0.5, 2.5]))


@unit("N02", "step edits", gen_step_edit, n=800, rule="note x step setter x value")
def n02_step(c):
    n = mk_note(c["note"])
    want = list(nstate(n))
    ok = c["value"] >= 0
    r = refused(lambda: setattr(n, c["field"], c["value"]))
    ensure(r == (not ok), "%s=%r was %s", c["field"], c["value"], "refused" if r else "accepted")
    if ok:
        want[NOTE_FIELDS.index(c["field"])] = c["value"]
    ensure(list(nstate(n)) == want, "note is %r, expected %r", nstate(n), want)


# ------------------------------------------------------------------ N03
def gen_copy(rng):
    q = rng.random() < .5
    return dict(note=note_case(rng, rng.choice(["grid", "any"]), qs=rng.randint(0, 9) if q else -1,
                               qe=rng.randint(10, 20) if q else -1),
                qs=rng.choice([None, None, 0, 5]), qe=rng.choice([None, None, 0, 8]))


@unit("N03", "copy", gen_copy, n=2000, rule="note x overrides incl. 0 and none")
def n03_copy(c):
    n = mk_note(c["note"])
    before = nfull(n)
    m = n.make_copy(c["qs"], c["qe"])
    want = list(nstate(n))
    if c["qs"] is not None:
        want[NOTE_FIELDS.index("quantized_start_step")] = c["qs"]
    if c["qe"] is not None:
        want[NOTE_FIELDS.index("quantized_end_step")] = c["qe"]
    ensure(m is not n, "a copy is the note itself")
    ensure(list(nstate(m)) == want, "copy is %r, expected %r", nstate(m), want)
    ensure(nfull(n) == before, "copying changed the note")
    # independence
    m.end_time = m.end_time + 1
    m.pitch = (m.pitch + 1) % 128
    ensure(nfull(n) == before, "changing the copy changed the note")


@unit("N03", "quantized copy", lambda rng: dict(note=note_case(rng, rng.choice(["grid", "any"])),
                                               sps=rng.choice([1, 2, 3, 4, 8, 16, 220]),
                                               amount=rng.choice([0.5, 0.25, 1.0, 0.125, 0.9])),
      n=1500, rule="note x resolution x amount")
def n03_quantize(c):
    n = mk_note(c["note"])
    before = nfull(n)
    m = n.quantize(sps=c["sps"], amount=c["amount"])
    ensure(m is not n, "quantizing to a copy returned the note itself")
    ensure(nfull(n) == before, "quantizing to a copy changed the note from %r to %r", before, nfull(n))
    for f in ("pitch", "velocity", "program", "instrument", "voice", "numerator", "denominator", "is_drum"):
        ensure(getattr(m, f) == getattr(n, f), "quantized copy has %s %r instead of %r", f, getattr(m, f),
               getattr(n, f))


def gen_doc(rng):
    n = note_case(rng, "any")
    d = dict(pitch=n["pitch"], start_time=n["start"], end_time=n["end"], program=n["program"],
             instrument=n["instrument"], velocity=n["velocity"])
    for k, v in (("quantized_start_step", rng.randint(0, 9)), ("quantized_end_step", rng.randint(10, 19)),
                 ("voice", n["voice"]), ("numerator", n["num"]), ("denominator", n["den"]),
                 ("is_drum", n["drum"])):
        if rng.random() < .5:
            d[k] = v
    return dict(doc=d, via=rng.choice(["from_json", "decoder", "decoder_bytes"]))


@unit("N03", "document", gen_doc, n=1000, rule="documents with each optional field present or absent")
def n03_doc(c):
    d = c["doc"]
    if c["via"] == "from_json":
        n = MidiNote.from_json(dict(d))
    else:
        s = json.dumps({"__MidiNote__": True, "data": d})
        n = MidiNoteJSONDecoder().decode(s.encode() if c["via"] == "decoder_bytes" else s)
    dflt = dict(quantized_start_step=-1, quantized_end_step=-1, voice=0, numerator=4, denominator=4,
                is_drum=False)
    dflt.update(d)
    ensure(isinstance(n, MidiNote), "document was read as %r", type(n))
    for k, v in dflt.items():
        ensure(getattr(n, k) == v, "document value %s=%r was read as %r", k, v, getattr(n, k))


# ------------------------------------------------------------------ N04
def gen_quant(rng):
    k = rng.random()
    if k < .5:                       # dyadic: exact in floating point
        s = rng.randrange(0, 64 * 12) / 64.0
        e = s + rng.randrange(1, 64 * 4) / 64.0
        a = rng.choice([0.5, 0.25, 0.75, 1.0, 0.125])
    else:
        s = r_time(rng)
        e = s + rng.choice([1e-4, 1e-3, 0.004, 0.005, 0.01, 0.1, rng.uniform(1e-4, 5)])
        a = rng.choice([0.5, 0.1, 0.3, 1.0, rng.uniform(0.01, 1)])
    if rng.random() < .03:
        s, e = s + 999990, e + 999999
    sps = rng.choice([1, 1, 2, 3, 4, 4, 5, 8, 16, 24, 32, 220, 480])
    if rng.random() < .05:
        sps = rng.choice([0, -1, -4])
    if rng.random() < .05:
        a = rng.choice([0.0, -0.5])
    return dict(start=s, end=e, sps=sps, amount=a)


def near_floor(x):
    f = math.floor(x)
    r = {f}
    if x != f and x - f < Fr(1, 10 ** 7):
        r.add(f - 1)
    if f + 1 - x < Fr(1, 10 ** 7):
        r.add(f + 1)
    return r


def near_ceil(x):
    return {-v for v in near_floor(-x)}


@unit("N04", "quantize", gen_quant, n=4000, boundary=[
    dict(start=s, end=s + d, sps=sps, amount=a) for s in (0.0, 0.5, 0.375, 1.0, 2.25, 0.99, 1.495)
    for d in (0.001, 0.125, 0.25, 1.0, 1.5) for sps in (1, 2, 4, 7) for a in (0.5, 1.0, 0.25)],
      rule="notes on and off the grid, resolutions, amounts, refused arguments")
def n04_quantize(c):
    n = mk_note(dict(pitch=60, start=c["start"], end=c["end"], velocity=77))
    if c["sps"] <= 0 or c["amount"] <= 0:
        must_refuse("resolution %r amount %r" % (c["sps"], c["amount"]),
                    lambda: n.quantize_in_place(sps=c["sps"], amount=c["amount"]))
        must_refuse("resolution %r amount %r" % (c["sps"], c["amount"]),
                    lambda: MidiNote.quantize_to_nearest_step(1.0, c["sps"], c["amount"]))
        return
    s, e, a = Fr(c["start"]), Fr(c["end"]), Fr(c["amount"])
    x, y = s * c["sps"] + 1 - a, e * c["sps"] + 1 - a
    exact = (float(x) == c["start"] * c["sps"] + (1 - c["amount"]) and
             (s * 64).denominator == 1 and (e * 64).denominator == 1 and (a * 64).denominator == 1)
    ws = {max(0, math.floor(x))} if exact else {max(0, v) for v in near_floor(x)}
    we = {max(0, math.ceil(y))} if exact else {max(0, v) for v in near_ceil(y)}
    n.quantize_in_place(sps=c["sps"], amount=c["amount"])
    ensure(n.quantized_start_step in ws, "start step %r, expected %r", n.quantized_start_step, sorted(ws))
    ensure(n.quantized_end_step in we, "end step %r, expected %r", n.quantized_end_step, sorted(we))
    ensure(n.quantized_start_step < n.quantized_end_step, "steps %r, %r", n.quantized_start_step,
           n.quantized_end_step)
    ensure(n.is_quantized(), "note does not count as quantized")
    ensure(0 <= n.start_time < n.end_time, "times are %r, %r", n.start_time, n.end_time)
    for fl, want in ((True, ws), (False, {max(0, v) for v in near_ceil(x)})):
        got = MidiNote.quantize_to_nearest_step(c["start"], c["sps"], c["amount"], is_floor=fl)
        ensure(got in want or (exact and got in ({max(0, math.floor(x))} if fl else {max(0, math.ceil(x))})),
               "nearest step (floor=%r) %r, expected %r", fl, got, want)


# ------------------------------------------------------------------ N05
FLIP = ("pitch", "program", "instrument", "velocity", "qs", "qe", "voice", "num", "den", "drum", "start", "end")


def gen_pair(rng):
    a = note_case(rng, "grid", qs=rng.choice([-1, 1, 2]), qe=rng.choice([-1, 4, 5]))
    k = rng.random()
    if k < .2:
        b = dict(a)
    elif k < .6:
        b = dict(a)
        f = rng.choice(FLIP)
        o = note_case(rng, "grid", qs=rng.choice([-1, 1, 2]), qe=rng.choice([-1, 4, 5]))
        b[f] = o[f]
        if f == "drum":
            b[f] = not a[f]
        if b["end"] <= b["start"]:
            b["end"] = b["start"] + 0.25
    else:
        b = note_case(rng, "grid")
        if rng.random() < .5:
            b["start"] = rng.choice([a["start"], a["end"], b["start"]])
            b["end"] = rng.choice([a["end"], b["start"] + .25, b["start"] + 3, a["start"]])
            if b["end"] <= b["start"]:
                b["end"] = b["start"] + .25
        if rng.random() < .3:
            b["start"] += rng.choice([-1, 1]) * rng.choice([3e-7, 5e-7, 2e-6])
            b["end"] += rng.choice([-1, 1]) * rng.choice([3e-7, 5e-7, 2e-6])
    return dict(a=a, b=b)


@unit("N05", "relations", gen_pair, n=5000, rule="pairs differing in one attribute, touching, nested, equal")
def n05_rel(c):
    a, b = mk_note(c["a"]), mk_note(c["b"])
    da, db = c["a"]["start"] - c["b"]["start"], c["a"]["end"] - c["b"]["end"]
    sa, sb = list(nstate(a)), list(nstate(b))
    same_rest = all(x == y for f, x, y in zip(NOTE_FIELDS, sa, sb) if f not in ("start_time", "end_time"))
    far = max(abs(da), abs(db)) > 1e-7
    if far or max(abs(da), abs(db)) == 0:
        want = same_rest and not far
        ensure((a == b) is want, "a == b is %r, expected %r", a == b, want)
        ensure((b == a) is want, "b == a is %r, expected %r", b == a, want)
        ensure((a != b) is (not want), "a != b disagrees with a == b")
    ensure(a == a and b == b, "a note is not equal to itself")
    ensure(not (a == 5) and not (a == None), "a note equals something that is no note")  # noqa
    ensure(not (a < a) and not (b < b), "a note is before itself")
    amb = any(abs(abs(d) - 1e-6) < 1e-7 for d in (da, db))
    if not amb:
        lt = (da < 0 if abs(da) > 1e-6 else db < 0 if abs(db) > 1e-6 else c["a"]["pitch"] < c["b"]["pitch"])
        gt = (da > 0 if abs(da) > 1e-6 else db > 0 if abs(db) > 1e-6 else c["a"]["pitch"] > c["b"]["pitch"])
        ensure((a < b) == lt, "a < b is %r, expected %r", a < b, lt)
        ensure((b < a) == gt, "b < a is %r, expected %r", b < a, gt)
    ensure(not (a < b and b < a), "each note is before the other")
    ov = c["a"]["start"] < c["b"]["end"] and c["b"]["start"] < c["a"]["end"]
    ensure(bool(a.overlaps(b)) == ov, "a overlaps b is %r, expected %r", a.overlaps(b), ov)
    ensure(bool(b.overlaps(a)) == ov, "b overlaps a is %r, expected %r", b.overlaps(a), ov)


# ------------------------------------------------------------------ C01
CC_FIELDS = ("cc_number", "cc_value", "cc_time", "program", "instrument", "is_drum", "quantized_step",
             "quantized_start_step", "quantized_end_step")


def cc_state(c):
    return tuple(getattr(c, f) for f in CC_FIELDS)


def gen_cc(rng, ok=False):
    g = (lambda: rng.randint(0, 255)) if ok else (lambda: edgy_int(rng, 0, 255))
    q = rng.random() < .3
    return dict(number=g(), value=g(), time=r_time(rng) if ok or rng.random() < .7 else -r_time(rng),
                program=g(), instrument=g(), drum=rng.random() < .5,
                step=rng.randint(1, 32) if ok else rng.choice([0, 1, 2, 4, 31, 32, 33, -5, 100]),
                qs=rng.randint(0, 5) if q else -1, qe=rng.randint(6, 9) if q else -1)


def mk_cc(d):
    return MidiControlChange(d["number"], d["value"], cc_time=d["time"], program=d["program"],
                             instrument=d["instrument"], is_drum=d["drum"], quantized_step=d["step"],
                             quantized_start_step=d["qs"], quantized_end_step=d["qe"])


@unit("C01", "construct", gen_cc, n=3000, rule="fields at and around the bounds")
def c01_construct(c):
    x = mk_cc(c)
    for f, v, lo, hi in (("cc_number", c["number"], 0, 255), ("cc_value", c["value"], 0, 255),
                         ("program", c["program"], 0, 255), ("instrument", c["instrument"], 0, 255),
                         ("quantized_step", c["step"], 1, 32)):
        ensure(getattr(x, f) == clamp(v, lo, hi), "%s given as %r became %r", f, v, getattr(x, f))
    ensure(x.cc_time == max(0.0, c["time"]), "time given as %r became %r", c["time"], x.cc_time)
    ensure(x.is_drum == c["drum"] and x.quantized_start_step == c["qs"] and x.quantized_end_step == c["qe"],
           "flag or steps changed: %r", cc_state(x))
    ensure(bool(x.is_quantized()) == (c["qs"] >= 0 and c["qe"] >= 0), "is_quantized is %r", x.is_quantized())


@unit("C01", "copy and quantize", lambda rng: dict(
    cc=gen_cc(rng, True), time=rng.choice([None, None, 0.0, 1.5]), qs=rng.choice([None, None, 0, 3]),
    qe=rng.choice([None, None, 0, 9]), sps=rng.randint(1, 32),
    amount=rng.choice([.5, .25, .75, 1.0, rng.uniform(.01, 1)])), n=3000,
      rule="control change x overrides x resolution x amount")
def c01_copy(c):
    x = mk_cc(c["cc"])
    before = cc_state(x) + (x.is_quantized(),)
    y = x.make_copy(c["time"], c["qs"], c["qe"])
    want = list(cc_state(x))
    for f, v in (("cc_time", c["time"]), ("quantized_start_step", c["qs"]), ("quantized_end_step", c["qe"])):
        if v is not None:
            want[CC_FIELDS.index(f)] = v
    ensure(y is not x and list(cc_state(y)) == want, "copy is %r, expected %r", cc_state(y), want)
    z = x.quantize(sps=c["sps"], amount=c["amount"])
    ensure(cc_state(x) + (x.is_quantized(),) == before, "copying or quantizing changed the original")
    ensure(z is not x, "quantize returned the original")
    t = Fr(c["cc"]["time"]) * c["sps"] + 1 - Fr(c["amount"])
    ok = near_floor(t)
    ensure(z.quantized_start_step in {max(0, v) for v in ok}, "step %r, expected %r", z.quantized_start_step, ok)
    ensure(z.quantized_end_step == z.quantized_start_step + 1, "steps %r..%r", z.quantized_start_step,
           z.quantized_end_step)
    ensure(z.is_quantized(), "not quantized after quantizing")
    for f in ("cc_number", "cc_value", "program", "instrument", "is_drum"):
        ensure(getattr(z, f) == getattr(x, f), "quantizing changed %s", f)
    x.quantize_in_place(sps=c["sps"], amount=c["amount"])
    ensure((x.quantized_start_step, x.quantized_end_step) == (z.quantized_start_step, z.quantized_end_step),
           "in-place quantization differs")


@unit("C01", "order", lambda rng: dict(a=g_time(rng, 2), b=g_time(rng, 2), sa=rng.randint(0, 2),
                                       sb=rng.randint(0, 2), f=rng.choice(CC_FIELDS), c=gen_cc(rng, True)),
      n=1500, rule="pairs of times and sequence numbers; pairs differing in one field")
def c01_order(c):
    x, y = MidiControlChange(1, 2, c["a"]), MidiControlChange(3, 4, c["b"])
    x.seq, y.seq = c["sa"], c["sb"]
    lt = c["a"] < c["b"] if c["a"] != c["b"] else c["sa"] < c["sb"]
    ensure((x < y) == lt, "x < y is %r, expected %r", x < y, lt)
    ensure(not (x < x) and not (x < y and y < x), "order is not strict")
    p, q = mk_cc(c["c"]), mk_cc(c["c"])
    ensure(p == q and not (p != q), "equal control changes differ")
    names = dict(cc_number="number", cc_value="value", cc_time="time", program="program",
                 instrument="instrument", is_drum="drum", quantized_step="step",
                 quantized_start_step="qs", quantized_end_step="qe")
    d = dict(c["c"])
    k = names[c["f"]]
    d[k] = (not d[k]) if k == "drum" else (d[k] + 1 if k != "step" else d[k] % 32 + 1)
    q = mk_cc(d)
    if cc_state(p) != cc_state(q):
        ensure(not (p == q) and (p != q), "control changes that differ in %s are equal", c["f"])


# ------------------------------------------------------------------ P01
def gen_pb(rng):
    return dict(amount=edgy_int(rng, -8192, 8191), time=rng.choice([r_time(rng), 0.0, -0.5, -1e-9, 0, 3]),
                program=edgy_int(rng, 0, 127), instrument=edgy_int(rng, 0, 127), drum=rng.random() < .5)


@unit("P01", "construct", gen_pb, n=3000, boundary=[
    dict(amount=a, time=t, program=p, instrument=i, drum=False)
    for a in (-8192, -8191, 8191, 0, -8193, 8192) for t in (0.0, 1.5, -1.0) for p in (0, 127, 128, -1)
    for i in (0, 127, 128, -1)], rule="fields at and around the bounds")
def p01_construct(c):
    ok = (-8192 <= c["amount"] <= 8191 and 0 <= c["program"] <= 127 and 0 <= c["instrument"] <= 127
          and c["time"] >= 0)

    def mk():
        return MidiPitchBend(c["amount"], midi_time=c["time"], program=c["program"],
                             instrument=c["instrument"], is_drum=c["drum"])
    if not ok:
        must_refuse("a pitch bend with %r" % (c,), mk)
        return
    b = mk()
    got = (b.amount, b.midi_time, b.program, b.instrument, b.is_drum)
    want = (c["amount"], c["time"], c["program"], c["instrument"], c["drum"])
    ensure(got == want, "pitch bend is %r, expected %r", got, want)
    ensure(b.event_start_time == c["time"] == b.event_end_time, "event times %r, %r", b.event_start_time,
           b.event_end_time)


@unit("P01", "set and compare", lambda rng: dict(
    b=dict(amount=rng.randint(-8192, 8191), time=r_time(rng), program=rng.randint(0, 127),
           instrument=rng.randint(0, 127), drum=rng.random() < .5),
    f=rng.choice(["program", "instrument", "midi_time"]), v=edgy_int(rng, 0, 127),
    d=rng.choice(["amount", "time", "program", "instrument", "drum"])), n=2500, rule="setter x value; one-field differences")
def p01_set(c):
    def mk(d):
        return MidiPitchBend(d["amount"], midi_time=d["time"], program=d["program"],
                             instrument=d["instrument"], is_drum=d["drum"])
    b = mk(c["b"])
    ok = 0 <= c["v"] <= (127 if c["f"] != "midi_time" else 1e18)
    want = dict(amount=b.amount, midi_time=b.midi_time, program=b.program, instrument=b.instrument,
                is_drum=b.is_drum)
    r = refused(lambda: setattr(b, c["f"], c["v"]))
    ensure(r == (not ok), "setting %s to %r was %s", c["f"], c["v"], "refused" if r else "accepted")
    if ok:
        want[c["f"]] = c["v"]
    got = {k: getattr(b, k) for k in want}
    ensure(got == want, "pitch bend is %r, expected %r", got, want)
    ensure(b.event_start_time == want["midi_time"] == b.event_end_time, "event time differs from time")
    x, y = mk(c["b"]), mk(c["b"])
    ensure(x == y and not (x != y), "equal pitch bends differ")
    d = dict(c["b"])
    d[c["d"]] = (not d["drum"]) if c["d"] == "drum" else (d[c["d"]] + 1 if d[c["d"]] < 100 else d[c["d"]] - 1)
    ensure(not (x == mk(d)) and x != mk(d), "pitch bends that differ in %s are equal", c["d"])


# ------------------------------------------------------------------ I01
INAMES = ["", "Piano", "Lead", "x", "Unknown", "Bass"]
FAMILY = ["Piano", "Chromatic Percussion", "Organ", "Guitar", "Bass", "Strings", "Ensemble", "Brass", "Reed",
          "Pipe", "Synth Lead", "Synth Pad", "Synth Effects", "Ethnic", "Percussive", "Sound Effects"]


@unit("I01", "construct", lambda rng: dict(num=edgy_int(rng, 0, 255), name=rng.choice(INAMES),
                                           drum=rng.random() < .5), n=1500,
      boundary=[dict(num=i, name="", drum=False) for i in range(-2, 259)] +
               [dict(num=v, name=n, drum=d) for v, n, d in ((1.5, "a", False), ("3", "a", False), (3, 7, False),
                                                            (3, "a", 1), (3, "a", "no"), (None, "a", True))],
      rule="every number near the range, every family, wrong kinds")
def i01_construct(c):
    ok = isinstance(c["num"], int) and 0 <= c["num"] <= 255 and isinstance(c["name"], str) and \
        isinstance(c["drum"], bool)
    if not ok:
        must_refuse("instrument %r" % (c,), lambda: MidiInstrumentInfo(c["num"], c["name"], c["drum"]))
        return
    i = MidiInstrumentInfo(c["num"], c["name"], c["drum"])
    ensure(i.instrument_num == c["num"] and i.is_drum == c["drum"], "instrument became %r", i)
    if c["name"]:
        ensure(i.name == c["name"], "name %r became %r", c["name"], i.name)
    elif 1 <= c["num"] <= 128:
        ensure(i.name == FAMILY[(c["num"] - 1) // 8], "family of %d is %r", c["num"], i.name)
    else:
        ensure(i.name == MidiInstrumentInfo(0, "").name and i.name, "unnamed instrument %d is called %r",
               c["num"], i.name)
    j = MidiInstrumentInfo.from_dict(i.to_dict())
    ensure(i == j and (j.instrument_num, j.name, j.is_drum) == (i.instrument_num, i.name, i.is_drum),
           "round trip of %r gave %r", i, j)


@unit("I01", "relations", lambda rng: dict(a=[rng.randint(0, 3), rng.choice(["ab", "ba"]), rng.random() < .5],
                                           b=[rng.randint(0, 3), rng.choice(["ab", "ba"]), rng.random() < .5]),
      n=1500, rule="pairs over small domains; equal names are different objects")
def i01_rel(c):
    fresh = lambda n, name, drum: MidiInstrumentInfo(n, "".join(list(name)), drum)
    a, b = fresh(*c["a"]), fresh(*c["b"])
    eq = c["a"] == c["b"]
    ensure((a == b) is eq and (a != b) is (not eq), "%r == %r is %r", a, b, a == b)
    if eq:
        ensure(hash(a) == hash(b), "equal descriptions have different hashes")
    ensure((a < b) == (c["a"][0] < c["b"][0]), "%r < %r is %r", a, b, a < b)
    ensure(not (a == 3), "instrument equals a number")
