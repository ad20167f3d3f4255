"""Executable contracts of note sequences (S01..S06)."""
import copy
from common import *
from note import mk_cc, cc_state, gen_cc
from neural_graph_composer.midi.midi_note import MidiNote
from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend


def mk_info(d):
    return MidiInstrumentInfo(d["inst"], d.get("name", "X"), d.get("drum", False))


def mk_seq(d):
    s = MidiNoteSequence(notes=[mk_note(n) for n in d["notes"]], instrument=mk_info(d),
                         resolution=d.get("res", 220))
    if d.get("total") is not None:
        s.total_time = d["total"]
    for c in d.get("ccs", ()):
        s.add_control_changes(mk_cc(c))
    for p in d.get("pbs", ()):
        s.add_pitch_bends(MidiPitchBend(p["amount"], p["time"], p["program"], p["instrument"]))
    return s


def pb_state(p):
    return (p.amount, p.midi_time, p.program, p.instrument, p.is_drum)


def r_len(rng, hi=8):
    return rng.choice([0, 1, 2, 3, rng.randint(0, hi), rng.randint(0, hi)]) if not BIG[0] else ln(rng, 0, 0)


def gen_notes(rng, inst, drum, n=None, times="grid", **over):
    n = r_len(rng) if n is None else n
    notes = [note_case(rng, times, instrument=inst, drum=drum, **over) for _ in range(n)]
    if notes and rng.random() < .3:         # duplicates and ties
        notes.append(dict(rng.choice(notes)))
    if notes and rng.random() < .3:
        k = dict(rng.choice(notes))
        k["pitch"] = rng.randint(0, 127)
        notes.append(k)
    return notes


def gen_seq(rng, times="grid", n=None, ev=False, **over):
    inst, drum = rng.randint(0, 5), rng.random() < .25
    d = dict(inst=inst, drum=drum, res=rng.choice([220, 220, 480]), notes=gen_notes(rng, inst, drum, n, times, **over))
    if ev:
        d["ccs"] = [gen_cc(rng, True) for _ in range(ln(rng, 0, 3))]
        d["pbs"] = [dict(amount=rng.randint(-8192, 8191), time=r_time(rng), program=rng.randint(0, 127),
                         instrument=rng.randint(0, 127)) for _ in range(ln(rng, 0, 3))]
    return d


def ends(s):
    return [n.end_time for n in s.notes]


# ------------------------------------------------------------------ S01
OPS = ["assign", "append", "append_list", "extend", "extend_list", "add", "insert", "merge", "stretch",
       "shift", "cut", "last"]


def gen_history(rng):
    d = gen_seq(rng, rng.choice(["grid", "any"]))
    ops = []
    for _ in range(rng.randint(1, 6)):
        o = rng.choice(OPS)
        if o in ("append", "extend", "add", "insert"):
            a = note_case(rng, "grid", instrument=d["inst"], drum=d["drum"])
        elif o in ("append_list", "extend_list"):
            a = gen_notes(rng, d["inst"], d["drum"], rng.choice([0, 1, 2, 3, 4]))
        elif o in ("assign", "merge"):
            a = gen_notes(rng, d["inst"], d["drum"])
        elif o == "stretch":
            a = rng.choice([0.5, 2.0, 1.0, 1.5, 0.25])
        elif o == "shift":
            a = rng.choice([0.5, 2.0, 0.0, 7.25, -0.25, -30.0])
        elif o == "cut":
            a = rng.randint(0, 6)
        else:
            a = rng.choice([0.0, 1.0, -0.5, 2.5])
        ops.append([o, a])
    return dict(seq=d, ops=ops)


@unit("S01", "edit history", gen_history, big=(80, 300, 700), n=1800,
      rule="histories of 1..6 edits over all edit operations; drum and melodic; after every edit the total is checked")
def s01_history(c):
    s = mk_seq(c["seq"])
    total = max(ends(s) + [0.0])
    ensure(close(s.total_time, total), "total of the new sequence is %r, expected %r", s.total_time, total)
    for i, (o, a) in enumerate(c["ops"]):
        if o == "assign":
            s.notes = [mk_note(x) for x in a]
            total = max(ends(s) + [0.0])
        elif o in ("append", "extend", "add"):
            n = mk_note(a)
            {"append": s.append, "extend": s.extend, "add": s.add_note}[o](n)
            total = max(total, n.end_time)
            ensure(any(x is n or nstate(x) == nstate(n) for x in s.notes), "%s did not add the note", o)
        elif o in ("append_list", "extend_list"):
            ns = [mk_note(x) for x in a]
            (s.append if o == "append_list" else s.extend)(ns)
            total = max([total] + [n.end_time for n in ns])
        elif o == "insert":
            s.insert(mk_note(a))
            total = max(ends(s) + [0.0])
        elif o == "merge":
            other = mk_seq(dict(c["seq"], notes=a))
            s.merge(other)
            total = max(ends(s) + [0.0])
        elif o == "stretch":
            s.stretch(a)
            total = max(ends(s) + [0.0])
        elif o == "shift":
            if not s.notes:
                continue
            s.shift_times(a)
            total = max(0.0, total + a)
        elif o == "cut":
            s.cut_in_place(a)
            total = max(ends(s) + [0.0])
        else:
            t = s.truncate_to_last_event(a)
            w = max(ends(s), default=0.0) + a
            ensure(close(t, w), "step %d: end relative to the last event is %r, expected %r", i, t, w)
        ensure(close(s.total_time, total), "step %d (%s): total time %r, expected %r", i, o, s.total_time, total)


@unit("S01", "from notes", lambda rng: dict(notes=gen_notes(rng, 0, False)), n=300, rule="lists of notes")
def s01_from(c):
    ns = [mk_note(x) for x in c["notes"]]
    want = states(ns)
    s = MidiNoteSequence.from_notes(ns)
    ensure(states(s.notes) == want, "sequence from notes holds other notes")
    ensure(s.total_time == max((n.end_time for n in ns), default=0.0), "total time %r", s.total_time)
    ensure(len(s) == len(ns) and [nstate(x) for x in s] == want, "length or iteration differ from the notes")
    s = MidiNoteSequence(notes=[mk_note(x) for x in c["notes"]])
    ensure(s.total_time == max((n.end_time for n in ns), default=0.0), "total time %r", s.total_time)


# ------------------------------------------------------------------ S02
def in_order(notes):
    return not any(b < a for a, b in zip(notes, notes[1:]))


@unit("S02", "insert", lambda rng: dict(seq=gen_seq(rng), note=note_case(rng, "grid")), n=1500, big=(80, 300, 2000),
      rule="ordered sequences x note; ties by start, end and pitch")
def s02_insert(c):
    s = mk_seq(c["seq"])
    import functools
    ordered = sorted(s.notes, key=lambda n: (n.start_time, n.end_time, n.pitch))
    s.notes = ordered
    before = multiset(states(ordered))
    n = mk_note(dict(c["note"], instrument=c["seq"]["inst"], drum=c["seq"]["drum"]))
    k = nstate(n)
    before[k] = before.get(k, 0) + 1
    s.insert(n)
    ensure(multiset(states(s.notes)) == before, "notes after the insertion differ from the notes before plus one")
    ensure(in_order(s.notes), "notes are out of order after the insertion: %r",
           [(n.start_time, n.end_time, n.pitch) for n in s.notes])


def gen_merge(rng):
    a = gen_seq(rng)
    b = gen_seq(rng)
    b.update(inst=a["inst"], drum=a["drum"], res=a["res"])
    for n in b["notes"]:
        n["instrument"], n["drum"] = a["inst"], a["drum"]
    if rng.random() < .4:           # notes that occur in both
        for n in rng.sample(a["notes"], min(len(a["notes"]), 2)):
            b["notes"].insert(rng.randint(0, len(b["notes"])), dict(n))
    k = rng.random()
    bad = None
    if k < .08:
        b["res"] = a["res"] + 1
        bad = "resolution"
    elif k < .16:
        b["inst"] = a["inst"] + 1
        for n in b["notes"]:
            n["instrument"] = b["inst"]
        bad = "instrument"
    elif k < .2:
        b["name"] = "other"
        bad = "name"
    elif k < .3 and (a["notes"] or b["notes"]):
        w = rng.choice([d for d in (a, b) if d["notes"]])
        rng.choice(w["notes"])["instrument"] = w["inst"] + 1
        bad = "note"
    elif k < .34:
        b["drum"] = not a["drum"]
        bad = "drum"
    return dict(a=a, b=b, bad=bad)


@unit("S02", "merge", gen_merge, big=(80, 300, 700), n=2000, rule="pairs of unordered sequences with ties and duplicates; mismatches")
def s02_merge(c):
    a, b = mk_seq(c["a"]), mk_seq(c["b"])
    sa, sb = states(a.notes), states(b.notes)
    ta, tb = a.total_time, b.total_time
    if c["bad"]:
        must_refuse("merging with a different " + c["bad"], lambda: a.merge(b))
        ensure(states(a.notes) == sa and states(b.notes) == sb and (a.total_time, b.total_time) == (ta, tb),
               "a refused merge changed a sequence")
        return
    a.merge(b)
    ensure(multiset(states(a.notes)) == multiset(sa + sb), "merged notes are not the notes of both")
    ensure(in_order(a.notes), "merged notes are out of order: %r",
           [(n.start_time, n.end_time, n.pitch) for n in a.notes])
    ensure(states(b.notes) == sb and b.total_time == tb, "merging changed the merged-in sequence")


@unit("S02", "merge kind", boundary=[dict(other=o) for o in (None, 3, "x", [])], rule="non-sequences")
def s02_kind(c):
    a = mk_seq(dict(inst=0, notes=[dict(pitch=1, start=0, end=1)]))
    before = states(a.notes)
    must_refuse("merging with %r" % (c["other"],), lambda: a.merge(c["other"]))
    ensure(states(a.notes) == before, "a refused merge changed the sequence")


def gen_sum(rng):
    c = gen_merge(rng)
    if c["bad"] == "resolution":
        c["bad"] = None
    return c


@unit("S02", "sum", gen_sum, big=(80, 300, 700), n=1500, rule="pairs of sequences; mismatches")
def s02_sum(c):
    a, b = mk_seq(c["a"]), mk_seq(c["b"])
    sa, sb = states(a.notes), states(b.notes)
    ta, tb = a.total_time, b.total_time
    if c["bad"]:
        must_refuse("the sum with a different " + c["bad"], lambda: a + b)
    else:
        r = a + b
        ensure(states(r.notes) == sa + sb, "the sum holds %r, expected %r", states(r.notes), sa + sb)
        ensure(r.instrument == a.instrument, "the sum has instrument %r", r.instrument)
        ensure(r.total_time == max(ends(r), default=0.0), "total time of the sum is %r", r.total_time)
    ensure(states(a.notes) == sa and states(b.notes) == sb and (a.total_time, b.total_time) == (ta, tb),
           "a sum changed a sequence")


# ------------------------------------------------------------------ S03
def gen_window(rng):
    d = gen_seq(rng, rng.choice(["grid", "grid", "any"]))
    pts = [0.0, 3.0, 100.0] + [n["start"] for n in d["notes"]] + [n["end"] for n in d["notes"]]
    a, b = rng.choice([rng.choice(pts), g_time(rng)]), rng.choice([rng.choice(pts), g_time(rng)])
    a, b = min(a, b), max(a, b)
    if a == b:
        b = a + rng.choice([.25, 2.0])
    return dict(seq=d, start=a, end=b, count=rng.randint(0, 8))


@unit("S03", "slice", gen_window, big=(80, 300, 700), n=1800, rule="windows at note boundaries and elsewhere")
def s03_slice(c):
    s = mk_seq(c["seq"])
    before, total = [nfull(n) for n in s.notes], s.total_time
    want = []
    for n in s.notes:
        if c["start"] <= n.start_time < c["end"]:
            w = list(nstate(n))
            w[2] = min(n.end_time, c["end"])
            want.append(tuple(w))
    r = s.slice(c["start"], c["end"])
    ensure(states(r.notes) == want, "slice [%r,%r) holds %r, expected %r", c["start"], c["end"], states(r.notes), want)
    ensure(close(r.total_time, min(total, c["end"])), "total time of the slice is %r", r.total_time)
    ensure(r.instrument == s.instrument, "slice has instrument %r", r.instrument)
    ensure([nfull(n) for n in s.notes] == before and s.total_time == total, "slicing changed the sequence")
    ensure(not any(x is y for x in r.notes for y in s.notes), "slice shares a note with the sequence")


@unit("S03", "truncate and cut", gen_window, big=(80, 300, 700), n=1800, rule="times at note boundaries, counts around the length")
def s03_cut(c):
    s = mk_seq(c["seq"])
    before, total = [nfull(n) for n in s.notes], s.total_time
    t = s.truncate(c["end"])
    ensure(states(t.notes) == [nstate(n) for n in s.notes if n.end_time <= c["end"]],
           "truncation at %r holds %r", c["end"], states(t.notes))
    ensure(not any(x is y for x in t.notes for y in s.notes), "truncation shares a note with the sequence")
    k = s.cut(c["count"])
    ensure(states(k.notes) == states(s.notes)[:c["count"]], "cut to %d holds %r", c["count"], states(k.notes))
    ensure(t.instrument == s.instrument and k.instrument == s.instrument, "instrument changed")
    ensure([nfull(n) for n in s.notes] == before and s.total_time == total, "cutting changed the sequence")
    s.cut_in_place(c["count"])
    ensure([nfull(n) for n in s.notes] == before[:c["count"]], "cut in place left %r", states(s.notes))


# ------------------------------------------------------------------ S04
@unit("S04", "shift and stretch", big=(80, 300, 700), gen=lambda rng: dict(seq=gen_seq(rng, rng.choice(["grid", "any"])),
                                                   op=rng.choice(["shift", "stretch"]),
                                                   by=rng.choice([0.5, 2.0, 0.0, -0.25, 3.75, 0.1, 100.0])),
      n=2000, rule="sequences of 0..10 notes x offset or factor")
def s04_move(c):
    s = mk_seq(c["seq"])
    if not s.notes and c["op"] == "shift":
        raise Skip
    want = []
    for n in s.notes:
        w = list(nstate(n))
        for i in (1, 2):
            w[i] = w[i] + c["by"] if c["op"] == "shift" else w[i] * c["by"]
        want.append(w)
    if c["op"] == "shift":
        s.shift_times(c["by"])
    else:
        s.stretch(c["by"])
    got = [list(nstate(n)) for n in s.notes]
    ensure(len(got) == len(want), "number of notes changed")
    for g, w in zip(got, want):
        ensure(close(g[1], w[1]) and close(g[2], w[2]), "note moved to %r, expected %r", g[1:3], w[1:3])
        ensure(g[0] == w[0] and g[3:] == w[3:], "note became %r, expected %r", g, w)


@unit("S04", "quantized is not shifted", lambda rng: dict(seq=gen_seq(rng, n=rng.randint(1, 5)),
                                                          q=[rng.random() < .7 for _ in range(7)]),
      n=800, rule="fully and partly quantized sequences")
def s04_quant(c):
    d = copy.deepcopy(c["seq"])
    for n, q in zip(d["notes"], c["q"]):
        if q:
            n["qs"], n["qe"] = 1, 5
    s = mk_seq(d)
    allq = all(n["qs"] >= 0 for n in d["notes"])
    before, total = states(s.notes), s.total_time
    ensure(bool(s.is_quantized()) == allq, "is_quantized is %r", s.is_quantized())
    r = refused(lambda: s.shift_times(1.0))
    ensure(r == allq, "shift of a %s quantized sequence was %s", "fully" if allq else "not fully",
           "refused" if r else "accepted")
    if r:
        ensure(states(s.notes) == before and s.total_time == total, "a refused shift changed the sequence")


# ------------------------------------------------------------------ S05
@unit("S05", "quantize", big=(80, 300, 700), gen=lambda rng: dict(seq=gen_seq(rng, rng.choice(["grid", "any"]), ev=True),
                                          sps=rng.choice([1, 2, 4, 8, 32]), amount=rng.choice([.5, .25, 1.0]),
                                          twice=rng.random() < .3), n=1000,
      rule="sequences with notes and control changes x resolution x amount, second quantization")
def s05_quantize(c):
    s = mk_seq(c["seq"])
    prev = s.total_quantized_steps
    for k in range(2 if c["twice"] else 1):
        if k:                       # requantize fresh notes: earlier total must not shrink
            prev = s.total_quantized_steps
            s.notes = [mk_note(n) for n in c["seq"]["notes"]][:2]
            s.control_changes = [mk_cc(x) for x in c["seq"]["ccs"]]
        old, oldcc = list(s.notes), list(s.control_changes)
        so, sc = [nfull(n) for n in old], [cc_state(x) for x in oldcc]
        s.quantize(sps=c["sps"], amount=c["amount"])
        ensure([nfull(n) for n in old] == so, "quantizing changed the note objects held before")
        ensure([cc_state(x) for x in oldcc] == sc, "quantizing changed the control changes held before")
        alone = []
        for n in old:
            m = n.make_copy()
            m.quantize_in_place(sps=c["sps"], amount=c["amount"])
            alone.append(nfull(m))
        ensure([nfull(n) for n in s.notes] == alone, "notes are quantized to %r, alone to %r",
               [nfull(n) for n in s.notes], alone)
        ccs = []
        for x in oldcc:
            y = x.make_copy()
            y.quantize_in_place(sps=c["sps"], amount=c["amount"])
            ccs.append(cc_state(y))
        ensure([cc_state(x) for x in s.control_changes] == ccs, "control changes are quantized to %r, expected %r",
               [cc_state(x) for x in s.control_changes], ccs)
        ensure(s.is_quantized(), "sequence does not count as quantized")
        w = max([prev] + [n.quantized_end_step for n in s.notes])
        ensure(s.total_quantized_steps == w, "total steps %r, expected %r", s.total_quantized_steps, w)


@unit("S05", "quantized exactly when all notes are",
      lambda rng: dict(q=[[rng.choice([-1, 0, 2]), rng.choice([-1, 3, 5])] for _ in range(ln(rng, 0, 5))]),
      n=800, big=(80, 300), rule="mixtures of quantized and other notes")
def s05_isq(c):
    ns = [mk_note(dict(pitch=60, start=i, end=i + 1, qs=a, qe=b)) for i, (a, b) in enumerate(c["q"])]
    s = MidiNoteSequence(notes=ns)
    w = all(a >= 0 and b >= 0 for a, b in c["q"])
    ensure(bool(s.is_quantized()) == w, "is_quantized is %r, expected %r", s.is_quantized(), w)


# ------------------------------------------------------------------ S06
@unit("S06", "clone", big=(80, 300, 700), gen=lambda rng: dict(seq=gen_seq(rng, ev=True), tpq=rng.randint(0, 480), qstep=rng.randint(0, 8),
                                       total=rng.choice([None, 50.0]), q=rng.random() < .3), n=1200,
      rule="drum and melodic sequences with all event kinds, edits of either side afterwards")
def s06_clone(c):
    s = mk_seq(c["seq"])
    s.ticks_per_quarter, s.quantized_step = c["tpq"], c["qstep"]
    if c["q"]:
        s.quantize()
    if c["total"]:
        s.total_time = c["total"]

    def snap(x):
        return dict(notes=[nfull(n) for n in x.notes], drums=[nfull(n) for n in x.drum_events],
                    ccs=[cc_state(v) for v in x.control_changes], pbs=[pb_state(v) for v in x.pitch_bends],
                    inst=(x.instrument.instrument_num, x.instrument.name, x.instrument.is_drum),
                    res=x.resolution, total=x.total_time, tpq=x.ticks_per_quarter, qstep=x.quantized_step,
                    tqs=x.total_quantized_steps)
    before = snap(s)
    k = s.clone()
    got = snap(k)
    for f in before:
        ensure(got[f] == before[f], "clone has %s %r, expected %r", f, got[f], before[f])
    e = s.clone_empty()
    ge = snap(e)
    for f in before:
        w = [] if f in ("notes", "drums", "ccs", "pbs") else before[f]
        ensure(ge[f] == w, "empty clone has %s %r, expected %r", f, ge[f], w)

    def edit(x):
        for n in x.notes:
            n.end_time = n.end_time + 1
            n.pitch = (n.pitch + 1) % 128
        for v in x.control_changes:
            v.cc_value += 1
            v.shift_time(1.0)
        for v in x.pitch_bends:
            v.program = (v.program + 1) % 128
            v.midi_time = v.midi_time + 1
        d = dict(pitch=1, start=0.0, end=90.0, instrument=c["seq"]["inst"], drum=c["seq"]["drum"])
        x.add_note(mk_note(d))
        x.control_changes.append(mk_cc(dict(number=1, value=1, time=1.0, program=0, instrument=0, drum=False,
                                            step=4, qs=-1, qe=-1)))
        x.add_pitch_bends(MidiPitchBend(1))
    edit(e)
    ensure(snap(s) == before and snap(k) == got, "changing the empty clone changed another sequence")
    edit(k)
    ensure(snap(s) == before, "changing the clone changed the sequence")
    k2 = s.clone()
    got = snap(k2)
    edit(s)
    ensure(snap(k2) == got, "changing the sequence changed the clone")


# ------------------------------------------------------------------ S07
def g8(rng, hi=48):
    """a time that is exact in binary"""
    return rng.randint(0, hi) / 8


def gen_parts(rng):
    d = gen_seq(rng, "grid")
    for n in d["notes"]:
        n["start"] = g8(rng)
        n["end"] = n["start"] + rng.randint(1, 16) / 8
        n.update(qs=-1, qe=-1)
    return d


def gen_extract(rng):
    d = gen_parts(rng)
    ts = sorted(g8(rng) for _ in range(ln(rng, 0, 5)))
    if rng.random() < .1:
        rng.shuffle(ts)
    if rng.random() < .3:
        ts.append(100.0)
    if d["notes"] and rng.random() < .2:
        for n in (d["notes"] if rng.random() < .5 else d["notes"][:1]):
            n.update(qs=1, qe=2)
    return dict(seq=d, times=ts)


def check_parts(got, notes, bounds):
    ensure(len(got) == len(bounds) - 1, "%d parts for the times %r", len(got), bounds)
    for part, a, b in zip(got, bounds, bounds[1:]):
        want = []
        for n in sorted(notes, key=lambda n: n.start_time):
            if a <= n.start_time < b:
                v = list(nstate(n))
                v[1], v[2] = n.start_time - a, min(n.end_time, b) - a
                want.append(tuple(v))
        ensure(states(part.notes) == want, "the part from %r to %r holds %r, expected %r", a, b, states(part.notes), want)
        ensure(not any(x is y for x in part.notes for y in notes), "a part shares a note with the sequence")
        ensure(part.total_time == max((n.end_time for n in part.notes), default=0.0),
               "the total time of the part from %r to %r is %r", a, b, part.total_time)


def quantized(s):
    return all(n.is_quantized() for n in s.notes)


@unit("S07", "extract", gen_extract, big=(80, 300, 700), n=2500, rule="times at note boundaries and elsewhere, ascending or not, past the end; quantized or not")
def s07_extract(c):
    s = mk_seq(c["seq"])
    ts = list(c["times"])
    before, total = [nfull(n) for n in s.notes], s.total_time
    if len(ts) < 2 or ts != sorted(ts) or any(t >= total for t in ts[:-1]) or quantized(s):
        must_refuse("extraction by %r" % ts, lambda: s.extract(ts))
    else:
        check_parts(s.extract(ts), s.notes, ts)
    ensure([nfull(n) for n in s.notes] == before and s.total_time == total, "extraction changed the sequence")


def gen_split(rng):
    d = gen_parts(rng)
    end = max([n["end"] for n in d["notes"]] + [0.0])
    if rng.random() < .5:
        by = [t for t in (g8(rng) for _ in range(ln(rng, 0, 5))) if t < end]
    else:
        by = rng.choice([.25, .5, 1.0, 1.5, 2.0, 8.0])
    return dict(seq=d, by=by, skip=rng.random() < .5)


@unit("S07", "split", gen_split, big=(80, 300, 700), n=2500, rule="times and window lengths; notes over the times; boundaries under notes left out or not")
def s07_split(c):
    s = mk_seq(c["seq"])
    before, total = [nfull(n) for n in s.notes], s.total_time
    by = c["by"]
    if quantized(s):
        raise Skip()
    if isinstance(by, list):
        pts = sorted(by)
        arg = list(by)
    else:
        pts, arg = [], by
        while (len(pts) + 1) * by < total:
            pts.append((len(pts) + 1) * by)
    bounds = [0.0] + [t for t in pts if not (c["skip"] and any(n.start_time < t < n.end_time for n in s.notes))]
    if total > bounds[-1]:
        bounds.append(total)
    check_parts(s.split(arg, c["skip"]), s.notes, bounds)
    ensure([nfull(n) for n in s.notes] == before and s.total_time == total, "splitting changed the sequence")
