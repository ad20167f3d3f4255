"""Executable contracts of collections of sequences: signature time lines
(T01..T04) and the track registry (R01..R03)."""
import bisect
from common import *
from neural_graph_composer.midi.midi_note import MidiNote
from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature, MidiTimeSignature
from neural_graph_composer.midi.midi_key_signature import MidiKeySignature, KeySignatureType
from seq import mk_seq, gen_seq, gen_notes, in_order

KINDS = ("time", "key", "tempo")


def mk_sig(kind, t, v):
    if kind == "time":
        return MidiTimeSignature(midi_time=t, numerator=v[0] % 11 + 1, denominator=2 ** (v[1] % 6))
    if kind == "key":
        return MidiKeySignature(t, v[0] % 12, v[1] % 2)
    return MidiTempoSignature(t, qpm=float(v[0] % 200 + 1), resolution=v[1] % 900 + 1)


def line(c, kind):
    return {"time": c.time_signatures, "key": c.key_signatures, "tempo": c.tempo_signatures}[kind]


def add(c, kind, s):
    {"time": c.add_time_signatures, "key": c.add_key_signatures, "tempo": c.add_tempo_signature}[kind](s)


def val(kind, s):
    if kind == "time":
        return (s.numerator, s.denominator)
    if kind == "key":
        return (s.mode, s.midi_key)
    return (int(s.qpm), s.resolution)


def lookup(c, kind, t):
    return {"time": c.time_signature, "key": c.key_signature, "tempo": c.tempo_signature}[kind](t)


def mk_coll(kind, start):
    """start: None = the default first signature, else the initial signatures"""
    if start is None:
        return MidiNoteSequences()
    sigs = [mk_sig(kind, t, v) for t, v in start]
    return MidiNoteSequences(**{kind + "_signatures": sigs})


def r_sig(rng, hi=4):
    if BIG[0]:
        hi = BIG[0]
    return [rng.choice([0.0, 0.5, 1.0, 1.5, 2.0, 3.0] + [rng.randrange(0, hi * 4) / 4.0] * (12 if BIG[0] else 1)),
            [rng.randint(0, 999), rng.randint(0, 999)]]


def gen_timeline(rng):
    start = rng.choice([None, None, [], "one"])
    if start == "one":
        start = [r_sig(rng)]
    ops = []
    for _ in range(ln(rng, 1, 9)):
        k = rng.random()
        ops.append(["add"] + r_sig(rng) if k < .6 else
                   ["look", rng.choice([0.0, .5, 1.0, 1.25, 2.0, 3.5, 10.0])] if k < .9 else ["initial"])
    return dict(kind=rng.choice(KINDS), start=start, ops=ops)


def model_add(model, s):
    """model: list of signatures in expected order"""
    if model and abs(model[0].midi_time - s.midi_time) < 1e-6:
        model[0] = s
    else:
        i = len(model)
        while i > 0 and model[i - 1].midi_time > s.midi_time + 1e-9:
            i -= 1
        model.insert(i, s)


@unit("T01", "additions", gen_timeline, big=(80, 300, 700), n=4000, rule="histories of additions with equal and distinct times, three kinds")
def t01_add(c):
    m = mk_coll(c["kind"], c["start"])
    model = list(line(m, c["kind"]))
    for o in c["ops"]:
        if o[0] != "add":
            continue
        s = mk_sig(c["kind"], o[1], o[2])
        add(m, c["kind"], s)
        model_add(model, s)
        got = list(line(m, c["kind"]))
        ensure([id(x) for x in got] == [id(x) for x in model], "time line is %r, expected %r",
               [(x.midi_time, val(c["kind"], x)) for x in got], [(x.midi_time, val(c["kind"], x)) for x in model])
        ensure(s.midi_time == o[1], "adding a signature changed its time")


@unit("T01", "near the first", lambda rng: dict(kind=rng.choice(KINDS), base=rng.choice([0.0, 1.0, 2.5]),
                                               d=rng.choice([0.0, 5e-7, -5e-7, 2e-6, -2e-6, 1e-3]),
                                               more=rng.random() < .5, v=[rng.randint(0, 99), rng.randint(0, 99)]),
      n=1000, rule="signatures around one microsecond from the first entry")
def t01_near(c):
    k = c["kind"]
    m = mk_coll(k, [[c["base"], [1, 1]]] + ([[c["base"] + 5, [2, 2]]] if c["more"] else []))
    model = list(line(m, k))
    s = mk_sig(k, c["base"] + c["d"], c["v"])
    add(m, k, s)
    if abs(c["d"]) < 1e-6:
        model[0] = s
    else:
        model.insert(0 if c["d"] < 0 else 1, s)
    ensure([id(x) for x in line(m, k)] == [id(x) for x in model], "time line after adding at distance %r: %r",
           c["d"], [x.midi_time for x in line(m, k)])


@unit("T02", "lookups", gen_timeline, big=(80, 300, 700), n=4000, rule="interleavings of additions and repeated lookups, three kinds")
def t02_lookup(c):
    k = c["kind"]
    m = mk_coll(k, c["start"])
    model = list(line(m, k))
    asked = set()

    def check(t):
        before = [s for s in model if s.midi_time <= t]
        if before:
            w = val(k, before[-1])
        elif k == "time":
            w = (4, 4)
        elif k == "key":
            w = (0, 0)
        else:
            return
        got = tuple(lookup(m, k, t))
        ensure(got == w, "%s signature at %r is %r, expected %r of %r", k, t, got, w,
               [(s.midi_time, val(k, s)) for s in model])

    def check_initial():
        if k != "tempo" or not model:
            return
        z = [s for s in model if s.midi_time == 0.0]
        w = (z or model)[0].qpm
        ensure(m.initial_tempo() == w, "initial tempo is %r, expected %r", m.initial_tempo(), w)
    for o in c["ops"]:
        if o[0] == "add":
            s = mk_sig(k, o[1], o[2])
            add(m, k, s)
            model_add(model, s)
            for t in sorted(asked):
                check(t)
        elif o[0] == "look":
            asked.add(o[1])
            check(o[1])
        else:
            check_initial()
    for t in sorted(asked | {s.midi_time for s in model} | {s.midi_time + .125 for s in model}):
        check(t)
    check_initial()


@unit("T02", "two collections", lambda rng: dict(kind=rng.choice(KINDS), a=r_sig(rng), b=r_sig(rng),
                                                 t=rng.choice([0.0, 1.0, 5.0])), n=600,
      rule="lookups on two collections do not mix")
def t02_two(c):
    k = c["kind"]
    x, y = mk_coll(k, [c["a"]]), mk_coll(k, [c["b"]])
    for m, d in ((x, c["a"]), (y, c["b"]), (x, c["a"])):
        s = mk_sig(k, *d)
        if s.midi_time <= c["t"]:
            ensure(tuple(lookup(m, k, c["t"])) == val(k, s), "lookup gives %r", lookup(m, k, c["t"]))
    add(x, k, mk_sig(k, c["a"][0] + 50, [3, 3]))
    s = mk_sig(k, *c["b"])
    if s.midi_time <= c["t"]:
        ensure(tuple(lookup(y, k, c["t"])) == val(k, s), "lookup gives %r", lookup(y, k, c["t"]))


def gen_enum(rng):
    d = gen_timeline(rng)
    sigs = [r_sig(rng) for _ in range(ln(rng, 0, 6))]
    pts = [s[0] for s in sigs] + [0.0, 1.0, 2.25, 9.0, -1.0]
    return dict(kind=d["kind"], sigs=sigs, bound=rng.choice([None] + pts + pts), shuffled=rng.random() < .3,
                sort_first=rng.random() < .7)


@unit("T03", "enumeration", gen_enum, big=(80, 300, 700), n=4000, rule="time lines x bounds, bounds equal to signature times")
def t03_enum(c):
    k = c["kind"]
    if c["shuffled"]:                  # handed over out of order at construction
        m = mk_coll(k, c["sigs"])
    else:
        m = mk_coll(k, [])
        for t, v in c["sigs"]:
            add(m, k, mk_sig(k, t, v))
    before = list(line(m, k))
    fn = {"time": m.slice_time_signatures, "key": m.slice_key_signatures, "tempo": m.slice_tempo_signature}[k]
    sort_first = c["sort_first"] or c["shuffled"]
    got = list(fn(c["bound"], sort_first=sort_first))
    want = [s for s in before if c["bound"] is None or s.midi_time <= c["bound"]]
    ensure(sorted(map(id, got)) == sorted(map(id, want)), "enumerated %r, expected %r",
           [s.midi_time for s in got], [s.midi_time for s in want])
    ensure(all(a.midi_time <= b.midi_time for a, b in zip(got, got[1:])), "enumeration out of order: %r",
           [s.midi_time for s in got])
    ensure([id(s) for s in line(m, k)] == [id(s) for s in before], "enumeration changed the time line")
    if not c["shuffled"]:
        ensure([id(s) for s in got] == [id(s) for s in want], "equal times are out of order")


# a time line given by its rows: time, two values, number of arrival
def raw_sig(kind, d):
    if kind == "time":
        return MidiTimeSignature(midi_time=d["t"], numerator=d["p"], denominator=d["q"])
    if kind == "key":
        return MidiKeySignature(d["t"], d["p"], d["q"])
    return MidiTempoSignature(d["t"], qpm=float(d["p"]), resolution=d["q"])


def raw_coll(kind, rows):
    """the collection with the time line, made by adding in order of arrival"""
    m = MidiNoteSequences(**{kind + "_signatures": []})
    if rows:
        for d in rows[:1] + sorted(rows[1:], key=lambda d: d["seq"]):
            add(m, kind, raw_sig(kind, d))
    return m


def gen_rows(rng, kind):
    t = sorted(rng.choice([0.0, 0.5, 1.0, 2.0, 5.0]) for _ in range(rng.randint(0, 4)))
    return [dict(t=x, p=rng.randint(1, 11), q=rng.choice([1, 0]) if kind == "key" else 2 ** rng.randint(0, 4), seq=i)
            for i, x in enumerate(t)]


def gen_one(rng):
    kind = rng.choice(KINDS)
    return dict(kind=kind, line=gen_rows(rng, kind), v=dict((gen_rows(rng, kind) or [dict(t=1.0, p=1, q=1, seq=0)])[0]))


@unit("T01", "one addition", gen_one, n=600, rule="one addition to a time line")
def t01_one(c):
    k = c["kind"]
    m = raw_coll(k, c["line"])
    model = list(line(m, k))
    was = [(x.midi_time, val(k, x)) for x in model]
    ensure(all(a.midi_time <= b.midi_time for a, b in zip(model, model[1:])), "time line out of order: %r", was)
    s = raw_sig(k, c["v"])
    w = val(k, s)
    add(m, k, s)
    ensure(was == [(x.midi_time, val(k, x)) for x in model], "an addition changed the signatures there: %r", was)
    model_add(model, s)
    ensure([id(x) for x in line(m, k)] == [id(x) for x in model], "time line after adding at %r: %r of %r",
           c["v"]["t"], [x.midi_time for x in line(m, k)], was)
    ensure((s.midi_time, val(k, s)) == (c["v"]["t"], w), "an addition changed the signature added")


def gen_any(rng):
    c = gen_one(rng)
    c["ask"] = [rng.choice([0.0, 0.5, 1.0, 3.0])] if rng.random() < .7 else []
    if rng.random() < .4:
        c["v"] = None
    c["t"] = rng.choice(c["ask"] + [0.0, 0.75, 2.0, 9.0])
    return c


@unit("T02", "any line", gen_any, n=600, rule="a lookup, an addition, a lookup")
def t02_any(c):
    k = c["kind"]
    m = raw_coll(k, c["line"])
    for t in c["ask"]:
        lookup(m, k, t)
        if k == "tempo":
            m.initial_tempo()
    if c["v"] is not None:
        add(m, k, raw_sig(k, c["v"]))
    for t in [c["t"]] + c["ask"]:
        before = [s for s in line(m, k) if s.midi_time <= t]
        if before or k != "tempo":
            want = val(k, before[-1]) if before else (4, 4) if k == "time" else (0, 0)
            ensure(tuple(lookup(m, k, t)) == want, "%s signature at %r is %r, expected %r", k, t, lookup(m, k, t), want)
    if k == "tempo" and line(m, k):
        z = [s for s in line(m, k) if s.midi_time == 0.0] or line(m, k)
        ensure(m.initial_tempo() == z[0].qpm, "initial tempo is %r, expected %r", m.initial_tempo(), z[0].qpm)


@unit("T03", "any enumeration", lambda rng: dict(gen_one(rng), bound=rng.choice([None, 0.0, 0.5, 0.75, 2.0, 9.0]),
                                                  sort_first=rng.random() < .7), n=600, rule="time lines x bounds")
def t03_any(c):
    k = c["kind"]
    m = raw_coll(k, c["line"])
    before = list(line(m, k))
    fn = {"time": m.slice_time_signatures, "key": m.slice_key_signatures, "tempo": m.slice_tempo_signature}[k]
    got = list(fn(c["bound"], sort_first=c["sort_first"]))
    want = [s for s in before if c["bound"] is None or s.midi_time <= c["bound"]]
    ensure([id(s) for s in got] == [id(s) for s in want], "enumerated %r, expected %r", [s.midi_time for s in got],
           [s.midi_time for s in want])
    ensure([id(s) for s in line(m, k)] == [id(s) for s in before], "enumeration changed the time line")


@unit("T04", "tempo", lambda rng: dict(q=rng.choice([120.0, 60, 1.0, 0.5, 500.0, rng.uniform(.1, 999)]),
                                       r=rng.choice([1, 24, 96, 220, 480, 960, rng.randint(1, 9999)]),
                                       b=rng.choice([30.0, 1.0, rng.uniform(.1, 300)]),
                                       m=rng.choice([500000, 1, 16777215, rng.randint(1, 10 ** 7)])), n=2000,
      rule="tempi, resolutions")
def t04_tempo(c):
    t = MidiTempoSignature(1.5, qpm=c["q"], resolution=c["r"])
    ensure(close(t.qpm, c["q"]) and t.resolution == c["r"] and t.midi_time == 1.5, "tempo is %r", t)
    ensure(close(t.seconds_per_quarter, 60 / c["q"]), "seconds per quarter %r", t.seconds_per_quarter)
    ensure(close(t.seconds_per_tick, 60 / (c["q"] * c["r"])), "seconds per tick %r", t.seconds_per_tick)
    ensure(close(t.bpm, c["q"] / 4), "bpm %r", t.bpm)
    t.bpm = c["b"]
    ensure(close(t.bpm, c["b"]) and close(t.qpm, 4 * c["b"]), "bpm set to %r is %r at qpm %r", c["b"], t.bpm, t.qpm)
    ensure(close(MidiTempoSignature.tempo_to_qpm(c["m"]), 60000000 / c["m"]), "tempo_to_qpm(%r) = %r", c["m"],
           MidiTempoSignature.tempo_to_qpm(c["m"]))


@unit("T04", "refusals", lambda rng: dict(q=rng.choice([120.0, 0, -1, -0.5, "x"]), r=rng.choice([480, 0, -5, 2.5]),
                                          num=rng.choice([4, 3, 0, -1, 2.0, "4"]),
                                          den=rng.choice([1, 2, 4, 8, 64, 256, 1024, 0, -4, 3, 6, 12, 5, 100, 4.0]),
                                          mode=rng.choice([0, 1, 2, -1, 5])), n=2500, rule="valid and invalid parts")
def t04_refuse(c):
    num = lambda v: isinstance(v, (int, float)) and not isinstance(v, bool)
    ok = num(c["q"]) and c["q"] > 0 and isinstance(c["r"], int) and c["r"] > 0
    ensure(refused(lambda: MidiTempoSignature(0.0, qpm=c["q"], resolution=c["r"])) == (not ok),
           "tempo %r at resolution %r was %s", c["q"], c["r"], "refused" if ok else "accepted")
    ok = (isinstance(c["num"], int) and isinstance(c["den"], int) and c["num"] > 0 and c["den"] > 0
          and bin(c["den"]).count("1") == 1)
    ensure(refused(lambda: MidiTimeSignature(0.0, c["num"], c["den"])) == (not ok),
           "meter %r/%r was %s", c["num"], c["den"], "refused" if ok else "accepted")
    if ok:
        s = MidiTimeSignature(0.5, c["num"], c["den"])
        ensure((s.midi_time, s.numerator, s.denominator) == (0.5, c["num"], c["den"]), "meter became %r", s)
    ok = c["mode"] in (0, 1)
    ensure(refused(lambda: MidiKeySignature(0.0, 3, c["mode"])) == (not ok), "mode %r was %s", c["mode"],
           "refused" if ok else "accepted")
    if ok:
        k = MidiKeySignature(0.5, 3, c["mode"])
        ensure(k.mode is (KeySignatureType.MINOR if c["mode"] else KeySignatureType.MAJOR) and k.midi_key == 3
               and k.midi_time == 0.5, "key became %r", k)


# ------------------------------------------------------------------ R01
def gen_registry(rng):
    ops = []
    for _ in range(ln(rng, 1, 9)):
        t = rng.choice([0, 1, 2, 3, 5, 126, 127] if not BIG[0] else range(128)) if rng.random() < .9 else rng.choice([-1, 128, -2, 500])
        k = rng.choice(["create", "get", "index", "assign", "assign_list", "set", "set_list", "note"])
        p = rng.randint(0, 5) if rng.random() < .9 else rng.choice([-1, 128, 127, 200])
        ops.append([k, t, p, rng.random() < .3, rng.choice(["a", "b"])])
    init = None
    if rng.random() < .4:
        init = sorted(set(rng.randint(0, 5) for _ in range(rng.randint(1, 3))))
        rng.shuffle(init)
    return dict(ops=ops, init=init)


@unit("R01", "registry history", gen_registry, big=(60, 200), n=3000,
      rule="histories of create, get, index, assign, note additions; numbers and programs at the bounds; collections "
           "built from sequences included")
def r01_registry(c):
    init = c["init"]
    seqs = [mk_seq(dict(inst=i, notes=[dict(pitch=i, start=0, end=1, instrument=i)])) for i in init or []]
    m = MidiNoteSequences(midi_seq=seqs) if init else MidiNoteSequences()
    model = {s.instrument.instrument_num: s for s in seqs}

    def snap():
        return {t: (id(m[t]), states(m[t].notes), str(m[t].instrument)) for t in model}

    def verify(what, touched):
        ensure(sorted(m) == sorted(model), "after %s the tracks are %r, expected %r", what, sorted(m), sorted(model))
        ensure(len(m) == len(model) == m.num_track(), "after %s the number of tracks is %r", what, len(m))
        for t, s in model.items():
            ensure(m[t] is s, "after %s track %d is another sequence", what, t)
            ensure(m.instrument_midi_seq_len(t) == len(s.notes), "length of track %d", t)
    verify("construction", None)
    for op, t, p, drum, name in c["ops"]:
        before = snap()
        what = "%s(%d)" % (op, t)
        bad_t, bad_p = not 0 <= t <= 127, not 0 <= p <= 127
        new = t not in model
        if op == "create":
            if bad_t:
                continue
            if bad_p:
                must_refuse(what, lambda: m.create_track(t, p, name, drum))
            else:
                r = m.create_track(t, p, name, drum)
                ensure(r == t, "creating track %d gave %r", t, r)
                if new:
                    model[t] = m[t]
                    ensure(len(m[t].notes) == 0 and m[t].instrument == MidiInstrumentInfo(p, name, drum),
                           "new track %d is %r", t, m[t])
                    ensure(m[t].resolution == m.resolution, "new track has another resolution")
        elif op == "get":
            if bad_t or (new and bad_p):
                must_refuse(what, lambda: m.get_track(t, name, p, drum))
            else:
                s = m.get_track(t, name, p, drum)
                if new:
                    model[t] = s
                    ensure(len(s.notes) == 0 and s.instrument == MidiInstrumentInfo(p, name, drum),
                           "new track %d is %r", t, s)
                ensure(s is model[t], "fetching track %d gave another sequence", t)
        elif op == "index":
            if bad_t:
                must_refuse(what, lambda: m[t])
            else:
                s = m[t]
                if new:
                    model[t] = s
                    ensure(len(s.notes) == 0 and s.instrument.instrument_num == t and not s.instrument.is_drum,
                           "indexing gave %r", s)
                ensure(s is model[t], "indexing track %d gave another sequence", t)
        elif op in ("assign", "assign_list", "set", "set_list"):
            notes = [dict(pitch=1, start=0, end=2), dict(pitch=2, start=1, end=2)]
            v = mk_seq(dict(inst=0, notes=notes)) if not op.endswith("list") else [mk_note(n) for n in notes]

            def assign():
                if op.startswith("set"):
                    m.set_sequence(t, v)
                else:
                    m[t] = v
            if bad_t:
                must_refuse(what, assign)
            else:
                assign()
                if not op.endswith("list"):
                    model[t] = v
                else:
                    model[t] = m[t]
                    ensure(states(m[t].notes) == [nstate(n) for n in v], "assigned notes are %r", states(m[t].notes))
        elif op == "note" and model:
            t = sorted(model)[t % len(model)]
            s = model[t]
            if not s.instrument.is_drum:
                s.add_note(mk_note(dict(pitch=9, start=1, end=3, instrument=s.instrument.instrument_num)))
        verify(what, t)
        for k, v in before.items():
            if k != t:
                ensure(snap()[k] == v, "%s changed track %d", what, k)


def gen_use(rng):
    return dict(keys=sorted(set(rng.randint(0, 127) for _ in range(rng.randint(0, 4)))),
                op=rng.choice(["create", "get", "index", "assign", "set", "assign_list", "set_list"]),
                t=rng.choice([0, 1, 5, 127, -1, 128, rng.randint(0, 127)]), p=rng.choice([0, 3, 127, 128, -1]),
                drum=rng.random() < .3, q=rng.randint(0, 127))


@unit("R01", "one use", gen_use, n=500, rule="one operation on a collection of given tracks, and one on another track")
def r01_use(c):
    m = MidiNoteSequences()
    for k in c["keys"]:
        m.create_track(k, 7, "old", False)
        if 0 <= k <= 127:
            m[k].add_note(mk_note(dict(pitch=k, start=0, end=1, instrument=7)))
    t, p, q, op = c["t"], c["p"], c["q"], c["op"]
    model = {k: m[k] for k in c["keys"] if 0 <= k <= 127}
    states0 = {k: states(s.notes) for k, s in model.items()}
    n0 = len(m)
    inside, program, new = 0 <= t <= 127, 0 <= p <= 127, t not in model
    if op == "create" and not inside:
        return
    given = mk_seq(dict(inst=3, notes=[])) if not op.endswith("list") else [mk_note(dict(pitch=1, start=0, end=2))]
    f = dict(create=lambda: m.create_track(t, p, "name", c["drum"]), get=lambda: m.get_track(t, "name", p, c["drum"]),
             index=lambda: m[t], assign=lambda: m.__setitem__(t, given), set=lambda: m.set_sequence(t, given))
    f["assign_list"], f["set_list"] = f["assign"], f["set"]
    if dict(create=not program, get=not inside or (new and not program)).get(op, not inside):
        must_refuse("%s(%r)" % (op, t), f[op])
    else:
        r = f[op]()
        s = m[t]
        ensure(op == "create" and r == t or op not in ("get", "index") or r is s, "%s(%d) gave %r", op, t, r)
        if op in ("create", "get", "index"):
            if new:
                want = (t, False) if op == "index" else (p, c["drum"])
                ensure(len(s.notes) == 0 and (s.instrument.instrument_num, s.instrument.is_drum) == want
                       and s.resolution == m.resolution, "the new track is %r", s)
            else:
                ensure(s is model[t], "%s(%d) replaced the track", op, t)
        else:
            ensure(s is given or op.endswith("list") and states(s.notes) == states(given), "%s(%d) set %r", op, t, s)
        if new or op not in ("create", "get", "index"):
            states0[t] = states(s.notes)
        if new:
            n0 += 1
        model[t] = s
    ensure(len(m) == n0, "there are %d tracks, expected %d", len(m), n0)
    ensure(sorted(k for k in m if 0 <= k <= 127) == sorted(model), "the tracks are %r, expected %r", sorted(m), sorted(model))
    for k, s in model.items():
        ensure(m.get_track(k, "other", 1, True) is s and m.create_track(k, 1, "other", True) == k and m[k] is s,
               "track %d was replaced", k)
        ensure(states(s.notes) == states0[k], "track %d was changed", k)
    if q not in model:
        s = m[q]
        ensure(len(s.notes) == 0 and s.instrument.instrument_num == q, "the new track is %r", s)


@unit("R01", "kinds", boundary=[dict(k=k) for k in range(6)], rule="arguments of a wrong kind")
def r01_kinds(c):
    m = MidiNoteSequences()
    keep = m.get_track(0, "a", 0, False)
    bad = [lambda: m["a"], lambda: m[1.5], lambda: m.__setitem__(0, 5), lambda: m.__setitem__("a", keep),
           lambda: m.create_track(1, 1.5, "a", False), lambda: m.create_track(1, 1, 5, False)][c["k"]]
    must_refuse("call %d" % c["k"], bad)
    ensure(sorted(m) == [0] and m[0] is keep, "a refused call changed the tracks")


# ------------------------------------------------------------------ R02
def gen_ctor(rng):
    seqs = []
    for _ in range(rng.randint(1, 5)):
        i = rng.randint(0, 3)
        seqs.append(dict(inst=i, drum=False, res=220, notes=gen_notes(rng, i, False)))
    return dict(seqs=seqs, single=rng.random() < .1)


@unit("R02", "constructor", gen_ctor, big=(80,), n=1500, rule="lists of sequences with repeated instruments")
def r02_ctor(c):
    ss = [mk_seq(d) for d in c["seqs"]]
    if c["single"]:
        ss = ss[:1]
    want, cnt = {}, {}
    for s in ss:
        i = s.instrument.instrument_num
        want.setdefault(i, []).extend(states(s.notes))
        cnt[i] = cnt.get(i, 0) + 1
    m = MidiNoteSequences(midi_seq=ss[0] if c["single"] else ss)
    ensure(sorted(m) == sorted(want), "tracks are %r, expected %r", sorted(m), sorted(want))
    ensure(len(m) == len(want) == m.num_track() == m.num_instruments(), "counts are %r, %r, %r", len(m),
           m.num_track(), m.num_instruments())
    for i in want:
        ensure(multiset(states(m[i].notes)) == multiset(want[i]), "track %d holds %r, expected %r", i,
               states(m[i].notes), want[i])
        ensure(m[i].instrument.instrument_num == i, "track %d has instrument %r", i, m[i].instrument)
        if cnt[i] > 1:
            ensure(in_order(m[i].notes), "merged track %d is out of order", i)
        else:
            ensure(states(m[i].notes) == want[i], "track %d was reordered", i)
    k = sorted(want)[0]
    s = m[k]
    ensure(m.get_track(k, "zz", 1, False) is s, "a later use of a track number does not continue the track")
    m.create_track(k, 1, "zz", False)
    ensure(m[k] is s, "creating a present track replaced it")


@unit("R02", "refusals", boundary=[dict(k=k) for k in range(9)], rule="arguments of a wrong kind")
def r02_refuse(c):
    s = mk_seq(dict(inst=0, notes=[]))
    kw = [dict(midi_seq=[s, 3]), dict(midi_seq=5), dict(filename=3), dict(resolution="a"), dict(is_debug=3),
          dict(time_signatures=[MidiKeySignature()]), dict(key_signatures=[MidiTimeSignature()]),
          dict(tempo_signatures=[3]), dict(tempo_signatures=MidiTempoSignature())][c["k"]]
    must_refuse("constructor with %r" % (kw,), lambda: MidiNoteSequences(**kw))


# ------------------------------------------------------------------ R03
def gen_views(rng):
    tracks = {}
    for _ in range(rng.randint(0, 4)):
        i = rng.choice([0, 1, 2, 5, 9, 10, 64, 127])
        q = rng.random()
        over = dict(qs=1, qe=4) if q < .4 else {}
        ns = gen_notes(rng, i, False, **over)
        if q < .55 and q >= .4 and ns:
            ns[0].update(qs=1, qe=4)
        tracks[str(i)] = ns
    keys = list(tracks)
    rng.shuffle(keys)
    return dict(tracks=tracks, order=keys)


@unit("R03", "views", gen_views, big=(80,), n=1500, rule="collections of 0..4 tracks, mixed quantization, any insertion order")
def r03_views(c):
    m = MidiNoteSequences()
    for k in c["order"]:
        i = int(k)
        s = m.get_track(i, "t%d" % i, i, False)
        for n in c["tracks"][k]:
            s.add_note(mk_note(n))
    nums = sorted(int(k) for k in c["order"])
    allst = [nstate(mk_note(n)) for k in c["order"] for n in c["tracks"][k]]
    ev = m.get_all_sequence_events()
    ensure(multiset(states(ev)) == multiset(allst), "all events are %r, expected %r", states(ev), allst)
    ensure(all(a.start_time <= b.start_time for a, b in zip(ev, ev[1:])), "events are out of order")
    q = all(n.get("qs", -1) >= 0 and n.get("qe", -1) >= 0 for k in c["order"] for n in c["tracks"][k])
    ensure(bool(m.is_quantized()) == q, "is_quantized is %r, expected %r", m.is_quantized(), q)
    ensure(list(m) == nums, "iteration gives %r, expected %r", list(m), nums)
    ensure([i.instrument_num for i in m.instruments] == nums, "instruments are %r", m.instruments)
    ensure(len(m) == len(nums), "length is %r", len(m))
    for i in (0, 1, 2, 5, 9, 10, 64, 127):
        w = len(c["tracks"].get(str(i), []))
        ensure(m.instrument_midi_seq_len(i) == w, "track %d has length %r, expected %d", i,
               m.instrument_midi_seq_len(i), w)
    ensure(list(m) == nums, "asking for lengths changed the tracks")
    for k in c["order"]:
        ensure(states(m[int(k)].notes) == [nstate(mk_note(n)) for n in c["tracks"][k]], "views changed a track")


def gen_given(rng):
    d = dict(keys=sorted(set(rng.randint(0, 127) for _ in range(rng.randint(1, 4)))), q=None)
    d["t"] = rng.choice(d["keys"] + [rng.randint(-2, 130)])
    if rng.random() < .6:
        d["q"] = gen_seq(rng)
    return d


@unit("R03", "of given tracks", gen_given, n=400, rule="views of a collection of given tracks, one of them perhaps given with its notes")
def r03_given(c):
    m = MidiNoteSequences()
    q = True
    for j, k in enumerate(c["keys"]):
        m.create_track(k, 7, "old", False)
        if 0 <= k <= 127:
            if c["q"]:
                m[k] = mk_seq(c["q"])
                q = q and all(n.quantized_start_step >= 0 and n.quantized_end_step >= 0 for n in m[k].notes)
            else:
                m[k].add_note(mk_note(dict(pitch=k, start=0, end=1, instrument=7, qs=0 if j else -1, qe=3)))
                q = q and j > 0
    nums = sorted(c["keys"])
    ensure(list(m) == nums, "iteration gives %r, expected %r", list(m), nums)
    ensure(len(m) == m.num_track() == len(nums), "length is %r", len(m))
    ensure([id(i) for i in m.instruments] == [id(m.get_track(k, "x", 0, False).instrument) for k in nums if 0 <= k <= 127]
           or not all(0 <= k <= 127 for k in nums), "instruments are %r", m.instruments)
    ensure(bool(m.is_quantized()) == q, "is_quantized is %r, expected %r", m.is_quantized(), q)
    for t in nums + [c["t"]]:
        want = len(m[t].notes) if t in nums and 0 <= t <= 127 else 0
        ensure(m.instrument_midi_seq_len(t) == want, "track %d has length %r, expected %d", t, m.instrument_midi_seq_len(t), want)
    ensure(list(m) == nums, "a view added a track")


def gen_all(rng):
    seqs = []
    for i in rng.sample(range(128), rng.randint(0, 4)):
        seqs.append(dict(inst=i, drum=False, res=220, notes=gen_notes(rng, i, False)))
    return dict(seqs=seqs)


@unit("R03", "all events", gen_all, n=400, rule="all events of a collection of given sequences")
def r03_all(c):
    m = MidiNoteSequences()
    ss = [mk_seq(d) for d in c["seqs"]]
    for s in ss:
        m[s.instrument.instrument_num] = s
    was = [[id(n) for n in s.notes] for s in ss]
    st = [states(s.notes) for s in ss]
    ev = m.get_all_sequence_events()
    ensure(sorted(id(n) for n in ev) == sorted(x for w in was for x in w), "the events are %r", states(ev))
    ensure(all(a.start_time <= b.start_time for a, b in zip(ev, ev[1:])), "events are out of order")
    ensure([[id(n) for n in s.notes] for s in ss] == was and [states(s.notes) for s in ss] == st, "a track was changed")
