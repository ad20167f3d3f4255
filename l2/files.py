"""Executable contracts of reading and writing MIDI files (F01, F02, Q01)."""
import io
import os
import shutil
import tempfile
from common import *
import mido
import numpy as np
from neural_graph_composer.midi.midi_note import MidiNote
from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
from neural_graph_composer.midi.midi_control_change import MidiControlChange
from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend
from neural_graph_composer.midi.midi_key_signature import MidiKeySignature
from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature, MidiTimeSignature
from neural_graph_composer.midi_reader import MidiReader
from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI

MAJOR = {"C": 0, "Db": 1, "D": 2, "Eb": 3, "E": 4, "F": 5, "F#": 6, "G": 7, "Ab": 8, "A": 9, "Bb": 10, "B": 11}
MODE = dict(MAJOR=0, MINOR=1)
MINOR = {"Cm": 0, "C#m": 1, "Dm": 2, "D#m": 3, "Em": 4, "Fm": 5, "F#m": 6, "Gm": 7, "G#m": 8, "Am": 9, "Bbm": 10, "Bm": 11}


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif_files_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# ------------------------------------------------------------------ F01
def increasing(rng, n, lo, hi):
    return sorted(rng.sample(range(lo, hi), min(n, hi - lo)))


def gen_f01(rng):
    res = rng.choice([24, 96, 220, 480])
    last = res * 12
    tempi, us = [], 0
    for k, t in enumerate(([0] if rng.random() < .7 else []) + increasing(rng, rng.randint(0, 3), 1, last)):
        v = rng.choice([x for x in (250000, 400000, 500000, 600000, 1000000, 333333) if x != us])
        if not tempi and t and v == 500000:
            v = 400000
        us = v
        tempi.append([t, v])
    keys = [[t, rng.choice(sorted(MAJOR) + sorted(MINOR))] for t in increasing(rng, rng.randint(0, 3), 0, last)]
    meters = [[t, rng.randint(1, 12), rng.choice([1, 2, 4, 8, 16])] for t in increasing(rng, rng.randint(0, 3), 0, last)]
    tracks = []
    for i in range(rng.randint(1, 4)):
        drum = rng.random() < .2
        chans = [9 if drum else rng.choice([0, 1, 5, 15])]
        if rng.random() < .25:
            chans = rng.sample(range(16), rng.choice([2, 3]))           # several instruments in one MIDI track
        t, notes = rng.randrange(0, res) + (res * rng.randint(50, 400) if rng.random() < .15 else 0), []
        for _ in range(ln(rng, 1, 6)):
            dur = rng.choice([1, 2, rng.randint(1, 2 * res), rng.randint(1, 2 * res)])
            for p in rng.sample(range(128), rng.choice([1, 1, 2, 3])):
                notes.append([p, rng.randint(1, 127), t, t + dur, rng.randrange(len(chans))])
            t += dur + rng.choice([0, 0, 1, res // 2])
        part = lambda: rng.randrange(len(chans))
        tracks.append(dict(program=rng.randint(0, 127), channel=chans[0], notes=notes,
                           more=[[x, rng.randint(0, 127)] for x in chans[1:]],
                           name=rng.choice(["", "Lead", "Bass"]),
                           bends=[[rng.randrange(0, last), rng.choice([-8192, 0, 8191, rng.randint(-8192, 8191)]), part()]
                                  for _ in range(rng.choice([0, 0, 1, 3]))],
                           ccs=[[rng.randrange(0, last), rng.randint(0, 119), rng.randint(0, 127), part()]
                                for _ in range(rng.choice([0, 0, 1, 3]))]))
    return dict(res=res, tempi=tempi, keys=keys, meters=meters, tracks=tracks, how=rng.choice(["object", "path", "bytes"]))


def of_part(xs, k, j):
    """the entries of xs (k values, then the part if there are several) that belong to part j"""
    return [x[:k] for x in xs if (x[k] if len(x) > k else 0) == j]


def instruments(c):
    """the instruments of the file: one for each channel of a track with a note, in the order in which they end a note"""
    out = []
    for d in c["tracks"]:
        ps = []
        for j, (ch, prog) in enumerate([[d["channel"], d["program"]]] + d.get("more", [])):
            ns = of_part(d["notes"], 4, j)
            if ns:
                first = min((n[3], d["notes"].index(next(x for x in d["notes"] if x[:4] == n and (x[4] if len(x) > 4 else 0) == j)))
                            for n in ns)
                ps.append((first, dict(program=prog, channel=ch, name=d["name"], notes=ns, bends=of_part(d["bends"], 2, j),
                                       ccs=of_part(d["ccs"], 3, j))))
        out += [x for _, x in sorted(ps, key=lambda x: x[0])]
    return out


def mido_file(c):
    f = mido.MidiFile(ticks_per_beat=c["res"])

    def put(events):
        # at one tick: settings, then bends and controls, then note ends, then note starts
        tr, now = mido.MidiTrack(), 0
        for t, _, m in sorted(events, key=lambda e: (e[0], e[1])):
            m.time = t - now
            now = t
            tr.append(m)
        tr.append(mido.MetaMessage("end_of_track", time=1))
        f.tracks.append(tr)
    ev = [(t, 0, mido.MetaMessage("set_tempo", tempo=v)) for t, v in c["tempi"]]
    ev += [(t, 1, mido.MetaMessage("key_signature", key=k)) for t, k in c["keys"]]
    ev += [(t, 2, mido.MetaMessage("time_signature", numerator=n, denominator=d)) for t, n, d in c["meters"]]
    put(ev)
    for d in c["tracks"]:
        parts = [[d["channel"], d["program"]]] + d.get("more", [])
        ev = [(0, 0, mido.MetaMessage("track_name", name=d["name"]))] if d["name"] else []
        ch = lambda x, k: parts[x[k] if len(x) > k else 0][0]
        ev += [(0, 1, mido.Message("program_change", program=p, channel=x)) for x, p in parts]
        ev += [(x[0], 2, mido.Message("pitchwheel", pitch=x[1], channel=ch(x, 2))) for x in d["bends"]]
        ev += [(x[0], 3, mido.Message("control_change", control=x[1], value=x[2], channel=ch(x, 3))) for x in d["ccs"]]
        for n in d["notes"]:
            ev.append((n[2], 5, mido.Message("note_on", note=n[0], velocity=n[1], channel=ch(n, 4))))
            ev.append((n[3], 4, mido.Message("note_off", note=n[0], velocity=0, channel=ch(n, 4))))
        put(ev)
    return f


def tick_time(c, tick):
    """seconds of a tick under the tempo map of the case"""
    tempi = [x for x in c["tempi"]]
    if not tempi or tempi[0][0] > 0:
        tempi = [[0, 500000]] + tempi
    t = 0.0
    for (a, us), nxt in zip(tempi, tempi[1:] + [[None, None]]):
        b = tick if nxt[0] is None or nxt[0] > tick else nxt[0]
        if b > a:
            t += (b - a) * us / 1e6 / c["res"]
    return t


def read(c, d):
    f = mido_file(c)
    if c["how"] == "object":
        return MidiReader.read(f)
    p = os.path.join(d, "x.mid")
    f.save(p)
    return MidiReader.read(p if c["how"] == "path" else open(p, "rb").read())


SIMPLE = dict(res=96, tempi=[[0, 500000]], keys=[], meters=[], how="path",
              tracks=[dict(program=5, channel=0, name="", bends=[], ccs=[], notes=[[60, 100, 0, 96]])])


@unit("F01", "reading", gen_f01, big=(80,), n=300, heavy=True, boundary=[
    dict(SIMPLE, keys=[[10 * i, k] for i, k in enumerate(list(MAJOR) + list(MINOR))]),
    dict(SIMPLE, tracks=[dict(SIMPLE["tracks"][0], bends=[[0, -8192], [5, 8191]], ccs=[[0, 7, 100], [96, 64, 0]])]),
    dict(SIMPLE, tempi=[[0, 400000], [96, 300000], [192, 900000]], meters=[[0, 3, 4], [96, 6, 8]],
         tracks=[dict(SIMPLE["tracks"][0], notes=[[60, 1, 0, 96], [60, 127, 96, 192], [61, 5, 192, 300]])] * 3)],
    rule="files of up to four tracks of up to three channels: chords, drums, bends, controls, keys, meters and tempo maps of "
         "up to four tempi; notes of a single tick, after up to 400 quarters; "
         "given as object, path or bytes")
def f01(c):
    with scratch() as d:
        s = read(c, d)
    tt = {}

    def at(k):
        if k not in tt:
            tt[k] = tick_time(c, k)
        return tt[k]

    def same_t(a, k):
        return close(a, at(k), 1e-7) or abs(a - at(k)) < 1e-7
    tr = [s[k] for k in s]
    ins = instruments(c)
    ensure(len(tr) == len(ins), "%d tracks, the file has %d", len(tr), len(ins))
    for i, (q, w) in enumerate(zip(tr, ins)):
        drum = w["channel"] == 9
        ensure(bool(q.instrument.is_drum) == drum, "track %d drum flag is %r", i, q.instrument.is_drum)
        ensure(q.instrument.instrument_num == w["program"], "track %d has instrument %r, the file %d", i,
               q.instrument.instrument_num, w["program"])
        ensure(not w["name"] or q.instrument.name == w["name"], "track %d is named %r", i, q.instrument.name)
        evs = list(q.drum_events) if drum and not q.notes else list(q.notes)
        got = sorted((n.pitch, n.velocity, n.start_time, n.end_time) for n in evs)
        want = sorted((p, v, at(a), at(b)) for p, v, a, b in w["notes"])
        ensure(len(got) == len(want), "track %d has %d notes, the file %d", i, len(got), len(want))
        bykey = lambda x: (round(x[2], 5), x[0], x[1])
        for g, x in zip(sorted(got, key=bykey), sorted(want, key=bykey)):
            ensure(g[:2] == x[:2] and abs(g[2] - x[2]) < 1e-7 and abs(g[3] - x[3]) < 1e-7,
                   "track %d has note %r, the file %r", i, g, x)
        for n in evs:
            ensure(n.program == w["program"] and bool(n.is_drum) == drum, "track %d note program %r drum %r", i,
                   n.program, n.is_drum)
            m = [x for x in c["meters"] if at(x[0]) <= n.start_time + 1e-9]
            m = m[-1][1:] if m else [4, 4]
            ensure([n.numerator, n.denominator] == m, "the note at %r has meter %r, in force is %r", n.start_time,
                   (n.numerator, n.denominator), m)
        pb = [(p.amount, p.midi_time) for p in q.pitch_bends]
        wb = sorted(w["bends"], key=lambda x: x[0])
        ensure(sorted(a for a, _ in pb) == sorted(a for _, a in wb) and
               all(abs(t - at(k)) < 1e-7 for t, (k, _) in zip(sorted(t for _, t in pb), wb)) and
               all(any(a == x and abs(t - at(k)) < 1e-7 for k, x in wb) for a, t in pb),
               "track %d has bends %r, the file %r", i, pb, wb)
        cc = [(x.cc_number, x.cc_value, x.cc_time) for x in q.control_changes]
        wc = sorted(w["ccs"], key=lambda x: x[0])
        ensure(multiset((a, b) for a, b, _ in cc) == multiset((a, b) for _, a, b in wc) and
               all(abs(t - at(k[0])) < 1e-7 for t, k in zip(sorted(x[2] for x in cc), wc)) and
               all(any((a, b) == (x, y) and abs(t - at(k)) < 1e-7 for k, x, y in wc) for a, b, t in cc),
               "track %d has controls %r, the file %r", i, cc, wc)
        for x in list(q.pitch_bends) + list(q.control_changes):
            ensure(x.program == w["program"] and bool(x.is_drum) == drum, "an event of track %d has program %r drum %r",
                   i, x.program, x.is_drum)
    keys = [(k.midi_time, k.midi_key, k.mode) for k in s.key_signatures]
    want = ([(0.0, 0, 0)] if not c["keys"] or c["keys"][0][0] > 0 else []) + [(at(t), (MAJOR.get(k) if k in MAJOR else MINOR[k]), 0 if k in MAJOR else 1) for t, k in c["keys"]]
    ensure(len(keys) == len(want) and all(abs(a[0] - b[0]) < 1e-7 and a[1] == b[1] and MODE[a[2].name] == b[2]
                                          for a, b in zip(keys, want)), "keys are %r, the file has %r", keys, want)
    ms = [(m.midi_time, m.numerator, m.denominator) for m in s.time_signatures]
    want = [(at(t), n, dd) for t, n, dd in c["meters"]]
    if not want or c["meters"][0][0] > 0:
        want.insert(0, (0.0, 4, 4))
    ensure(len(ms) == len(want) and all(abs(a[0] - b[0]) < 1e-7 and a[1:] == b[1:] for a, b in zip(ms, want)),
           "meters are %r, the file has %r", ms, want)
    tp = [(t.midi_time, t.qpm, t.resolution) for t in s.tempo_signatures]
    want = [(at(t), 6e7 / v) for t, v in c["tempi"]]
    if not c["tempi"] or c["tempi"][0][0] > 0:
        want.insert(0, (0.0, 120.0))
    ensure(len(tp) == len(want) and all(abs(a[0] - b[0]) < 1e-7 and close(a[1], b[1], 1e-7) for a, b in zip(tp, want)),
           "tempi are %r, the file has %r", tp, want)
    ensure(all(t[2] == c["res"] for t in tp) and s.resolution == c["res"], "the resolution is %r", s.resolution)
    end = max(at(n[3]) for w in c["tracks"] for n in w["notes"])
    ensure(close(s.total_time, end, 1e-7), "the total time is %r, the last note ends at %r", s.total_time, end)


# ------------------------------------------------------------------ F02
def gen_f02(rng):
    res = rng.choice([96, 220, 480])
    tracks = []
    k = rng.randint(1, 3) if rng.random() < .9 else rng.randint(15, 18)
    for i in range(k):
        t, notes = rng.randrange(0, 8) / 4, []
        for _ in range(ln(rng, 1, 6)):
            dur = rng.choice([.25, .5, 1.0, 2.0])
            for p in rng.sample(range(128), rng.choice([1, 1, 2, 3])):
                if not any(n[0] == p and n[3] > t for n in notes):      # no note overlaps one of its own pitch
                    notes.append([p, rng.randint(1, 127), t, t + dur])
            t += rng.choice([dur, dur, dur + .25, max(.25, dur / 2)])
        tracks.append(dict(inst=rng.randint(0, 127), drum=rng.random() < .2, notes=notes, name=rng.choice(["", "A", "Bb"])))
    end = max(n[3] for t in tracks for n in t["notes"])
    grid = [k / 4 for k in range(int(end * 4) + 1)]
    if rng.random() < .3:
        grid[-1:] = [end - .02, end]
    pick = lambda n: sorted(rng.sample(grid, min(n, len(grid))))
    for t in tracks:
        t["bends"] = [[x, rng.randint(-8192, 8191)] for x in pick(rng.choice([0, 0, 1, 3]))]
        t["ccs"] = [[x, rng.randint(0, 119), rng.randint(0, 127)] for x in pick(rng.choice([0, 0, 1, 3]))]
    return dict(res=res, tracks=tracks,
                tempi=[[t, rng.choice([60.0, 90.0, 120.0, 100.0, 133.0, 240.0, 87.6, 133.35])] for t in
                       ([0.0] if rng.random() < .5 else []) + [x for x in pick(rng.randint(0, 3)) if x]],
                keys=[[t, rng.randrange(12), rng.randrange(2)] for t in pick(rng.randint(0, 3))],
                meters=[[t, rng.randint(1, 12), rng.choice([1, 2, 4, 8, 16])] for t in pick(rng.randint(0, 3))])


def mk_file_coll(c):
    s = MidiNoteSequences(resolution=c["res"])
    for i, w in enumerate(c["tracks"]):
        q = s.get_track(i, w["name"], w["inst"], w["drum"])
        q.notes = [MidiNote(p, a, b, velocity=v, instrument=w["inst"], is_drum=w["drum"]) for p, v, a, b in w["notes"]]
        for t, v in w.get("bends", ()):
            q.add_pitch_bends(MidiPitchBend(v, t, 0, 0))
        for t, n, v in w.get("ccs", ()):
            q.add_control_changes(MidiControlChange(n, v, cc_time=t))
    for t, q in c["tempi"]:
        s.add_tempo_signature(MidiTempoSignature(t, q, c["res"]))
    for t, k, m in c["keys"]:
        s.add_key_signatures(MidiKeySignature(t, k, m))
    for t, n, d in c["meters"]:
        s.add_time_signatures(MidiTimeSignature(t, n, d))
    return s


@unit("F02", "round trip", gen_f02, big=(80,), n=300, heavy=True, boundary=[
    dict(res=220, tracks=[dict(inst=3, drum=False, name="", notes=[[60, 100, 0.0, 1.0], [64, 90, 1.0, 4.0]])],
         tempi=t, keys=k, meters=m) for t in ([], [[0.0, 100.0]], [[0.0, 120.0], [1.0, 60.0], [3.0, 240.0]], [[2.0, 90.0]])
    for k in ([], [[0.0, 3, 1], [4.0, 11, 0]]) for m in ([], [[0.0, 3, 4]], [[1.0, 6, 8], [4.0, 2, 2]])],
    rule="collections of up to three tracks with up to three tempo, key and meter changes each")
def f02(c):
    with scratch() as d:
        p = os.path.join(d, "o.mid")
        s = mk_file_coll(c)
        before = [states(s[k].notes) for k in s]
        MidiReader.write(s, p)
        ensure([states(s[k].notes) for k in s] == before, "writing changed the notes of the collection")
        r = MidiReader.read(p)
    slow = min([q for _, q in c["tempi"]] + [120.0])
    tick = 60.0 / (slow * c["res"]) * 1.0
    eq = lambda a, b: abs(a - b) <= tick + 1e-6
    ensure(r.resolution == c["res"], "the resolution is %r", r.resolution)
    tr = [r[k] for k in r]
    ensure(len(tr) == len(c["tracks"]), "%d tracks were written, %d are read", len(c["tracks"]), len(tr))
    for i, (q, w) in enumerate(zip(tr, c["tracks"])):
        ensure(q.instrument.instrument_num == w["inst"] and bool(q.instrument.is_drum) == w["drum"],
               "track %d has instrument %r, written %d", i, q.instrument, w["inst"])
        starts = sorted({n[2] for n in w["notes"]})
        want = sorted((a, p, v, min([b] + [x for x in starts if x > a])) for p, v, a, b in w["notes"])
        got = sorted((round(n.start_time * 4) / 4, n.pitch, n.velocity, n.end_time, n.start_time) for n in q.notes)
        ensure(len(got) == len(want), "track %d: %d notes were written, %d are read", i, len(want), len(got))
        for g, x in zip(got, want):
            ensure(g[1:3] == x[1:3] and eq(g[4], x[0]) and eq(g[3], x[3]), "track %d: note %r (pitch, velocity, end, start) "
                   "was written as start, pitch, velocity, end %r", i, g[1:], x)
        end = max(x[3] for u in c["tracks"] for x in u["notes"])
        want = [x for x in w.get("bends", ()) if x[0] < end]
        got = sorted((p.midi_time, p.amount) for p in q.pitch_bends)
        ensure(len(got) == len(want) and all(eq(g[0], x[0]) and g[1] == x[1] for g, x in zip(got, want)),
               "track %d: bends read are %r, written %r", i, got, want)
        want = [x for x in w.get("ccs", ()) if x[0] < end]
        got = sorted((p.cc_time, p.cc_number, p.cc_value) for p in q.control_changes)
        ensure(len(got) == len(want) and all(eq(g[0], x[0]) and list(g[1:]) == x[1:] for g, x in zip(got, want)),
               "track %d: controls read are %r, written %r", i, got, want)
    ms = [(m.midi_time, m.numerator, m.denominator) for m in r.time_signatures]
    want = [tuple(x) for x in c["meters"]]
    if not want or want[0][0] > 0:
        want.insert(0, (0.0, 4, 4))
    ensure(len(ms) == len(want) and all(eq(a[0], b[0]) and a[1:] == b[1:] for a, b in zip(ms, want)),
           "meters read are %r, written %r", ms, want)
    ks = [(k.midi_time, k.midi_key, MODE[k.mode.name]) for k in r.key_signatures]
    want = ([] if c["keys"] and c["keys"][0][0] == 0 else [[0.0, 0, 0]]) + c["keys"]
    ensure(len(ks) == len(want) and all(eq(a[0], b[0]) and list(a[1:]) == b[1:] for a, b in zip(ks, want)),
           "keys read are %r, written %r", ks, want)
    want = [(t, q) for t, q in c["tempi"]]
    if not want or want[0][0] > 0:
        want.insert(0, (0.0, 120.0))
    want = [w for i, w in enumerate(want) if i == 0 or want[i - 1][1] != w[1]]
    tp = [(t.midi_time, t.qpm) for t in r.tempo_signatures]
    ensure(len(tp) == len(want) and all(eq(a[0], b[0]) and close(a[1], b[1], 1e-4) for a, b in zip(tp, want)),
           "tempi read are %r, written %r", tp, want)


@unit("F02", "refusals", boundary=[dict(k=k, exists=e, over=o) for k in (
    "exists", "kind", "name", "noname", "negstart", "negend", "order", "textbound", "good", "bounds") for e in (False, True)
    for o in (False, True)], rule="every refused argument with and without an existing file and permission")
def f02_refuse(c):
    s = mk_file_coll(dict(res=220, tracks=[dict(inst=3, drum=False, name="", notes=[[60, 100, 0.0, 1.0], [64, 90, 1.0, 4.0]])],
                          tempi=[], keys=[], meters=[]))
    with scratch() as d:
        p = os.path.join(d, "o.mid")
        if c["exists"]:
            open(p, "wb").write(b"keep me")
        kw = dict(do_overwrite=c["over"])
        ok = False
        a = (s, p)
        if c["k"] == "kind":
            a = ([1], p)
        elif c["k"] == "name":
            a = (s, "")
        elif c["k"] == "noname":
            a = (s, None)
        elif c["k"] == "negstart":
            kw["from_start"] = -1
        elif c["k"] == "negend":
            kw["to_end"] = -0.5
        elif c["k"] == "order":
            kw.update(from_start=3.0, to_end=1.0)
        elif c["k"] == "textbound":
            kw["from_start"] = "1"
        elif c["k"] == "bounds":
            kw.update(from_start=0, to_end=4.0)
            ok = True
        else:
            ok = True
        if c["exists"] and not c["over"]:
            ok = False
        if ok:
            MidiReader.write(*a, **kw)
            ensure(os.path.exists(p) and open(p, "rb").read()[:4] == b"MThd", "the file was not written")
        else:
            must_refuse(c["k"], lambda: MidiReader.write(*a, **kw), (ValueError, TypeError, OSError))
            if c["exists"]:
                ensure(open(p, "rb").read() == b"keep me", "a refused write changed the file")
            ensure(os.listdir(d) == (["o.mid"] if c["exists"] else []), "a refused write left %r", os.listdir(d))


# ------------------------------------------------------------------ Q01
def gen_q01(rng):
    res = rng.choice([1, 24, 96, 220, 480, 960])
    n = rng.choice([0, 0, 1, 2, 3, 5])
    return dict(res=res, init=rng.choice([120.0, 60.0, 90.5, 240.0, rng.uniform(20, 300)]),
                scales=[[t, rng.choice([60.0, 120.0, 33.0, rng.uniform(20, 300)])] for t in increasing(rng, n, 1, 1500)],
                upto=rng.randint(0, 3000), early=rng.choice([0, 0, rng.randint(1, 2500)]))


@unit("Q01", "conversion", gen_q01, n=400, boundary=[
    dict(res=r, init=120.0, scales=s, upto=u, early=h) for h in (0, 15) for r in (1, 220) for s in ([], [[1, 60.0]], [[10, 60.0], [20, 240.0]])
    for u in (0, 1, 20, 100)], rule="resolutions 1..960, up to six tempi at increasing ticks; every tick converted back")
def q01(c):
    res = c["res"]
    m = CustomPrettyMIDI(resolution=res, initial_tempo=c["init"])
    scales = [(0, c["init"])]
    for t, q in c["scales"]:
        if c.get("early"):
            m.tick_to_time(c["early"])          # ticks that are known before the map is complete
        m.update_scale((t, 60.0 / (q * res)))
        scales.append((t, q))
    top = max([c["upto"]] + [t for t, _ in c["scales"]])
    m.tick_to_time(top)
    now, times, j = 0.0, [], 0
    for k in range(top + 1):
        times.append(now)
        while j + 1 < len(scales) and scales[j + 1][0] <= k:
            j += 1
        now += 60.0 / (scales[j][1] * res)
    step = max(1, top // 300)
    ticks = sorted(set(list(range(0, top + 1, step)) + [x for t, _ in c["scales"] for x in (t - 1, t, t + 1) if x <= top]))
    prev = None
    for k in ticks:
        t = m.tick_to_time(k)
        ensure(close(t, times[k], 1e-8), "tick %d is at %r, expected %r", k, t, times[k])
        ensure(prev is None or t > prev, "the time of tick %d does not increase", k)
        ensure(m.time_to_tick(t) == k, "the time of tick %d is tick %r", k, m.time_to_tick(t))
        prev = t
    ensure(m.tick_to_time(0) == 0, "tick 0 is at %r", m.tick_to_time(0))
    # ticks after the last known one
    last = 60.0 / (scales[-1][1] * res)
    for k in (1, 7, 1000):
        ensure(m.time_to_tick(times[-1] + k * last) == top + k, "%d ticks after the last one is tick %r", k,
               m.time_to_tick(times[-1] + k * last))
    k = top + 50
    ensure(close(m.tick_to_time(k), times[-1] + 50 * last, 1e-8), "tick %d is at %r", k, m.tick_to_time(k))
    ts, qs = m.get_tempo_changes()
    ensure(len(ts) == len(qs) == len(scales), "%d tempo changes are listed, there are %d", len(ts), len(scales))
    for (k, q), a, b in zip(scales, ts, qs):
        ensure(close(b, q, 1e-9) and close(a, times[k], 1e-8), "tempo %r at tick %d is listed as %r at %r", q, k, b, a)
