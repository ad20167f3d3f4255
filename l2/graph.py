"""Executable contracts of the graph builder (G01..G07, V01)."""
import math
import itertools
from common import *
import numpy as np
import torch
import networkx as nx
from seq import mk_seq, r_len
from neural_graph_composer.midi.midi_note import MidiNote
from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo
from neural_graph_composer.midi_graph_builder import MidiGraphBuilder, NodeAttributeType

torch.set_num_threads(1)
B = MidiGraphBuilder


def gnote(rng, grid, pitches, drums=True):
    s = rng.randrange(0, 24) / grid if grid else r_time(rng, 0, 6)
    return dict(pitch=rng.choice(pitches), start=s, end=s + rng.choice([.25, .5, 1.0]),
                velocity=0 if rng.random() < .1 else rng.randint(1, 127),
                drum=drums and rng.random() < .1)


def gseq(rng, inst=0, n=None, drum=False, drums=True):
    n = rng.choice([0, 1, 2, 3, 4, rng.randint(3, 12)]) if n is None else n
    grid = rng.choice([0, 1, 2, 4])
    pool = [rng.randint(0, 127) for _ in range(rng.choice([1, 2, 3, 5]))]
    pool += [60, 64, 67] if rng.random() < .5 else []
    return dict(inst=inst, drum=drum, notes=[gnote(rng, grid, pool, drums) for _ in range(n)])


def build_seq(d):
    """a sequence whose list of notes is exactly the one of the case"""
    s = MidiNoteSequence(instrument=MidiInstrumentInfo(d["inst"], "X", d.get("drum", False)))
    s.notes = [mk_note(dict(x, instrument=d["inst"])) for x in d["notes"]]
    return s


def audible(n):
    return not n.is_drum and n.velocity > 0


# ------------------------------------------------------------------ G01
def gen_g01(rng):
    return dict(seq=gseq(rng), tol=rng.choice([0.0, 0.0, 0.05, 0.1, 0.2, 0.5, 1.0, rng.uniform(0.001, 1)]),
                auto=rng.random() < .5, single=rng.random() < .5)


@unit("G01", "grouping", gen_g01, n=3000, boundary=[
    dict(seq=dict(inst=0, notes=[dict(pitch=60 + i, start=s, end=s + 1, velocity=v, drum=dr)
                                 for i, (s, v, dr) in enumerate(t)]), tol=tol, auto=auto, single=single)
    for t in ([], [(0., 90, False)], [(0., 90, False), (0., 80, False)], [(0., 0, False), (1., 90, True)],
              [(0., 90, False), (0.1, 80, False), (0.2, 1, False)], [(.5, 90, False), (0., 80, False), (.5, 9, False)])
    for tol in (0.0, 0.2, 1.0) for auto in (False, True) for single in (False, True)],
    rule="sequences of up to 12 notes, drum and silent notes, tolerances 0..1, fixed and computed, both filters")
def g01(c):
    s = build_seq(c["seq"])
    before = states(s.notes)
    data, longest = B.compute_data(s, c["tol"], c["single"], tolerance_auto=c["auto"])
    tol = float(B.compute_tolerance(s)) if c["auto"] else c["tol"]
    groups = list(data.values())
    full, _ = B.compute_data(s, c["tol"], False, tolerance_auto=c["auto"])
    fulls = list(full.values())
    aud = [n for n in s.notes if audible(n)]
    got = multiset(id(n) for g in fulls for n in g)
    ensure(got == {id(n): 1 for n in aud}, "the groups %r do not hold each of the %d audible notes once",
           [[n.start_time for n in g] for g in fulls], len(aud))
    ensure(all(g for g in fulls), "an empty group")
    where = {id(n): i for i, g in enumerate(fulls) for n in g}
    first = {}
    for n in aud:
        w = first.setdefault(n.start_time, where[id(n)])
        ensure(w == where[id(n)], "notes starting at %r are in two groups", n.start_time)
    for g in fulls:
        st = [n.start_time for n in g]
        ensure(max(st) - min(st) <= tol + 0.01 + 1e-9, "a group spans %r with tolerance %r", (min(st), max(st)), tol)
    ensure(longest == max([len(g) for g in fulls], default=0), "longest group is %r, groups %r", longest,
           [len(g) for g in fulls])
    want = sorted(sorted(id(n) for n in g) for g in fulls if len(g) > 1 or not c["single"])
    ensure(sorted(sorted(id(n) for n in g) for g in groups) == want, "filtering gives groups %r of %r",
           [len(g) for g in groups], [len(g) for g in fulls])
    ensure(states(s.notes) == before, "grouping changed a note")


def gen_tol(rng):
    return dict(seq=gseq(rng), p=rng.choice([95, 50, 0, 100, 75]))


@unit("G01", "tolerance", gen_tol, n=1500, rule="sequences of up to 12 notes; percentiles 0..100")
def g01_tol(c):
    s = build_seq(c["seq"])
    st = sorted(n.start_time for n in s.notes)
    df = sorted(b - a for a, b in zip(st, st[1:]))
    t = float(B.compute_tolerance(s, c["p"]))
    if len(df) < 2:
        ensure(t == 0.0, "tolerance of %d starts is %r", len(st), t)
        return
    pos = c["p"] / 100 * (len(df) - 1)
    lo = int(math.floor(pos))
    hi = min(lo + 1, len(df) - 1)
    ensure(close(t, df[lo] + (df[hi] - df[lo]) * (pos - lo)), "tolerance of gaps %r is %r", df, t)


# ------------------------------------------------------------------ G02
def chords_of(s, single=False):
    """the groups in order of time as (pitches, notes)"""
    data, _ = B.compute_data(s, 0.2, single, tolerance_auto=True)
    gs = sorted(data.values(), key=lambda g: min(n.start_time for n in g))
    return [(frozenset(n.pitch for n in g), g) for g in gs]


def oracle_links(path, start_last=None, links=None):
    """replay the walk; returns links {(u, v): weight} and nodes in order"""
    links = dict(links or {})
    last = start_last
    for p in path:
        if last is None:
            links[(p, p)] = 1.0
        elif (p, last) in links:
            links[(p, last)] += 1.0
        elif (last, p) in links:
            links[(last, p)] += 1.0
        else:
            links[(last, p)] = 1.0
        last = p
    return links, last


def named_links(b, g):
    t = b.hash_to_notes
    out = {}
    for u, v, d in g.edges(data=True):
        ensure(u in t and v in t, "a node is not in the table of note sets")
        out[(t[u], t[v])] = d["weight"]
    return out


def show(links):
    return {(tuple(sorted(a)), tuple(sorted(b))): w for (a, b), w in links.items()}


def gen_g02(rng):
    s = gseq(rng, n=rng.choice([0, 1, 2, 3, 5, 8, 14]))
    if rng.random() < .4:         # a walk over few chords, revisiting links in both directions
        ch = [[60], [64], [60, 64], [67]][:rng.randint(1, 4)]
        walk = [rng.choice(ch) for _ in range(ln(rng, 1, 9))]
        s["notes"] = [dict(pitch=p, start=i * 1.0, end=i + .5, velocity=rng.randint(1, 127), drum=False)
                      for i, cd in enumerate(walk) for p in cd]
        if rng.random() < .5:
            rng.shuffle(s["notes"])
    return dict(seq=s, vel=rng.random() < .3, single=rng.random() < .2)


def walk(w):
    return dict(seq=dict(inst=0, notes=[dict(pitch=p, start=i * 1.0, end=i + .5, velocity=90, drum=False)
                                        for i, cd in enumerate(w) for p in cd]), vel=False, single=False)


@unit("G02", "transitions", gen_g02, big=(60,), n=1500, boundary=[
    walk([[60]]), walk([[60], [60]]), walk([[60], [64], [60]]), walk([[60], [64], [60], [64]]),
    walk([[60], [64], [64]]), walk([[60], [64], [67], [60], [67]]), walk([[60, 64], [60], [60, 64]]),
    walk([[60], [64], [67], [64], [60]])],
    rule="walks of up to 14 notes over few chords, revisiting chords and links in both directions")
def g02(c):
    s = build_seq(c["seq"])
    before = states(s.notes)
    b = B(MidiNoteSequences())
    g = b.build_sequence(s, feature_vec_size=12, is_include_velocity=c["vel"], filter_single_notes=c["single"])
    path = [p for p, _ in chords_of(s, c["single"])]
    if any(len(p) > 12 for p in path):
        raise Skip()
    want, _ = oracle_links(path)
    t = b.hash_to_notes
    ensure(multiset(t[x] for x in g.nodes) == {p: 1 for p in path}, "nodes are %r, expected %r",
           [sorted(t[x]) for x in g.nodes], [sorted(p) for p in set(path)])
    got = named_links(b, g)
    ensure(got == want, "links are %r, expected %r", show(got), show(want))
    ensure(sum(got.values()) == len(path), "weights add up to %r for %d groups", sum(got.values()), len(path))
    ensure(states(s.notes) == before, "building a graph changed a note")


def gen_big(rng):
    f = rng.choice([1, 2, 3, 5, 12])
    k = rng.randint(f + 1, min(4 * f + 3, 40))
    ps = rng.sample(range(5, 120), k)
    return dict(f=f, big=ps, pre=rng.random() < .5, post=rng.random() < .5, vel=rng.random() < .5)


@unit("G02", "large groups", gen_big, n=500, boundary=[
    dict(f=f, big=list(range(40, 40 + k)), pre=pre, post=True, vel=vel) for f in (1, 2, 12) for k in (f + 1, 2 * f, 2 * f + 1)
    for pre in (False, True) for vel in (False, True)],
    rule="one group of up to 40 pitches between two single notes; feature sizes 1..12")
def g02_big(c):
    notes = []
    t = 0.0
    for part in ([[1]] if c["pre"] else []) + [c["big"]] + ([[2]] if c["post"] else []):
        notes += [dict(pitch=p, start=t, end=t + .5, velocity=60 + i % 60, drum=False) for i, p in enumerate(part)]
        t += 2.0
    s = build_seq(dict(inst=0, notes=notes))
    if len(chords_of(s)) != 1 + c["pre"] + c["post"]:
        raise Skip()
    b = B(MidiNoteSequences())
    g = b.build_sequence(s, feature_vec_size=c["f"], is_include_velocity=c["vel"])
    t = b.hash_to_notes
    order = [t[x] for x in g.nodes]
    ensure(all(1 <= len(p) <= c["f"] for p in order), "a node holds %r pitches", [len(p) for p in order])
    ensure(multiset(x for p in order for x in p) == multiset(n["pitch"] for n in notes),
           "the parts %r do not hold every pitch once", [sorted(p) for p in order])
    # every part is visited once: the walk is the order in which the nodes appeared
    if c["pre"]:
        ensure(order[0] == frozenset([1]), "the first node is %r", sorted(order[0]))
    if c["post"]:
        ensure(order[-1] == frozenset([2]), "the last node is %r", sorted(order[-1]))
    k = len(c["big"])
    ensure(len(order) == -(-k // c["f"]) + c["pre"] + c["post"], "%d pitches are played as %d parts of %d", k,
           len(order), c["f"])
    want, _ = oracle_links(order)
    ensure(named_links(b, g) == want, "links are %r", show(named_links(b, g)))


# ------------------------------------------------------------------ G03, G05
def gcoll(rng, k=None):
    k = rng.choice([1, 1, 2, 3]) if k is None else k
    seqs = []
    for i in range(k):
        drum = rng.random() < .15
        s = gseq(rng, inst=i, n=rng.choice([1, 2, 3, 4, 8]), drum=drum, drums=False)
        for n in s["notes"]:
            n["drum"] = drum
            n["velocity"] = max(1, n["velocity"])
        if i and rng.random() < .3 and not drum and not seqs[0]["drum"]:
            s["notes"] = [dict(n) for n in seqs[0]["notes"]]
        seqs.append(s)
    return seqs


def mk_coll(seqs):
    c = MidiNoteSequences()
    for d in seqs:
        q = c.create_track(d["inst"], d["inst"], "X", d["drum"])
        t = c.get_track(q, "X", d["inst"], d["drum"])
        t.notes = [mk_note(dict(x, instrument=d["inst"])) for x in d["notes"]]
    return c


def melodic(seqs):
    return [d for d in seqs if not d["drum"] and len(d["notes"]) != 1 and d["notes"]]


def check_tables(b):
    h2n, n2h, h2i, i2h = b.hash_to_notes, b.notes_to_hash, b.hash_to_index, b.index_to_hash
    ensure({h: n for n, h in n2h.items()} == h2n and len(n2h) == len(h2n), "note and hash tables are not inverse")
    ensure({i: h for h, i in h2i.items()} == i2h and len(h2i) == len(i2h), "hash and number tables are not inverse")
    ensure(set(h2i) == set(h2n), "hash tables have different hashes")
    ensure(sorted(i2h) == list(range(1, len(h2n) + 1)), "numbers are %r for %d sets", sorted(i2h), len(h2n))


def gen_g03(rng):
    ops = []
    for _ in range(rng.randint(1, 4)):
        ops.append(["build", gcoll(rng, rng.choice([1, 2])), rng.random() < .6])
        if rng.random() < .6:
            ops.append(["emit", rng.choice([None, None, 1, 2]), rng.random() < .5, rng.random() < .3])
    ops.append(["emit", None, rng.random() < .5, rng.random() < .2])
    return dict(ops=ops)


@unit("G03", "numbering", gen_g03, n=300, heavy=True,
      boundary=[dict(ops=[["build", [dict(inst=0, drum=False, notes=walk([[60], [64], [60]])["seq"]["notes"]),
                                     dict(inst=1, drum=False, notes=walk([[64], [65]])["seq"]["notes"])], p],
                          ["emit", k, x, False], ["emit", None, x, False]])
                for p in (False, True) for k in (None, 1) for x in (False, True)],
      rule="histories of up to four builds, per instrument or combined, with emissions (of all or the first graphs) in between")
def g03(c):
    b = B(None)
    pending, seen = [], {}
    for op in c["ops"]:
        if op[0] == "build":
            old = b.hash_to_index
            b.build(mk_coll(op[1]), is_per_instrument=op[2])
            check_tables(b)
            now = b.hash_to_index
            ensure(all(now.get(h) == i for h, i in old.items()), "a later build changed a number")
            paths = [[p for p, _ in chords_of(build_seq(d))] for d in melodic(op[1])]
            paths = [p for p in paths if p]
            for p in paths:
                for x in p:
                    seen[x] = None
            ensure(set(b.notes_to_hash) == set(seen), "the table holds %d sets, %d were played",
                   len(b.notes_to_hash), len(seen))
            if op[2]:
                pending += [list(dict.fromkeys(p)) for p in paths]
            elif paths:
                pending.append(list(dict.fromkeys(x for p in paths for x in p)))
            ensure(len(b.pyg_data) == len(pending) == len(b.sub_graphs), "%d graphs wait, %d were built",
                   len(b.pyg_data), len(pending))
        else:
            if not b.hash_to_notes:
                ensure(not pending, "graphs were built but no note set is known")
                continue
            h2n, h2i = b.hash_to_notes, b.hash_to_index
            it = b.graphs(is_sanity_check=op[2], skip_label=op[3])
            got = list(it if op[1] is None else itertools.islice(it, op[1]))
            del it
            upto = len(pending) if op[1] is None else min(op[1], len(pending))
            ensure(len(got) == upto, "%d graphs are emitted, %d were built, %r asked for", len(got), len(pending), op[1])
            for g, p in zip(got, pending):
                names = [h2n[h] for h in g.node_hash]
                ensure(names == p, "a graph has nodes %r, expected %r", names, p)
                want = [h2i[b.notes_to_hash[x]] for x in p]
                label = None if getattr(g, "label", None) is None else list(g.label)
                ensure(label == (None if op[3] else want) and g.y.tolist() == want, "labels %r targets %r, numbers %r",
                       label, g.y.tolist(), want)
            pending = pending[upto:]
            ensure(len(b.pyg_data) == len(b.sub_graphs) == len(pending), "%d graphs are left after emission, expected %d",
                   len(b.pyg_data), len(pending))


def gen_g05(rng):
    return dict(seqs=gcoll(rng), per=rng.random() < .5, vel=rng.random() < .3)


@unit("G05", "coverage", gen_g05, n=500, heavy=True, boundary=[
    dict(seqs=[dict(inst=0, drum=False, notes=walk([[60], [64]])["seq"]["notes"]),
               dict(inst=1, drum=dr, notes=[dict(x, drum=dr) for x in walk(w)["seq"]["notes"]]),
               dict(inst=2, drum=False, notes=walk([[64], [67], [60]])["seq"]["notes"])], per=p, vel=v)
    for dr in (False, True) for w in ([[50]], [[64], [65, 69]], [[60], [64]]) for p in (False, True) for v in (False, True)],
    rule="collections of up to three tracks: drum tracks, single notes, shared chords; per instrument and combined")
def g05(c):
    coll = mk_coll(c["seqs"])
    b = B(None)
    b.build(coll, is_per_instrument=c["per"], is_include_velocity=c["vel"])
    tracks = [d for d in melodic(c["seqs"]) if chords_of(build_seq(d))]
    gs = b.sub_graphs
    if c["per"]:
        ensure(len(gs) == len(tracks) == len(b.pyg_data), "%d graphs for %d melodic tracks", len(gs), len(tracks))
        for g, d in zip(gs, tracks):
            b1 = B(None)
            g1 = b1.build_sequence(build_seq(d), is_include_velocity=c["vel"])
            ensure(named_links(b, g) == named_links(b1, g1), "the graph of track %d differs from the track alone",
                   d["inst"])
            ensure(list(g.nodes) == list(g1.nodes), "nodes of track %d differ from the track alone", d["inst"])
            ensure(all(torch.equal(g.nodes[n]["attr"], g1.nodes[n]["attr"]) for n in g), "features of track %d differ",
                   d["inst"])
    else:
        ensure(len(gs) == (1 if tracks else 0) == len(b.pyg_data), "%d combined graphs for %d tracks", len(gs), len(tracks))
        if not tracks:
            return
        nodes, links = [], {}
        for d in tracks:
            last = nodes[-1] if nodes else None
            for p, _ in chords_of(build_seq(d)):
                links, last = oracle_links([p], last, links)
                if p not in nodes:
                    nodes.append(p)
        got = named_links(b, gs[0])
        ensure([b.hash_to_notes[x] for x in gs[0].nodes] == nodes, "combined nodes are %r, expected %r",
               [sorted(b.hash_to_notes[x]) for x in gs[0].nodes], [sorted(x) for x in nodes])
        ensure(got == links, "combined links are %r, expected %r", show(got), show(links))


# ------------------------------------------------------------------ G04
def gen_g04(rng):
    f = rng.choice([1, 2, 3, 5, 12, 128])
    kind = rng.choice(["plain", "velocity", "onehot"])
    k = rng.randint(0 if kind == "plain" else 1, min(f + (4 if kind == "plain" else 0), 40))
    return dict(f=f, kind=kind, ps=rng.sample(range(0, 127), k), vs=[rng.randint(0, 127) for _ in range(k)])


@unit("G04", "features", gen_g04, n=1500, boundary=[
    dict(f=f, kind=kd, ps=list(range(0, 5 * k, 5)), vs=list(range(k))) for f in (1, 2, 12) for k in (1, f)
    for kd in ("plain", "velocity", "onehot")] + [dict(f=3, kind="plain", ps=[1, 2, 3, 4], vs=[]),
                                                  dict(f=3, kind="plain", ps=[], vs=[])],
    rule="pitch sets of up to 40 pitches, feature sizes 1..128, with and without velocities, one-hot")
def g04(c):
    ps = frozenset(c["ps"])
    order = list(ps)
    f = c["f"]
    if c["kind"] == "onehot":
        x = B.create_tensor(NodeAttributeType.OneHotTensor, ps, num_classes=127)
        ensure(tuple(x.shape) == (len(ps), 127), "one-hot shape is %r", tuple(x.shape))
        rows = x.tolist()
        ensure(all(sum(r) == 1 and sorted(set(r)) in ([0, 1],) for r in rows), "a row has not a single one")
        ensure(sorted(r.index(1) for r in rows) == sorted(ps), "one-hot rows are at %r, pitches %r",
               [r.index(1) for r in rows], sorted(ps))
        return
    if c["kind"] == "plain":
        x = B.create_tensor(NodeAttributeType.Tensor, ps, feature_vec_size=f)
        ensure(tuple(x.shape) == (f,), "feature shape is %r for size %d", tuple(x.shape), f)
        row = x.tolist()
    else:
        x = B.create_tensor(NodeAttributeType.Tensor, ps, velocity_set=list(c["vs"]), feature_vec_size=f)
        ensure(tuple(x.shape) == (2, f), "feature shape is %r for size %d", tuple(x.shape), f)
        row, vrow = x.tolist()
        vel = dict(zip(order, c["vs"]))
        ensure(vrow[:len(ps)] == [vel[int(p)] for p in row[:len(ps)]] and not any(vrow[len(ps):]),
               "velocities are %r, pitches %r, expected %r", vrow, row, vel)
    k = min(len(ps), f)
    ensure(not any(row[k:]), "features %r are not padded with zeros after %d", row, k)
    ensure(len(set(row[:k])) == k and set(row[:k]) <= set(ps), "features %r of pitches %r", row, sorted(ps))


def gen_g04b(rng):
    n = rng.randint(1, 6)
    return dict(chords=[[[p, rng.randint(1, 127)] for p in rng.sample(range(1, 127), rng.randint(1, 4))] for _ in range(n)],
                dup=rng.random() < .3, f=rng.choice([4, 12]))


@unit("G04", "features of a graph", gen_g04b, n=400, rule="graphs of up to six chords with velocities, doubled pitches")
def g04b(c):
    notes = []
    for i, ch in enumerate(c["chords"]):
        for p, v in ch:
            notes.append(dict(pitch=p, start=2.0 * i, end=2.0 * i + 1, velocity=v, drum=False))
            if c["dup"]:
                notes.append(dict(pitch=p, start=2.0 * i, end=2.0 * i + .5, velocity=max(1, v - 7), drum=False))
    s = build_seq(dict(inst=0, notes=notes))
    for vel in (False, True):
        b = B(None)
        g = b.build_sequence(s, feature_vec_size=c["f"], is_include_velocity=vel)
        played = {}
        for p, grp in chords_of(s):
            played.setdefault(p, []).append(grp)
        for h in g.nodes:
            ps = b.hash_to_notes[h]
            x = g.nodes[h]["attr"]
            ensure(tuple(x.shape) == ((2, c["f"]) if vel else (c["f"],)), "shape is %r", tuple(x.shape))
            row = (x[0] if vel else x).tolist()
            k = len(ps)
            ensure(multiset(int(v) for v in row[:k]) == multiset(ps) and not any(row[k:]),
                   "features %r of pitches %r", row, sorted(ps))
            if vel and ps in played:
                # the velocities of one of the times the chord is played
                order, want = [int(v) for v in row[:k]], []
                for grp in played[ps]:
                    loud = {}
                    for n in grp:
                        loud[n.pitch] = max(loud.get(n.pitch, 0), n.velocity)
                    want.append([float(v) for v in B.rescale_velocities([loud[p] for p in order])])
                ensure(x[1].tolist()[:k] in want and not any(x[1].tolist()[k:]),
                       "velocities %r of pitches %r, expected one of %r", x[1].tolist(), order, want)


# ------------------------------------------------------------------ G06
def gen_g06(rng):
    n = rng.randint(1, 6)
    f = rng.randint(1, 4)
    e = [[rng.randrange(n), rng.randrange(n), rng.randint(1, 20) / 2.0] for _ in range(rng.randint(1, 9))]
    return dict(n=n, feats=[[rng.randint(0, 127) * 1.0 for _ in range(f)] for _ in range(n)], edges=e,
                directed=rng.random() < .6, names=rng.sample(range(-50, 50), n),
                extra=rng.random() < .4, pick=rng.randrange(9),
                drop=rng.choice([None, None, None, "node", "edge", "node+", "edge+"]))


@unit("G06", "conversion", gen_g06, n=1500, rule="graphs of up to 6 nodes and 9 links; numbered in any way; "
      "directed and undirected; an attribute left out or added at one node or link")
def g06(c):
    G = nx.DiGraph() if c["directed"] else nx.Graph()
    nm = c["names"]
    for i in range(c["n"]):
        G.add_node(nm[i], attr=torch.tensor(c["feats"][i]), label=i)
    for u, v, w in c["edges"]:
        G.add_edge(nm[u], nm[v], weight=w, **(dict(kind=int(2 * w)) if c["extra"] else {}))
    if c["drop"] in ("node", "node+"):
        if c["n"] < 2:
            raise Skip()
        d = G.nodes[nm[c["pick"] % c["n"]]]
        if c["drop"] == "node":
            del d["label"]
        else:
            d["colour"] = 1
    if c["drop"] in ("edge", "edge+"):
        if G.number_of_edges() < 2:
            raise Skip()
        es = list(G.edges)
        d = G.edges[es[c["pick"] % len(es)]]
        if c["drop"] == "edge":
            del d["weight"]
        else:
            d["colour"] = 1
    if c["drop"]:
        must_refuse("a graph with missing attributes", lambda: B.from_midi_networkx(G))
        return
    d = B.from_midi_networkx(G)
    pos = {x: i for i, x in enumerate(G.nodes)}
    if c["directed"]:
        want = [(pos[u], pos[v], a["weight"]) for u, v, a in G.edges(data=True)]
    else:
        want = []
        for u, v, a in G.edges(data=True):
            want.append((pos[u], pos[v], a["weight"]))
            if u != v:
                want.append((pos[v], pos[u], a["weight"]))
    ensure(tuple(d.edge_index.shape) == (2, len(want)), "%r links, expected %d", tuple(d.edge_index.shape), len(want))
    got = [(a, b, w) for (a, b), w in zip(d.edge_index.t().tolist(), d.edge_attr.view(-1).tolist())]
    if c["directed"]:
        ensure(got == want, "links are %r, expected %r", got, want)
    else:
        ensure(sorted(got) == sorted(want), "links are %r, expected %r", got, want)
    ensure(d.num_nodes == c["n"] and d.x.tolist() == c["feats"], "features are %r, expected %r", d.x.tolist(), c["feats"])
    ensure(tuple(d.edge_attr.shape) == (len(want), 1), "link attributes have shape %r", tuple(d.edge_attr.shape))


# ------------------------------------------------------------------ G07
def gen_g07(rng):
    ch = [[60], [64], [60, 64], [67], [50, 53, 57]][:rng.randint(2, 5)]
    return dict(walk=[rng.choice(ch) for _ in range(rng.randint(1, 8))], qs=[rng.choice(ch + [[1]]) for _ in range(4)],
                how=rng.choice(["pitch", "note"]))


@unit("G07", "queries", gen_g07, n=1000, rule="graphs of walks over up to five chords; chords given as pitches or notes")
def g07(c):
    w = walk(c["walk"])["seq"]
    s = build_seq(w)
    b = B(None)
    g = b.build_sequence(s)
    known = {frozenset(x) for x in c["walk"]}
    links, _ = oracle_links([p for p, _ in chords_of(s)])
    arg = (lambda q: list(q)) if c["how"] == "pitch" else (lambda q: [MidiNote(p, 0.0, 1.0) for p in q])
    for q in c["qs"]:
        u = frozenset(q)
        for r in c["qs"]:
            v = frozenset(r)
            e = B.get_edge_connected(g, list(q), list(r))
            if (u, v) in links:
                ensure(e is not None and tuple(e) == (b.notes_to_hash[u], b.notes_to_hash[v]), "link %r - %r is %r", q, r, e)
            else:
                ensure(e is None, "there is no link %r - %r, got %r", q, r, e)
            if v in known:
                k = B.is_connected(g, arg(q), arg(r))
                ensure(bool(k) == ((v, u) in links), "%r connected to %r is %r", q, r, k)
        if u in known:
            got = multiset(b.hash_to_notes[x] for x in B.neighbors(g, arg(q)))
            ensure(got == {y: 1 for (x, y) in links if x == u}, "neighbours of %r are %r", q, got)


def gen_merge(rng):
    n = rng.randint(2, 7)
    e = [[rng.randrange(n), rng.randrange(n), rng.randint(1, 9)] for _ in range(rng.randint(0, 10))]
    m = rng.sample(range(n), rng.randint(1, n))
    return dict(n=n, edges=e, merge=m, names=rng.sample(range(-50, 50), n) if rng.random() < .7 else list(range(n)),
                extra=rng.random() < .5)


@unit("G07", "merge", gen_merge, n=1000, rule="undirected graphs of up to seven nodes named by any numbers; "
      "any set of merged nodes; links with one or two attributes")
def g07_merge(c):
    G = nx.Graph()
    nm = c["names"]
    G.add_nodes_from(nm)
    for u, v, w in c["edges"]:
        G.add_edge(nm[u], nm[v], weight=w, **(dict(kind="k%d" % w) if c["extra"] else {}))
    H = G.copy()
    ms = [nm[x] for x in c["merge"]]
    new = B.merge_nodes(G, list(ms))
    ensure(set(G.nodes) == (set(nm) - set(ms)) | {new} and new not in nm, "nodes are %r", list(G.nodes))
    want = {}                                   # link -> what its data may be
    for u, v, d in H.edges(data=True):
        if u in ms and v in ms:
            continue
        a, z = (new if u in ms else u), (new if v in ms else v)
        want.setdefault(frozenset((a, z)), []).append(dict(d))
    got = {frozenset((u, v)): dict(d) for u, v, d in G.edges(data=True)}
    ensure(set(got) == set(want) and all(got[k] in want[k] for k in got), "links are %r, expected %r", got, want)


# ------------------------------------------------------------------ V01
def gen_v01(rng):
    k = rng.choice([0, 1, 2, 3, rng.randint(0, 20)])
    vs = [rng.choice([0, 127, rng.randint(0, 127)]) for _ in range(k)]
    if vs and rng.random() < .2:
        vs = [vs[0]] * k
    lo = rng.randint(0, 127)
    hi = rng.randint(lo, 127)
    if rng.random() < .4:
        lo, hi = 32, 127
    return dict(vs=vs, lo=lo, hi=hi, f=rng.choice([0.0, 0.5, 1.0, 1.5, 2.0, 10.0, rng.uniform(0, 3)]))


@unit("V01", "rescale", gen_v01, n=5000, boundary=[
    dict(vs=v, lo=lo, hi=hi, f=f) for v in ([], [0], [127], [64], [0, 0], [5, 5, 5], [0, 127], [126, 127], [127, 0, 64])
    for lo, hi in ((32, 127), (0, 127), (0, 0), (127, 127), (10, 20)) for f in (0.0, 1.0, 3.0)],
    rule="lists of up to 20 velocities: empty, single, equal, extreme; target ranges inside 0..127; factors 0..10")
def v01(c):
    vs, lo, hi = c["vs"], c["lo"], c["hi"]
    keep = list(vs)
    out = B.rescale_velocities(vs, lo, hi)
    ensure(vs == keep, "the velocities passed were changed")
    ensure(len(out) == len(vs), "%d velocities give %d", len(vs), len(out))
    ensure(all(float(x) == int(x) for x in out), "not whole numbers: %r", out)
    ensure(all(lo <= x <= hi for x in out), "rescaled velocities %r leave %d..%d", out, lo, hi)
    if len(vs) == 1:
        x = vs[0] * (hi - lo) / 127 + lo
        ensure(abs(out[0] - x) <= 0.5 + 1e-9, "velocity %d becomes %r in %d..%d", vs[0], out[0], lo, hi)
    for i in range(len(vs)):
        for j in range(len(vs)):
            ensure(vs[i] > vs[j] or out[i] <= out[j], "order is lost: %r becomes %r", vs, out)
            ensure(vs[i] != vs[j] or out[i] == out[j], "equal velocities differ: %r becomes %r", vs, out)
    if len(set(vs)) > 1:
        ensure(out[vs.index(min(vs))] == lo and out[vs.index(max(vs))] == hi, "%r becomes %r, ends %d..%d", vs, out, lo, hi)
    f = c["f"]
    sc = B.scale_relative_velocities(list(vs), f)
    ensure(len(sc) == len(vs) and all(float(x) == int(x) for x in sc), "scaled velocities are %r", sc)
    for v, x in zip(vs, sc):
        w = min(127.0, max(0.0, v * f))
        # whole part, allowing for the rounding of the product
        cut = {int(w), int(min(127.0, v * f + 1e-6)), int(min(127.0, max(0.0, v * f - 1e-6)))}
        ensure(x in cut, "velocity %d times %r becomes %r", v, f, x)
