"""Executable contracts of the data set and the transforms (X01..X04)."""
import os
import shutil
import tempfile
from common import *
import numpy as np
import torch
from torch_geometric.data import Data
from graph import walk
from neural_graph_composer.midi.midi_note import MidiNote
from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
from neural_graph_composer.midi_reader import MidiReader
from neural_graph_composer.midi_graph_builder import MidiGraphBuilder
from neural_graph_composer.midi_dataset import MidiDataset, NodeHashIndexMapper
from neural_graph_composer.transforms import RandomNodeDrop, RandomEdgeDrop, AddDegreeTransform


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif_data_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def write_file(path, tracks):
    s = MidiNoteSequences()
    for i, t in enumerate(tracks):
        q = s.get_track(i, "T%d" % i, t.get("program", i), t["drum"])
        q.notes = [MidiNote(p, .5 * k, .5 * k + .4, instrument=i, program=t.get("program", i), is_drum=t["drum"])
                    for k, ch in enumerate(t["walk"]) for p in ch]
    MidiReader.write(s, path)


def gen_tracks(rng, k=None):
    """tracks without doubled pitches in one chord; at least one melodic track of two notes"""
    out = []
    for i in range(rng.choice([1, 2, 3]) if k is None else k):
        n = rng.choice([1, 2, 3, 5, 9, 14])
        pool = rng.sample(range(30, 90), rng.randint(1, 6))
        out.append(dict(drum=i > 0 and rng.random() < .2,
                        walk=[sorted(rng.sample(pool, rng.randint(1, min(2, len(pool))))) for _ in range(n)]))
    if len(out[0]["walk"]) == 1:
        out[0]["walk"].append(out[0]["walk"][0])
    return out


def gen_ds(rng):
    tr = rng.choice([0.7, 0.5, 0.0, 1.0, 0.33, round(rng.random(), 3)])
    va = rng.choice([0.0, 0.15, 1 - tr, (1 - tr) / 2])
    va = max(0.0, min(va, 1 - tr))
    files = [gen_tracks(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    opts = gen_opts(rng)
    if not all(any(len(ch) > 1 for t in f if not t["drum"] and len(t["walk"]) > 1 for ch in t["walk"]) for f in files):
        opts.pop("filter_single_notes", None)           # each file has a chord
    return dict(files=files, tr=tr, va=va, per=rng.random() < .5, vel=rng.random() < .3, opts=opts)


def gen_opts(rng):
    o = {}
    if rng.random() < .5:
        o.update(feature_vec_size=rng.choice([4, 12, 20]), filter_single_notes=rng.random() < .3,
                 velocity_num_buckets=rng.choice([1, 8, 16]), tolerance=rng.choice([0.2, 0.05, 0.21, 1.0]))
    if rng.random() < .3:
        o.update(do_sanity_check=rng.random() < .5, remove_label=rng.random() < .5)
    return o


def make_ds(c, d, **kw):
    src = os.path.join(d, "src")
    os.makedirs(src, exist_ok=True)
    fs = []
    for i, t in enumerate(c["files"]):
        f = os.path.join(src, "f%d.mid" % i)
        if not os.path.exists(f):
            write_file(f, t)
        fs.append(f)
    torch.manual_seed(1)
    np.random.seed(1)
    return fs, MidiDataset(os.path.join(d, "root"), midi_files=list(fs), default_midi_loc=src,
                           per_instrument_graph=c["per"], train_ratio=c["tr"], val_ratio=c["va"],
                           include_velocity=c["vel"], **dict(c.get("opts") or {}, **kw))


def check_masks(g, tr, va):
    n = g.num_nodes
    ms = [getattr(g, k) for k in ("train_mask", "val_mask", "test_mask")]
    for k, m in zip(("training", "validation", "test"), ms):
        ensure(m.dtype == torch.bool and tuple(m.shape) == (n,), "the %s mask is %r for %d nodes", k, m, n)
    tot = sum(m.long() for m in ms)
    ensure(bool((tot == 1).all()), "the nodes are in %r masks (%d nodes, ratios %r %r)", tot.tolist(), n, tr, va)
    a, b = int(ms[0].sum()), int(ms[1].sum())
    ensure((a, b) == (int(tr * n), int(va * n)), "masks hold %d and %d of %d nodes for ratios %r and %r", a, b, n, tr, va)


ONE = dict(drum=False, walk=[[60], [64], [67], [60], [65], [62], [61]])


@unit("X01", "masks", gen_ds, n=30, heavy=True, boundary=[
    dict(files=[[ONE, dict(drum=False, walk=[[50], [52], [50]])]], tr=tr, va=va, per=p, vel=False)
    for tr, va in ((0.7, 0.15), (0.0, 0.0), (1.0, 0.0), (0.5, 0.5), (0.0, 1.0), (0.34, 0.34)) for p in (False, True)],
    rule="data sets of up to three files of up to three tracks; ratios with sum at most 1, per instrument and combined")
def x01(c):
    with scratch() as d:
        _, ds = make_ds(c, d)
        ensure(len(ds) >= 1, "the data set is empty")
        for i in range(len(ds)):
            check_masks(ds[i], c["tr"], c["va"])


# ------------------------------------------------------------------ X02
def gen_x02(rng):
    dom = list(range(-4, 8 + 2 * BIG[0])) + ["a", "b"]
    ops = []
    for _ in range(ln(rng, 1, 12)):
        ops.append(["merge"] if rng.random() < (.02 if BIG[0] else .2) else [rng.choice("xy"), rng.choice(dom)])
    return dict(ops=ops)


@unit("X02", "mapper", gen_x02, big=(90, 400), n=4000, boundary=[
    dict(ops=[["x", 5], ["y", 7], ["y", 5], ["y", 6], ["merge"], ["x", 7], ["x", 1]]),
    dict(ops=[["x", 5], ["x", 5], ["x", 6], ["merge"]])],
    rule="histories of up to 12 additions to two mappers and merges of one into the other")
def x02(c):
    m = dict(x=NodeHashIndexMapper(), y=NodeHashIndexMapper())
    want = dict(x=[], y=[])
    for op in c["ops"]:
        if op[0] == "merge":
            m["x"].merge_with(m["y"])
            want["x"] += [h for h in want["y"] if h not in want["x"]]
        else:
            m[op[0]].add_node_hash(op[1])
            if op[1] not in want[op[0]]:
                want[op[0]].append(op[1])
        for k in "xy":
            w = want[k]
            ensure(m[k].hash_to_index == {h: i for i, h in enumerate(w)}, "after %r numbers are %r, expected %r", op,
                   m[k].hash_to_index, w)
            ensure(m[k].index_to_hash == dict(enumerate(w)), "after %r the inverse is %r", op, m[k].index_to_hash)
            for i, h in enumerate(w):
                ensure(m[k].get_index(h) == i and m[k].get_node_hash(i) == h, "look-ups of %r are wrong", h)


@unit("X02", "additions", lambda rng: dict(known=[rng.randint(0, 4) for _ in range(rng.randint(0, 3))],
                                            ops=[rng.randint(0, 6), rng.randint(0, 6)]), n=400, rule="additions")
def x02_additions(c):
    x02(dict(ops=[["x", h] for h in c["known"] + c["ops"]]))


@unit("X02", "merging", lambda rng: dict(known=[rng.randint(0, 4) for _ in range(rng.randint(0, 3))],
                                          other=[rng.randint(0, 6) for _ in range(rng.randint(0, 3))]), n=400, rule="merges")
def x02_merging(c):
    x02(dict(ops=[["x", h] for h in c["known"]] + [["y", h] for h in c["other"]] + [["merge"], ["x", 99]]))


# ------------------------------------------------------------------ X03
def gen_x03(rng):
    n = rng.randint(1, 10)
    e = [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.randint(0, 20))]
    return dict(n=n, edges=e, p=rng.choice([0.0, 0.3, 0.5, 0.9, 1.0, rng.random()]), seed=rng.randint(0, 10 ** 6),
                f=rng.randint(1, 3), attr=rng.random() < .9)


def mk_data(c):
    n = c["n"]
    ei = torch.tensor(c["edges"], dtype=torch.long).reshape(-1, 2).t().contiguous()
    d = Data(x=torch.tensor([[100.0 * i + j for j in range(c["f"])] for i in range(n)]),
             y=torch.tensor([1000 + i for i in range(n)]), edge_index=ei)
    if c["attr"]:
        d.edge_attr = torch.tensor([0.5 + k for k in range(len(c["edges"]))]).view(-1, 1)
    k = torch.tensor([i % 3 for i in range(n)])
    d.train_mask, d.val_mask, d.test_mask = k == 0, k == 1, k == 2
    d.node_hash = [7000 + i for i in range(n)]
    return d


@unit("X03", "node drop", gen_x03, n=1500, rule="graphs of up to 10 nodes and 20 links; drop ratios 0..1, seeded choices")
def x03_node(c):
    torch.manual_seed(c["seed"])
    d = mk_data(c)
    o = RandomNodeDrop(c["p"])(d)
    kept = [int(y) - 1000 for y in o.y.tolist()]
    n = c["n"]
    ensure(kept == sorted(set(kept)) and all(0 <= k < n for k in kept), "kept nodes are %r", kept)
    ensure(len(kept) == n - int(c["p"] * n), "%d of %d nodes are kept at ratio %r", len(kept), n, c["p"])
    ensure(o.num_nodes == len(kept), "the number of nodes is %r", o.num_nodes)
    ensure(o.x.tolist() == [[100.0 * i + j for j in range(c["f"])] for i in kept], "features are %r, nodes %r",
           o.x.tolist(), kept)
    for j, k in enumerate(("train_mask", "val_mask", "test_mask")):
        ensure(getattr(o, k).tolist() == [i % 3 == j for i in kept], "%s is %r for nodes %r", k, getattr(o, k), kept)
    new = {k: i for i, k in enumerate(kept)}
    want = [(new[u], new[v], 0.5 + i) for i, (u, v) in enumerate(c["edges"]) if u in new and v in new]
    got = [tuple(x) for x in o.edge_index.t().tolist()]
    ensure(got == [w[:2] for w in want], "links are %r, expected %r", got, want)
    if c["attr"]:
        ensure(o.edge_attr.view(-1).tolist() == [w[2] for w in want], "weights are %r, expected %r", o.edge_attr, want)


@unit("X03", "link drop", gen_x03, n=1500, rule="graphs of up to 10 nodes and 20 links; drop ratios 0..1, seeded choices")
def x03_edge(c):
    torch.manual_seed(c["seed"])
    d = mk_data(c)
    ref = mk_data(c)
    o = RandomEdgeDrop(c["p"])(d)
    ensure(torch.equal(o.x, ref.x) and torch.equal(o.y, ref.y), "nodes were changed")
    for k in ("train_mask", "val_mask", "test_mask"):
        ensure(torch.equal(getattr(o, k), getattr(ref, k)), "%s was changed", k)
    ensure(o.node_hash == ref.node_hash, "node hashes were changed")
    got = [tuple(x) for x in o.edge_index.t().tolist()]
    if c["attr"]:
        ids = [w - 0.5 for w in o.edge_attr.view(-1).tolist()]
        ensure(ids == sorted(set(ids)) and len(ids) == len(got), "%d links with weights %r", len(got), ids)
        ensure(all(tuple(c["edges"][int(i)]) == g for i, g in zip(ids, got)), "links %r with weights %r", got, ids)
    else:
        it = iter(c["edges"])
        ensure(all(any(tuple(e) == g for e in it) for g in got), "links %r are no part of %r", got, c["edges"])
    if c["p"] == 0.0:
        ensure(len(got) == len(c["edges"]), "links are dropped at ratio 0")
    if c["p"] == 1.0:
        ensure(not got, "links are kept at ratio 1")


@unit("X03", "degree", gen_x03, n=1000, rule="graphs of up to 10 nodes and 20 links")
def x03_degree(c):
    d, ref = mk_data(c), mk_data(c)
    o = AddDegreeTransform()(d)
    want = [[100.0 * i + j for j in range(c["f"])] + [float(sum(u == i for u, _ in c["edges"]))] for i in range(c["n"])]
    ensure(o.x.tolist() == want, "features are %r, expected %r", o.x.tolist(), want)
    ensure(torch.equal(o.y, ref.y) and torch.equal(o.edge_index, ref.edge_index), "targets or links were changed")
    for k in ("train_mask", "val_mask", "test_mask"):
        ensure(torch.equal(getattr(o, k), getattr(ref, k)), "%s was changed", k)
    ensure(o.num_nodes == c["n"], "the number of nodes is %r", o.num_nodes)
    ensure((not c["attr"]) or torch.equal(o.edge_attr, ref.edge_attr), "weights were changed")


# ------------------------------------------------------------------ X04
def build_opts(c):
    return {k: v for k, v in (c.get("opts") or {}).items()
            if k in ("feature_vec_size", "velocity_num_buckets", "filter_single_notes", "tolerance")}


@unit("X04", "content", gen_ds, n=30, heavy=True, boundary=[
    dict(files=f, tr=.7, va=.15, per=p, vel=False) for p in (False, True)
    for f in ([[ONE]], [[ONE, ONE]], [[ONE], [dict(drum=False, walk=[[61], [65]]), ONE]],
              [[ONE, dict(drum=True, walk=[[40], [41]])], [dict(drum=False, walk=[[70], [60], [70]])]])],
    rule="data sets of up to three files of up to three tracks, per instrument and combined; reloaded data sets")
def x04(c):
    with scratch() as d:
        fs, ds = make_ds(c, d)
        b = MidiGraphBuilder(None)
        want = []
        # the tables of a data set number the note sets of all files
        for f in fs:
            b.build(MidiReader.read(f), is_per_instrument=c["per"], is_include_velocity=c["vel"], **build_opts(c))
            want += [g for g in b.graphs()]
        check_content(ds, want, b)
        # the same data set opened again holds the same graphs
        _, again = make_ds(c, d)
        check_content(again, want, b)


def check_content(ds, want, b):
    ensure(len(ds) == len(want), "the data set holds %d graphs, the files have %d", len(ds), len(want))
    h2n, n2h, h2i, i2h = ds.hash_to_notes, ds.notes_to_hash, ds.hash_to_index, ds.index_to_hash
    ensure({h: n for n, h in n2h.items()} == h2n and {i: h for h, i in h2i.items()} == i2h and set(h2i) == set(h2n),
           "the tables of the data set are not inverse")
    ensure(sorted(i2h) == list(range(1, len(h2n) + 1)), "numbers are %r", sorted(i2h))
    ensure(set(n2h) == set(b.notes_to_hash), "the tables hold %d note sets, the files %d", len(n2h), len(b.notes_to_hash))
    for i, w in enumerate(want):
        g = ds[i]
        ensure(g.num_nodes == w.num_nodes and torch.equal(g.x, w.x), "graph %d has nodes %r, expected %r", i,
               g.x.tolist(), w.x.tolist())
        ensure(torch.equal(g.edge_index, w.edge_index) and torch.equal(g.edge_attr, w.edge_attr),
               "graph %d has links %r, expected %r", i, g.edge_index.tolist(), w.edge_index.tolist())
        ensure([h2n[i2h[int(y)]] for y in g.y] == [b.hash_to_notes[b.index_to_hash[int(y)]] for y in w.y],
               "graph %d has targets %r that name other note sets", i, g.y.tolist())


@unit("X04", "filters", lambda rng: dict(gen_ds(rng), by=rng.choice(["nodes", "features"])), n=12, heavy=True,
      rule="a filter on the number of nodes or on the features, and a transform that changes every feature")
def x04_filter(c):
    def keep(g):
        return g.num_nodes >= 3 if c["by"] == "nodes" else int(g.x.max()) % 2 == 0

    def mark(g):
        g.x = g.x + 1
        return g
    with scratch() as d:
        fs = []
        b = MidiGraphBuilder(None)
        os.makedirs(os.path.join(d, "src"))
        for i, t in enumerate(c["files"]):
            f = os.path.join(d, "src", "f%d.mid" % i)
            write_file(f, t)
            for per in (True, False):
                b.build(MidiReader.read(f), is_per_instrument=per, is_include_velocity=c["vel"], **build_opts(c))
                gs = list(b.graphs())
                if not any(keep(g) for g in gs):
                    raise Skip()
                fs += [(per, g) for g in gs if keep(g)]
        _, ds = make_ds(c, d, pre_filter=keep, pre_transform=mark)
        want = [g for per, g in fs if per == c["per"]]
        ensure(len(ds) == len(want), "the data set holds %d graphs, %d pass the filter", len(ds), len(want))
        for i, w in enumerate(want):
            ensure(torch.equal(ds[i].x, w.x + 1), "graph %d was not transformed", i)
