"""Contracts of building the graphs of a collection (G05)."""
from .base import *
from pyvc.lists import SymList, Tok, Elem
from .listspec import *
from .graphs import builder
from .coll import coll_mod
from .registry import Registry

I, BOOL = z3.IntSort(), z3.BoolSort()
DRUM = z3.Function("track_is_drum", I, BOOL)
LENGTH = z3.Function("track_length", I, I)
HEARD = z3.Function("track_is_heard", I, BOOL)


class Rows:
    """the nodes of a graph built by contract: each has features, a label and its hash (G03)"""
    __pv_opaque__ = True

    def __init__(self, g, data=False):
        self.g, self.data = g, data

    def __call__(self, data=False):
        return Rows(self.g, data)

    def __pv_segs__(self):
        f = lambda i: Tok("node", (wrap(i),))
        return [lists.Seg(self.g.space, lists.always, (lambda i: (f(i), self[f(i)])) if self.data else f)]

    def __iter__(self):
        return rt._iter(SymList(self.__pv_segs__()))

    def __pv_len__(self):
        return self.g.n

    def __bool__(self):
        return E().branch(boo(self.g.n > 0))

    def __getitem__(self, n):
        return {k: Tok(k, (n,)) for k in ("attr", "label", "node_hash")}

    def keys(self):
        return self

    def values(self):
        return SymList([lists.Seg(self.g.space, lists.always, lambda i: self[i])])

    def items(self):
        return Rows(self.g, True)


class Linked:
    __pv_opaque__ = True

    def __call__(self, *a, **k):
        return self

    def __pv_len__(self):
        return E().int("links", 0)


class Played:
    """a graph on which sequences were played, one after the other"""
    __pv_opaque__ = True

    def __init__(self, segs, n=None):
        self.segs = list(segs)
        self.resize(n)

    def resize(self, n=None):
        e = E()
        self.n = e.int("nodes", 0 if not self.segs else 1) if n is None else n
        if not self.segs:
            e.add(eq(self.n, 0))
        self.space = lists.Space(num(self.n), "nodes%d" % len(e.keep))
        e.keep.append(self.space)

    nodes = property(lambda s: Rows(s))
    edges = property(lambda s: Linked())

    def __pv_segs__(self):
        return self.nodes.__pv_segs__()

    def __iter__(self):
        return iter(self.nodes)

    def __pv_len__(self):
        return self.n

    def __bool__(self):
        return bool(self.nodes)

    def number_of_nodes(self):
        return self.n

    order = number_of_nodes

    def number_of_edges(self):
        return E().int("links", 0)

    size = number_of_edges

    def is_directed(self):
        return True

    def copy(self):
        return Played(self.segs, self.n)


class DataOf:
    """learning data of a graph as it is now (G06)"""
    __pv_opaque__ = True

    def __init__(self, g):
        self.g, self.segs = g, list(g.segs)


def same_history(a, b):
    return len(a) == len(b) and all(x is y or (isinstance(x, Elem) and isinstance(y, Elem) and x.v is y.v) for x, y in zip(a, b))


class TrackByTrack(rt.Invariant):
    """Before track k: the data and graphs of the earlier tracks are listed or, combined, one
    graph has been played on if there was anything to play."""

    def __init__(self, b):
        self.b, self.ready = b, False

    def match(self, seg, cells):
        b = self.b
        if self.ready or seg.space is not b.m.base.space:
            return False
        self.seg = seg
        self.carried = [(n, c) for n, c in cells.items() if n in self.assigned and rt.cell_get(c) is None]
        self.counts = [(n, c) for n, c in cells.items() if n in self.assigned and isinstance(rt.cell_get(c), int)]
        if len(self.carried) > 1:
            return False
        self.lists = {k: getattr(b.x, k) for k in ("_pyg_data", "_sub_graphs")}
        self.ready = True
        return True

    def modifies(self):
        out = [rt.Loc("cell", c, n) for n, c in self.carried + self.counts]
        return out + [rt.Loc("list", l, None) for l in self.lists.values()]

    def some(self, name):
        e = E()
        sp = lists.Space(num(e.int(name, 0)), name + str(len(e.keep)))
        e.keep.append(sp)
        return lists.Seg(sp, lists.always, lambda i: Tok(name, (wrap(i),)))

    def havoc(self, k):
        b, e = self.b, E()
        for n, c in self.counts:
            rt.cell_set(c, e.int("total"))
        self.before = {}
        for n, l in self.lists.items():
            if b.per:
                l.segs = [self.some("earlier_" + n)]
            self.before[n] = list(l.segs)
        self.large, self.history = None, []
        if not b.per and e.decide([None, None]) == 1:
            self.history = [self.some("played")]
            self.large = Played(self.history)
        for n, c in self.carried:
            rt.cell_set(c, self.large)
        b.k, b.now = k, None
        b.built = []

    def check(self, k, when):
        b, e = self.b, E()
        if isinstance(k, int) and k == 0:
            for n, l in self.lists.items():
                ensure("nothing is listed before the first track", same_history(l.segs, b.given[n]))
            return
        t = b.track(self.seg.value(num(k) - 1))
        r = t._pv_ref
        eligible = e.branch(z3.And(z3.Not(DRUM(r)), LENGTH(r) != 1, HEARD(r)))
        new = {n: l.segs[len(self.before[n]):] for n, l in self.lists.items()}
        for n, l in self.lists.items():
            ensure("what is listed stays listed, %s" % when, same_history(l.segs[:len(self.before[n])], self.before[n]))
        if b.per:
            if not eligible:
                ensure("a track that is not melodic adds no graph, %s" % when, not any(new.values()))
                return
            ds, gs = new["_pyg_data"], new["_sub_graphs"]
            if ensure("a melodic track adds one graph, %s" % when, len(ds) == 1 == len(gs)):
                d, g = ds[0].v, gs[0].v
                own = "the graph of a track is that of the track alone, %s" % when
                ensure(own, isinstance(g, Played) and isinstance(d, DataOf) and b.history(g.segs, [], t) and b.history(d.segs, [], t))
            return
        ensure("nothing is listed before all is played, %s" % when, not any(new.values()))
        now = [rt.cell_get(c) for n, c in self.carried]
        if len(now) != 1:
            raise Unsupported("the combined graph was not found")
        if not eligible:
            ensure("a track that is not melodic adds nothing, %s" % when, (now[0] is None) if self.large is None else (
                isinstance(now[0], Played) and same_history(now[0].segs, self.history)))
            return
        ensure("a melodic track is played on the graph of the earlier ones, %s" % when,
               isinstance(now[0], Played) and b.history(now[0].segs, self.history, t))


class Build:
    def __init__(self, w):
        e = E()
        self.w = w
        nocase()
        inst = lists.Opaque(w.load(PKG + "midi.midi_instruments").MidiInstrumentInfo, "instrument",
                            dict(is_drum=lambda r: wrap(DRUM(r))))

        def notes(r):
            e.fact(LENGTH(r) >= 0)
            return SymList([lists.Seg(lists.Space(LENGTH(r), "notes_of_%s" % r), lists.always, lambda i: Tok("note", (wrap(r), wrap(i))))])
        self.m = Registry(w, fields=dict(instrument=lambda r: inst.view(r), notes=notes))
        key = self.m.base.seg.value
        e.forall(self.m.base.space, lambda i: boo(between(0, key(i), 127)), "tracks have numbers from 0 to 127 (R01)")
        self.M = w.load(PKG + "midi_graph_builder")
        B = self.M.MidiGraphBuilder
        by_contract(B, "build_sequence", self.sequence, "G02, G03 MidiGraphBuilder.build_sequence")
        by_contract(B, "from_midi_networkx", self.data, "G06 MidiGraphBuilder.from_midi_networkx", True)
        self.M.nx.compose = self.compose
        kinds = self.M.NodeAttributeType
        self.opt = dict(feature_vec_size=e.int("size", 1, 128), velocity_num_buckets=e.int("buckets", 1, 128),
                        node_attr_type=e.choose([kinds.Tensor, kinds.OneHotTensor]), tolerance=e.real("tolerance", 0, 1),
                        **{k: wrap(e.fresh(k, BOOL)) for k in ("filter_single_notes", "is_include_velocity")})
        self.per = e.choose([True, False])

    def run(self):
        e = E()
        within = e.choose([True, False])
        B = self.M.MidiGraphBuilder
        self.x = x = B(midi_data=self.m.m) if within else B()
        self.inv = TrackByTrack(self)
        self.given = {}
        for f in ("_pyg_data", "_sub_graphs"):
            l = SymList([self.inv.some(f)])
            setattr(x, f, l)
            self.given[f] = list(l.segs)
        e.invariants.append(self.inv)
        args = () if within else (self.m.m,)
        return outcome(x.build, *args, is_per_instrument=self.per, **self.opt)

    def track(self, key):
        t, i = self.m.base.at(key)
        if not ensure("the track is one of the collection", t):
            raise Unsupported("a track from elsewhere")
        return self.m.base.value(i)

    def history(self, segs, before, t):
        if len(segs) != len(before) + 1 or not same_history(segs[:-1], before) or not isinstance(segs[-1], Elem):
            return False
        return lists.same_object(segs[-1].v, t)

    # --- what is called
    def sequence(self, x, seq, **k):
        e = E()
        if not lists.is_view(seq):
            raise Unsupported("a sequence that is not a track")
        names = dict(feature_vec_size=12, velocity_num_buckets=8, filter_single_notes=False, tolerance=0.2, is_include_velocity=False)
        for n, v in self.opt.items():
            got = k.get(n, names.get(n))
            ensure("graphs are built with the options given", got is v if n == "node_attr_type" else Iff(got, v) if isinstance(v, core.SymBool) else eq(got, v))
        g = k.get("g")
        if g is not None:
            if not isinstance(g, Played):
                raise Unsupported("a graph of something else")
            ensure("a graph that is played on has a node", bool(g.segs))
        if not e.branch(HEARD(seq._pv_ref)):
            return Played([]) if g is None else g
        if g is None:
            return Played([Elem(seq)])
        g.segs = g.segs + [Elem(seq)]
        g.resize()
        return g

    def data(self, g):
        if not isinstance(g, Played):
            raise Unsupported("data of something else")
        ensure("a graph made to data has a node", bool(g.segs))
        return DataOf(g)

    def compose(self, a, b):
        """a graph composed with itself is itself"""
        if isinstance(a, Played) and isinstance(b, Played) and same_history(a.segs, b.segs):
            return Played(a.segs, a.n)
        raise Unsupported("a composition of different graphs")


@contract("G05", "MidiGraphBuilder.build", share=3)
def g05_build(w):
    e = E()
    b = Build(w)
    o = b.run()
    if not returns("a collection can be built", o):
        return
    if not b.inv.ready:
        raise Unsupported("the loop over the tracks was not found")
    inv = b.inv
    equal_lists("every track is looked at, by increasing number", SymList([inv.seg]), [b.m.base.seg], eq)
    lists_ = {n: getattr(b.x, n).segs for n in ("_pyg_data", "_sub_graphs")}
    new = {n: l[len(inv.before[n]):] for n, l in lists_.items()}
    for n, l in lists_.items():
        ensure("what was listed before stays listed", same_history(l[:len(inv.before[n])], inv.before[n]))
    if b.per:
        ensure("only the graphs of the tracks are listed", not any(new.values()))
        return
    if inv.large is None:
        ensure("nothing to play gives no graph", not any(new.values()))
        return
    ds, gs = new["_pyg_data"], new["_sub_graphs"]
    if ensure("there is one combined graph", len(ds) == 1 == len(gs)):
        d, g = ds[0].v, gs[0].v
        ensure("the combined graph is that of all melodic tracks", isinstance(g, Played) and isinstance(d, DataOf) and same_history(
            g.segs, inv.history) and same_history(d.segs, inv.history))


@contract("G05", "MidiGraphBuilder.build, without a collection")
def g05_nothing(w):
    nocase()
    x = builder(w)()
    refuses("building nothing is refused", outcome(x.build))
