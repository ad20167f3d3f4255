"""Contracts of processing data sets (X01, X04)."""
from .base import *
from pyvc.lists import num_list, SymList, Tok, Elem
from pyvc import torchstub
from .listspec import *
from .tensors import AnyGraph, shaped, cells


class Unread:
    """a collection of the data set that no property is about"""
    __pv_opaque__ = True

    def __contains__(self, k):
        e = E()
        return e.branch(e.fresh("seen", z3.BoolSort()))

    def update(self, *a):
        pass

    add = update

    def __setitem__(self, k, v):
        pass

    def tolist(self):
        return self

    def size(self, d):
        return self


class Song:
    """what is read from a file"""
    __pv_opaque__ = True

    def __init__(self, path):
        self.path = path

    def num_instruments(self):
        return E().int("instruments", 0)


class Processing:
    """a data set being made from any files, of any graphs"""

    def __init__(self, w, per=None):
        e = E()
        self.w, self.e = w, e
        n = e.int("files", 0)
        self.n = n
        self.space = lists.Space(num(n), "files")
        self.files = SymList([lists.Seg(self.space, lists.always, lambda i: Tok("path", (wrap(i),)))])
        self.M = w.load(PKG + "midi_dataset")
        self.D = D = self.M.MidiDataset
        self.B = B = w.load(PKG + "midi_graph_builder").MidiGraphBuilder
        R = w.load(PKG + "midi_reader").MidiReader
        self.builds, self.song, self.last, self.run = 0, None, None, 0
        self.saved, self.collected, self.x = [], {}, None
        self.options = dict(feature_vec_size=e.int("size", 1, 128), velocity_num_buckets=e.int("buckets", 1, 128),
                            filter_single_notes=e.choose([False, True]), tolerance=e.real("tolerance", 0, 1),
                            include_velocity=e.choose([False, True]))
        self.tr, self.va = e.real("train", 0, 1), e.real("val", 0, 1)
        e.add(self.tr + self.va <= 1)
        by_contract(R, "read", lambda path, *a, **k: Song(path), "F01", True)
        by_contract(B, "build", self.build, "G03, G05 MidiGraphBuilder.build")
        by_contract(B, "graphs", self.graphs, "G03 MidiGraphBuilder.graphs")
        for t in TABLES:
            type.__setattr__(B, t, property(lambda b, t=t: Table(t, self.builds)))
        base = torchstub.Dataset
        base.paths, base.collated = self.files, staticmethod(self.collate)
        import os.path
        self.M.__dict__["osp"] = osp = type("osp", (), {k: staticmethod(getattr(os.path, k)) for k in os.path.__all__ if callable(
            getattr(os.path, k, None))})
        osp.join, osp.exists, osp.isfile = staticmethod(joined), staticmethod(self.exists), staticmethod(self.exists)
        torch = self.M.torch
        torch.__dict__.update(save=self.save, load=self.load, unique=lambda t, *a, **k: Uniques())

    # --- what is called
    def build(self, b, song, *a, **k):
        if a:
            raise Unsupported("options of a build by position")
        ensure("the file in turn is built", isinstance(song, Song) and same(song.path, Tok("path", (self.k,))))
        per = k.get("is_per_instrument", False)
        ensure("graphs are built for each instrument first, then combined", per is (self.run == 1))
        o = self.options
        ensure("graphs are built with the options of the data set", And(
            *[eq(k.get(f), o[f]) for f in ("feature_vec_size", "velocity_num_buckets", "tolerance")],
            k.get("filter_single_notes") is o["filter_single_notes"],
            k.get("is_include_velocity") is o["include_velocity"]))
        self.builds = self.builds + 1
        self.last = self.k

    def graphs(self, b, *a, **k):
        e = E()
        ensure("graphs are those of the file in turn", self.last is not None and self.last is self.k)
        if self.run == 1:
            self.m = e.int("graphs", 0)
            self.graph_space = lists.Space(num(self.m), "graphs")
            self.drawn = {}
            return rt.GenIter(SymList([lists.Seg(self.graph_space, lists.always, self.graph)]))
        self.one = AnyGraph()
        return rt.GenIter(SymList([Elem(self.one.data)]))

    def graph(self, i):
        t = z3.simplify(i)
        if t.get_id() not in self.drawn:
            self.drawn[t.get_id()] = AnyGraph(), t
        return self.drawn[t.get_id()][0].data

    def keep(self, d):
        """the filter"""
        self.asked.append((d, dict(d.__dict__)))
        b = wrap(E().fresh("passes", z3.BoolSort()))
        self.answers.append(b)
        return b

    def change(self, d):
        """the transform"""
        if not isinstance(d, torchstub.Data):
            raise Unsupported("a transform of something else than a graph")
        self.changed.append((d, dict(d.__dict__)))
        o = torchstub.Data()
        o.__dict__["made_from"] = d
        self.made.append(o)
        return o

    def collate(self, l):
        c = Collated(SymList(segs_of(l)))
        return c, c.slices

    def save(self, what, path, *a, **k):
        ensure("what is saved is a collated data set and its tables", isinstance(what, tuple) and len(what) == 3)
        self.saved = [(p, x) for p, x in self.saved if not same_path(p, path)] + [(path, what)]

    def load(self, path, *a, **k):
        found = [x for p, x in self.saved if same_path(p, path)]
        if not ensure("what is loaded has been saved", len(found) == 1):
            raise FileNotFoundError(path)
        return found[0]

    def exists(self, path):
        """files are those that were saved"""
        if isinstance(path, str) and path.endswith("/processed"):
            return True
        return any(same_path(p, path) for p, _ in self.saved)

    def begin(self):
        """an element is looked at: nothing was asked about it"""
        self.asked, self.answers, self.changed, self.made = [], [], [], []

    # --- what is known of it
    def make(self, **kw):
        e = E()
        self.filtering, self.transforming, self.split = (e.choose([True, False]) for _ in range(3))
        e.invariants.append(FileByFile(self))
        e.invariants.append(GraphByGraph(self))
        self.begin()
        return outcome(self.D, root="/no-such-place", pre_transform=self.change if self.transforming else None,
                       pre_filter=self.keep if self.filtering else None, default_midi_loc="/", midi_files=None,
                       train_ratio=self.tr, val_ratio=self.va, do_split_mask=self.split, **self.options, **kw)

    def collection(self):
        """where graphs are collected"""
        x = self.D.made
        names = [n for n, v in rt.attrs(x).items() if n.endswith("_data_list") and v is not None]
        if len(names) != 1:
            raise Unsupported("where graphs are collected is not found")
        return x, names[0]

    def unread(self):
        x = self.D.made
        return [n for n, v in rt.attrs(x).items() if isinstance(v, (Unread, rt.VDict, dict, rt.VSet, set)) and n != "slices"]

    def one_more(self, when, before, now, g):
        """what is done with a graph"""
        passes = True
        if self.filtering:
            if ensure("the filter is asked once, %s" % when, len(self.asked) == 1):
                ensure("the filter is asked about the graph as it was built, %s" % when, self.asked[0][0] is g.data and all(
                    self.asked[0][1].get(k) is v for k, v in g.was.items() if not k.endswith("_mask")))
                passes = E().branch(boo(self.answers[0]))
        if not passes:
            ensure("a graph that the filter refuses is left out, %s" % when, same_parts(before, now))
            ensure("it is not transformed, %s" % when, not self.changed)
            return
        was = dict(g.data.__dict__)
        last = g.data
        if self.transforming:
            if not ensure("a graph is transformed once, %s" % when, len(self.changed) == 1):
                return
            ensure("the transform is given the graph, %s" % when, self.changed[0][0] is g.data)
            was, last = self.changed[0][1], self.made[0]
        ensure("the graph is added at the end, %s" % when, len(now) == len(before) + 1 and same_parts(before, now[:-1]) and
               isinstance(now[-1], Elem) and now[-1].v is last)
        ensure("the graph has the nodes, features, links and weights it was built with, %s" % when, all(
            was.get(k) is v for k, v in g.was.items() if not k.endswith("_mask")))
        if self.split:
            masks(self, g.n, *[was.get(k + "_mask") for k in ("train", "val", "test")])


def joined(*parts):
    out = []
    for p in parts:
        out += ["/"] * bool(out) + (list(p.args) if isinstance(p, lists.Text) else [p])
    if not all(isinstance(p, (str, core.SymBase)) for p in out):
        raise Unsupported("a path of other than texts")
    return "".join(out) if all(isinstance(p, str) for p in out) else lists.Text(out)


def same_path(a, b):
    a, b = (list(x.args) if isinstance(x, lists.Text) else [x] for x in (a, b))
    return len(a) == len(b) and all(x == y if isinstance(x, str) or isinstance(y, str) else z3.simplify(num(x)).eq(z3.simplify(num(y)))
                                    for x, y in zip(a, b))


def same_parts(a, b):
    return len(a) == len(b) and all(x is y or (isinstance(x, Elem) and isinstance(y, Elem) and x.v is y.v) for x, y in zip(a, b))


def masks(p, n, train, val, test):
    """every node is in exactly one mask; the sizes are the whole parts of the ratios"""
    e = E()
    for t in (train, val, test):
        if not shaped("a place in each mask for each node", t, n):
            return
    i = e.int("node", 0)
    e.add(i < n)
    a, b, c = (t.at(i) for t in (train, val, test))
    ensure("every node is in a mask", Or(a, b, c))
    ensure("no node is in two masks", And(Not(And(a, b)), Not(And(a, c)), Not(And(b, c))))
    if any(t.count is None for t in (train, val, test)):
        raise Unsupported("the size of a mask")
    x, y = p.tr * n, p.va * n
    parts = And(x >= 0, y >= 0, x + y <= n)
    if ensure("ratios are of all nodes together", parts):
        e.fact(boo(parts))
    ensure("the training mask holds the whole part of its ratio", eq(train.count, trunc_(x)))
    ensure("the validation mask holds the whole part of its ratio", eq(val.count, trunc_(y)))
    ensure("the test mask holds the rest", eq(test.count, n - trunc_(x) - trunc_(y)))


TABLES = ("hash_to_notes", "notes_to_hash", "hash_to_index", "index_to_hash")


class Table:
    """a table of the builder, as it is after so many builds"""
    __pv_opaque__ = True

    def __init__(self, name, builds):
        self.name, self.builds = name, builds

    def is_(self, name, builds):
        return And(self.name == name, eq(self.builds, builds))

    def copy(self):
        return Table(self.name, self.builds)

    def __pv_len__(self):
        return E().int("entries", 0)


class Uniques(Unread):
    def __pv_len__(self):
        return E().int("classes", 0)


class Collated:
    __pv_opaque__ = True

    def __init__(self, l):
        self.l, self.slices, self.y = l, Tok("slices", ()), Unread()

    def __pv_len__(self):
        return E().int("data", 0)


class FileByFile(rt.Invariant):
    """the graphs of the files before k are collected, and the builder has built those files"""

    def __init__(self, p):
        self.p = p

    def match(self, seg, cells):
        p = self.p
        if seg.space is not p.space:
            return False
        p.run += 1
        self.x, self.name = p.collection()
        self.start = p.builds
        l = getattr(self.x, self.name)
        ensure("nothing is collected before the first file", eq(rt._len(l), 0))
        self.others = p.unread()
        self.l = SymList()
        rt.R.stamp(self.l)
        return True

    def modifies(self):
        return [rt.Loc("attr", self.x, n) for n in [self.name] + self.others] + [rt.Loc("list", self.l, None)]

    def havoc(self, k):
        p, e = self.p, E()
        p.k = k
        for n in self.others:
            setattr(self.x, n, Unread())
        p.builds = self.start + k
        m = e.int("collected", 0)
        sp = lists.Space(num(m), "collected%d" % len(e.keep))
        e.keep.append(sp)
        run = p.run
        self.before = [lists.Seg(sp, lists.always, lambda i: Tok("collected", (run, wrap(i))))]
        self.l.segs = list(self.before)
        setattr(self.x, self.name, self.l)
        p.begin()
        p.last, p.added = None, None
        p.collected[run] = self.before

    def check(self, k, when):
        p = self.p
        if isinstance(k, int):
            return
        ensure("a file is built once, %s" % when, eq(p.builds, self.start + k))
        now = list(as_list(getattr(self.x, self.name)).segs)
        if p.run == 1:
            ensure("the graphs of the file are added at the end, %s" % when, p.added is not None and
                   same_parts(self.before + p.added, now))
        else:
            p.one_more(when, self.before, now, p.one)


def as_list(l):
    return l if isinstance(l, SymList) else SymList(lists.as_segs(l))


class GraphByGraph(rt.Invariant):
    """the graphs of a file before j are collected"""

    def __init__(self, p):
        self.p = p

    def match(self, seg, cells):
        p = self.p
        if seg.space is not getattr(p, "graph_space", None):
            return False
        self.x, self.name = p.collection()
        self.prefix = list(as_list(getattr(self.x, self.name)).segs)
        self.others = p.unread()
        self.l = SymList()
        rt.R.stamp(self.l)
        return True

    modifies = FileByFile.modifies

    def havoc(self, j):
        p, e = self.p, E()
        for n in self.others:
            setattr(self.x, n, Unread())
        m = e.int("of_file", 0)
        sp = lists.Space(num(m), "of_file%d" % len(e.keep))
        e.keep.append(sp)
        p.added = [lists.Seg(sp, lists.always, lambda i: Tok("of_file", (p.k, wrap(i))))]
        self.before = self.prefix + p.added
        self.l.segs = list(self.before)
        setattr(self.x, self.name, self.l)
        p.begin()
        self.j = num(j)

    def check(self, j, when):
        p = self.p
        if isinstance(j, int):
            return
        now = list(as_list(getattr(self.x, self.name)).segs)
        t = z3.simplify(self.j)
        if t.get_id() not in p.drawn:
            ensure("each graph is looked at, %s" % when, False)
            return
        p.one_more(when, self.before, now, p.drawn[t.get_id()][0])


@contract(("X04", "X01"), "MidiDataset.process", share=4)
def x04_process(w):
    e = E()
    nocase()
    p = Processing(w)
    per = e.choose([True, False])
    o = p.make(per_instrument_graph=per)
    if not returns("a data set can be made", o):
        return
    x = o.value
    if not ensure("two data sets are saved", len(p.saved) == 2 and p.run == 2):
        return
    (q1, one), (q2, two) = p.saved
    ensure("the first is that of the instruments", same_parts(one[0].l.segs, p.collected[1]))
    ensure("the second is the combined one", same_parts(two[0].l.segs, p.collected[2]))
    for s, k in ((one, p.n), (two, p.n + p.n)):
        ensure("slices are those of the data", s[1] is s[0].slices)
        t = s[2]
        ensure("the tables are those of the builder", And(*[t[a].is_(a, k) for a in TABLES]))
    own = one if per else two
    ensure("the data set is the one asked for", x.data is own[0] and x.slices is own[0].slices)
    for a in TABLES:
        ensure("its tables are the saved ones", getattr(x, a).is_(a, own[2][a].builds))
