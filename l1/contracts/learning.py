"""Contracts of making learning data of a graph (G06)."""
from .base import *
from pyvc.lists import SymList, Tok, Elem
from pyvc import nxstub, torchstub
from .listspec import *
from .graphs import builder
from .tensors import shaped

I, R, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
F2 = lambda name, *s: z3.Function(name, *s)


def term(i):
    return i if isinstance(i, z3.ExprRef) else num(i)


class Side:
    """the nodes, or the links, of a graph: how many, and the attributes of each; on those
    of which `odd` holds the attributes are others"""

    def __init__(self, what, n, value, plain, other):
        self.what, self.n, self.value, self.plain, self.other = what, n, value, plain, other
        self.odd = F2("odd_" + what, I, BOOL)
        self.space = lists.Space(num(n), what)
        self.drawn = {}

    def is_odd(self, i):
        return z3.BoolVal(False) if self.other is None else self.odd(i)

    def attrs(self, i):
        t = z3.simplify(term(i))
        if t.get_id() not in self.drawn:
            names = self.other if E().branch(self.is_odd(t)) else self.plain
            d = rt.VDict()
            for k in names:
                d[k] = self.value(k, t)
            self.drawn[t.get_id()] = d, t
        return self.drawn[t.get_id()][0]

    def alike(self, i):
        return wrap(self.is_odd(term(i)) == self.is_odd(z3.IntVal(0)))


class Walk:
    """graph.nodes or graph.edges"""
    __pv_opaque__ = True

    def __init__(self, g, side, data=False):
        self.g, self.side, self.data = g, side, data

    def __call__(self, data=False, keys=False):
        if data not in (False, True) or keys:
            raise Unsupported("one attribute of each")
        return Walk(self.g, self.side, data)

    def __pv_segs__(self):
        s, g = self.side, self.g
        name = (lambda i: (g.name(i),)) if s is g.N else (lambda i: tuple(g.ends(i)))

        def value(i):
            r = name(i) + ((s.attrs(i),) if self.data else ())
            return r if len(r) > 1 else r[0]
        return [lists.Seg(s.space, lists.always, value, g.about if s is not g.N else None)]

    def __iter__(self):
        return rt._iter(SymList(self.__pv_segs__()))

    def __pv_len__(self):
        return self.side.n

    def __bool__(self):
        return E().branch(boo(self.side.n > 0))


class AnyNx(nxstub.DiGraph):
    """any graph with a node and a link"""
    __pv_opaque__ = True

    def __init__(self, N, L, ends, name, directed):
        self.N, self.L, self._ends, self.name, self.directed = N, L, ends, name, directed
        rt.R.stamp(self)

    def about(self, i):
        u, v = self._ends(i)
        return [z3.Implies(self.L.space.inside(i), z3.And(u >= 0, u < num(self.N.n), v >= 0, v < num(self.N.n)))]

    def ends(self, i):
        return [self.name(x) for x in self._ends(i)]

    nodes = property(lambda s: Walk(s, s.N))
    edges = property(lambda s: Walk(s, s.L))

    def number_of_nodes(self):
        return self.N.n

    order = __pv_len__ = number_of_nodes

    def number_of_edges(self):
        return self.L.n

    size = number_of_edges

    def __iter__(self):
        return iter(self.nodes)

    def __pv_segs__(self):
        return self.nodes.__pv_segs__()

    def __bool__(self):
        return bool(self.nodes)

    def numbered(self):
        return AnyNx(self.N, self.L, self._ends, lambda i: wrap(term(i)), self.directed)

    def to_directed(self):
        if self.directed:
            return self
        E().trust("networkx to_directed: an undirected graph gives each of its links in both directions, a self link once, with the "
                  "data of the link")
        return AnyNx(self.N, self.both, self.both.ends, self.name, True)

    def _no(self, *a, **k):
        raise Unsupported("this use of a graph")

    add_node = add_edge = has_edge = has_node = link = get_edge_data = __getitem__ = __contains__ = _no


class Gathering(rt.Invariant):
    """before element k, the data has a list for each attribute of the first element, with the
    attributes of the elements before k; these all have the same attributes"""

    def __init__(self, side, key):
        self.side, self.key, self.ready, self.k = side, key, False, None

    def match(self, seg, cells):
        if self.ready or seg.space is not self.side.space:
            return False
        ds = {id(d): d for d in map(rt.cell_get, cells.values()) if isinstance(d, rt.VDefaultDict)}
        if len(ds) != 1:
            return False
        self.d = list(ds.values())[0]
        self.was = dict(self.d.items())
        self.names = list(self.side.attrs(0).keys())
        self.lists = {}
        for n in self.names:
            l = self.lists[n] = SymList()
            rt.R.stamp(l)
        self.ready = True
        return True

    def modifies(self):
        return [rt.Loc("dict", self.d, None)] + [rt.Loc("list", l, None) for l in self.lists.values()]

    def havoc(self, k):
        e, s = E(), self.side
        self.before = {n: [] for n in self.names}
        self.k, self.started = k, not e.branch(boo(eq(k, 0)))
        if self.started:
            sp = lists.Space(num(k), "%s before%d" % (s.what, len(e.keep)))
            e.keep.append(sp)
            self.sp = sp
            sp.use(z3.IntVal(0))
            e.forall(sp, lambda i: boo(s.alike(i)), "the earlier ones have the same attributes")
            for n in self.names:
                self.before[n] = [lists.Seg(sp, lists.always, lambda i, n=n: s.value(n, i))]
                self.lists[n].segs = list(self.before[n])
                self.d[self.key(n)] = self.lists[n]

    def check(self, k, when):
        if isinstance(k, int) and k == 0:
            return
        s = self.side
        t = num(self.k)
        ensure("what passes has the attributes of the first, %s" % when, s.alike(t))
        now = dict(self.d.items())
        ensure("there is a list for each attribute, %s" % when, set(now) == set(self.was) | {self.key(n) for n in self.names})
        for k_, v in self.was.items():
            ensure("the lists of other attributes stay, %s" % when, now.get(k_) is v)
        d = s.attrs(t)
        for n in self.names:
            l = lists.as_segs(now.get(self.key(n), ()))
            b = self.before[n]
            good = len(l) == len(b) + 1 and all(x is y for x, y in zip(l, b)) and isinstance(l[-1], Elem) and n in d and l[-1].v is d[n]
            ensure("the attributes are added at the end, %s" % when, good)
        self.k = None


class Learning:
    def __init__(self, w):
        e = E()
        nocase()
        self.n, m = e.int("nodes", 1), e.int("links", 1)
        self.f = e.int("size", 1)
        FEAT, W = F2("feature", I, I, R), F2("weight", I, R)
        self.feat, self.weight = FEAT, W
        both = e.choose([False, True])
        dev = e.choose([None, "nodes", "links"])
        how = e.choose(["more", "less", "other"]) if dev else None
        drawn = {}

        def feature(i):
            t = z3.simplify(i)
            if t.get_id() not in drawn:
                drawn[t.get_id()] = torchstub.Tensor("float", (self.f,), lambda j: wrap(FEAT(t, num(j)))), t
            return drawn[t.get_id()][0]

        def of_node(k, i):
            return feature(i) if k == "attr" else wrap(F2("node_" + k, I, I)(i))

        def of_link(k, i):
            return wrap(W(i)) if k == "weight" else wrap(F2("link_" + k, I, I)(i))

        def others(plain, keep):
            if how == "more":
                return plain + ["colour"]
            rest = [k for k in plain if k in keep]
            return rest + (["name"] if how == "other" else [])
        nodes = ["attr", "label", "weight"] if both else ["label", "attr"]
        links = ["weight", "kind"]
        self.N = Side("nodes", self.n, of_node, nodes, others(nodes, ("attr", "weight")) if dev == "nodes" else None)
        self.directed = e.choose([True, False])
        mk = lambda what, n: Side(what, n, of_link, links, others(links, ("weight",)) if dev == "links" else None)
        L = mk("links", m)
        self.g = AnyNx(self.N, L, self.ends_of("links"), lambda i: Tok("name", (wrap(term(i)),)), self.directed)
        self.L = L
        if not self.directed:
            m2 = e.int("directed_links", 1)
            e.add(And(m2 >= m, m2 <= m + m))
            self.L = mk("directed_links", m2)
        self.L.ends = self.ends_of(self.L.what)
        self.g.both = self.L
        self.M = w.load(PKG + "midi_graph_builder")
        nx = self.M.nx
        nx.convert_node_labels_to_integers = self.convert
        nx.is_directed = lambda g: g.is_directed()
        nx.MultiGraph = nx.MultiDiGraph = type("MultiGraph", (), {})
        key = lambda k: "edge_" + k if k in self.N.attrs(0) else k
        self.invs = [Gathering(self.N, lambda k: k), Gathering(self.L, key)]
        e.invariants += self.invs

    def ends_of(self, what):
        u, v = F2("from_" + what, I, I), F2("to_" + what, I, I)
        return lambda i: (u(i), v(i))

    def convert(self, g, first_label=0, ordering="default", label_attribute=None):
        if not isinstance(g, AnyNx) or first_label != 0 or ordering != "default" or label_attribute is not None:
            raise Unsupported("another way of numbering")
        E().trust("networkx convert_node_labels_to_integers: the same graph, its nodes named by their positions")
        h = g.numbered()
        h.both = self.L
        return h


@contract("G06", "MidiGraphBuilder.from_midi_networkx", share=3)
def g06_data(w):
    e = E()
    p = Learning(w)
    o = outcome(builder(w).from_midi_networkx, p.g)
    if o.refused():
        at = [v for v in p.invs if v.k is not None and not isinstance(v.k, int)]
        ensure("only graphs with different attributes are refused", Or(*[Not(v.side.alike(v.k)) for v in at]) if at else False)
        return
    if not returns("a graph is made to data", o):
        return
    if not all(v.ready for v in p.invs):
        raise Unsupported("the loops over nodes and links were not found")
    d = o.value
    if not ensure("learning data is given", isinstance(d, torchstub.Data)):
        return
    i, j = e.int("i", 0), e.int("j", 0)
    for v in p.invs:
        s = v.side
        x = s.space.generic("one")
        e.fact(s.space.inside(x))
        v.sp.use(x)
        ensure("graphs with different attributes are refused", s.alike(x))
    if shaped("a row of features for each node", d.x, p.n, p.f):
        with e.scope():
            e.add(And(i < p.n, j < p.f))
            ensure("row j of the features is the feature vector of node j", eq(d.x.at(i, j), wrap(p.feat(num(i), num(j)))))
    with e.scope():
        e.add(i < p.L.n)
        if shaped("two ends for each link", d.edge_index, 2, p.L.n):
            u, v = p.L.ends(num(i))
            ensure("link i joins the nodes at the positions of its ends", And(eq(d.edge_index.at(0, i), wrap(u)), eq(d.edge_index.at(1, i), wrap(v))))
        if shaped("a weight for each link", d.edge_attr, p.L.n, 1):
            ensure("link i has its weight", eq(d.edge_attr.at(i, 0), wrap(p.weight(num(i)))))
    ensure("as many nodes as the graph", eq(d.num_nodes, p.n))
