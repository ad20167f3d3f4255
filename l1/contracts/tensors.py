"""Contracts of feature tensors, masks and transforms (G04, X01, X03)."""
from .base import *
from pyvc.lists import num_list, SymList, Tok
from pyvc import torchstub
from .listspec import *
from .graphs import builder
from .playing import Known, hash_of


def forms(w):
    return w.load(PKG + "midi_graph_builder").NodeAttributeType


def some_pitches(top=127):
    """a set of pitches, with its elements in the order the set gives them"""
    e = E()
    n = e.int("pitches", 0)
    ps = rt.SymSet(num_list("pitch", n, "int", lambda v: boo(between(0, v, top))), True)
    return ps, ps.seg()


def shaped(name, t, *dims):
    return ensure(name, And(isinstance(t, torchstub.Tensor) and len(t.shape) == len(dims),
                            *[eq(a, b) for a, b in zip(t.shape, dims)]))


def cells(t):
    """any indices that are inside"""
    e = E()
    ix = [e.int("at%d" % k, 0) for k in range(len(t.shape))]
    for i, n in zip(ix, t.shape):
        e.add(i < n)
    return ix


@contract("G04", "MidiGraphBuilder.create_tensor", share=1.5)
def g04_plain(w):
    e = E()
    nocase()
    ps, seg = some_pitches()
    n = wrap(seg.space.n)
    size = e.int("size", 1, 128)
    how = e.choose(["pitches", "with velocities"])
    k = If(n < size, n, size)
    kw = {}
    if how != "pitches":
        m = e.int("velocities", 0)
        e.add(m <= size)
        vs = num_list("vel", m, "int", lambda v: boo(between(0, v, 127)))
        kw["velocity_set"] = vs
    o = outcome(builder(w).create_tensor, forms(w).Tensor, ps, feature_vec_size=size, **kw)
    if not returns("features can be made", o):
        return
    x = o.value
    if how == "pitches":
        if not shaped("as many features as asked for", x, size):
            return
        i, = cells(x)
        v = x.at(i)
    else:
        if not shaped("a row of pitches and a row of velocities", x, 2, size):
            return
        i = cells(x)[1]
        v, u = x.at(0, i), x.at(1, i)
        if e.branch(boo(i < m)):
            ensure("velocities in their order", eq(u, vs[i]))
        else:
            ensure("zeros after the velocities", eq(u, 0))
    if e.branch(boo(i < k)):
        if how == "pitches":
            ensure("pitches of the set", And(eq(v, floor_(v)), ps.has(floor_(v))))
            j = e.int("another", 0)
            e.add(And(j < k, Not(eq(i, j))))
            ensure("each pitch once", Not(eq(v, x.at(j))))
        else:
            ensure("the pitches of the set, in its order", eq(v, seg.value(num(i))))
    else:
        ensure("zeros after the pitches", eq(v, 0))


@contract("G04", "MidiGraphBuilder.create_tensor one-hot", share=1.5)
def g04_one_hot(w):
    e = E()
    nocase()
    ps, seg = some_pitches()
    n = wrap(seg.space.n)
    kw = {}
    how = e.choose(["given classes", "as many as pitches"])
    if how == "given classes":
        kw["num_classes"] = c = e.int("classes", 1, 256)
    else:
        c = n
        e.add(n > 0)
    loud = e.choose([False, True])
    if loud:
        vs = num_list("vel", n, "int", lambda v: boo(between(0, v, 127)))
        kw["velocity_set"] = vs
    o = outcome(builder(w).create_tensor, forms(w).OneHotTensor, ps, **kw)
    if not o.ok:
        # refused only because of a pitch that has no class
        i = e.int("any", 0)
        if how == "given classes":
            ensure("classes for all pitches are enough", c <= 127)
        refuses("pitches without a class are refused", o, (RuntimeError, ValueError))
        return
    x = o.value
    if not shaped("a row for each pitch", x, n, c + 1 if loud else c):
        return
    i, j = cells(x)
    p = seg.value(num(i))
    x.at(i, 0)
    ensure("each pitch has a class", p < c)
    if loud and e.branch(boo(j >= c)):
        ensure("velocities in their order", eq(x.at(i, j), vs[i]))
    elif e.branch(boo(eq(j, p))):
        ensure("a one at the pitch", eq(x.at(i, j), 1))
    else:
        ensure("zeros elsewhere", eq(x.at(i, j), 0))


@contract("G04", "MidiGraphBuilder.create_tensor unknown form", share=0.3)
def g04_unknown(w):
    nocase()
    ps, seg = some_pitches()
    refuses("an unknown form of features is refused",
            outcome(builder(w).create_tensor, E().choose([None, 0, "Tensor"]), ps))


# --------------------------------------------------------------------- X03
class AnyGraph:
    """any graph: features, targets, masks of n nodes; m links with weights.  Features and
    weights are unknown functions of node or link and column, so that what a tensor made of
    them holds tells which nodes and links it is about."""

    def __init__(self, weights=True):
        e = E()
        I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
        self.n, self.f, self.m = e.int("nodes", 1), e.int("features", 1), e.int("links", 0)
        F = lambda name, *s: z3.Function(name, *s)
        self.X, self.Y = F("feature", I, I, R), F("target", I, I)
        self.END, self.W = F("end", I, I, I), F("weight", I, R)
        self.M = {k: F(k, I, B) for k in ("train_mask", "val_mask", "test_mask")}
        T = torchstub.Tensor
        n, m = self.n, self.m

        def end(r, j):
            v = self.END(num(r), num(j))
            e.fact(boo(Implies(And(r >= 0, r < 2, j >= 0, j < m), between(0, wrap(v), n - 1))))
            return wrap(v)
        d = dict(x=T("float", (n, self.f), lambda i, c: wrap(self.X(num(i), num(c)))),
                 y=T("long", (n,), lambda i: wrap(self.Y(num(i)))), edge_index=T("long", (2, m), end))
        if weights:
            d["edge_attr"] = T("float", (m, 1), lambda j, c: wrap(self.W(num(j))))
        for k, M in self.M.items():
            d[k] = T("bool", (n,), lambda i, M=M: wrap(M(num(i))))
        self.hashes = Tok("hashes", ())
        self.data = torchstub.Data(node_hash=self.hashes, **d)
        self.was = dict(self.data.__dict__)
        self.end = end

    def node(self, x, i):
        """the node whose features row i of x holds"""
        return told_by(x.at(i, 0), self.X)

    def link(self, o, j):
        """the link that column j of the links of o is"""
        if o.edge_attr is not None:
            return told_by(o.edge_attr.at(j, *[0] * (len(o.edge_attr.shape) - 1)), self.W)
        return told_by(o.edge_index.at(0, j), self.END, 1)

    def unchanged(self, o, *names):
        for k in names:
            t, was = getattr(o, k), self.was[k]
            if was is None or not isinstance(was, torchstub.Tensor):
                ensure("%s as before" % k, t is was)
            elif shaped("%s as before" % k, t, *was.shape):
                ix = cells(t)
                ensure("%s as before" % k, eq(t.at(*ix), was.at(*ix)))


def told_by(v, f, arg=0):
    """the index of the application of f that a value is, or has in it"""
    t, todo, seen, found = num(v), [num(v)], set(), []
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().eq(f):
            found.append(t.arg(arg))
        todo += t.children()
    if len({z3.simplify(x).get_id() for x in found}) != 1:
        raise Unsupported("what an element is made of cannot be told")
    return wrap(found[0])


def picked(s, name):
    """an index that is inside"""
    i = E().int(name, 0)
    E().add(i < s)
    return i


def nodes_kept(g, o, k):
    """rows of o are k nodes of g, in their order, with what they have"""
    e = E()
    i, j = picked(k, "row"), picked(k, "later row")
    a, b = g.node(o.x, i), g.node(o.x, j)
    ensure("rows are nodes", And(a >= 0, a < g.n))
    ensure("nodes in their order, each once", Implies(i < j, a < b))
    c = picked(g.f, "column")
    ensure("with their features", eq(o.x.at(i, c), wrap(g.X(num(a), num(c)))))
    if shaped("a target for each", o.y, k):
        ensure("with their targets", eq(o.y.at(i), wrap(g.Y(num(a)))))
    for name, M in g.M.items():
        t = getattr(o, name)
        if shaped("a place in each mask for each", t, k):
            ensure("with their places in the masks", Iff(t.at(i), wrap(M(num(a)))))


def links_kept(g, o, renumbered, k, complete):
    """links of o are links of g, in their order, with their weights"""
    e = E()
    if not shaped("links are pairs", o.edge_index, 2, o.edge_index.shape[1]):
        return
    m = o.edge_index.shape[1]
    i, j = picked(m, "link"), picked(m, "later link")
    a, b = g.link(o, i), g.link(o, j)
    ensure("links are links there were", And(a >= 0, a < g.m))
    ensure("links in their order, each once", Implies(i < j, a < b))
    for r in (0, 1):
        v = o.edge_index.at(r, i)
        if renumbered:
            ensure("links are among the kept nodes", between(0, v, k - 1))
            v = g.node(o.x, v)
        ensure("links have their ends", eq(v, g.end(r, a)))
    if o.edge_attr is not None:
        if shaped("a weight for each link", o.edge_attr, m, *o.edge_attr.shape[1:]):
            ensure("links have their weights", eq(o.edge_attr.at(i, *[0] * (len(o.edge_attr.shape) - 1)), wrap(g.W(num(a)))))
    if not complete:
        return
    # a link between kept nodes is there
    s = picked(g.m, "any link")
    p, q = picked(k, "from"), picked(k, "to")
    e.add(And(eq(g.node(o.x, p), g.end(0, s)), eq(g.node(o.x, q), g.end(1, s))))
    at = [z.rank(s) for z in getattr(e, "selections", ())]
    there = [And(t >= 0, t < m, eq(g.link(o, t), s)) for t in at]
    ensure("links between kept nodes are kept", Or(*there) if there else False)


@contract("X03", "RandomNodeDrop.forward", share=3)
def x03_nodes(w):
    e = E()
    nocase()
    e.selections = []
    weights = e.choose([True, False])
    g = AnyGraph(weights)
    p = e.real("p", 0, 1)
    o = outcome(w.load(PKG + "transforms").RandomNodeDrop(p), g.data)
    if not returns("nodes can be dropped", o):
        return
    o = o.value
    k = g.n - trunc_(p * g.n)
    if not shaped("the part of the nodes that is not dropped", o.x, k, g.f):
        return
    ensure("the number of nodes is theirs", eq(o.num_nodes, k))
    which = e.choose(["nodes", "links"])
    if which == "nodes":
        nodes_kept(g, o, k)
        ensure("weights as far as there were", (o.edge_attr is not None) == weights)
    else:
        links_kept(g, o, True, k, True)


@contract("X03", "RandomEdgeDrop.forward", share=1.5)
def x03_links(w):
    e = E()
    nocase()
    weights = e.choose([True, False])
    g = AnyGraph(weights)
    o = outcome(w.load(PKG + "transforms").RandomEdgeDrop(e.real("p", 0, 1)), g.data)
    if not returns("links can be dropped", o):
        return
    o = o.value
    g.unchanged(o, "x", "y", "train_mask", "val_mask", "test_mask", "node_hash")
    ensure("weights as far as there were", (o.edge_attr is not None) == weights)
    links_kept(g, o, False, g.n, False)


@contract("X03", "AddDegreeTransform.forward")
def x03_degree(w):
    e = E()
    nocase()
    e.degrees = []
    g = AnyGraph(e.choose([True, False]))
    o = outcome(w.load(PKG + "transforms").AddDegreeTransform(), g.data)
    if not returns("degrees can be added", o):
        return
    o = o.value
    g.unchanged(o, "y", "train_mask", "val_mask", "test_mask", "node_hash", "edge_index", "edge_attr")
    ensure("the number of nodes stays", eq(o.num_nodes, g.n))
    if not shaped("one more feature", o.x, g.n, g.f + 1):
        return
    i, c = cells(o.x)
    if e.branch(boo(c < g.f)):
        ensure("features before are kept", eq(o.x.at(i, c), wrap(g.X(num(i), num(c)))))
    elif not e.degrees:
        raise Unsupported("degrees are not counted by the library")
    else:
        t, D = e.degrees[-1]
        ensure("the last feature is the number of links", eq(o.x.at(i, c), wrap(D(num(i)))))
        if shaped("all links are counted", t, g.m):
            j = picked(g.m, "link")
            ensure("links are counted where they start", eq(t.at(j), g.end(0, j)))


# --------------------------------------------------------------------- G03
class Emitting(rt.WhileInvariant):
    """graphs are handed out one by one, from the first on"""

    def __init__(self, B, known):
        self.B, self.known, self.ready = B, known, False

    def match(self, seg, cells):
        if self.ready or "_pv_out" not in cells or self.B not in [rt.cell_get(c) for c in cells.values()]:
            return False
        e = E()
        self.out = rt.cell_get(cells["_pv_out"])
        self.left, self.drawn = self.B._pyg_data, self.B._sub_graphs
        self.d = d = torchstub.Data()
        self.N = n = e.int("nodes", 0)
        self.WHO = who = z3.Function("who", z3.IntSort(), z3.IntSort())
        ident = self.known.ident
        sp = lists.Space(num(n), "nodes of a graph")
        self.space = sp

        def about(j):
            self.known.base.space.use(who(j))
            return [z3.Implies(sp.inside(j), z3.And(who(j) >= 0, who(j) < self.known.n, *[
                boo(f) for f in self.known.base.about(who(j))]))]
        self.hashes = SymList([lists.Seg(sp, lists.always, lambda j: hash_of(ident(who(j))), about)])
        self.attrs = dict(node_hash=self.hashes, x=Tok("x", ()), edge_index=Tok("edges", ()), edge_attr=Tok("weights", ()))
        d.__dict__.update(self.attrs)
        self.ready = True
        return True

    def modifies(self):
        return [rt.Loc("list", l, None) for l in (self.out, self.left, self.drawn)] + [
            rt.Loc("attr", self.d, k) for k in ("label", "y")]

    def some(self, name):
        e = E()
        sp = lists.Space(num(e.int(name, 0)), name + str(len(e.keep)))
        e.keep.append(sp)
        return lists.Seg(sp, lists.always, lambda i: Tok(name, (wrap(i),)))

    def havoc(self):
        e = E()
        self.before, self.rest = [self.some("handed_out")], [self.some("left")]
        self.out.segs = list(self.before)
        self.done = e.decide([None, None]) == 1
        self.left.segs = [] if self.done else [lists.Elem(self.d)] + self.rest
        self.drawn.segs = [] if e.decide([None, None]) == 1 else [lists.Elem(Tok("graph", ()))] + [self.some("graphs")]

    def check(self, when):
        e = E()
        if when == "before the loop":
            ensure("nothing is handed out before", not self.out.segs)
            return
        ensure("the first graph is taken off the list, %s" % when, same_segs(self.left.segs, self.rest))
        ensure("it is handed out, %s" % when, same_segs(self.out.segs[:-1], self.before) and
               isinstance(self.out.segs[-1], lists.Elem) and self.out.segs[-1].v is self.d)
        for k, v in self.attrs.items():
            ensure("the graph is as it was built, %s" % when, getattr(self.d, k) is v)
        if not shaped("a target for each node, %s" % when, self.d.y, self.N):
            return
        j = e.int("node", 0)
        e.add(j < self.N)
        self.hashes[j]
        want = wrap(self.WHO(num(j)) + 1)
        ensure("the target of a node is the number of its set, %s" % when, eq(self.d.y.at(j), want))
        if self.skip:
            ensure("labels are left out when asked, %s" % when, self.d.label is None)
        else:
            l = SymList(segs_of(self.d.label))
            if ensure("a label for each node, %s" % when, eq(rt._len(l), self.N)):
                ensure("the label of a node is the number of its set, %s" % when, eq(l[j], want))


def same_segs(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


@contract("G03", "MidiGraphBuilder.graphs", share=2)
def g03_graphs(w):
    e = E()
    nocase()
    x = builder(w)()
    known = Known("tables")
    known.put(x)
    sane, skip = e.choose([False, True]), e.choose([False, True])
    inv = Emitting(x, known)
    inv.skip = skip
    e.invariants.append(inv)
    for f in ("_pyg_data", "_sub_graphs"):
        setattr(x, f, SymList([inv.some(f)]))
    o = outcome(lambda: SymList(segs_of(x.graphs(skip_label=skip, is_sanity_check=sane))))
    if e.branch(known.n == 0):
        refuses("graphs without a table are refused", o)
        return
    if not returns("graphs are handed out", o):
        return
    if not inv.ready:
        raise Unsupported("the loop that hands out graphs was not found")
    ensure("all are handed out", inv.done and not x._pyg_data.segs and same_segs(o.value.segs, inv.before))
