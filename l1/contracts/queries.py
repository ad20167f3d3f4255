"""Contracts of asking about a graph by notes, and of merging its nodes (G07)."""
from .base import *
from pyvc.lists import SymList, Tok, Elem, num_list
from pyvc import nxstub, torchstub
from .listspec import *
from .graphs import builder
from .playing import hash_of, hashed
from .seqs import notes_list

I, BOOL = z3.IntSort(), z3.BoolSort()
LINK = z3.Function("link_of_sets", I, I, BOOL)
NODE = z3.Function("node_of_set", I, BOOL)


class Chord:
    """a chord, as pitches, as notes, or as the name of its node"""

    def __init__(self, w, name, hows):
        e = E()
        self.how = e.choose(hows)
        if self.how == "hash":
            self.id = e.fresh("set_" + name, I)
            self.arg = hash_of(self.id)
            return
        if self.how == "notes":
            self.arg = notes_list(w, name)
            e.add(rt._len(self.arg) >= 1)
            self.pitch = lambda v: v.pitch
        else:
            n = e.int("len." + name, 1)
            self.arg = num_list(name, n, "int", lambda v: boo(between(0, v, 127)))
            self.pitch = lambda v: v
        self.segs = list(self.arg.segs)

    def is_meant(self, what, h):
        """h is the hash of the set of the pitches; gives the identity of the set"""
        e = E()
        c = hashed(h)
        if not ensure(what + ": a node is meant", c is not None):
            return None
        if self.how == "hash":
            ensure(what + ": the node that was named", wrap(c == self.id))
            return c
        s = e.symsets.get(c.get_id())
        if not ensure(what + ": the set of the chord", s is not None):
            return None
        each(what + ": every pitch of the chord", self.segs, lambda v: s.has(self.pitch(v)))
        if s.source is None:
            raise Unsupported("a set of something else")
        sp = s.seg().space
        j = sp.generic("a_pitch")
        e.fact(sp.inside(j))
        p = s.seg().value(j)
        mine = SymList(self.segs)
        alts = []
        for g, f in zip(lists.as_segs(s.source), s.frm):
            if isinstance(g, Elem):
                raise Unsupported("a set of other things")
            x = f(j)
            for h_ in self.segs:
                h_.space.use(x)
                alts.append(z3.And(h_.space.inside(x), boo(eq(self.pitch(h_.value(x)), p))))
        ensure(what + ": no other pitch", wrap(z3.Or(*alts)))
        return c


class Around:
    """the neighbours of a node"""
    __pv_opaque__ = True

    def __init__(self, h):
        self.h = h

    def __contains__(self, k):
        c, d = hashed(self.h), hashed(k)
        if c is None or d is None:
            raise Unsupported("a node that is no hash")
        return E().branch(LINK(c, d))


class Asked(nxstub.DiGraph):
    """any graph of sets"""
    __pv_opaque__ = True

    def __init__(self):
        rt.R.stamp(self)
        self.met = []

    def _ids(self, *hs):
        out = []
        for h in hs:
            c = hashed(h)
            if c is None:
                raise Unsupported("a node that is no hash")
            out.append(c)
        return out

    def neighbors(self, h):
        self._ids(h)
        return Around(h)

    successors = neighbors

    def __getitem__(self, h):
        return self.neighbors(h)

    adj = property(lambda s: s)

    def has_node(self, h):
        return E().branch(NODE(*self._ids(h)))

    __contains__ = has_node

    def has_edge(self, u, v):
        a, b = self._ids(u, v)
        self.met.append((u, v))
        e = E()
        e.fact(z3.Implies(LINK(a, b), z3.And(NODE(a), NODE(b))))
        return e.branch(LINK(a, b))

    def _no(self, *a, **k):
        raise Unsupported("this use of a graph")

    add_node = add_edge = link = get_edge_data = number_of_nodes = __iter__ = __len__ = _no


class Recorded:
    """the nodes that were asked about, in order"""


@contract("G07", "MidiGraphBuilder.neighbors")
def g07_neighbors(w):
    nocase()
    u = Chord(w, "u", ["pitches", "notes"])
    o = outcome(builder(w).neighbors, Asked(), u.arg)
    if returns("neighbours can be asked for", o):
        if ensure("the neighbours of a node are given", isinstance(o.value, Around)):
            u.is_meant("the node of the chord", o.value.h)


@contract("G07", "MidiGraphBuilder.is_connected")
def g07_connected(w):
    e = E()
    nocase()
    u, v = Chord(w, "u", ["pitches", "notes", "hash"]), Chord(w, "v", ["pitches", "notes", "hash"])
    g = Asked()
    seen = []
    was = Around.__contains__

    def has(self, k):
        seen.append((self.h, k))
        return was(self, k)
    Around.__contains__ = has
    try:
        o = outcome(builder(w).is_connected, g, u.arg, v.arg)
    finally:
        Around.__contains__ = was
    if not returns("it can be asked whether chords are connected", o):
        return
    seen += g.met
    if not seen:
        raise Unsupported("what the graph was asked was not found")
    if not ensure("the graph is asked once", len(seen) == 1):
        return
    a = v.is_meant("the link from the second chord", seen[0][0])
    b = u.is_meant("the link to the first chord", seen[0][1])
    if a is not None and b is not None:
        ensure("chords are connected when the graph has the link", Iff(o.value, wrap(LINK(a, b))))


@contract("G07", "MidiGraphBuilder.get_edge_connected")
def g07_edge(w):
    nocase()
    e = E()
    u, v = Chord(w, "u", ["pitches"]), Chord(w, "v", ["pitches"])
    g = Asked()
    o = outcome(builder(w).get_edge_connected, g, u.arg, v.arg)
    if not returns("the link between chords can be asked for", o):
        return
    sets = {id(s.source): s for s in e.symsets.values()}
    if o.value is None:
        # the sets of the chords, as the code made them
        mine = [[k for k, s in e.symsets.items() if same_source(s, c)] for c in (u, v)]
        if any(len(m) != 1 for m in mine):
            raise Unsupported("the sets of the chords were not found")
        a, b = (e.symsets[m[0]].ident for m in mine)
        e.fact(z3.Implies(LINK(a, b), z3.And(NODE(a), NODE(b))))
        ensure("no link is given only when there is none", Not(wrap(LINK(a, b))))
        return
    if not ensure("a link is two nodes", isinstance(o.value, tuple) and len(o.value) == 2):
        return
    a = u.is_meant("the link from the first chord", o.value[0])
    b = v.is_meant("the link to the second chord", o.value[1])
    if a is not None and b is not None:
        ensure("a link is given only when there is one", wrap(LINK(a, b)))


def same_source(s, c):
    l = lists.as_segs(s.source) if s.source is not None else []
    return len(l) == len(c.segs) and all(x is y or getattr(x, "space", 0) is y.space for x, y in zip(l, c.segs))


# ------------------------------------------------------------------ merging
HAS = z3.Function("is_node", I, BOOL)
AT = z3.Function("place_of_node", I, I)
ADJ = z3.Function("is_link", I, I, BOOL)
IN = z3.Function("is_merged", I, BOOL)
INAT = z3.Function("place_in_merged", I, I)
BEFORE = z3.Function("neighbour_of_the_first", I, I, BOOL)      # of one of the first k merged nodes


class Pairs:
    __pv_opaque__ = True

    def __init__(self, g):
        self.g = g

    def __getitem__(self, uv):
        return self.g.data(*uv)

    def __contains__(self, uv):
        return self.g.has_edge(*uv)


class Row:
    __pv_opaque__ = True

    def __init__(self, g, u):
        self.g, self.u = g, u

    def __getitem__(self, v):
        return self.g.data(self.u, v)

    def __pv_segs__(self):
        return [self.g.around(self.u)]

    def __iter__(self):
        return rt._iter(SymList(self.__pv_segs__()))

    keys = lambda self: self

    def items(self):
        s = self.g.around(self.u)
        return SymList([lists.Seg(s.space, s.guard, lambda i: (s.value(i), self.g.data(self.u, s.value(i))), s.facts)])


class Merging(nxstub.Graph):
    """any undirected graph of numbered nodes whose links have the same attributes, in which
    nodes are merged: the links of the new node, and which nodes were removed"""
    __pv_opaque__ = True

    def __init__(self):
        e = E()
        rt.R.stamp(self)
        self.d = {}
        self.n = e.int("nodes", 1)
        self.space = lists.Space(num(self.n), "graph nodes")
        self.el = el = z3.Function("node", I, I)
        self.names = ["weight"] + e.choose([[], ["kind"]])
        self.val = {k: z3.Function("data_" + k, I, I, I) for k in self.names}

        def facts(i):
            return [AT(el(i)) == i, HAS(el(i))]
        self.seg = lists.Seg(self.space, lists.always, lambda i: wrap(el(i)), facts)
        self.new, self.linked, self.value, self.gone = None, lambda y: z3.BoolVal(False), None, lambda y: z3.BoolVal(False)
        self.walked = None
        self.rows = {}

    def known(self, x):
        """what HAS means for x"""
        e = E()
        t = num(x)
        j = AT(t)
        self.space.use(j)
        e.fact(z3.Implies(HAS(t), z3.And(self.space.inside(j), self.el(j) == t)))
        return t

    def adjacent(self, u, v):
        e = E()
        e.fact(z3.And(ADJ(u, v) == ADJ(v, u), z3.Implies(ADJ(u, v), z3.And(HAS(u), HAS(v)))))
        return ADJ(u, v)

    def _put(self, **kw):
        for k, v in kw.items():
            rt.R.note_attr(self, k)
            setattr(self, k, v)

    nodes = property(lambda s: Listed(s))
    edges = property(lambda s: Pairs(s))
    adj = property(lambda s: s)

    def has_node(self, x):
        t = self.known(x)
        is_new = z3.BoolVal(False) if self.new is None else t == num(self.new)
        return E().branch(z3.And(z3.Or(HAS(t), is_new), z3.Not(self.gone(t))))

    __contains__ = has_node

    def add_node(self, x, **attr):
        if self.new is not None:
            raise Unsupported("a second new node")
        ensure("the new node is none of the graph", Not(wrap(HAS(self.known(x)))))
        self._put(new=x)

    def around(self, u):
        """the neighbours of a node of the graph"""
        e = E()
        t = z3.simplify(self.known(u))
        if not ensure("only nodes of the graph have neighbours", wrap(z3.And(HAS(t), z3.Not(self.gone(t))))):
            raise Unsupported("neighbours of another node")
        if t.get_id() not in self.rows:
            k = len(e.keep)
            sp = lists.Space(num(e.int("degree", 0)), "neighbours%d" % k)
            el, at = z3.Function("neighbour%d" % k, I, I), z3.Function("place%d" % k, I, I)
            met = z3.Function("met%d" % k, I, I, BOOL)

            def facts(i):
                self.adjacent(t, el(i))
                return [at(el(i)) == i, ADJ(t, el(i))]
            s = lists.Seg(sp, lists.always, lambda i: wrap(el(i)), facts)
            s.el, s.at, s.met, s.node = el, at, met, t
            e.keep.append(s)
            self.rows[t.get_id()] = s, t
        return self.rows[t.get_id()][0]

    def neighbors(self, u):
        return rt._iter(SymList([self.around(u)]))

    def __getitem__(self, u):
        return Row(self, u)

    def data(self, u, v):
        e = E()
        a, b = self.known(u), self.known(v)
        if not ensure("only links have data", wrap(self.adjacent(a, b))):
            raise Unsupported("the data of another link")
        d = rt.VDict()
        for k in self.names:
            f = self.val[k]
            e.fact(f(a, b) == f(b, a))
            d[k] = wrap(f(a, b))
        return d

    def get_edge_data(self, u, v, default=None):
        return self.data(u, v)

    def add_edge(self, u, v, **attr):
        e = E()
        if self.new is None:
            raise Unsupported("a link of given nodes")
        for x, y in ((u, v), (v, u)):
            if z3.is_true(z3.simplify(num(x) == num(self.new))) or torchstub.entailed(eq(x, self.new)):
                break
        else:
            ensure("links are added to the new node", False)
            raise Unsupported("a link of given nodes")
        y = self.known(y)
        if self.walked is not None:
            ensure("the links that are walked along stay", wrap(y != self.walked))
        ensure("a link has the attributes of the links", set(attr) == set(self.names))
        was, old = self.linked, self.value
        now = {k: num(attr[k]) for k in self.names if k in attr}
        self._put(linked=lambda z: z3.Or(z == y, was(z)),
                  value=lambda k, z: z3.If(z == y, now[k], old(k, z)) if old is not None else now[k])

    def remove_node(self, x):
        t = self.known(x)
        if not ensure("a node that is removed is there", wrap(z3.And(HAS(t), z3.Not(self.gone(t))))):
            raise KeyError(x)
        was = self.gone
        self._put(gone=lambda z: z3.Or(z == t, was(z)))

    def _no(self, *a, **k):
        raise Unsupported("this use of a graph")

    def number_of_nodes(self):
        return self.n

    def __iter__(self):
        return rt._iter(SymList([self.seg]))

    has_edge = link = __len__ = _no


class Listed:
    """graph.nodes"""
    __pv_opaque__ = True

    def __init__(self, g):
        self.g = g

    def __call__(self):
        return self

    def __pv_segs__(self):
        if self.g.new is not None:
            raise Unsupported("the nodes after a change")
        return [self.g.seg]

    def __iter__(self):
        return rt._iter(SymList(self.__pv_segs__()))

    def __contains__(self, x):
        return self.g.has_node(x)

    def __pv_len__(self):
        return self.g.n


class Loop(rt.Invariant):
    def __init__(self, p):
        self.p, self.ready = p, False

    def modifies(self):
        return [rt.Loc("attr", self.p.g, k) for k in self.attrs]

    def any_links(self):
        """some links of the new node, with some data, and of which node they were"""
        e = E()
        k = len(e.keep)
        e.keep.append(k)
        f = z3.Function("linked%d" % k, I, BOOL)
        vs = {n: z3.Function("new_%s%d" % (n, k), I, I) for n in self.p.g.names}
        which = z3.Function("of_which%d" % k, I, I)
        self.p.which.append(which)
        return f, (lambda n, z: vs[n](z)), which

    def put(self, before, good):
        e, p = E(), self.p
        linked, value, which = self.any_links()

        def at(z):
            e.fact(linked(z) == z3.And(p.outside(z), before(z)))
            e.fact(z3.Implies(linked(z), good(z, value, [which(z)])))
            return linked(z)
        p.g._put(linked=at, value=value)


class NodeByNode(Loop):
    """before merged node k: the new node is linked to the outside neighbours of those before,
    each link with the data of one of theirs"""
    attrs = ("linked", "value")

    def match(self, seg, cells):
        if self.ready or seg.space is not self.p.space:
            return False
        self.ready = True
        return True

    def havoc(self, k):
        self.k = k = num(k)
        self.put(lambda z: BEFORE(k, z), lambda z, value, ts: self.p.ok(k, z, value, ts))

    def check(self, k, when):
        p, e = self.p, E()
        z = p.anyone()
        k = z3.IntVal(0) if isinstance(k, int) else self.k + 1
        linked, value = p.g.linked(z), p.g.value
        if when == "before the loop":
            e.fact(z3.Not(BEFORE(k, z)))
        else:
            p.seg.value(self.k)
            e.fact(BEFORE(k, z) == z3.Or(BEFORE(self.k, z), p.g.adjacent(p.el(self.k), z)))
        r = p.row_loop.row if p.row_loop.ready else None
        if r is not None:
            e.trust("networkx neighbors: every neighbour, once")
            r.space.use(r.at(z))
            e.fact(r.met(r.space.n, z) == p.g.adjacent(r.node, z))
        ensure("the new node is linked to exactly the outside neighbours of the nodes so far, %s" % when,
               wrap(linked == z3.And(p.outside(z), BEFORE(k, z))))
        if value is not None:
            ensure("with the data of one of their links, %s" % when, wrap(z3.Implies(linked, p.ok(k, z, value, p.candidates(z)))))


class NeighbourByNeighbour(Loop):
    """the same before neighbour j of node k, with the neighbours before it"""
    attrs = ("linked", "value")

    def match(self, seg, cells):
        rows = [s for s, t in self.p.g.rows.values() if s.space is seg.space]
        if self.ready or not rows or not self.p.nodes_loop.ready:
            return False
        self.row, self.ready = rows[0], True
        return True

    def havoc(self, j):
        p, j, k = self.p, num(j), self.p.nodes_loop.k
        self.j, p.g.walked = j, self.row.node
        self.put(lambda z: self.before(k, j, z), lambda z, value, ts: self.good(k, j, z, value, ts))

    def before(self, k, j, z):
        return z3.Or(BEFORE(k, z), self.row.met(j, z))

    def good(self, k, j, z, value, ts):
        p, r = self.p, self.row
        return z3.Or(p.ok(k, z, value, ts), z3.And(r.met(j, z), *[value(n, z) == p.g.val[n](r.node, z) for n in p.g.names]))

    def check(self, j, when):
        p, e, r = self.p, E(), self.row
        z = p.anyone()
        k = p.nodes_loop.k
        linked, value = p.g.linked(z), p.g.value
        if isinstance(j, int):
            j = z3.IntVal(0)
            e.fact(z3.Not(r.met(j, z)))
        else:
            j = self.j + 1
            e.fact(r.met(j, z) == z3.Or(r.met(self.j, z), r.el(self.j) == z))
        ensure("the new node is linked to the outside neighbours so far, %s" % when, wrap(
            linked == z3.And(p.outside(z), self.before(k, j, z))))
        if value is not None:
            ensure("with the data of their links, %s" % when, wrap(z3.Implies(linked, self.good(k, j, z, value, p.candidates(z)))))


class OneByOne(Loop):
    attrs = ("gone",)

    def match(self, seg, cells):
        if self.ready or seg.space is not self.p.space or not self.p.nodes_loop.ready:
            return False
        self.ready = True
        return True

    def havoc(self, k):
        p = self.p
        self.k = num(k)
        p.g._put(gone=lambda z: z3.And(p.merged(z), INAT(z) < self.k))

    def check(self, k, when):
        p = self.p
        z = p.anyone()
        if isinstance(k, int):
            ensure("nothing is removed at first", Not(wrap(p.g.gone(z))))
            return
        ensure("the merged nodes are removed one by one, %s" % when, wrap(p.g.gone(z) == z3.And(p.merged(z), INAT(z) <= self.k)))


class Merge:
    def __init__(self, w):
        e = E()
        nocase()
        e.assumption("merged nodes are different nodes of the graph, and its links have the same attributes")
        self.g = Merging()
        n = e.int("merged", 0)
        self.space = lists.Space(num(n), "merged")
        self.el = el = z3.Function("merged_node", I, I)

        def facts(i):
            self.g.known(wrap(el(i)))
            return [INAT(el(i)) == i, IN(el(i)), HAS(el(i))]
        self.seg = lists.Seg(self.space, lists.always, lambda i: wrap(el(i)), facts)
        self.nodes = SymList([self.seg])
        self.n, self.which = n, []
        self.nodes_loop, self.row_loop, self.out_loop = NodeByNode(self), NeighbourByNeighbour(self), OneByOne(self)
        e.invariants += [self.nodes_loop, self.row_loop, self.out_loop]

    def merged(self, z):
        j = INAT(z)
        self.space.use(j)
        self.seg.value(j)
        E().fact(IN(z) == z3.And(self.space.inside(j), self.el(j) == z))
        return IN(z)

    def outside(self, z):
        return z3.And(HAS(z), z3.Not(self.merged(z)))

    def anyone(self):
        z = E().fresh("anyone", I)
        self.g.known(wrap(z))
        self.merged(z)
        return z

    def candidates(self, z):
        return [w(z) for w in self.which] + [self.nodes_loop.k]

    def ok(self, k, z, value, ts):
        """the data is that of the link to z from one of the first k merged nodes"""
        out = []
        for t in ts:
            self.seg.value(t)
            self.g.adjacent(self.el(t), z)
            out.append(z3.And(t >= 0, t < k, ADJ(self.el(t), z), *[value(n, z) == self.g.val[n](self.el(t), z) for n in self.g.names]))
        return z3.Or(*out)


@contract("G07", "MidiGraphBuilder.merge_nodes", share=2)
def g07_merge(w):
    e = E()
    p = Merge(w)
    o = outcome(builder(w).merge_nodes, p.g, p.nodes)
    if not returns("nodes can be merged", o):
        return
    g = p.g
    if not ensure("there is a new node", g.new is not None):
        return
    ensure("the new node is given", eq(o.value, g.new))
    if not p.nodes_loop.ready:
        raise Unsupported("the loop over the merged nodes was not found")
    z = p.anyone()
    ensure("the merged nodes are removed, and no others", wrap(g.gone(z) == p.merged(z)))
    z = p.anyone()
    linked, k = g.linked(z), num(p.n)
    ensure("the new node is linked to exactly the outside neighbours", wrap(linked == z3.And(p.outside(z), BEFORE(k, z))))
    ensure("with the data of one of the links", wrap(z3.Implies(linked, p.ok(k, z, g.value, p.candidates(z)))))
    equal_lists("the list of merged nodes stays", p.nodes, [p.seg], eq)
