"""Contracts of building the graph of a sequence (G02, G03, G04)."""
from .base import *
from pyvc.lists import SymList, Tok
from pyvc import nxstub
from .listspec import *
from .seqs import Seqn, row, seq_mod
from .graphs import builder, FiledUnder


class BySet:
    """sets as keys"""
    sorts = [z3.IntSort()]

    def parts(self, k):
        return [k.ident] if isinstance(k, rt.SymSet) else None

    def make(self, t):
        return rt.SymSet(None, True, t)

    def exact(self, k, ts):
        return z3.BoolVal(True)


class ByHash(BySet):
    """hashes of sets as keys"""

    def parts(self, k):
        t = hashed(k)
        return None if t is None else [t]

    def make(self, t):
        return hash_of(t)


class ByNumber:
    """the numbers 1..n as keys"""
    sorts = [z3.IntSort()]


def hash_of(t):
    return Tok("hash", (wrap(t),))


def hashed(k):
    """the identity of the set a hash is of"""
    if isinstance(k, Tok) and k.name == "hash" and len(k.args) == 1 and isinstance(k.args[0], SymInt):
        return z3.simplify(num(k.args[0]))
    return None


def cases(d, k):
    """[(condition, value)] of an entry that is there, without splitting the path"""
    out, rest = [], True
    if d._base is None:
        for q, v in zip(d._ks, d._vs):
            out.append((same(q, k), v))
        return out
    for q, v in reversed(d._log):
        h = same(q, k)
        if h is False:
            continue
        if v is not rt.ABSENT:
            out.append((And(rest, h), v))
        rest = And(rest, Not(h))
    there, i = d._base.at(k)
    if there is not False:
        out.append((And(rest, there), d._base.value(i)))
    return out


def entry_is(d, k, f):
    """there is such an entry, and f says so of its value"""
    cs = [(c, v) for c, v in cases(d, k) if not (isinstance(c, bool) and not c)]
    return And(d.has(k), *[Implies(c, f(v)) for c, v in cs])


class View(rt.Base):
    """the entries of another base under another key or with other values"""
    flat = True

    def __init__(self, of, kind, value):
        for a in ("name", "n", "space", "keys", "inv", "about"):
            setattr(self, a, getattr(of, a))
        def told_value(i):
            for f in of.about(i):
                E().fact(f)
            return value(i)
        self.kind, self.value_, self.order = kind, told_value, None
        self.seg = Seg(self.space, lists.always, self.key, self.about)


class Numbers(View):
    """entry i under the number i + 1"""

    def at(self, k):
        if not is_num(k):
            return False, z3.IntVal(-1)
        i = z3.simplify(num(k) - 1) if num(k).is_int() else z3.ToInt(num(k) - 1)
        self.space.use(i)
        e = E()
        for f in self.about(i):
            e.fact(f)
        return wrap(z3.And(self.space.inside(i), num(k) == i + 1)), i

    def key(self, i):
        return wrap(i + 1)


class Known:
    """the sets a builder knows, numbered: entry i has the number i + 1"""
    names = ("_notes_to_hash", "_hash_to_notes", "_hash_to_index", "_index_to_hash")

    def __init__(self, name):
        e = E()
        self.n = e.fresh("known", z3.IntSort())
        e.fact(self.n >= 0)
        self.base = b = rt.Base("known" + name, self.n, ByHash(), lambda i: wrap(i + 1))
        b.flat = True
        ident = b.keys[0]
        self.ident = ident
        self.views = dict(_notes_to_hash=View(b, BySet(), lambda i: hash_of(ident(i))),
                          _hash_to_notes=View(b, ByHash(), lambda i: rt.SymSet(None, True, ident(i))),
                          _hash_to_index=b, _index_to_hash=Numbers(b, ByNumber(), lambda i: hash_of(ident(i))))

    def put(self, B):
        for n in self.names:
            d = getattr(B, n)
            rt.R.note_dict(d)
            d._ks, d._vs, d._base, d._log = [], [], self.views[n], ()

    def locs(self, B):
        return [rt.Loc("dict", getattr(B, n), None) for n in self.names]


def tables_follow(known, B, c, when):
    """the tables of the builder are those of the known sets and the set c; known numbers
    are as they were"""
    e = E()
    by_set, notes, index, number = [getattr(B, n) for n in known.names]
    t = known.base.space.generic("a_known_set")
    e.fact(known.base.space.inside(t))
    for f in known.base.about(t):
        e.fact(f)
    h, n = hash_of(known.ident(t)), wrap(t + 1)
    old = lambda s: "a number given is not changed: %s, %s" % (s, when)
    ensure(old("number of a hash"), entry_is(index, h, lambda x: eq(x, n)))
    ensure(old("hash of a number"), entry_is(number, n, lambda x: same(x, h)))
    ensure(old("set of a hash"), entry_is(notes, h, lambda x: same(hash_of(x.ident), h)))
    s = rt.SymSet(None, True, known.ident(t))
    ensure(old("hash of a set"), entry_is(by_set, s, lambda x: same(x, h)))
    total = count = wrap(known.n)
    if c is not None:
        h, s = hash_of(c), rt.SymSet(None, True, c)
        is_new = Not(known.base.at(h)[0])
        new = lambda s: "a new set gets the next number: %s, %s" % (s, when)
        ensure(new("number of a hash"), entry_is(index, h, lambda x: Implies(is_new, eq(x, count + 1))))
        ensure(new("hash of a number"), Implies(is_new, entry_is(number, count + 1, lambda x: same(x, h))))
        ensure(new("set of a hash"), entry_is(notes, h, lambda x: eq(wrap(x.ident), wrap(c))))
        ensure(new("hash of a set"), entry_is(by_set, s, lambda x: same(x, h)))
        total = If(is_new, count + 1, count)
    q = e.fresh("another_set", z3.IntSort())
    there = known.base.at(hash_of(q))[0]
    if c is not None:
        there = Or(there, wrap(q == c))
    no = "no other set is numbered, %s" % when
    ensure(no, Iff(index.has(hash_of(q)), there))
    ensure(no, Iff(notes.has(hash_of(q)), there))
    ensure(no, Iff(by_set.has(rt.SymSet(None, True, q)), there))
    m = e.fresh("a_number", z3.IntSort())
    ensure("the numbers are 1 to the count of sets, %s" % when, Iff(number.has(wrap(m)), between(1, wrap(m), total)))


class Drawn:
    """a graph of any size whose nodes are hashes of sets, as the builder makes them"""

    def __init__(self, name):
        e = E()
        I = z3.IntSort()
        self.n = e.fresh("nodes", I)
        e.fact(self.n >= 0)
        self.HAS = HAS = z3.Function("link" + name, I, I, z3.BoolSort())
        self.W = z3.Function("weight" + name, I, I, z3.RealSort())
        self.X = z3.Function("features" + name, I, I)
        self.L = z3.Function("label" + name, I, I)

        def attrs(i):
            k = self.nodes.key(i)
            return rt.VDict(attr=Tok("features", (wrap(self.X(i)),)), label=Tok("label", (wrap(self.L(i)),)), node_hash=k)
        self.nodes = rt.Base("nodes" + name, self.n, ByHash(), attrs)
        self.ident = self.nodes.keys[0]

    def put(self, g):
        rt.R.note_dict(g._nodes)
        d = g._nodes
        d._ks, d._vs, d._base, d._log = [], [], self.nodes, ()
        rt.R.note_attr(g, "_links")
        rt.R.note_attr(g, "_base")
        g._links, g._base = (), (self.there, self.data)

    def there(self, u, v):
        a, b = hashed(u), hashed(v)
        if a is None or b is None:
            return False
        e = E()
        for x, h in ((a, u), (b, v)):
            e.fact(z3.Implies(self.HAS(a, b), boo(self.nodes.at(h)[0])))
        return wrap(self.HAS(a, b))

    def data(self, u, v):
        return rt.VDict(weight=wrap(self.W(hashed(u), hashed(v))))

    def weight(self, u, v):
        """(is there a link, its weight or 0)"""
        t = self.there(u, v)
        return t, If(t, wrap(self.W(hashed(u), hashed(v))), 0)


class Nothing:
    """the graph without nodes"""
    n = 0

    def put(self, g):
        rt.R.note_dict(g._nodes)
        d = g._nodes
        d._ks, d._vs, d._base, d._log = [], [], None, ()
        rt.R.note_attr(g, "_links")
        rt.R.note_attr(g, "_base")
        g._links, g._base = (), None

    def weight(self, u, v):
        return False, 0


def weight_now(g, u, v):
    """(is there a link, its weight or 0) of the graph as it is"""
    there, cases = g.links_as_formula(u, v)
    w = 0
    for c, d in cases:
        x = wrap(E_W(g, u, v)) if d is None else d["weight"]
        w = If(c, x, w)
    return there, w


def E_W(g, u, v):
    return num(g._base[1](u, v)["weight"])


class Playing(rt.Invariant):
    """The state before group k is any in which the tables are consistent and the graph has
    the nodes of known sets, and the last set played, if one was, is a node.  Each iteration
    plays the set of the pitches of its group, as `step` says; with `parts`, the iterations
    of the outer loop are those of an inner one."""

    inner = outer = None

    def __init__(self, B, given, groups, chord):
        self.B, self.given, self.groups, self.chord = B, given, groups, chord
        self.ready = False

    def match(self, seg, cells):
        if self.ready or not self.mine(seg):
            return False
        gs = {id(g): g for g in map(rt.cell_get, cells.values()) if isinstance(g, nxstub.DiGraph)}
        if len(gs) != 1:
            return False
        self.g = list(gs.values())[0]
        last = [(n, c) for n, c in cells.items() if n in self.assigned and self.is_last(rt.cell_get(c))]
        if len(last) != 1:
            return False
        self.last, self.seg = last[0], seg
        self.others = [d for d in map(rt.cell_get, cells.values()) if isinstance(d, rt.VDict) and d is not self.groups]
        self.ready = True
        return True

    def mine(self, seg):
        with E().scope():
            k = seg.value(seg.space.quiet("any"))
        return isinstance(k, Tok)

    def is_last(self, v):
        return v is None or hashed(v) is not None

    def modifies(self):
        n, c = self.last
        ls = [rt.Loc("cell", c, n), rt.Loc("dict", self.g._nodes, None), rt.Loc("attr", self.g, "_links"),
              rt.Loc("attr", self.g, "_base")]
        return ls + Known("x").locs(self.B) + [rt.Loc("dict", d, None) for d in self.others]

    def anything(self, d):
        """a dictionary nobody reads from"""
        rt.R.note_dict(d)
        d._ks, d._vs, d._base, d._log = [], [], Unread(), ()

    def havoc(self, k):
        e = E()
        mark = "%d" % len(e.keep)
        self.known = Known(mark)
        e.keep.append(self.known)
        self.known.put(self.B)
        for d in self.others:
            self.anything(d)
        if self.could_be_new() and e.branch(boo(eq(k, 0))):
            self.was, self.prev = Nothing(), None
        else:
            self.was = Drawn(mark)
            self.prev = hash_of(e.fresh("last_set", z3.IntSort()))
            e.fact(boo(self.was.nodes.at(self.prev)[0]))
        self.was.put(self.g)
        rt.cell_set(self.last[1], self.prev)
        self.k = num(k) if not isinstance(k, int) else z3.IntVal(k)

    def could_be_new(self):
        return self.given is None

    def check(self, k, when):
        if isinstance(k, int) and k == 0:
            return self.well_formed(when)
        if self.inner is not None and self.inner.ready:
            return self.inner.over(when)
        step(self, self.chord(self.seg, self.k), when)

    def well_formed(self, when):
        """what holds before the first group: nothing, or what was given"""
        last = rt.cell_get(self.last[1])
        if self.given is None:
            ensure("a new graph is empty %s" % when, eq(rt._len(self.g._nodes), 0))
            ensure("nothing was played %s" % when, last is None)
        else:
            ensure("the graph given is used %s" % when, self.g is self.given)
            if ensure("something was played %s" % when, last is not None):
                ensure("the last set played is a node, %s" % when, self.g._nodes.has(last))


class PlayingParts(Playing):
    """the same for the loop over the parts of one group"""

    def __init__(self, outer, slicing):
        self.B, self.given, self.groups = outer.B, outer.given, outer.groups
        self.outer, self.slicing, self.ready = outer, slicing, False
        outer.inner = self

    def mine(self, seg):
        return self.outer.ready and self.slicing.ready and seg.space is self.slicing.space

    def could_be_new(self):
        return self.outer.prev is None

    def untouched(self, inv):
        ds = [self.g._nodes] + [getattr(self.B, n) for n in Known.names]
        if any(d._log for d in ds) or self.g._links or any(getattr(self.B, n)._base is not inv.known.views[n] for n in Known.names):
            raise Unsupported("changes outside the loop over the parts")
        if self.g._nodes._base is not (inv.was.nodes if isinstance(inv.was, Drawn) else None):
            raise Unsupported("changes outside the loop over the parts")
        ensure("the last set played is remembered", same(rt.cell_get(self.last[1]), inv.prev))

    def chord(self, seg, k):
        def members(s, when):
            ensure("the parts are played one after the other, %s" % when, eq(wrap(s.ident), wrap(seg.value(k).ident)))
        return members

    def well_formed(self, when):
        self.untouched(self.outer)
        self.slicing.whole(when)
        self.outer.chord(self.outer.seg, self.outer.k)(self.slicing.set, when)

    def over(self, when):
        """after the last part"""
        self.untouched(self)
        ensure("something was played %s" % when, self.prev is not None)

    def havoc(self, k):
        Playing.havoc(self, k)


class Slicing(rt.WhileInvariant):
    """The parts cut so far are consecutive runs of the elements of the set, none empty or
    longer than the feature size, and the next one starts where the last ends."""

    def __init__(self, size):
        self.size, self.ready = size, False

    def match(self, seg, cells):
        vs = [rt.cell_get(c) for c in cells.values()]
        its = [v for v in vs if isinstance(v, rt.GenIter) and not isinstance(v, rt.PartIter) and v.off is None]
        ls = [v for v in vs if isinstance(v, SymList) and not v.segs]
        if self.ready or len(its) != 1 or len(ls) != 1 or len(its[0].l.segs) != 1:
            return False
        s = [s for s in E().symsets.values() if s.enum is its[0].l.segs[0]]
        if not s:
            return False
        self.it, self.list, self.set = its[0], ls[0], s[0]
        self.seg = self.set.seg()
        self.ready = True
        return True

    def modifies(self):
        return [rt.Loc("attr", self.it, "off"), rt.Loc("list", self.list, None)]

    def havoc(self):
        e = E()
        I = z3.IntSort()
        k = "p%d" % len(e.keep)
        self.S = S = e.fresh("parts", I)
        self.OFF, self.SZ, self.ID = OFF, SZ, ID = [z3.Function(n + k, I, I) for n in ("start_", "size_", "part_")]
        size = num(self.size)
        e.fact(z3.And(S >= 0, OFF(0) == 0, OFF(S) >= 0, OFF(S) <= self.seg.space.n))
        self.space = sp = lists.Space(S, "parts" + k)
        e.keep.append(sp)

        def about(s):
            return [z3.Implies(sp.inside(s), z3.And(OFF(s) >= 0, SZ(s) >= 1, SZ(s) <= size, OFF(s + 1) == OFF(s) + SZ(s),
                                                    OFF(s + 1) <= OFF(S)))]
        made = {}

        def part(s):
            if s.get_id() not in made:
                psp = lists.Space(SZ(s), "elements%d" % len(e.keep))

                def at(j):
                    self.seg.space.use(OFF(s) + j)
                    return self.seg.value(OFF(s) + j)
                src = SymList([Seg(psp, lists.always, at, lambda j: self.seg.facts(OFF(s) + j))])
                p = rt.SymSet(src, True, ID(s))
                e.symsets[p.ident.get_id()] = p
                made[s.get_id()] = p, s, psp
            return made[s.get_id()][0]
        rt.R.note_list(self.list)
        self.list.segs = [Seg(sp, lists.always, part, about)]
        rt.R.note_attr(self.it, "off")
        self.it.off = OFF(S)
        self.pos = OFF(S)

    def check(self, when):
        e = E()
        if when == "before the loop":
            return
        segs = self.list.segs
        if len(segs) != 2 or segs[0].space is not self.space or not isinstance(segs[1], lists.Elem) or \
                not isinstance(segs[1].v, rt.SymSet):
            raise Unsupported("parts cut in another way")
        src = SymList(lists.as_segs(segs[1].v.source))
        ensure("a part has an element and at most the feature size, %s" % when, between(1, rt._len(src), self.size))
        ensure("the next part starts where this one ends, %s" % when, eq(wrap(self.it.off), wrap(self.pos) + rt._len(src)))
        j = e.int("element", 0)
        e.add(j < rt._len(src))
        self.seg.space.use(z3.simplify(self.pos + num(j)))
        ensure("a part has the next elements of the set, in order, %s" % when, eq(src[j], self.seg.value(self.pos + num(j))))

    def whole(self, when):
        ensure("the parts hold all elements of the set, %s" % when, eq(wrap(self.it.off), wrap(self.seg.space.n)))


class Loudest(rt.Invariant):
    """of the notes before k, a dictionary has the pitches of those in the part, each with
    the highest velocity any of them has"""

    def __init__(self, groups):
        self.groups, self.ready = groups, False

    def match(self, seg, cells):
        if self.ready or seg.space is not self.groups.seg.space:
            return False
        ds = {id(d): d for d in map(rt.cell_get, cells.values()) if isinstance(d, rt.VDict)}
        ps = {id(d): d for d in map(rt.cell_get, cells.values()) if isinstance(d, rt.SymSet)}
        if len(ds) != 1 or len(ps) != 1:
            return False
        self.d, self.part = list(ds.values())[0], list(ps.values())[0]
        if self.d._base is not None or self.d._ks:
            return False
        self.seg, self.ready = seg, True
        return True

    def modifies(self):
        return [rt.Loc("dict", self.d, None)]

    def counts(self, i):
        """note i is one of the group with a pitch of the part"""
        return z3.And(self.seg.inr(i), boo(self.part.has(self.seg.value(i).pitch, True)))

    def havoc(self, k):
        e = E()
        I = z3.IntSort()
        self.k = k = num(k)
        m = e.fresh("loud", I)
        e.fact(m >= 0)
        name = "loud%d" % len(e.keep)
        MV = z3.Function("velocity_" + name, I, I)
        self.W = W = z3.Function("note_" + name, I, I)
        seg = self.seg

        def entry(key, b):
            w = W(b)
            seg.space.use(w)
            n = seg.value(w)
            return [z3.And(w >= 0, w < k, self.counts(w), boo(eq(n.pitch, key)), boo(eq(n.velocity, wrap(MV(b)))))]
        self.base = base = rt.Base(name, m, z3.IntSort(), lambda b: wrap(MV(b)), entry)
        base.flat = True

        def there(i):
            n = seg.value(i)
            p = num(n.pitch)
            b = base.inv(p)
            return z3.Implies(z3.And(i < k, self.counts(i)), z3.And(base.space.inside(b), base.keys[0](b) == p, boo(n.velocity <= wrap(MV(b)))))
        e.forall(seg.space, there, "the notes before are in the dictionary")
        rt.R.note_dict(self.d)
        self.d._ks, self.d._vs, self.d._base, self.d._log = [], [], base, ()

    def check(self, k, when):
        e = E()
        if isinstance(k, int) and k == 0:
            return
        seg, k = self.seg, num(k)
        i = seg.space.generic("a_note")
        e.fact(seg.space.inside(i))
        n = seg.value(i)
        ensure("every pitch of the part has the highest velocity of its notes, %s" % when, Implies(
            wrap(z3.And(i < k, self.counts(i))), entry_is(self.d, n.pitch, lambda v: n.velocity <= v)))
        q = wrap(e.fresh("a_pitch", z3.IntSort()))
        now = self.k
        seg.space.use(now)
        new = lambda v: And(wrap(self.counts(now)), eq(seg.value(now).pitch, q), eq(seg.value(now).velocity, v))
        c, b = self.base.at(q)
        old = lambda v: And(c, eq(v, self.base.value(b)))
        ensure("only velocities of notes are noted, %s" % when, Implies(self.d.has(q), entry_is(self.d, q, lambda v: Or(new(v), old(v)))))

    def asked(self, vs, part):
        """the list given on has these velocities, in the order of the part"""
        e = E()
        ensure("a velocity for each pitch of a part", eq(rt._len(vs), part.length()))
        j = e.int("pitch_of_part", 0)
        e.add(j < part.length())
        s = part.seg()
        t = num(j)
        s.space.use(t)
        for f in s.facts(t):
            e.fact(f)
        p, v = s.value(t), vs[j]
        i = self.seg.space.generic("a_note")
        e.fact(self.seg.space.inside(i))
        n = self.seg.value(i)
        ensure("the velocity of a pitch is the highest of its notes", Implies(wrap(z3.And(self.counts(i), boo(eq(n.pitch, p)))), n.velocity <= v))
        x = self.W(self.base.at(p)[1])
        self.seg.space.use(x)
        ensure("the velocity of a pitch is that of one of its notes",
               And(wrap(self.counts(x)), eq(self.seg.value(x).pitch, p), eq(self.seg.value(x).velocity, v)))


class Unread(rt.Base):
    """entries that are never read"""
    flat = True

    def __init__(self):
        pass

    def at(self, k):
        raise Unsupported("what an earlier group left is read")

    @property
    def n(self):
        raise Unsupported("what earlier groups left is counted")

    in_order = at


def step(inv, members, when):
    """one set is played: `members(v)` says whether v is one of its pitches"""
    e = E()
    g, was, prev = inv.g, inv.was, inv.prev
    last = rt.cell_get(inv.last[1])
    c = hashed(last)
    if not ensure("the set played is remembered, %s" % when, c is not None):
        return
    s = e.symsets.get(c.get_id())
    if s is None:
        ensure("the set played is made in the iteration, %s" % when, Or(*[wrap(c == x.ident) for x in e.symsets.values()]))
        return
    members(s, when)
    ensure("a set played is no larger than the feature size, %s" % when, s.length() <= inv.size)
    nodes = g._nodes
    # nodes
    own = "nodes have features, a label and their hash, %s" % when
    ensure("the set played is a node, %s" % when, nodes.has(last))
    ensure(own, entry_is(nodes, last, lambda d: all(a in d for a in ("attr", "label", "node_hash"))))
    ensure(own, entry_is(nodes, last, lambda d: entry_is(d, "node_hash", lambda x: same(x, last))))
    features = lambda x: same(x, Tok("tensor", (wrap(c),)))
    if isinstance(was, Drawn):
        at = was.nodes.at(last)[1]
        kept = lambda x: same(x, Tok("features", (wrap(was.X(at)),)))
        ensure("the features of a node are made from its set, %s" % when, entry_is(nodes, last, lambda d: entry_is(
            d, "attr", lambda x: Or(features(x), And(was.nodes.at(last)[0], kept(x))))))
    else:
        ensure("the features of a node are made from its set, %s" % when,
               entry_is(nodes, last, lambda d: entry_is(d, "attr", features)))
    q = e.fresh("another_node", z3.IntSort())
    h = hash_of(q)
    before = was.nodes.at(h)[0] if isinstance(was, Drawn) else False
    ensure("no other node is added or lost, %s" % when, Iff(nodes.has(h), Or(before, wrap(q == c))))
    if isinstance(was, Drawn):
        t = was.nodes.space.generic("a_node")
        e.fact(was.nodes.space.inside(t))
        for f in was.nodes.about(t):
            e.fact(f)
        k = was.nodes.key(t)
        for a, b in was.nodes.value(t).items():
            ensure("the other nodes keep their attributes, %s" % when, Implies(Not(same(k, last)), entry_is(
                nodes, k, lambda d: entry_is(d, a, lambda x: same(x, b)))))
    # links
    u, v = e.fresh("u", z3.IntSort()), e.fresh("v", z3.IntSort())
    hu, hv = hash_of(u), hash_of(v)
    old_there, old_w = was.weight(hu, hv)
    there, w = weight_now(g, hu, hv)
    if prev is None:
        a = b = c
    else:
        p = hashed(prev)
        back = boo(was.weight(last, prev)[0])
        a, b = z3.If(back, c, p), z3.If(back, p, c)
    here = wrap(z3.And(u == a, v == b))
    ensure("exactly one to one link: where there are links, %s" % when, Iff(there, Or(old_there, here)))
    ensure("exactly one to one link: the weights, %s" % when, eq(w, old_w + If(here, 1, 0)))
    tables_follow(inv.known, inv.B, c, when)


def groups_by_contract(w, s):
    """what compute_data gives: the audible notes of the sequence, in any groups (G01)"""
    e = E()
    seg = s.segs[0]
    sp = seg.space
    I = z3.IntSort()
    m = e.fresh("groups", I)
    e.fact(m >= 0)
    IN = z3.Function("grouped", I, z3.BoolSort())
    KEY = z3.Function("key_of_note", I, z3.RealSort())
    FIRST = z3.Function("first_start", I, z3.RealSort())
    ARG = z3.Function("first_note", I, I)
    LAST = z3.Function("last_start", I, z3.RealSort())
    ARGL = z3.Function("last_note", I, I)
    start = lambda i: real(num(seg.value(i).start_time))

    def group(b):
        q = base.keys[0](b)
        mine = lambda i: z3.And(IN(i), KEY(i) == q)

        def about(i):
            return (seg.facts(i) if seg.facts else []) + [z3.Implies(mine(i), z3.And(start(i) >= FIRST(b), start(i) <= LAST(b)))]
        g = Seg(sp, mine, seg.value, about)
        g.kin = lists.Kin([("min", lambda i: wrap(start(i)), wrap(FIRST(b))), ("max", lambda i: wrap(start(i)), wrap(LAST(b)))])
        sp.use(ARG(b))
        sp.use(ARGL(b))
        return SymList([g])

    def entry(key, b):
        a = ARG(b)
        sp.use(a)
        z = ARGL(b)
        sp.use(z)
        return [z3.And(x >= 0, x < sp.n, IN(x), KEY(x) == base.keys[0](b), start(x) == f(b)) for x, f in ((a, FIRST), (z, LAST))]
    base = rt.Base("groups", m, FiledUnder(True), group, entry)

    def heard(i):
        n = seg.value(i)
        return z3.Implies(IN(i), boo(And(Not(n.is_drum), n.velocity > 0)))
    e.forall(sp, heard, "only notes that are heard are grouped")
    d = rt.VDict()
    d._base = base
    d.FIRST, d.IN, d.KEY, d.seg = FIRST, IN, KEY, seg
    L = e.int("longest", 0)
    return d, L


def pitches_of_group(d):
    """the pitches of group seg.value(k) are exactly the members of the set played"""
    def chord(seg, k):
        e = E()
        notes = d.seg
        key = seg.value(k)

        def members(s, when):
            b = d._base.at(key)[1]
            q = d._base.keys[0](b)
            i = notes.space.generic("a_note")
            e.fact(notes.space.inside(i))
            n = notes.value(i)
            mine = z3.And(d.IN(i), d.KEY(i) == q)
            ensure("the set played has the pitches of the notes of its group, %s" % when, Implies(wrap(mine), s.has(n.pitch)))
            en = s.seg()
            j = en.space.generic("a_pitch")
            e.fact(en.space.inside(j))
            for f in en.facts(j):
                e.fact(f)
            p = en.value(j)
            alts = []
            for g, fr in zip(as_segs_of(s), s.frm):
                if isinstance(g, lists.Elem) or g.space is not notes.space:
                    raise Unsupported("a set of other things")
                x = fr(j)
                notes.space.use(x)
                alts.append(z3.And(notes.space.inside(x), d.IN(x), d.KEY(x) == q, boo(eq(notes.value(x).pitch, p))))
            ensure("the set played has no other pitches, %s" % when, wrap(z3.Or(*alts)))
        return members
    return chord


def as_segs_of(s):
    return lists.as_segs(s.source)


@contract(("G02", "G03"), "MidiGraphBuilder.build_sequence, a new graph", share=3)
def g02_new(w):
    played(w, False)


@contract(("G02", "G03"), "MidiGraphBuilder.build_sequence, added to a graph", share=3)
def g02_added(w):
    played(w, True)


@contract(("G02", "G04"), "MidiGraphBuilder.build_sequence, with velocities", share=3)
def g02_loud(w):
    played(w, False, True)


def played(w, more, loud=False):
    e = E()
    s = Seqn(w, drum=None)
    nocase()
    B = builder(w)
    d, L = groups_by_contract(w, s)
    by_contract(B, "compute_data", lambda *a, **k: (d, L), "G01 MidiGraphBuilder.compute_data", True)

    def tensor(kind, pitches, *a, **k):
        names = ("velocity_set", "feature_vec_size", "num_classes", "velocity_num_buckets")
        k.update(zip(names, a))
        ensure("features are made in the size asked for", eq(k.get("feature_vec_size", 12), size))
        ensure("features are made in the form asked for", kind is form)
        vs = k.get("velocity_set")
        if not loud:
            ensure("no velocities are put into features unasked", vs is None)
        elif ensure("velocities are scaled", id(vs) in scaled):
            if loudest.ready:
                loudest.asked(scaled[id(vs)][1], pitches)
        return Tok("tensor", (wrap(pitches.ident),))
    scaled = {}
    forms = w.load(PKG + "midi_graph_builder").NodeAttributeType
    form = forms.OneHotTensor if more else forms.Tensor

    def rescaled(vs, *a, **k):
        n = rt._len(vs)
        l = lists.num_list("scaled%d" % len(scaled), n, "int", lambda v: boo(between(32, v, 127)))
        scaled[id(l)] = l, SymList(segs_of(vs))
        return l
    by_contract(B, "rescale_velocities", rescaled, "V01 MidiGraphBuilder.rescale_velocities", True)
    by_contract(B, "create_tensor", tensor, "G04 MidiGraphBuilder.create_tensor", True)
    size = e.int("size", 1, 128)
    x = B()
    known = Known("before")
    known.put(x)
    g = None
    if more:
        was = Drawn("given")
        e.add(wrap(was.n > 0))
        g = nxstub.DiGraph()
        was.put(g)
    inv = Playing(x, g, d, pitches_of_group(d))
    cut = Slicing(size)
    parts = PlayingParts(inv, cut)
    inv.size = parts.size = size
    loudest = Loudest(d)
    e.invariants += [inv, cut, parts] + [loudest] * loud
    tol = e.real("tolerance", 0, 1)
    o = outcome(x.build_sequence, s.x, feature_vec_size=size, tolerance=tol, g=g, is_include_velocity=loud, node_attr_type=form)
    if not returns("a sequence can be played", o):
        return
    if e.branch(d._base.n == 0):
        ensure("nothing audible leaves the graph as it was", (o.value is g) if more else eq(rt._len(o.value._nodes), 0))
        return
    if not inv.ready:
        raise Unsupported("the loop that plays the groups was not found")
    ensure("the graph played on is returned", o.value is inv.g)
    seg, base = inv.seg, d._base
    ensure("as many steps as groups", eq(rt._len(SymList([seg])), wrap(base.n)))
    i, j = seg.space.generic("i"), seg.space.generic("j")
    e.fact(z3.And(0 <= i, i < j, j < seg.space.n))
    (ti, a), (tj, b) = base.at(seg.value(i)), base.at(seg.value(j))
    ensure("each step plays a group", And(ti, tj))
    ensure("no group is played twice", Not(wrap(a == b)))
    ensure("groups are played in the order of their first notes", wrap(d.FIRST(a) <= d.FIRST(b)))
