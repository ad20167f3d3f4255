"""Contracts of the graph builder (V01, G01..G07)."""
from .base import *
from pyvc.lists import num_list, SymList
from .listspec import *
from .seqs import Seqn, row, seq_mod


def builder(w):
    return w.load(PKG + "midi_graph_builder").MidiGraphBuilder


# --------------------------------------------------------------------- V01
def velocities(w):
    """velocities of any number, or exactly none or one"""
    e = E()
    how = e.choose(["any", "none", "one"])
    if how == "none":
        return SymList(), 0
    if how == "one":
        return SymList([lists.Elem(e.int("v", 0, 127))]), 1
    n = e.int("len.vs", 2)
    return num_list("vs", n, "int", lambda v: boo(between(0, v, 127))), n


def how_many(n):
    return n if isinstance(n, int) else 2


def whole_numbers(name, l):
    each(name, l, lambda x: is_num(x) and eq(x, trunc_(x)))


@contract("V01", "MidiGraphBuilder.rescale_velocities", share=2)
def v01_rescale(w):
    e = E()
    vs, n = velocities(w)
    lo, hi = e.int("lo", 0, 127), e.int("hi", 0, 127)
    e.add(lo <= hi)
    case("rescale", vs=lists.Rows(vs, lambda v: v), lo=lo, hi=hi, f=1.0)
    before = SymList(vs.segs)
    o = outcome(builder(w).rescale_velocities, vs, lo, hi)
    if not returns("velocities can be rescaled", o):
        return
    out = SymList(segs_of(o.value))
    ensure("as many as given", eq(rt._len(out), n))
    equal_lists("the given ones are not changed", vs, before, eq)
    whole_numbers("whole numbers", out)
    each("within the target range", out, lambda x: between(lo, x, hi))
    if not how_many(n):
        return
    if how_many(n) == 1:
        v = vs[0]
        ensure("a single velocity is scaled linearly and rounded", absdiff(out[0], v * (hi - lo) / 127 + lo) <= 0.5)
        return
    i, j = e.int("i", 0), e.int("j", 0)
    e.add(And(i < n, j < n))
    a, b, x, y = vs[i], vs[j], out[i], out[j]
    ensure("the order is kept", Implies(a <= b, x <= y))
    differ = a < b
    if e.branch(boo(eq(a, rt.BUILTINS["min"](vs)))) and e.branch(boo(differ)):
        ensure("the least becomes the minimum of the target", eq(x, lo))
        if e.branch(boo(eq(b, rt.BUILTINS["max"](vs)))):
            ensure("the greatest becomes the maximum of the target", eq(y, hi))


@contract("V01", "MidiGraphBuilder.scale_relative_velocities")
def v01_scale(w):
    e = E()
    vs, n = velocities(w)
    f = e.real("f", 0)
    case("rescale", vs=lists.Rows(vs, lambda v: v), lo=32, hi=127, f=f)
    o = outcome(builder(w).scale_relative_velocities, vs, f)
    if not returns("velocities can be scaled", o):
        return
    out = SymList(segs_of(o.value))
    ensure("as many as given", eq(rt._len(out), n))
    whole_numbers("whole numbers", out)
    if not how_many(n):
        return
    i = e.int("i", 0)
    e.add(i < n)
    v, x = vs[i], out[i]
    ensure("each is multiplied, limited and cut to a whole number", eq(x, trunc_(clamp(v * f, 0, 127))))


# --------------------------------------------------------------------- G01
class FiledUnder:
    """numbers, or their hashes, as keys"""
    sorts = [z3.RealSort()]

    def __init__(self, hashed):
        self.hashed = hashed

    def parts(self, k):
        if isinstance(k, lists.Tok):
            if not self.hashed or k.name != "hash" or len(k.args) != 1 or not is_num(k.args[0]):
                return None
            k = k.args[0]
        elif self.hashed or not is_num(k):
            return None
        return [z3.simplify(real(num(k)))]

    def make(self, t):
        return lists.Tok("hash", (wrap(t),)) if self.hashed else wrap(t)

    def exact(self, k, ts):
        return z3.BoolVal(True)


class Grouping(rt.Invariant):
    """of the notes before k, those that are filed are in the list of their key, once, and
    nothing else is in the lists; the size of the longest list is known.  Under which key
    a note is filed, if at all, is read off the body."""

    def __init__(self, seq):
        self.seq = seq
        self.ready = False

    def match(self, seg, cells):
        if self.ready or len(self.seq.segs) != 1 or seg.space is not self.seq.segs[0].space:
            return False
        ds = {id(d): d for d in map(rt.cell_get, cells.values()) if isinstance(d, rt.VDict)}
        ns = [(n, c) for n, c in cells.items() if is_num(rt.cell_get(c)) and n in self.assigned]
        if len(ds) != 1 or len(ns) != 1 or list(ds.values())[0]._base is not None:
            return False
        self.d, self.longest = list(ds.values())[0], ns[0]
        if self.d._ks:
            return False
        self.seg, self.space = seg, seg.space
        return self.read(self.body, cells)

    def read(self, body, cells):
        """under which key the body files a note: AUD(i), KEY(i)"""
        e = E()

        def peek(i, exit):
            if exit is not None:
                return "leaves"
            return [(k, list(v.segs)) for k, v in zip(self.d._ks, self.d._vs)]
        outs = rt.trial(self.seg, body, cells, peek)
        self.AUD = AUD = z3.Function("filed", z3.IntSort(), z3.BoolSort())
        self.KEY = KEY = z3.Function("filed_under", z3.IntSort(), z3.RealSort())
        kinds = set()
        for o in list(outs):
            if o.seen == "leaves":
                with e.scope():
                    t = self.space.generic("leaving")
                    e.fact(self.space.inside(t))
                    for f in o.facts(t):
                        e.fact(f)
                    self.seg.value(t)
                    if e.decide_vc(z3.Not(o.cond(t)))[0] != "discharged":
                        return False
                outs.remove(o)
                continue
            if len(o.seen) > 1:
                return False
            if o.seen:
                kinds.add(isinstance(o.seen[0][0], lists.Tok))
        if len(kinds) > 1:
            return False
        self.kind = FiledUnder(kinds.pop() if kinds else True)
        for o in outs:
            o.key = self.kind.parts(o.seen[0][0])[0] if o.seen else None
        filed = [o for o in outs if o.seen]
        self.means = lambda t: z3.And(
            AUD(t) == z3.Or(*[o.cond(t) for o in filed]),
            *[z3.Implies(o.cond(t), KEY(t) == o.at(o.key, t)) for o in filed], *[f for o in outs for f in o.facts(t)])
        self.ready = True
        return True

    def modifies(self):
        n, c = self.longest
        return [rt.Loc("cell", c, n), rt.Loc("dict", self.d, None)]

    def member(self, q, upto):
        return lambda i: z3.And(i < upto, self.AUD(i), self.KEY(i) == q)

    def havoc(self, k):
        e = E()
        k = num(k)
        self.mark = mark = "g%d" % len(e.invariants)
        m = e.fresh("groups", z3.IntSort())
        e.fact(m >= 0)
        W = z3.Function("a_member", z3.IntSort(), z3.IntSort())
        CNT = z3.Function("size_of_group", z3.RealSort(), z3.IntSort())
        sp, AUD, KEY = self.space, self.AUD, self.KEY

        def group(b):
            q = base.keys[0](b)
            s = Seg(sp, self.member(q, k), self.seg.value_, self.seg.facts)
            s.count = CNT(q)
            w = W(b)
            sp.use(w)
            return SymList([s])

        def entry(key, b):
            w = W(b)
            q = base.keys[0](b)
            return [z3.And(w >= 0, w < num(self.n), w < k, AUD(w), KEY(w) == q, CNT(q) >= 1)]
        self.n = wrap(sp.n)
        self.base = base = rt.Base("groups", m, self.kind, group, entry)

        def there(i):
            b = base.inv(KEY(i))
            base.space.use(b)
            return z3.Implies(z3.And(i < k, AUD(i)), z3.And(b >= 0, b < m, base.keys[0](b) == KEY(i)))
        e.forall(sp, there, "a filed note has a group")
        # the longest
        L = e.fresh("longest", z3.IntSort())
        self.top = top = e.fresh("longest_group", z3.IntSort())
        base.space.use(top)
        for f in base.about(top):
            e.fact(f)
        e.fact(z3.If(m == 0, L == 0, z3.And(top >= 0, top < m, L == CNT(base.keys[0](top)))))
        e.forall(base.space, lambda b: z3.Implies(base.space.inside(b), L >= CNT(base.keys[0](b))), "the longest")
        rt.R.note_dict(self.d)
        self.d._ks, self.d._vs, self.d._base, self.d._log = [], [], base, ()
        rt.cell_set(self.longest[1], wrap(L))
        self.k = k

    def check(self, k, when):
        e = E()
        if isinstance(k, int) and k == 0:
            ensure("no groups %s" % when, eq(rt._len(self.d), 0))
            ensure("no longest group %s" % when, eq(rt.cell_get(self.longest[1]), 0))
            return
        self.space.use(z3.simplify(self.k))
        e.fact(self.means(self.k))
        L = rt.cell_get(self.longest[1])
        groups_are(self, self.d, L, num(k), when)
        # some group is as long as that
        own = self.kind.make(self.KEY(self.k))
        if e.branch(self.AUD(self.k)) and e.branch(boo(eq(L, rt._len(self.d[own])))):
            return
        if e.branch(self.base.n > 0):
            ensure("the longest is the length of a group, %s" % when, eq(L, rt._len(self.d[self.base.key(self.top)])))
        else:
            ensure("the longest is the length of a group, %s" % when, And(eq(L, 0), Not(wrap(self.AUD(self.k)))))


def groups_are(inv, d, L, upto, when):
    """the lists of d are those of the filed notes before `upto`; none is longer than L"""
    e = E()
    sp = inv.space
    q = e.fresh("key", z3.RealSort())
    key = inv.kind.make(q)
    i = sp.generic("note")
    e.fact(sp.inside(i))
    mine = wrap(inv.member(q, upto)(i))
    if not e.branch(boo(d.has(key))):
        ensure("every filed note has a group, %s" % when, Not(mine))
        return
    l = d[key]
    cnt = 0
    for s in segs_of(l):
        if isinstance(s, lists.Elem):
            cnt = cnt + If(lists.same_object(s.v, inv.seg.value(i)), 1, 0)
        elif s.space is sp:
            cnt = cnt + If(wrap(boo(s.guard(i))), 1, 0)
            ensure("groups hold the notes themselves, %s" % when, lists.same_object(s.value(i), inv.seg.value(i)))
        else:
            raise Unsupported("groups of other things")
    ensure("a group holds each note filed under its key once, and no other, %s" % when, eq(cnt, If(mine, 1, 0)))
    ensure("no group is empty, %s" % when, l.nonempty())
    ensure("no group is longer than the longest, %s" % when, rt._len(l) <= L)


def sp_of(s):
    return s.segs[0].space


for TOL in ("zero", "some"):
    for AUTO in (False, True):
        contract("G01", "MidiGraphBuilder.compute_data, %s tolerance%s" % (TOL == "zero" and "no" or TOL, AUTO and ", derived" or ""),
                 share=3, abstract=TOL == "some" and "opaque")(lambda w, tol=TOL, auto=AUTO: g01_groups(w, tol, auto))


def g01_groups(w, tol, auto):
    e = E()
    s = Seqn(w, drum=None)
    single = e.choose([False, True])
    t = 0.0 if tol == "zero" else e.real("tolerance")
    if tol != "zero":
        e.add(t > 0)
    nocase()
    inv = Grouping(s)
    e.invariants.append(inv)
    B = builder(w)
    if auto:
        by_contract(B, "compute_tolerance", lambda *a: t, "G01 MidiGraphBuilder.compute_tolerance", True)
    o = outcome(B.compute_data, s.x, 0.123 if auto else t, single, tolerance_auto=auto)
    if not returns("notes can be grouped", o):
        return
    d, L = o.value
    if not inv.ready:
        if not e.branch(sp_of(s).n <= 0):
            raise Unsupported("the loop that groups the notes was not found")
        ensure("no notes make no groups", And(eq(rt._len(d), 0), eq(L, 0)))
        return
    sp, seg = inv.space, inv.seg
    i, j = sp.generic("i"), sp.generic("j")
    for x in (i, j):
        e.fact(sp.inside(x))
        e.fact(inv.means(x))
    a, b = seg.value(i), seg.value(j)
    heard = And(Not(a.is_drum), a.velocity > 0)
    ensure("exactly the audible notes that are no drum notes are filed", eq(wrap(inv.AUD(i)), heard))
    both = wrap(z3.And(inv.AUD(i), inv.AUD(j)))
    one = wrap(inv.KEY(i) == inv.KEY(j))
    ensure("notes with the same start are in one group", Implies(And(both, eq(a.start_time, b.start_time)), one))
    ensure("the starts of a group lie within the tolerance and a hundredth",
           Implies(And(both, one), absdiff(a.start_time, b.start_time) <= t + 0.01))
    if not single:
        groups_are(inv, d, L, sp.n, "in the end")
        return
    q = e.fresh("a_key", z3.RealSort())
    key = inv.kind.make(q)
    there, at = inv.base.at(key)
    if not e.branch(boo(there)):
        ensure("leaving out single notes adds no group", Not(d.has(key)))
        return
    full = inv.base.value(at)
    if e.branch(boo(rt._len(full) > 1)):
        if ensure("groups of several notes stay", d.has(key)):
            equal_lists("groups that stay are as they were", d[key], full, lists.same_object)
    else:
        ensure("groups of one note are left out", Not(d.has(key)))


@contract("G01", "MidiGraphBuilder.compute_tolerance")
def g01_tolerance(w):
    e = E()
    s = Seqn(w, drum=None)
    nocase()
    o = outcome(builder(w).compute_tolerance, s.x)
    if returns("a sequence has a tolerance", o):
        ensure("the tolerance is not negative", o.value >= 0)
        ensure("few notes have no tolerance", Implies(rt._len(s.notes) < 3, eq(o.value, 0)))
