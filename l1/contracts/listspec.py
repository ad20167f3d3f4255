"""Statements about sequences of any length, as obligations."""
from .base import *
from pyvc.lists import Seg, Elem, SymList, Space, as_segs, is_view


def segs_of(x):
    """segments of a list, generator or loop result"""
    if type(x) is list and x and all(isinstance(v, (Seg, Elem)) for v in x):
        return x
    s = rt.seglist(rt.it(x)) if not isinstance(x, (SymList, list, tuple)) else x
    return as_segs(s if s is not None else x)


def live(segs):
    """the segments that are not certainly empty"""
    e = E()
    out = []
    for s in segs:
        if isinstance(s, Seg):
            if e.s is not None:
                with e.scope():
                    i = s.space.generic("live")
                    e.add(s.inr(i))
                    if e.check() == z3.unsat:
                        continue
        out.append(s)
    return out


def each(name, segs, pred, detail=None):
    """pred(value) for every element (pred returns a truth value)"""
    e = E()
    ok = True
    for s in segs_of(segs):
        if isinstance(s, Elem):
            ok = ensure(name, pred(s.v), detail) and ok
        else:
            with e.scope():
                i = s.space.generic("any")
                e.add(s.inr(i))
                ok = ensure(name, pred(s.value(i)), detail) and ok
    if not segs_of(segs):
        ensure(name, True)
    return ok


def some(name, segs, pred, also=False, detail=None):
    """pred(value) for some element, or `also`"""
    e = E()
    with e.scope():
        e.add(Not(also))
        for s in segs_of(segs):
            if isinstance(s, Elem):
                e.add(Not(pred(s.v)))
            else:
                e.forall(s.space, lambda i, s=s: z3.Implies(boo(s.guard(i)), z3.Not(boo(pred(s.value(i))))), "none")
        return ensure(name, False, detail or "no element is as it should be")


def latest(name, T, segs, f, floor=None):
    """T is the largest f(value), or the floor when that is larger or there is none"""
    each(name, segs, lambda v: f(v) <= T)
    if floor is not None:
        ensure(name, T >= floor)
    some(name, segs, lambda v: eq(f(v), T), also=False if floor is None else eq(T, floor))


def equal_lists(name, got, want, eqv):
    """the same elements in the same order"""
    e = E()
    g, w = segs_of(got), segs_of(want)
    if not same_shape(g, w):
        g, w = live(g), live(w)
    if not same_shape(g, w):
        return unaligned(name, g, w, eqv)
    if not g:
        return ensure(name, True)
    ok = True
    for a, b in zip(g, w):
        if isinstance(a, Elem):
            ok = ensure(name, eqv(a.v, b.v)) and ok
            continue
        with e.scope():
            i = a.space.generic("any")
            e.add(b.space.inside(i))
            e.add(Or(wrap(boo(a.guard(i))), wrap(boo(b.guard(i)))))
            ok = ensure(name, Iff(wrap(boo(a.guard(i))), wrap(boo(b.guard(i))))) and ok
            with e.scope():
                e.add(a.inr(i))
                e.add(b.inr(i))
                ok = ensure(name, eqv(a.value(i), b.value(i))) and ok
    return ok


def same_shape(g, w):
    return len(g) == len(w) and all(type(a) is type(b) and (isinstance(a, Elem) or a.space is b.space) for a, b in zip(g, w))


def unaligned(name, g, w, eqv):
    """lists of different make: equal when both are certainly of the same known length, compared position by position"""
    e = E()
    a, b = SymList(g), SymList(w)
    n, m = wrap(num(a.length())), wrap(num(b.length()))
    ensure(name, eq(n, m), "another number of elements")
    if a.conc() is not None or b.conc() is not None:
        k = a if a.conc() is not None else b
        o = b if k is a else a
        with e.scope():
            e.add(eq(n, m))
            if e.check() != z3.unsat:
                for q, v in enumerate(k.conc()):
                    ensure(name, eqv(v, at(o, q)))
        return
    x, y = position(a), position(b)
    with e.scope():
        i = x.space.generic("pos")
        y.space.use(i)
        e.add(eq(n, m))
        e.add(And(wrap(x.inr(i)), wrap(y.inr(i))))
        ensure(name, eqv(x.value(i), y.value(i)))


def position(l):
    return rt.linear(l)


def at(l, k):
    """the k-th element, known to exist"""
    s = position(l)
    return s.value(z3.IntVal(k))


def same_members(name, got, want, key=lambda v: v):
    """the same elements, each as often (identity of the elements)"""
    e = E()
    g, w = origin(segs_of(got)), origin(segs_of(want))
    spaces = []
    for s in g + w:
        if isinstance(s, Seg) and not any(s.space is x for x in spaces):
            spaces.append(s.space)
    ge = [s.v for s in g if isinstance(s, Elem)]
    we = [s.v for s in w if isinstance(s, Elem)]
    for x in we:
        ensure(name, sum(1 for y in ge if y is x) == sum(1 for y in we if y is x), "a new element is missing or doubled")
    for x in ge:
        ensure(name, any(y is x for y in we), "an element that should not be there")
    if not spaces and not we and not ge:
        ensure(name, True)
    for sp in spaces:
        cnt = lambda segs: [If(wrap(boo(s.guard(i))), 1, 0) for s in segs if isinstance(s, Seg) and s.space is sp]
        with e.scope():
            i = sp.generic("any")
            e.add(sp.inside(i))
            a, b = cnt(g), cnt(w)
            ensure(name, eq(sum(a[1:], a[0]) if a else 0, sum(b[1:], b[0]) if b else 0), "an element is missing or doubled")
            vs = [s.value(i) for s in g + w if isinstance(s, Seg) and s.space is sp]
            for v in vs[1:]:
                if lists.same_object(v, vs[0]) is not True:
                    with e.scope():
                        for s in g + w:
                            if isinstance(s, Seg) and s.space is sp:
                                e.add(Or(*[wrap(boo(t.guard(i))) for t in g + w if isinstance(t, Seg) and t.space is sp]))
                        ensure(name, lists.same_object(v, vs[0]), "another element")


def origin(segs):
    """the segments that a rearranged sequence is made of"""
    out = []
    for s in segs:
        p = getattr(s, "perm_of", None)
        if p is not None:
            out += origin(p)
        elif getattr(s, "lin", None) is not None:
            # some of the elements of a rearranged sequence
            for q, t in enumerate(s.lin.segs):
                if isinstance(t, Elem):
                    raise Unsupported("members of a filtered sequence with single elements")
                pos = s.lin.pos[q]
                out += origin([Seg(t.space, lambda i, t=t, pos=pos, s=s: z3.And(boo(t.guard(i)), boo(s.guard(pos(i)))), t.value_, t.facts)])
        else:
            out.append(s)
    return out


def images(name, got, src, want, eqv, detail=None):
    """got holds for each element of src for which want(value) one element y with eqv(y, value), and nothing else
    (the order is that of src or of a rearrangement of it)"""
    e = E()
    segs = [s for s in live(segs_of(got))]
    if any(isinstance(s, Elem) for s in segs):
        raise rt.Unsupported("single elements among images")
    here = []
    def where(space):
        """how a position of src is found there"""
        view, lin = getattr(space, "view_of", None), getattr(space, "lin", None)
        if space is src.space:
            return lambda i: i
        if lin is not None and len(lin.segs) == 1 and lin.segs[0].space is src.space:
            if not lin.segs[0].unguarded():
                raise rt.Unsupported("images of some of the elements")
            return lin.pos[0]
        if view is None:
            raise rt.Unsupported("images of other elements")
        f = where(view[0].space)
        return lambda i: view[1](f(i))
    for s in segs:
        here.append((s, where(s.space)))
    with e.scope():
        i = src.space.generic("any")
        e.add(src.inr(i))
        n = [If(wrap(boo(s.inr(f(i)))), 1, 0) for s, f in here]
        ensure(name, eq(sum(n[1:], n[0]) if n else 0, If(want(src.value(i)), 1, 0)), detail or "an element is missing, doubled or should not be there")
        for s, f in here:
            with e.scope():
                s.space.use(f(i))
                e.add(wrap(boo(s.inr(f(i)))))
                e.add(want(src.value(i)))
                ensure(name, eqv(s.value(f(i)), src.value(i)), detail)


def in_order(name, segs, less, detail=None):
    """no element is less than an earlier one"""
    e = E()
    ss = segs_of(segs)
    if not ss:
        ensure(name, True)
    for a, s in enumerate(ss):
        for t in ss[a:]:
            if isinstance(s, Elem) and s is t:
                if len(ss) == 1:
                    ensure(name, True)
                continue
            with e.scope():
                x, cx = pick(s)
                y, cy = pick(t)
                if s is t:
                    e.add(cx[1] < cy[1])
                for c in (cx, cy):
                    if c is not None:
                        e.add(c[0])
                ensure(name, Not(less(y, x)), detail)


def pick(s):
    if isinstance(s, Elem):
        return s.v, None
    i = s.space.generic("one")
    return s.value(i), (s.inr(i), i)


def assume_ordered(segs, less):
    e = E()
    s, = segs_of(segs)
    e.forall2(s.space, lambda i, j: z3.Implies(z3.And(boo(s.guard(i)), boo(s.guard(j)), i < j),
                                               z3.Not(boo(less(s.value(j), s.value(i))))), "in order")


def unchanged(name, seg, fields, before):
    """the elements have the field values they had"""
    each(name, [seg], lambda v: same(before(v), tuple(getattr(v, f) for f in fields)))


class Before:
    """the state of the elements of a list, as it is now"""

    def __init__(self, fields):
        self.fields, self.layers = fields, E().heap.snapshot()

    def __call__(self, v, fields=None):
        e = E()
        save = e.heap.layers
        e.heap.layers = {k: list(x) for k, x in self.layers.items()}
        try:
            return tuple(getattr(v, f) for f in (fields or self.fields))
        finally:
            e.heap.layers = save
