"""Contracts of the dictionaries and the index mapper (D01, D02, X02), for
dictionaries of any size."""
from .base import *
from .listspec import *

ABSENT = rt.ABSENT


class Val:
    """a value of a dictionary, of which only the identity matters"""

    def __init__(self, tag):
        self.tag = tag


VAL = lists.ObjSpec("value", dict(tag="int"), lambda a: Val(a["tag"]), lambda a: [])


def some_value(name):
    l, sp, seg = lists.object_list(VAL, z3.IntVal(1), name)
    sp.use(z3.IntVal(0))
    return seg.value(z3.IntVal(0))


def base_dict(name, sort, value=None, facts=None):
    """entries with any keys and any values"""
    e = E()
    n = e.int("len." + name, 0)
    l, sp, seg = lists.object_list(VAL, n.t, "v_" + name)
    return rt.Base(name, n.t, sort, value or (lambda i: seg.value(i)), facts)


class Sorted:
    """a sorted dictionary with any entries"""

    def __init__(self, w, name="d", sort=z3.RealSort()):
        e = E()
        self.cls = w.load(PKG + "midi.sorted_dict").SortedDict
        e.trust("collections.OrderedDict: a map; construction and update set the entries in turn and pop deletes through the methods "
                "of the class")
        self.base = base_dict(name, sort)
        self.d = d = self.cls()
        self.n = wrap(self.base.n)
        self.seg = self.base.seg
        d._base, d._keys = self.base, SymList([self.seg])
        sg = self.seg
        e.forall2(self.base.space, lambda i, j: z3.Implies(i < j, boo(sg.value(i) < sg.value(j))), "increasing")

    def had(self, k):
        return self.base.at(k)[0]

    def old(self, k):
        return self.base.value(self.base.at(k)[1])

    def rows(self):
        return lists.Rows(SymList([self.seg]), lambda v: v)


def well_formed(name, d):
    """the keys it keeps are strictly increasing and are the keys of the map"""
    e = E()
    in_order(name, d._keys, lambda a, b: a < b)
    distinct(name, d._keys)
    each(name, d._keys, lambda k: d.has(k), "a key that is listed is not there")
    with e.scope():
        k = e.real("any.key")
        e.add(d.has(k))
        some(name, d._keys, lambda q: eq(q, k), detail="a key that is there is not listed")


def distinct(name, segs):
    e = E()
    ss = segs_of(segs)
    for a, s in enumerate(ss):
        for t in ss[a:]:
            if isinstance(s, Elem) and s is t:
                continue
            with e.scope():
                x, cx = pick(s)
                y, cy = pick(t)
                if s is t:
                    e.add(cx[1] < cy[1])
                for c in (cx, cy):
                    if c is not None:
                        e.add(c[0])
                ensure(name, Not(eq(x, y)), "a key is listed twice")


def maps(name, d, k, want):
    """d maps k to want (a value, or ABSENT), decided on this path"""
    v = rt.VDict._value(d, k)
    if (v is ABSENT) != (want is ABSENT):
        ensure(name, False, "the key is %s" % ("missing" if v is ABSENT else "there"))
    elif v is ABSENT:
        ensure(name, True)
    else:
        ensure(name, lists.same_object(v, want))


def old_at(s, k):
    """the entry of a key before the operation, decided on this path"""
    return s.old(k) if E().branch(boo(s.had(k))) else ABSENT


@contract("D01", "SortedDict.__setitem__, __delitem__, pop, setdefault, get, clear", share=3)
def d01_ops(w):
    e = E()
    s = Sorted(w)
    d = s.d
    op = e.choose(["set", "del", "pop", "popd", "setdefault", "get", "clear"])
    k, q = e.real("k"), e.real("q")
    case("one operation", keys=s.rows(), op=op, k=k, q=q)
    there = e.branch(boo(s.had(k)))
    was = s.old(k) if there else ABSENT
    v = some_value("new")
    n = "%s acts as on a plain dictionary" % dict(set="setting", pop="popping", popd="popping", setdefault="setdefault",
                                                  get="getting", clear="clearing", **{"del": "deleting"})[op]
    now = was
    if op == "set":
        o = outcome(lambda: d.__setitem__(k, v))
        ok, now = returns(n, o), v
    elif op == "del" or op == "pop":
        o = outcome((lambda: d.__delitem__(k)) if op == "del" else lambda: d.pop(k))
        if there:
            ok, now = returns(n, o), ABSENT
            if ok and op == "pop":
                ensure("popping gives the value", lists.same_object(o.value, was))
        else:
            refuses("a missing key is a key error", o, (KeyError,))
            ok = o.refused((KeyError,))
    elif op == "popd":
        o = outcome(lambda: d.pop(k, v))
        ok, now = returns(n, o), ABSENT
        if ok:
            ensure("popping gives the value or the default", lists.same_object(o.value, was if there else v))
    elif op == "setdefault":
        o = outcome(lambda: d.setdefault(k, v))
        ok, now = returns(n, o), was if there else v
        if ok:
            ensure("setdefault gives the value there is then", lists.same_object(o.value, now))
    elif op == "get":
        o = outcome(lambda: d[k])
        ok = True
        if there:
            ok = returns(n, o)
            if ok:
                ensure("getting gives the value", lists.same_object(o.value, was))
                ensure("getting gives the value", lists.same_object(d.get(k), was))
        else:
            refuses("a missing key is a key error", o, (KeyError,))
            ensure("a missing key is not found", d.get(k) is None and k not in d)
    else:
        o = outcome(d.clear)
        ok, now = returns(n, o), ABSENT
    if not ok:
        return
    well_formed("the keys are listed in increasing order, each once", d)
    if e.branch(boo(eq(q, k))):
        maps(n, d, q, now)
    else:
        maps(n, d, q, old_at(s, q) if op != "clear" else ABSENT)


@contract("D01", "SortedDict.popitem", share=2)
def d01_popitem(w):
    e = E()
    s = Sorted(w)
    d = s.d
    how = e.choose(["last", "first", "default"])
    q = e.real("q")
    case("one operation", keys=s.rows(), op=dict(last="popitem", default="popitem", first="popfirst")[how], k=0.0, q=q)
    o = outcome(d.popitem) if how == "default" else outcome(d.popitem, how == "last")
    if not e.branch(boo(s.n > 0)):
        refuses("popping from an empty dictionary is a key error", o, (KeyError,))
        return
    if not returns("an entry is popped", o):
        return
    r = o.value
    ok = ensure("an entry is a key and its value", isinstance(r, tuple) and len(r) == 2)
    k, v = r
    ensure("the entry popped was there", And(s.had(k), lists.same_object(v, s.old(k))))
    each("the key popped is the largest (the smallest)", [s.seg], lambda x: x <= k if how != "first" else x >= k)
    well_formed("the keys are listed in increasing order, each once", d)
    maps("popping removes the entry and no other", d, q, ABSENT if e.branch(boo(eq(q, k))) else old_at(s, q))


@contract("D01", "SortedDict.__iter__, keys, values, items, __reversed__, __len__, __contains__", share=2)
def d01_views(w):
    e = E()
    s = Sorted(w)
    d = s.d
    case("one operation", keys=s.rows(), op="look", k=0.0, q=0.0)
    view = e.choose(["iter", "keys", "values", "items", "reversed", "len", "in"])
    if view == "len":
        ensure("the length is the number of keys", eq(rt._len(d), s.n))
        ensure("a dictionary without keys is empty", Iff(rt._len(d) > 0, s.n > 0))
        return
    if view == "in":
        q = e.real("q")
        there = e.branch(boo(s.had(q)))
        ensure("a key is in the dictionary exactly when it is there", (q in d) == there)
        return
    f = dict(iter=lambda: SymList(segs_of(rt._iter(d))), keys=d.keys, values=d.values, items=d.items,
             reversed=lambda: SymList(segs_of(rt._reversed(d))))[view]
    o = outcome(f)
    if not returns("a view is given", o):
        return
    g = s.seg
    want = dict(iter=g.value_, keys=g.value_, values=lambda i: s.old(g.value(i)), items=lambda i: (g.value(i), s.old(g.value(i))),
                reversed=lambda i: g.value(z3.simplify(s.n.t - 1 - i)))[view]
    same_entry = dict(values=lists.same_object, items=lambda x, y: And(eq(x[0], y[0]), lists.same_object(x[1], y[1]))).get(view, eq)
    equal_lists("the views list the entries by increasing (decreasing) key", o.value, [Seg(s.base.space, lists.always, want, None)],
                same_entry)
    well_formed("a view changes nothing", d)


@contract("D01", "SortedDict.__init__, update, copy, __reduce__", bounded="up to two entries", share=2)
def d01_build(w):
    e = E()
    C = w.load(PKG + "midi.sorted_dict").SortedDict
    k, v = [e.real("k0"), e.real("k1")], [some_value("a"), some_value("b")]
    m = e.choose([0, 1, 2])
    pairs = list(zip(k, v))[:m]
    how = e.choose(["list", "dict", "update", "update dict", "copy", "reduce"])
    case("building", keys=k[:m], how=how)
    ps = rt.VList(pairs)
    if how in ("list", "dict", "copy", "reduce"):
        o = outcome(lambda: C(ps if how != "dict" else rt.VDict(ps)))
    else:
        d = C()
        d[e.real("k2")] = some_value("c")
        o = outcome(lambda: (d.clear(), d.update(ps if how == "update" else rt.VDict(ps)), d)[-1])
    if not returns("a dictionary is built", o):
        return
    d = o.value
    plain(d, pairs)
    if how in ("copy", "reduce"):
        def again():
            if how == "copy":
                return d.copy()
            f, a = d.__reduce__()[:2]
            return f(*a)
        o = outcome(again)
        if not returns("a copy is made", o):
            return
        c = o.value
        ensure("a copy is a sorted dictionary", isinstance(c, C) and c is not d)
        plain(c, pairs)
        c[e.real("k3")] = some_value("e")
        plain(d, pairs)


@contract("D01", "SortedDict.__init__, update, copy, __reduce__ (any number of entries)", share=2)
def d01_build_all(w):
    """building, updating and copying set every entry, in turn, on a dictionary that is in order"""
    e = E()
    nocase()
    C = w.load(PKG + "midi.sorted_dict").SortedDict
    how = e.choose(["list", "dict", "update", "update dict", "copy", "reduce"])
    s = Sorted(w) if how in ("update", "update dict", "copy", "reduce") else None
    n = e.int("len.given", 0)
    ks, vs = z3.Function("given_key", z3.IntSort(), z3.RealSort()), lists.object_list(VAL, n.t, "given_value")[2]
    ps = SymList([lists.Seg(lists.Space(n.t, "given"), lists.always, lambda i: (wrap(ks(i)), vs.value(i)))])
    other = rt.VDict()
    other._base = base_dict("other", z3.RealSort())
    other._base.flat = True
    made, put, on = [], rt.VList(), []

    def dict_of(src):
        if src is not ps:
            raise Unsupported("a plain dictionary of other entries")
        made.append(other)
        return other._base
    e.dict_of = dict_of

    def setitem(self, k, v):
        if "_keys" not in vars(self):
            raise AttributeError("_keys")
        on.append(vars(self)["_keys"])
        put.append((self, k, v))
    by_contract(C, "__setitem__", setitem, "D01 SortedDict.__setitem__")
    if how in ("list", "dict"):
        o = outcome(lambda: C(ps if how == "list" else other))
    elif how == "copy":
        o = outcome(s.d.copy)
    elif how == "reduce":
        def again():
            r = s.d.__reduce__()
            ensure("a pickled dictionary is made again by its class", r[0] is C and len(r) == 2)
            return r[0](*r[1])
        o = outcome(again)
    else:
        o = outcome(lambda: (s.d.update(ps if how == "update" else other), s.d)[-1])
    if not returns("a dictionary is built", o):
        return
    d = o.value
    ensure("a sorted dictionary is built", isinstance(d, C) and (s is None or (d is s.d) == (how[:6] == "update")))
    if not put.segs:
        raise Unsupported("entries are set in another way")
    if any(x is not d._keys for x in on):
        raise Unsupported("the list of keys is made in another way")
    n = "every entry is set once, in turn"
    if how in ("list", "update") and not made:
        equal_lists(n, put, ps, lambda a, b: And(a[0] is d, eq(a[1], b[0]), lists.same_object(a[2], b[1])))
    else:
        # distinct keys, in any order
        b = other._base if how in ("list", "dict", "update", "update dict") else s.base

        def entry(p):
            c, i = b.at(p[1])
            return And(p[0] is d, wrap(boo(c)), lists.same_object(p[2], b.value(i)))
        each(n, put, entry)
        with e.scope():
            i = b.space.generic("entry")
            e.add(b.space.inside(i))
            k = b.key(i)
            some(n, put, lambda p: eq(p[1], k), detail="an entry is not set")
    # nothing else is done to it
    n = "building does nothing but set the entries"
    if s is None or d is not s.d:
        ensure(n, not segs_of(d._keys) and d._base is None and not d._ks and not d._log)
    if s is not None:
        ensure(n, s.d._base is s.base and not s.d._log)
        equal_lists(n, s.d._keys, SymList([s.seg]), eq)


def plain(d, pairs):
    """d has the entries of a plain dictionary made of the pairs"""
    e = E()
    m = rt.VDict(rt.VList(pairs))
    n = "it has the entries of a plain dictionary"
    ensure(n, eq(rt._len(d), len(m._ks)))
    for k in m._ks:
        x = rt.VDict._value(d, k)
        ensure(n, x is not ABSENT and lists.same_object(x, m[k]))
    ks = list(d._keys)
    ensure(n, len(ks) == len(m._ks))
    for a, b in zip(ks, ks[1:]):
        ensure("the keys are listed in increasing order, each once", a < b)
    for a in ks:
        ensure(n, Or(*[eq(a, b) for b in m._ks]))
    ensure(n, [id(x) for x in rt.it_list(rt.it(d))] == [id(x) for x in ks])


# --------------------------------------------------------------------- D02
class IvKey:
    """intervals as keys"""
    sorts = [z3.RealSort(), z3.RealSort()]

    def __init__(self, cls):
        self.cls = cls

    def parts(self, k):
        if not isinstance(k, self.cls):
            return None
        return [z3.simplify(real(num(k.start))), z3.simplify(real(num(k.end)))]

    def make(self, a, b):
        return self.cls(wrap(a), wrap(b))

    def exact(self, k, ts):
        return z3.BoolVal(True)


def iv_row(v):
    return [v.start, v.end]


def iv_lt(a, b):
    return rt.lt_value((a.start, a.end), (b.start, b.end))


def iv_eq(a, b):
    return And(eq(a.start, b.start), eq(a.end, b.end)) if isinstance(b, type(a)) else False


class Intervals:
    """an interval dictionary with any entries"""

    def __init__(self, w, name="d", size=None):
        e = E()
        self.w = w
        self.Iv = w.load(PKG + "midi.Interval").Interval
        self.cls = w.load(PKG + "midi.sorted_interval_dict").SortedIntervalDict
        by_contract(self.Iv, "__eq__", iv_eq, "D03 Interval.__eq__")

        def lt(a, b):
            if not isinstance(b, type(a)):
                return NotImplemented
            return iv_lt(a, b)
        by_contract(self.Iv, "__lt__", lt, "D03 Interval.__lt__")
        self.d = d = self.cls()
        inner = d._dict
        self.size = size
        if size is None:
            self.base = base_dict(name, IvKey(self.Iv))
            self.n = wrap(self.base.n)
            self.seg = sg = self.base.seg
            inner._base, inner._keys = self.base, SymList([sg])
            e.forall2(self.base.space, lambda i, j: z3.Implies(i < j, boo(iv_lt(sg.value(i), sg.value(j)))), "increasing")
            return
        self.pairs = [(self.Iv(e.real("a%d" % k), e.real("b%d" % k)), some_value("v%d" % k)) for k in range(size)]
        for (x, _), (y, _) in zip(self.pairs, self.pairs[1:]):
            e.add(iv_lt(x, y))
        for k, v in self.pairs:
            inner._keys.append(k)
            inner._ks.append(k)
            inner._vs.append(v)

    def iv(self, name):
        return self.Iv(E().real(name + ".start"), E().real(name + ".end"))

    def had(self, k):
        return self.base.at(k)[0]

    def old(self, k):
        return self.base.value(self.base.at(k)[1]) if E().branch(boo(self.had(k))) else ABSENT

    def rows(self):
        if self.size is None:
            return lists.Rows(SymList([self.seg]), iv_row)
        return [iv_row(k) for k, _ in self.pairs]


def looked(d, k):
    """what looking up a key gives: a value, or ABSENT for a key error"""
    o = outcome(lambda: d[k])
    if o.ok:
        return o.value
    if o.refused((KeyError,)):
        return ABSENT
    raise Unsupported("a lookup fails: %s" % told(o.value))


def iv_maps(name, d, k, want):
    got = looked(d, k)
    ensure(name, lists.same_object(got, want) if got is not ABSENT and want is not ABSENT else got is want)
    ensure(name, (k in d) == (want is not ABSENT))


@contract("D02", "SortedIntervalDict.__getitem__, __setitem__, __delitem__, get, pop, setdefault", share=3)
def d02_ops(w):
    e = E()
    s = Intervals(w)
    d = s.d
    op = e.choose(["set", "del", "get", "pop", "popd", "setdefault"])
    k, q = s.iv("k"), s.iv("q")
    case("one operation on intervals", keys=s.rows(), op=op, k=iv_row(k), q=iv_row(q))
    v, was = some_value("new"), s.old(k)
    there = was is not ABSENT
    now = was
    n = "an operation acts as on a plain map"
    if op == "set":
        o, now = outcome(lambda: d.__setitem__(k, v)), v
    elif op in ("del", "pop"):
        o = outcome((lambda: d.__delitem__(k)) if op == "del" else lambda: d.pop(k))
        now = ABSENT
    elif op == "popd":
        o, now = outcome(lambda: d.pop(k, v)), ABSENT
    elif op == "setdefault":
        o, now = outcome(lambda: d.setdefault(k, v)), was if there else v
    else:
        o = outcome(lambda: d[k])
    if op in ("del", "pop", "get") and not there:
        refuses("a missing interval is a key error", o, (KeyError,))
        now = ABSENT
        if not o.refused((KeyError,)):
            return
        ensure("a missing interval gives the default", d.get(k) is None)
    else:
        if not returns(n, o):
            return
        if op in ("get", "pop"):
            ensure("getting and popping give the value", lists.same_object(o.value, was))
        elif op == "popd":
            ensure("popping gives the value or the default", lists.same_object(o.value, was if there else v))
        elif op == "setdefault":
            ensure("setdefault gives the value there is then", lists.same_object(o.value, now))
    ensure("the length follows", eq(rt._len(d), s.n + (1 if now is not ABSENT else 0) - (1 if there else 0)))
    ks = SymList(segs_of(rt._iter(d)))
    in_order("the intervals are listed in increasing order, each once", ks, iv_lt)
    distinct("the intervals are listed in increasing order, each once", ks)
    want = now if e.branch(boo(iv_eq(q, k))) else s.old(q)
    iv_maps("an operation changes no other entry", d, q, want)
    if want is ABSENT:
        each("an interval that is not there is not listed", ks, lambda x: Not(iv_eq(x, q)))
    else:
        some("an interval that is there is listed", ks, lambda x: iv_eq(x, q))


@contract("D02", "SortedIntervalDict.__iter__, keys, values, items, __len__, __contains__", share=2)
def d02_views(w):
    e = E()
    s = Intervals(w)
    d = s.d
    view = e.choose(["iter", "keys", "values", "items", "len", "in"])
    case("one operation on intervals", keys=s.rows(), op="look", k=[0, 1], q=[0, 1])
    if view == "len":
        ensure("the length is the number of intervals", eq(rt._len(d), s.n))
        ensure("a dictionary without entries is empty", eq(rt._len(d.keys()), s.n))
        return
    if view == "in":
        k = s.iv("k")
        ensure("an interval is in the dictionary exactly when it is there", (k in d) == (s.old(k) is not ABSENT))
        return
    o = outcome(lambda: SymList(segs_of(rt._iter(d) if view == "iter" else getattr(d, view)())))
    if not returns("a view is given", o):
        return
    g = s.seg
    old = lambda i: s.base.value(s.base.at(g.value(i))[1])
    want = dict(iter=g.value_, keys=g.value_, values=old, items=lambda i: (g.value(i), old(i)))[view]
    same_entry = dict(values=lists.same_object, items=lambda x, y: And(iv_eq(x[0], y[0]), lists.same_object(x[1], y[1]))).get(view, iv_eq)
    equal_lists("the views list the entries by increasing interval", o.value, [Seg(s.base.space, lists.always, want, None)], same_entry)


@contract("D02", "SortedIntervalDict, keys of another kind")
def d02_kinds(w):
    e = E()
    s = Intervals(w)
    d = s.d
    nocase()
    k = e.choose([0, 1.5, "a", (0, 1), None])
    f = e.choose([lambda: d[k], lambda: d.__setitem__(k, 1), lambda: d.__delitem__(k)])
    refuses("a key of another kind is refused", outcome(f), (KeyError,))
    ensure("a refused key changes nothing", eq(rt._len(d), s.n))
    equal_lists("a refused key changes nothing", SymList(segs_of(rt._iter(d))), [s.seg], iv_eq)


def entries(name, d, pairs, cls=None):
    """d has exactly the given entries, in this order (keys as intervals)"""
    o = outcome(lambda: rt.it_list(rt.it(d.items())))
    if not returns("the entries are listed", o):
        return
    got = list(o.value)
    ensure(name, len(got) == len(pairs) and eq(rt._len(d), len(pairs)), "%d entries" % len(got))
    for (a, x), (b, y) in zip(got, pairs):
        ensure(name, And(iv_eq(a, b), lists.same_object(x, y)))


@contract("D02", "SortedIntervalDict, slices by bounds", bounded="up to three entries", share=2)
def d02_slice(w):
    e = E()
    s = Intervals(w, size=e.choose([0, 1, 2, 3]))
    d = s.d
    a = e.choose([None, "a"]) and e.real("lo")
    b = e.choose([None, "b"]) and e.real("hi")
    case("slicing", keys=s.rows(), a=a, b=b, positions=False)
    o = outcome(lambda: d[slice(a, b)])
    if not returns("a slice is given", o):
        return
    want = []
    for k, v in s.pairs:
        c = And(True if b is None else k.start <= b, True if a is None else a <= k.end)
        # an interval or bounds that end before they start overlap as their end points say
        c = And(c, k.start <= k.end, True if a is None or b is None else a <= b)
        if e.branch(boo(c)):
            want.append((k, v))
    ensure("a slice is an interval dictionary", isinstance(o.value, s.cls) and o.value is not d)
    entries("a slice has exactly the entries that overlap the bounds", o.value, want)
    entries("slicing leaves the dictionary as it was", d, s.pairs)


@contract("D02", "SortedIntervalDict, deleting a slice of positions", bounded="up to three entries")
def d02_delslice(w):
    e = E()
    s = Intervals(w, size=e.choose([0, 1, 2, 3]))
    d = s.d
    sl = slice(e.choose([None, 0, 1, 2, -1]), e.choose([None, 0, 1, 2, 5, -1]), e.choose([None, 2]))
    case("slicing", keys=s.rows(), a=sl.start, b=sl.stop, positions=[sl.step])
    o = outcome(lambda: d.__delitem__(sl))
    if not returns("a slice is deleted", o):
        return
    gone = s.pairs[sl]
    entries("deleting a slice removes exactly the entries at its positions", d, [p for p in s.pairs if p not in gone])


@contract("D02", "SortedIntervalDict.__init__, update, clear", bounded="up to two entries", share=2)
def d02_build(w):
    e = E()
    s = Intervals(w, size=0)
    m = e.choose([0, 1, 2])
    pairs = [(s.iv("k%d" % j), some_value("v%d" % j)) for j in range(m)]
    how = e.choose(["list", "dict", "update", "update dict", "clear"])
    case("building an interval dictionary", keys=[iv_row(k) for k, _ in pairs], how=how)
    ps = rt.VList(pairs)
    if how in ("list", "dict", "clear"):
        o = outcome(lambda: s.cls(ps if how == "list" else rt.VDict(ps)))
    else:
        o = outcome(lambda: (s.d.update(ps if how == "update" else rt.VDict(ps)), s.d)[-1])
    if not returns("a dictionary is built", o):
        return
    d = o.value
    want = list(pairs)
    if m == 2:
        if e.branch(boo(iv_eq(want[0][0], want[1][0]))):
            want = [want[1]]
        elif e.branch(boo(iv_lt(want[1][0], want[0][0]))):
            want = [want[1], want[0]]
    if how == "clear":
        if returns("a dictionary is cleared", outcome(d.clear)):
            entries("clearing removes every entry", d, [])
        return
    entries("it has the entries of a plain dictionary, in order", d, want)


def exactly(name, got, b, keep, entry):
    """what was recorded is every entry of the base that is to be kept, once each (its keys are distinct), in any order"""
    e = E()
    each(name, got, lambda p: entry(p, *b.at(p[0])))
    with e.scope():
        i = b.space.generic("entry")
        e.add(b.space.inside(i))
        e.add(keep(i))
        k = b.key(i)
        some(name, got, lambda p: iv_eq(p[0], k), detail="an entry is left out")
    if len(segs_of(got)) > 1:
        raise Unsupported("entries recorded in several places")


@contract("D02", "SortedIntervalDict, slices by bounds (any number of entries)", share=2)
def d02_slice_all(w):
    """a slice is built of exactly the entries that overlap the bounds"""
    nocase()
    e = E()
    C = w.load(PKG + "midi.sorted_interval_dict").SortedIntervalDict
    if "__pv_real_init" not in vars(C):
        type.__setattr__(C, "__pv_real_init", C.__init__)
    type.__setattr__(C, "__init__", vars(C)["__pv_real_init"])
    s = Intervals(w)
    d = s.d
    a = e.choose([None, "a"]) and e.real("lo")
    b = e.choose([None, "b"]) and e.real("hi")
    built = []

    def init(self, *args):
        built.append((self, args))
    by_contract(s.cls, "__init__", init, "D02 SortedIntervalDict.__init__ (any number of entries)")
    o = outcome(lambda: d[slice(a, b)])
    if not returns("a slice is given", o):
        return
    if len(built) != 1 or built[0][0] is not o.value or len(built[0][1]) != 1 or hasattr(built[0][1][0], "keys"):
        raise Unsupported("a slice is built in another way")
    n = "a slice has exactly the entries that overlap the bounds"
    ensure("a slice is an interval dictionary", isinstance(o.value, s.cls) and o.value is not d)

    def keep(k):
        c = And(True if b is None else k.start <= b, True if a is None else a <= k.end)
        return And(c, k.start <= k.end, True if a is None or b is None else a <= b)
    exactly(n, SymList(segs_of(rt._iter(built[0][1][0]))), s.base, lambda i: keep(s.base.key(i)),
            lambda p, c, i: And(wrap(boo(c)), keep(p[0]), lists.same_object(p[1], s.base.value(i))))
    ensure("slicing leaves the dictionary as it was", d._dict._base is s.base and not d._dict._log)
    equal_lists("slicing leaves the dictionary as it was", d._dict._keys, SymList([s.seg]), iv_eq)


@contract("D02", "SortedIntervalDict.__init__, update (any number of entries)", share=2)
def d02_build_all(w):
    """building sets, on an empty dictionary, every entry of the plain dictionary made of what is given"""
    nocase()
    e = E()
    s = Intervals(w)
    n = e.int("len.given", 0)
    f, g = (z3.Function("given_" + x, z3.IntSort(), z3.RealSort()) for x in ("start", "end"))
    vs = lists.object_list(VAL, n.t, "given_value")[2]
    ps = SymList([lists.Seg(lists.Space(n.t, "given"), lists.always, lambda i: (s.Iv(wrap(f(i)), wrap(g(i))), vs.value(i)))])
    other = rt.VDict()
    b = other._base = base_dict("other", IvKey(s.Iv))
    b.flat = True
    how = e.choose(["list", "dict", "update", "update dict"])
    made, put, inner = [], rt.VList(), []

    def dict_of(src):
        if src is not ps:
            raise Unsupported("a plain dictionary of other entries")
        made.append(other)
        return b
    e.dict_of = dict_of

    def setitem(self, k, v):
        inner.append(vars(self)["_dict"])
        put.append((k, v, self))
    by_contract(s.cls, "__setitem__", setitem, "D02 SortedIntervalDict.__setitem__")
    if how in ("list", "dict"):
        o = outcome(lambda: s.cls(ps if how == "list" else other))
    else:
        o = outcome(lambda: (s.d.update(ps if how == "update" else other), s.d)[-1])
    if not returns("a dictionary is built", o):
        return
    d = o.value
    ensure("an interval dictionary is built", isinstance(d, s.cls) and (d is s.d) == (how[:6] == "update"))
    if not put.segs or any(x is not d._dict for x in inner):
        raise Unsupported("entries are set in another way")
    n = "every entry is set once, in turn"
    if how == "update" and not made:
        equal_lists(n, put, ps, lambda x, y: And(x[2] is d, iv_eq(x[0], y[0]), lists.same_object(x[1], y[1])))
    else:
        if how == "list" and not made:
            raise Unsupported("entries are set in another way")
        exactly(n, put, b, lambda i: True, lambda p, c, i: And(p[2] is d, wrap(boo(c)), lists.same_object(p[1], b.value(i))))
    n = "building does nothing but set the entries"
    if d is s.d:
        ensure(n, d._dict._base is s.base and not d._dict._log)
        equal_lists(n, d._dict._keys, SymList([s.seg]), iv_eq)
    else:
        ensure(n, not segs_of(d._dict._keys) and d._dict._base is None and not d._dict._ks and not d._dict._log)


@contract("D02", "SortedIntervalDict, deleting a slice of positions (any number of entries)")
def d02_delslice_all(w):
    nocase()
    e = E()
    s = Intervals(w)
    d = s.d
    a = e.choose([None, "a"]) and e.int("first")
    b = e.choose([None, "b"]) and e.int("last")
    gone = rt.VList()

    def delitem(self, k):
        if self is not d._dict:
            raise Unsupported("entries of another dictionary are deleted")
        gone.append((k,))
    by_contract(type(d._dict), "__delitem__", delitem, "D01 SortedDict.__delitem__")
    o = outcome(lambda: d.__delitem__(slice(a, b)))
    if not returns("a slice is deleted", o):
        return
    if not gone.segs:
        raise Unsupported("entries are deleted in another way")

    def pos(x, default):
        if x is None:
            return default
        x = If(x < 0, x + s.n, x)
        return clamp(x, 0, s.n)
    lo, hi = pos(a, wrap(z3.IntVal(0))), pos(b, s.n)

    def keep(i):
        return And(lo <= wrap(i), wrap(i) < hi)
    images("deleting a slice removes exactly the entries at its positions", gone, s.seg, lambda k: keep(s.base.at(k)[1]),
           lambda p, k: iv_eq(p[0], k))


# --------------------------------------------------------------------- X02
class Mapper:
    """an index mapper that numbers any hashes"""

    def __init__(self, w, name="m"):
        e = E()
        n = e.int("len." + name, 0)
        self.m = m = w.load(PKG + "midi_dataset").NodeHashIndexMapper()
        self.n = n
        self.a = rt.Base(name, n.t, z3.IntSort(), wrap)
        self.b = rt.RangeBase("of_" + name, n.t, lambda i: self.a.seg.value(i))
        m.hash_to_index._base, m.index_to_hash._base, m.current_index = self.a, self.b, n

    def rows(self):
        return lists.Rows(SymList([self.a.seg]), lambda v: v)

    def known(self, h):
        return self.a.at(h)[0]

    def number(self, h):
        return wrap(self.a.at(h)[1])


def numbering(name, m, total, q, num_of, i, hash_of):
    """the two directions at an arbitrary hash q and an arbitrary number i"""
    e = E()
    ensure(name, eq(rt._len(m.hash_to_index), total), "another number of hashes")
    ensure(name, eq(rt._len(m.index_to_hash), total), "another number of numbers")
    ensure(name, eq(m.current_index, total), "the next number is another")
    o = outcome(m.get_index, q)
    ensure(name, o.ok if num_of is not None else not o.ok)
    if o.ok and num_of is not None:
        ensure(name, eq(o.value, num_of), "a hash has another number")
    o = outcome(m.get_node_hash, i)
    ensure(name, o.ok if hash_of is not None else not o.ok)
    if o.ok and hash_of is not None:
        ensure(name, eq(o.value, hash_of), "a number has another hash")


@contract("X02", "NodeHashIndexMapper.add_node_hash, get_index, get_node_hash", share=2)
def x02_add(w):
    e = E()
    s = Mapper(w)
    h, q, i = e.int("h"), e.int("q"), e.int("i")
    case("additions", known=s.rows(), ops=[h, q])
    known = e.branch(boo(s.known(h)))
    was = s.number(q) if e.branch(boo(s.known(q))) else None
    inside = e.branch(boo(between(0, i, s.n - 1)))
    old = s.a.seg.value(i.t) if inside else None
    numbering("before", s.m, s.n, q, was, i, old)
    o = outcome(s.m.add_node_hash, h)
    if not returns("a hash is added", o):
        return
    if known:
        numbering("adding a known hash keeps its number and changes nothing", s.m, s.n, q, was, i, old)
        return
    if was is None and e.branch(boo(eq(q, h))):
        was = s.n
    if old is None and e.branch(boo(eq(i, s.n))):
        old = h
    numbering("a new hash gets the next number and every other keeps its own", s.m, s.n + 1, q, was, i, old)


@contract("X02", "NodeHashIndexMapper.merge_with", bounded="merging mappers of up to two hashes into mappers of any size", share=2)
def x02_merge(w):
    e = E()
    s = Mapper(w)
    t = w.load(PKG + "midi_dataset").NodeHashIndexMapper()
    hs = [e.int("h%d" % k) for k in range(e.choose([0, 1, 2]))]
    for h in hs:
        t.add_node_hash(h)
    q, i = e.int("q"), e.int("i")
    case("merging", known=s.rows(), other=hs)
    n, new = s.n, []
    for h in hs:
        if not e.branch(boo(s.known(h))) and not any(e.branch(boo(eq(h, x))) for x in new):
            new.append(h)
    o = outcome(s.m.merge_with, t)
    if not returns("a mapper is merged", o):
        return
    was = s.number(q) if e.branch(boo(s.known(q))) else None
    old = s.a.seg.value(i.t) if e.branch(boo(between(0, i, n - 1))) else None
    for k, h in enumerate(new):
        if was is None and e.branch(boo(eq(q, h))):
            was = n + k
        if old is None and e.branch(boo(eq(i, n + k))):
            old = h
    numbering("merging adds exactly the unknown hashes, in order, and keeps the numbers given before", s.m, n + len(new), q, was, i, old)
    ensure("merging leaves the other mapper as it was", list(t.hash_to_index._ks) == list(t.index_to_hash._vs)
           and eq(t.current_index, len(t.hash_to_index._ks)))


@contract("X02", "NodeHashIndexMapper.merge_with (any number of hashes)")
def x02_merge_all(w):
    """merging is adding each hash of the other, in the order of their numbers"""
    nocase()
    s, t = Mapper(w), Mapper(w, "other")
    added = rt.VList()
    mapper = type(s.m)
    by_contract(mapper, "add_node_hash", lambda self, h: added.append((self is s.m, h)), "X02 NodeHashIndexMapper.add_node_hash")
    o = outcome(s.m.merge_with, t.m)
    if not returns("a mapper is merged", o):
        return
    if not added.segs:
        raise Unsupported("hashes are added in another way")
    equal_lists("every hash of the other is added once, in order", added, SymList(segs_of(rt._iter(t.m.hash_to_index))), lambda a, b: And(a[0] is True, eq(a[1], b)))
