"""Tensors of torch, as far as the code under contract uses them: a shape and the value at
every index.  Floats are exact (float32 of the program: pitches, velocities and counts are
small whole numbers).  Selection by a mask or by indices, and the other operations, are
contracts of the library; each one that was used is in the evidence."""
import z3

from . import core, lists
from .core import And, If, Implies, Not, Or, SymBool, SymInt, SymReal, Unsupported, boo, eng, eq, is_num, num, real, wrap


def rt():
    return eng().rt


def at_least_0(n):
    return n if isinstance(n, int) else wrap(z3.simplify(num(n)))


class Size(tuple):
    def numel(self):
        return Tensor("long", tuple(self), None).numel()


KINDS = {}


class Tensor:
    __pv_arith__ = True

    count = None    # of a mask, the number of places where it is true, when it is known
    below = None    # when the elements are different numbers below that one
    full = False    # ... all of them
    blank = False   # all false
    about = None    # what is known of the element at an index

    def __init__(self, kind, shape, fn):
        self.kind, self._shape, self._fn = kind, tuple(at_least_0(n) for n in shape), fn
        rt().R.stamp(self)

    def __getattr__(self, name):
        if name in ("inv", "_selected") or name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("%s of a tensor" % name)

    # --- reading
    @property
    def shape(self):
        return Size(self._shape)

    def size(self, dim=None):
        return Size(self._shape) if dim is None else self._shape[dim]

    @property
    def dtype(self):
        return KINDS[self.kind]

    @property
    def ndim(self):
        return len(self._shape)

    def dim(self):
        return len(self._shape)

    def numel(self):
        n = 1
        for d in self._shape:
            n = n * d
        return n

    def at(self, *idx):
        """the element at indices that are inside"""
        if len(idx) != len(self._shape):
            raise Unsupported("an element of a tensor with %d indices" % len(idx))
        return self._fn(*idx)

    def __pv_len__(self):
        if not self._shape:
            raise TypeError("len() of a 0-d tensor")
        return self._shape[0]

    def __len__(self):
        n = self._shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported("len of a tensor")

    def __bool__(self):
        if any(not (isinstance(d, int) and d == 1) for d in self._shape):
            raise Unsupported("truth of a tensor")
        return bool(self.at(*[0] * len(self._shape)))

    def item(self):
        return self.at(*[0] * len(self._shape))

    def tolist(self):
        if len(self._shape) != 1:
            raise Unsupported("a list of rows")
        n, f = self._shape[0], self._fn
        if isinstance(n, int):
            return rt().VList([f(i) for i in range(n)]) if hasattr(rt(), "VList") else [f(i) for i in range(n)]
        sp = lists.Space(num(n), "tolist%d" % len(eng().keep))
        return lists.SymList([lists.Seg(sp, lists.always, lambda t: f(wrap(t)), self.about)])

    def __iter__(self):
        n = self._shape[0]
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        f, kind, more = self._fn, self.kind, self._shape[1:]
        sp = lists.Space(num(n), "rows%d" % len(eng().keep))
        return lists.SymList([lists.Seg(sp, lists.always, lambda t: Tensor(kind, more, lambda *i: f(wrap(t), *i)), self.about)])

    # --- conversions
    def long(self):
        return self._as("long")

    def float(self):
        return self._as("float")

    def bool(self):
        return self._as("bool")

    def to(self, kind):
        return self._as(kind_of(kind))

    def _as(self, kind):
        f = self._fn
        if kind == self.kind:
            return self
        if kind == "float":
            g = (lambda *i: If(f(*i), wrap(z3.RealVal(1)), wrap(z3.RealVal(0)))) if self.kind == "bool" else \
                (lambda *i: as_real(f(*i)))
        elif kind == "long":
            g = (lambda *i: If(f(*i), 1, 0)) if self.kind == "bool" else (lambda *i: whole(f(*i)))
        else:
            g = lambda *i: Not(eq(f(*i), 0))
        return Tensor(kind, self._shape, g)

    def clone(self):
        return Tensor(self.kind, self._shape, self._fn)

    contiguous = detach = cpu = lambda self, *a: self

    def reshape(self, *shape):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        f = self._fn
        if len(self._shape) == 1 and len(shape) == 2 and is_one(shape[1]):
            return Tensor(self.kind, (self._shape[0], 1), lambda i, j: f(i))
        if len(self._shape) == len(shape) == 2 and is_minus_one(shape[1]) and entailed(eq(shape[0], self._shape[0])):
            return self
        if len(self._shape) == 1 and len(shape) == 2 and is_minus_one(shape[1]) and entailed(eq(shape[0], self._shape[0])):
            return Tensor(self.kind, (self._shape[0], 1), lambda i, j: f(i))
        raise Unsupported("this change of shape")

    view = reshape

    def unsqueeze(self, d):
        f = self._fn
        d = d + len(self._shape) + 1 if d < 0 else d
        return Tensor(self.kind, self._shape[:d] + (1,) + self._shape[d:], lambda *i: f(*(i[:d] + i[d + 1:])))

    def t(self):
        f = self._fn
        if len(self._shape) != 2:
            raise Unsupported("t() of other than a matrix")
        return Tensor(self.kind, self._shape[::-1], lambda i, j: f(j, i))

    # --- operations on each element
    def _bin(self, o, op, kind=None):
        f = self._fn
        if isinstance(o, Tensor):
            g = o._fn
            if len(o._shape) != len(self._shape):
                raise Unsupported("tensors of different dimensions")
            for a, b in zip(self._shape, o._shape):
                if not entailed(eq(a, b)):
                    raise Unsupported("tensors of different sizes")
            return Tensor(kind or self.kind, self._shape, lambda *i: op(f(*i), g(*i)))
        if not is_num(o):
            raise Unsupported("a tensor and a %s" % type(o).__name__)
        return Tensor(kind or self.kind, self._shape, lambda *i: op(f(*i), o))

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b, "bool")

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b, "bool")

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b, "bool")

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b, "bool")

    def __eq__(self, o):
        return self._bin(o, eq, "bool")

    def __ne__(self, o):
        return self._bin(o, lambda a, b: Not(eq(a, b)), "bool")

    __hash__ = None

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def _bits(self, o, op):
        if self.kind != "bool" or not isinstance(o, Tensor) or o.kind != "bool":
            raise Unsupported("bits of numbers")
        return self._bin(o, op)

    def __and__(self, o):
        return self._bits(o, lambda a, b: And(a, b))

    def __or__(self, o):
        return self._bits(o, lambda a, b: Or(a, b))

    def __invert__(self):
        if self.kind != "bool":
            raise Unsupported("bits of numbers")
        f = self._fn
        t = Tensor("bool", self._shape, lambda *i: Not(f(*i)))
        if self.count is not None:
            t.count = self._shape[0] - self.count
        return t

    # --- parts
    def _key(self, k):
        """[(new size, old index of a new one) or index] for each dimension that is left"""
        ks = k if isinstance(k, tuple) else (k,)
        if len(ks) > len(self._shape):
            raise IndexError("too many indices for tensor")
        ks = ks + (slice(None),) * (len(self._shape) - len(ks))
        return [part(x, n) for x, n in zip(ks, self._shape)]

    def __getitem__(self, k):
        f = self._fn
        if isinstance(k, Tensor) and k.kind == "long" and k.ndim != 1 and self._shape:
            old, d = places(k, self._shape[0]), k.ndim
            return Tensor(self.kind, k._shape + self._shape[1:], lambda *i: f(old(*i[:d]), *i[d:]))
        ps = self._key(k)

        def at(*i):
            i, full = list(i), []
            for p in ps:
                full.append(p.index if p.index is not None else p.old(i.pop(0)))
            return f(*full)
        out = Tensor(self.kind, [p.n for p in ps if p.index is None], at)
        inv = getattr(self, "inv", None)
        if inv is not None and len(ps) == 1 and ps[0].index is None:
            def there(i):
                m, q = inv(i)
                h, r = ps[0].new(q)
                return And(m, h), r
            out.inv = there
            out.below = self.below if isinstance(k, slice) else k.below if isinstance(k, Tensor) and self.full else None
        return out

    def __setitem__(self, k, v):
        f, ps = self._fn, self._key(k)
        e = eng()
        left = [p for p in ps if p.index is None]
        hits = None
        if v is True and self.blank and len(ps) == 1 and isinstance(k, Tensor) and k.kind == "long" and k.below is not None:
            hits = k._shape[0]
        if isinstance(v, Tensor):
            if len(v._shape) != len(left):
                raise Unsupported("an assignment between different dimensions")
            for a, p in zip(v._shape, left):
                if not e.branch(boo(eq(a, p.n))):
                    if is_one(a):
                        raise Unsupported("an assignment of one to many")
                    raise RuntimeError("The expanded size of the tensor must match the existing size")
            g = v._as(self.kind)._fn
        else:
            c = convert(v, self.kind)
            g = lambda *i: c

        def at(*i):
            hit, new = True, []
            for p, x in zip(ps, i):
                if p.index is not None:
                    hit = And(hit, eq(x, p.index))
                else:
                    h, y = p.new(x)
                    hit = And(hit, h)
                    new.append(y)
            old = f(*i)
            if isinstance(hit, bool):
                return g(*new) if hit else old
            return If(hit, g(*new), old)
        rt().R.note_attr(self, "_fn")
        self._fn = at
        for a in ("inv", "count", "below", "full", "blank", "about"):
            if a in self.__dict__:
                rt().R.note_attr(self, a)
                del self.__dict__[a]
        if hits is not None:
            e.trust("a mask set at different places is true at as many")
            rt().R.note_attr(self, "count")
            self.count = hits


def is_one(n):
    return isinstance(n, int) and n == 1


def is_minus_one(n):
    return isinstance(n, int) and n == -1


def entailed(c):
    if isinstance(c, bool):
        return c
    e = eng()
    return not e.branch(z3.Not(boo(c))) if not e.follows(boo(c)) else True


def as_real(v):
    if isinstance(v, (bool, int, float)):
        return wrap(z3.RealVal(v))
    return v if isinstance(v, SymReal) else wrap(real(num(v)))


def whole(v):
    if isinstance(v, (int, SymInt)):
        return v
    if isinstance(v, float):
        return int(v)
    t = num(v)
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return wrap(t.arg(0))
    return rt()._int(v)


def convert(v, kind):
    if kind == "bool":
        return v if isinstance(v, (bool, SymBool)) else Not(eq(v, 0))
    if isinstance(v, (bool, SymBool)):
        return If(v, 1, 0) if kind == "long" else If(v, wrap(z3.RealVal(1)), wrap(z3.RealVal(0)))
    if not is_num(v):
        raise Unsupported("an element %s of a tensor" % type(v).__name__)
    return as_real(v) if kind == "float" else whole(v)


class Part:
    index = None


def part(k, n):
    """the part of a dimension of n elements that k selects"""
    p = Part()
    e = eng()
    if isinstance(k, slice):
        if k.step not in (None, 1):
            raise Unsupported("a tensor slice with a step")

        def bound(b, dflt):
            if b is None:
                return dflt
            if isinstance(b, int) and isinstance(n, int):
                return min(max(b + n if b < 0 else b, 0), n)
            b = If(b < 0, b + n, b)
            return If(b < 0, 0, If(b > n, n, b))
        a, z = bound(k.start, 0), bound(k.stop, n)
        if isinstance(a, int) and a == 0:
            p.n = z
        else:
            p.n = If(z > a, z - a, 0)
        m = p.n
        p.old = lambda i: i if isinstance(a, int) and a == 0 else i + a
        p.new = lambda i: (And(i >= a, i < a + m), i if isinstance(a, int) and a == 0 else i - a)
        return p
    if isinstance(k, (int, SymInt)) and not isinstance(k, bool):
        if e.branch(boo(Or(k >= n, k < -n))):
            raise IndexError("index out of range")
        p.index = k + n if (isinstance(k, int) and k < 0) else If(k < 0, k + n, k)
        return p
    if isinstance(k, Tensor) and k.kind == "bool" and k.ndim == 1:
        if not entailed(eq(k._shape[0], n)):
            raise Unsupported("a mask of another size")
        s = selection(k)
        p.n, p.old = wrap(s.n), s.old
        p.new = lambda i: (k.at(i), s.rank(i))
        return p
    if isinstance(k, Tensor) and k.kind == "long" and k.ndim == 1:
        p.n = k._shape[0]
        p.old = places(k, n)
        p.new = lambda i: inverse(k, i)
        return p
    raise Unsupported("a tensor index %s" % type(k).__name__)


def some_index(t):
    """any indices that are inside, and that they are"""
    ix = [wrap(eng().fresh("cell", z3.IntSort())) for _ in t._shape]
    return ix, And(*[And(i >= 0, i < n) for i, n in zip(ix, t._shape)])


def places(k, n):
    """indices that are used are inside (a negative one counts from the end)"""
    e = eng()
    ix, inside = some_index(k)
    v = k.at(*ix)
    bad, neg = (wrap(e.fresh(x, z3.BoolSort())) for x in ("outside", "negative"))
    e.fact(boo(Implies(bad, And(inside, Or(v >= n, v < -n)))))
    if e.branch(boo(bad)):
        raise IndexError("index out of range")
    e.fact(boo(Implies(neg, And(inside, v < 0))))
    if e.branch(boo(neg)):
        return lambda *i: If(k.at(*i) < 0, k.at(*i) + n, k.at(*i))
    return lambda *i: k.at(*i)


def inverse(k, i):
    """is i an element of the index tensor k, and where (the last place would count)"""
    inv = getattr(k, "inv", None)
    if inv is None:
        raise Unsupported("an assignment by these indices")
    return inv(i)


class selection:
    """x[mask]: the elements for which the mask is true, in order: old(j) is the index of
    the j-th, rank(i) the place of index i"""

    def __new__(cls, mask):
        e = eng()
        s = getattr(mask, "_selected", None)
        if s is not None and s.fn is mask._fn:
            return s
        e.trust("torch: x[mask] has the elements for which the mask is true, in their order")
        s = super().__new__(cls)
        I = z3.IntSort()
        name = "sel%d" % len(e.keep)
        s.n = e.fresh("selected", I)
        n = num(mask._shape[0])
        s.OLD, s.RANK = z3.Function("old_" + name, I, I), z3.Function("rank_" + name, I, I)
        s.to, s.mask, s.fn = n, mask, mask._fn
        e.fact(z3.And(s.n >= 0, s.n <= n))
        if mask.count is not None:
            e.fact(s.n == num(mask.count))
        e.selections = getattr(e, "selections", []) + [s]
        s.space = lists.Space(s.n, name)
        e.keep += [s, s.space]
        s.seen = {}
        e.forall2(s.space, lambda a, b: z3.Implies(a < b, s.OLD(a) < s.OLD(b)), "selected in order")
        mask._selected = s
        return s

    def old(s, j):
        e, t = eng(), num(j)
        s.space.use(t)
        o = s.OLD(t)
        e.fact(z3.Implies(s.space.inside(t), z3.And(o >= 0, o < s.to, boo(s.fn(wrap(o))), s.RANK(o) == t)))
        return wrap(o)

    def rank(s, i):
        e, t = eng(), num(i)
        r = s.RANK(t)
        s.space.use(r)
        e.fact(z3.Implies(z3.And(t >= 0, t < s.to, boo(s.fn(wrap(t)))), z3.And(r >= 0, r < s.n, s.OLD(r) == t)))
        return wrap(r)


# ------------------------------------------------------------------ functions of torch
def kind_of(d):
    for k, v in KINDS.items():
        if v is d:
            return k
    raise Unsupported("tensors of type %s" % (d,))


def dims(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        a = tuple(a[0])
    for d in a:
        if not is_num(d):
            raise TypeError("sizes are integers")
    return a


def zeros(*size, dtype=None, **k):
    kind = "float" if dtype is None else kind_of(dtype)
    z = {"float": as_real(0), "long": 0, "bool": False}[kind]
    t = Tensor(kind, dims(size), lambda *i: z)
    if kind == "bool":
        t.blank = True
    return t


def full(size, value, dtype=None, **k):
    kind = kind_of(dtype) if dtype is not None else "bool" if isinstance(value, bool) else \
        "long" if isinstance(value, int) else "float"
    c = convert(value, kind)
    return Tensor(kind, dims((size,)), lambda *i: c)


def getter(l):
    """the element at an index that is inside"""
    if len(l.segs) == 1 and isinstance(l.segs[0], lists.Seg) and l.segs[0].unguarded():
        s = l.segs[0]
        return lambda i: s.value(num(i))
    return lambda i: l[i]


def stack(ts, dim=0, **k):
    r, e = rt(), eng()
    l = lists.SymList(lists.as_segs(ts))
    n = r._len(l)
    if dim != 0:
        raise Unsupported("stacking along another dimension")
    if e.branch(boo(eq(n, 0))):
        raise RuntimeError("stack expects a non-empty TensorList")
    get = getter(l)
    i = wrap(e.fresh("of_stack", z3.IntSort()))
    e.fact(boo(And(i >= 0, i < n)))
    a, b = get(wrap(z3.IntVal(0))), get(i)
    if not isinstance(a, Tensor) or not isinstance(b, Tensor):
        raise TypeError("expected Tensor")
    if a.ndim != b.ndim or not all(entailed(eq(x, y)) for x, y in zip(a._shape, b._shape)):
        raise Unsupported("stacking tensors of different sizes")
    return Tensor(a.kind, (n,) + a._shape, lambda i, *j: get(i).at(*j))


def from_list(x, kind):
    r = rt()
    if isinstance(x, Tensor):
        return x._as(kind or x.kind)
    if is_num(x) and kind is not None:
        c = convert(x, kind)
        return Tensor(kind, (), lambda: c)
    if isinstance(x, (int, SymInt)):
        return Tensor("long", (), lambda: x)
    perm = getattr(x, "__pv_tensor__", None)
    if perm is not None:
        return perm(kind)
    l = lists.SymList(lists.as_segs(x))
    c = l.conc()
    if c is not None:
        if any(not is_num(v) and not isinstance(v, (bool, SymBool)) for v in c):
            raise Unsupported("a tensor of %s" % type(c[0]).__name__)
        kind = kind or ("bool" if c and all(isinstance(v, (bool, SymBool)) for v in c) else
                        "long" if c and all(isinstance(v, (int, SymInt)) for v in c) else "float")
        vs = [convert(v, kind) for v in c]

        def at(i):
            if isinstance(i, int):
                return vs[i]
            out = vs[-1]
            for k in reversed(range(len(vs) - 1)):
                out = If(eq(i, k), vs[k], out)
            return out
        return Tensor(kind, (len(vs),), at)
    n = r._len(l)
    get = getter(l)
    if isinstance(n, SymInt) and eng().branch(boo(eq(n, 0))):
        return Tensor(kind or "float", (0,), lambda i: 0)
    first = get(wrap(z3.IntVal(0)))
    if isinstance(first, (tuple, list)):
        if not first or not all(is_num(v) for v in first):
            raise Unsupported("a tensor of lists")
        kind = kind or ("long" if all(isinstance(v, (int, SymInt)) for v in first) else "float")

        def cell(i, j):
            row = get(i)
            out = convert(row[-1], kind)
            for k in reversed(range(len(row) - 1)):
                out = If(eq(j, k), convert(row[k], kind), out)
            return out
        return Tensor(kind, (n, len(first)), cell)
    if kind is None:
        v = get(wrap(z3.IntVal(0)))
        kind = "long" if isinstance(v, (int, SymInt)) else "float"
    t = Tensor(kind, (n,), lambda i: convert(get(i), kind))
    if len(l.segs) == 1 and isinstance(l.segs[0], lists.Seg) and l.segs[0].unguarded():
        t.about = l.segs[0].facts
    return t


def FloatTensor(x=()):
    return from_list(x, "float")


def LongTensor(x=()):
    return from_list(x, "long")


def tensor(x, dtype=None, **k):
    return from_list(x, None if dtype is None else kind_of(dtype))


def all_(t):
    """every element is true"""
    e = eng()
    b = wrap(e.fresh("all", z3.BoolSort()))
    ix = [wrap(e.fresh("exception", z3.IntSort())) for _ in t._shape]
    inside = And(*[And(i >= 0, i < n) for i, n in zip(ix, t._shape)])
    e.fact(boo(Or(b, And(inside, Not(t.at(*ix))))))
    return Tensor("bool", (), lambda: b)


def cat(ts, dim=0, **k):
    dim = k.get("axis", dim)
    ts = list(ts)
    d = dim + ts[0].ndim if dim < 0 else dim
    kind = "float" if any(t.kind == "float" for t in ts) else ts[0].kind
    for t in ts[1:]:
        if t.ndim != ts[0].ndim:
            raise RuntimeError("Tensors must have same number of dimensions")
        for q in range(t.ndim):
            if q != d and eng().branch(boo(Not(eq(t._shape[q], ts[0]._shape[q])))):
                raise RuntimeError("Sizes of tensors must match")
    fs = [t._as(kind)._fn for t in ts]
    ns = [t._shape[d] for t in ts]

    def at(*i):
        def pick(k, x):
            v = lambda: fs[k](*(i[:d] + (x,) + i[d + 1:]))
            if k == len(fs) - 1:
                return v()
            c = x < ns[k]
            if isinstance(c, bool):
                return v() if c else pick(k + 1, x - ns[k])
            return If(c, v(), pick(k + 1, x - ns[k]))
        return pick(0, i[d])
    tot = ns[0]
    for n in ns[1:]:
        tot = tot + n
    return Tensor(kind, ts[0]._shape[:d] + (tot,) + ts[0]._shape[d + 1:], at)


def one_hot(t, num_classes=-1):
    e = eng()
    if t.kind != "long":
        raise RuntimeError("one_hot is only applicable to index tensor")
    if isinstance(num_classes, int) and num_classes == -1:
        raise Unsupported("one_hot with classes by content")
    # a class outside raises
    ix = [wrap(e.fresh("label", z3.IntSort())) for _ in t._shape]
    inside = And(*[And(i >= 0, i < n) for i, n in zip(ix, t._shape)])
    some = wrap(e.fresh("bad_label", z3.BoolSort()))
    v = t.at(*ix)
    e.fact(boo(Or(Not(some), And(inside, Or(v < 0, v >= num_classes)))))
    e.trust("torch one_hot: refuses labels outside the classes, else row i has its one at label i")
    if e.branch(boo(some)):
        raise RuntimeError("Class values must be smaller than num_classes.")
    f = t._fn

    def at(*i):
        v = f(*i[:-1])
        inside = And(*[And(j >= 0, j < n) for j, n in zip(i, t._shape)])
        e.fact(boo(Implies(inside, And(v >= 0, v < num_classes))))
        return If(eq(v, i[-1]), 1, 0)
    return Tensor("long", t._shape + (num_classes,), at)


def arange(n, *more, **k):
    if more:
        raise Unsupported("arange from a start")
    t = Tensor("long", (n,), lambda i: i)
    t.inv = lambda i: (And(i >= 0, i < n), i)
    t.below, t.full = n, True
    return t


def permutation(n):
    """a permutation of 0..n-1"""
    e = eng()
    I = z3.IntSort()
    name = "perm%d" % len(e.keep)
    P, Q = z3.Function(name, I, I), z3.Function(name + "_inverse", I, I)
    e.keep.append(P)
    e.trust("a random permutation of 0..n-1 has each of them once")
    N = num(n)

    def at(j):
        t = num(j)
        e.fact(z3.Implies(z3.And(t >= 0, t < N), z3.And(P(t) >= 0, P(t) < N, Q(P(t)) == t)))
        return wrap(P(t))

    def place(i):
        t = num(i)
        e.fact(z3.Implies(z3.And(t >= 0, t < N), z3.And(Q(t) >= 0, Q(t) < N, P(Q(t)) == t)))
        return wrap(Q(t))
    t = Tensor("long", (n,), at)
    t.inv = lambda i: (And(i >= 0, i < n), place(i))
    t.below, t.full = n, True
    return t


def rand(*size, **k):
    """numbers from 0 up to, without, 1"""
    e = eng()
    size = dims(size)
    R = z3.Function("rand%d" % len(e.keep), *([z3.IntSort()] * len(size) + [z3.RealSort()]))
    e.keep.append(R)

    def at(*i):
        v = R(*[num(x) for x in i])
        e.fact(z3.And(v >= 0, v < 1))
        return wrap(v)
    return Tensor("float", size, at)


def degree(index, num_nodes=None, dtype=None):
    """how often each number is in a list of numbers"""
    e = eng()
    if num_nodes is None:
        raise Unsupported("degrees of an unknown number of nodes")
    D = z3.Function("degree%d" % len(e.keep), z3.IntSort(), z3.RealSort())
    e.degrees = getattr(e, "degrees", []) + [(index.clone(), D)]
    e.keep.append(D)
    e.trust("torch_geometric degree: how often each number is in the list")
    t = Tensor("float", (num_nodes,), lambda i: wrap(D(num(i))))
    return t if dtype is None else t._as(kind_of(dtype))


class Data:
    """a graph of torch_geometric: attributes; those every graph has are None when not given"""

    def __init__(self, x=None, edge_index=None, edge_attr=None, y=None, pos=None, time=None, **kw):
        kw.update(x=x, edge_index=edge_index, edge_attr=edge_attr, y=y, pos=pos, time=time)
        for k, v in kw.items():
            self.__dict__[k] = v
        rt().R.stamp(self)

    def __setattr__(self, k, v):
        rt().R.note_attr(self, k)
        self.__dict__["_num_nodes" if k == "num_nodes" else k] = v

    def __getattr__(self, k):
        if k == "num_nodes":
            d = self.__dict__
            if d.get("_num_nodes") is not None:
                return d["_num_nodes"]
            if isinstance(d.get("x"), Tensor):
                return d["x"]._shape[0]
            raise Unsupported("the number of nodes of a graph without features")
        if k.startswith("__") or k in self.NONE or k not in KNOWN_DATA:
            raise AttributeError(k)
        raise Unsupported("%s of a graph" % k)

    NONE = ()

    def __copy__(self):
        o = Data()
        o.__dict__.update({k: v for k, v in self.__dict__.items() if not k.startswith("__")})
        return o

    clone = __copy__

    @classmethod
    def from_dict(cls, d):
        return cls(**dict(d.items()))

    def __getitem__(self, k):
        if k not in self.__dict__:
            raise KeyError(k)
        return self.__dict__[k]

    def __contains__(self, k):
        return self.__dict__.get(k) is not None

    def __setitem__(self, k, v):
        setattr(self, k, v)

    def __delitem__(self, k):
        if k not in self.__dict__:
            raise KeyError(k)
        rt().R.note_attr(self, k)
        del self.__dict__[k]


KNOWN_DATA = {"num_edges", "num_node_features", "num_features", "keys", "to_dict", "node_attrs", "is_undirected", "coalesce",
              "validate", "subgraph", "edge_subgraph", "size", "put_tensor", "update", "apply", "has_isolated_nodes",
              "is_directed", "batch", "face", "is_coalesced", "contains_isolated_nodes", "edge_attrs", "to", "cpu"}


class BaseTransform:
    def __call__(self, data):
        return self.forward(data.__copy__())


class Dataset:
    """a data set of torch_geometric that is kept in memory: what is processed is saved
    as one collated graph; processing runs when the data set is made and there is none"""
    paths = None        # what raw_paths are, for the data set under contract
    collated = staticmethod(lambda l: (_ for _ in ()).throw(Unsupported("collate")))

    def __init__(self, root=None, transform=None, pre_transform=None, pre_filter=None, log=True, force_reload=False):
        self.root, self.transform, self.pre_transform, self.pre_filter = root, transform, pre_transform, pre_filter
        self._indices, self.slices, self._data_list = None, None, None
        type(self).made = self
        self.process()

    @property
    def raw_dir(self):
        return self.root + "/raw"

    @property
    def processed_dir(self):
        return self.root + "/processed"

    @property
    def raw_paths(self):
        if self.paths is None:
            raise Unsupported("the raw files of a data set")
        return self.paths

    @property
    def processed_paths(self):
        return [self.processed_dir + "/" + n for n in self.processed_file_names]

    def collate(self, l):
        return self.collated(l)


def isin(a, b):
    inv = getattr(b, "inv", None)
    if inv is None:
        raise Unsupported("isin of these indices")
    f = a._fn
    t = Tensor("bool", a._shape, lambda *i: inv(f(*i))[0])
    if a.below is not None and b.below is not None and a.full and entailed(eq(a.below, b.below)):
        eng().trust("as many numbers below n are in a list of different numbers below n as the list has")
        t.count = b._shape[0]
    return t


def install(t, modules):
    import types
    for k in ("float", "long", "bool"):
        KINDS.setdefault(k, types.SimpleNamespace(torch=k))
    t.__dict__.update(Tensor=Tensor, FloatTensor=FloatTensor, LongTensor=LongTensor, tensor=tensor, zeros=zeros, full=full,
                      all=all_, isin=isin, cat=cat, stack=stack, arange=arange, randperm=permutation, float=KINDS["float"], float32=KINDS["float"],
                      long=KINDS["long"], int64=KINDS["long"], bool=KINDS["bool"])
    from . import stubs
    modules["numpy"].__dict__["random"] = stubs.mod("numpy.random", permutation=permutation)
    t.__dict__.update(rand=rand)
    modules["torch_geometric.utils"].__dict__.update(degree=degree)
    modules["torch_geometric.data"].__dict__.update(Data=Data, InMemoryDataset=Dataset)
    modules["torch_geometric.transforms"].__dict__.update(BaseTransform=BaseTransform)
    modules["torch.nn.functional"].__dict__.update(one_hot=one_hot)
