"""Symbolic sequences and the heap.

A sequence is a list of segments.  A segment is one known element, or all the
elements value(i) for the indices i of a space (0 <= i < n) with guard(i), in
order of i.  Loops and comprehensions over a sequence are summarised from one
generic iteration (summarise below): the iteration is executed for an
arbitrary index in an arbitrary state of the variables the loop changes, and
the effect of the whole loop follows by the rules

  appended values            -> a segment (guard, value)
  v' = max(v, e(i)) etc.     -> the maximum over the segment (similarly min)
  v' = v + e(i)              -> a sum
  v' = (v or p(i)), last(v)  -> there is an index with p / the last such index
  field of the element       -> every element's field updated
  leaving the loop           -> a first index that leaves, none before it

each checked by the solver on the generic iteration before it is used."""
import z3

from . import core
from .core import (SymBase, SymBool, SymInt, SymNum, SymReal, Unsupported, And, Or, Not, If, boo, eng, eq, is_num, num,
                   tolr, wrap, real)


ENG_RT = []          # the runtime, set by rt


class Space:
    """An index range [0, n)."""

    def __init__(self, n, name):
        self.n, self.name, self.terms, self.ids = n, name, [], {}
        eng().spaces.append(self)

    def inside(self, t):
        return z3.And(t >= 0, t < self.n)

    def use(self, t):
        rec = eng().recording()
        if rec is not None:
            rec.uses.append((self, t))
            return t
        if t.get_id() not in self.ids:
            u = cancelled(t)
            self.ids[t.get_id()] = t
            if u is t or u.get_id() not in self.ids:
                self.ids[u.get_id()] = u
                self.terms.append(u)
        return t

    def quiet(self, nm):
        """a name for an arbitrary index, not used for instantiation yet"""
        return eng().fresh("%s_%s" % (self.name, nm), z3.IntSort())

    def restore(self, terms):
        self.terms[:] = terms
        self.ids = {t.get_id(): t for t in terms}

    def generic(self, nm="i"):
        t = eng().fresh("%s_%s" % (self.name, nm), z3.IntSort())
        self.use(t)
        return t


def cancelled(t):
    """an index term without steps forth and back (which terms are used decides only
    what is looked at, not what is true)"""
    c = eng().cancel
    if not c or t.num_args() != 1 or not z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED):
        return t
    a = cancelled(t.arg(0))
    if a.num_args() == 1 and (t.decl().get_id(), a.decl().get_id()) in c:
        return a.arg(0)
    return t if a is t.arg(0) or a.eq(t.arg(0)) else t.decl()(a)


class Seg:
    lin = None      # the rearrangement its space numbers, if any
    count = None    # the number of its elements, when it has a name
    kin = None      # a Kin, when it is one of a family of segments

    def __init__(self, space, guard, value, facts=None):
        self.space, self.guard, self.value_, self.facts = space, guard, value, facts

    def value(self, t):
        self.space.use(t)
        if self.facts is not None:
            e = eng()
            k = ("seg", id(self), t.get_id())
            rec = e.recording()
            seen = e.facts_seen if rec is None else rec.seen
            if k not in seen:
                seen[k] = None
                e.keep += [self, t]
                inr = z3.And(self.space.inside(t), boo(self.guard(t)))
                fs = [boo(f) for f in self.facts(t)]
                if fs:
                    e.fact(z3.Implies(inr, z3.And(*fs)))
        return self.value_(t)

    def inr(self, t):
        return z3.And(self.space.inside(t), boo(self.guard(t)))

    def unguarded(self):
        g = boo(self.guard(z3.Int("probe!")))
        return z3.is_true(z3.simplify(g))


class Kin:
    """what is known of a segment as one of a family: it has an element, and its extrema
    are functions of the member of the family: [(sense, index -> value, result)]"""

    def __init__(self, extrema=()):
        self.extrema = list(extrema)

    def extremum(self, sense, f):
        i = z3.Int("probe!")
        t = z3.simplify(num(f(i)))
        for s, g, r in self.extrema:
            if s == sense and z3.simplify(num(g(i))).eq(t):
                return r
        return None


class Elem:
    def __init__(self, v):
        self.v = v


TRUE = z3.BoolVal(True)
always = lambda i: TRUE


# ------------------------------------------------------------------- heap
class Heap:
    """Fields of the objects that symbolic references denote."""

    def __init__(self):
        self.layers = {}     # (class key, field) -> [("pt", ref, val) | ("set", member(ref), val(ref))]
        self.log = []

    def read(self, tpl, field, ref, layers=None):
        acc = tpl.base(field, ref)
        for l in (self.layers.get((tpl, field), ()) if layers is None else layers):
            if l[0] == "pt":
                c, v = l[1] == ref, l[2]
            else:
                c, v = l[1](ref), None
                c = z3.simplify(c)
                if z3.is_false(c):
                    continue
                v = l[2](ref)
            c = z3.simplify(c)
            if z3.is_false(c):
                continue
            a, b = (v, acc) if z3.is_bool(acc) else tolr(v, acc)
            acc = a if z3.is_true(c) else z3.If(c, a, b)
        return acc

    def write(self, tpl, field, ref, val):
        self.layers.setdefault((tpl, field), []).append(("pt", ref, val))
        self.log.append((tpl, field))

    def snapshot(self):
        return {k: list(v) for k, v in self.layers.items()}

    def restore(self, s):
        self.layers = {k: list(v) for k, v in s.items()}


class ObjSpec:
    """Objects in any state their constructor can give them: build(args) runs the
    real constructor on symbolic arguments; the attributes it sets, as functions
    of the arguments, are the attributes of the object a reference denotes."""

    def __init__(self, key, kinds, build, pre):
        self.key, self.kinds, self.build, self.pre = key, dict(kinds), build, pre

    def template(self):
        e = eng()
        t = e.templates.get(self.key)
        if t is None:
            consts = {k: z3.Const("%s.%s!arg" % (self.key, k), SORT[kind]) for k, kind in self.kinds.items()}
            args = {k: wrap_raw(c) for k, c in consts.items()}

            def once():
                for c in self.pre(args):
                    e.add(c)
                return self.build(dict(args))
            res = e.subexplore(once)
            if not res:
                raise Unsupported("the constructor of %s has no outcome" % self.key)
            if any(fresh for _, _, fresh, _ in res):
                raise Unsupported("the constructor of %s uses unspecified values" % self.key)
            cond = [z3.And(*dec) if dec else TRUE for dec, _, _, _ in res]
            facts = [z3.Implies(c, f) for c, (_, fs, _, _) in zip(cond, res) for f in fs] + [z3.Or(*cond)]
            objs = [r[3] for r in res]
            if len({type(o) for o in objs}) != 1 or len({frozenset(attrs(o)) for o in objs}) != 1:
                raise Unsupported("the constructor of %s has outcomes of different kinds" % self.key)
            fields = {f: merge([(c, attrs(o)[f]) for c, o in zip(cond, objs)], {}) for f in attrs(objs[0])}
            funs = {k: z3.Function("%s.%s" % (self.key, k), z3.IntSort(), c.sort()) for k, c in consts.items()}
            t = e.templates[self.key] = Template(self, consts, funs, fields, facts, type(objs[0]))
        return t


class Template:
    def __init__(self, spec, consts, funs, fields, facts, cls):
        self.spec, self.consts, self.funs, self.fields, self.cls = spec, consts, funs, fields, cls
        self.facts = z3.simplify(z3.And(*facts)) if facts else TRUE
        self.kinds, self.ats = {}, {}
        d = {"__pv_view__": self}
        for f, v in fields.items():
            if isinstance(v, (bool, SymBool)):
                self.kinds[f] = "bool"
            elif is_num(v):
                self.kinds[f] = "num"
            if f in self.kinds:
                d[f] = _descr(self, f)
            else:
                d[f] = property(lambda o, v=v: subst(v, self.at(o._pv_ref), {}))
        base_setattr = object.__setattr__

        def sa(o, name, v):
            if name not in self.kinds and not isinstance(getattr(cls, name, None), property):
                raise Unsupported("attribute %s of a symbolic object" % name)
            base_setattr(o, name, v)
        d["__setattr__"] = sa
        d["__hash__"] = object.__hash__
        if "__eq__" in dir(cls):
            d["__eq__"] = cls.__eq__
        self.view_cls = type(cls.__name__, (cls,), d)

    def at(self, ref):
        r = self.ats.get(ref.get_id())
        if r is None:
            r = self.ats[ref.get_id()] = (ref, [(c, self.funs[k](ref)) for k, c in self.consts.items()])
        return r[1]

    def base(self, field, ref):
        v = self.fields[field]
        t = boo(v) if self.kinds[field] == "bool" else num(v)
        return z3.substitute(t, *self.at(ref))

    def facts_at(self, ref):
        return [z3.substitute(self.facts, *self.at(ref))]

    def arg(self, name, ref):
        return wrap(self.funs[name](ref))

    def view(self, ref):
        o = object.__new__(self.view_cls)
        object.__setattr__(o, "_pv_ref", ref)
        return o


SORT = {"int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort()}


def wrap_raw(t):
    return SymBool(t) if z3.is_bool(t) else SymInt(t) if t.is_int() else SymReal(t)


def _descr(tpl, field):
    kind = tpl.kinds[field]

    def get(self):
        return wrap(eng().heap.read(tpl, field, self._pv_ref))

    def set_(self, v):
        if kind == "bool":
            t = boo(v)
        else:
            if not is_num(v):
                raise Unsupported("a field is set to %s" % type(v).__name__)
            t = num(v)
        eng().heap.write(tpl, field, self._pv_ref, t)
    return property(get, set_)


def view(tpl, ref):
    return tpl.view(ref)


OWNER = z3.Function("owner", z3.IntSort(), z3.IntSort())
OWNERS = {}


def object_list(spec, n, name, extra=None):
    """n distinct objects of a kind: the elements of one list"""
    e = eng()
    t = spec.template()
    sp = Space(n, name)
    ref = z3.Function("ref_" + name, z3.IntSort(), z3.IntSort())
    inv = z3.Function("idx_" + name, z3.IntSort(), z3.IntSort())
    own = OWNERS.setdefault(name, len(OWNERS))

    def index(r):
        if z3.is_app(r) and r.num_args() == 1 and r.decl().eq(ref):
            return r.arg(0)
        return inv(r)
    e.inverse[ref.name()] = index

    def facts(i):
        r = ref(i)
        out = [inv(r) == i, OWNER(r) == own] + t.facts_at(r)
        if extra is not None:
            out += [boo(c) for c in extra(t.view(r), i)]
        return out
    s = Seg(sp, always, lambda i: t.view(ref(i)), facts)
    return SymList([s]), sp, s


class Opaque:
    """objects of a class of which nothing is written, and nothing is read but the
    given fields (functions of the reference)"""
    kinds = {}

    def __init__(self, cls, key, fields):
        def ga(o, name):
            if name in fields:
                return fields[name](object.__getattribute__(o, "_pv_ref"))
            if name in ("_pv_ref", "__class__", "__dict__", "__pv_view__"):
                return object.__getattribute__(o, name)
            if hasattr(getattr(cls, name, None), "__pv_contract__"):
                return object.__getattribute__(o, name)
            raise Unsupported("attribute %s of an object of which only the identity is known" % name)

        def sa(o, name, v):
            raise Unsupported("attribute %s of an object of which only the identity is known" % name)
        d = {"__pv_view__": self, "__getattribute__": ga, "__setattr__": sa, "__hash__": object.__hash__}
        self.key = key
        self.view_cls = type(cls.__name__, (cls,), d)

    def view(self, ref):
        o = object.__new__(self.view_cls)
        object.__setattr__(o, "_pv_ref", ref)
        return o

    def facts_at(self, r):
        return []


def opaque_objects(cls, key, name, fields=None):
    """index -> an object of the class of which only the identity (and the given fields) is known"""
    t = Opaque(cls, key, fields or {})
    ref = z3.Function("ref_" + name, z3.IntSort(), z3.IntSort())
    return lambda i: t.view(ref(i))


class Rows:
    """the elements of a sequence, for a failing case: one entry per element"""

    def __init__(self, segs, row):
        self.segs, self.row = as_segs(segs), row

    def __pv_val__(self, val):
        out = []
        for s in self.segs:
            if isinstance(s, Elem):
                out.append(val(self.row(s.v)))
                continue
            n = val(SymInt(s.space.n))
            for i in range(min(n, 12)):
                t = z3.IntVal(i)
                if val(SymBool(boo(s.guard(t)))):
                    out.append(val(self.row(s.value_(t))))
        return out


def num_list(name, n, kind="int", pre=None):
    """a list of n numbers"""
    sp = Space(num(n), name)
    f = z3.Function("elem_" + name, z3.IntSort(), SORT[kind])
    s = Seg(sp, always, lambda i: wrap(f(i)), (lambda i: [pre(wrap(f(i)))]) if pre else None)
    return SymList([s])


def is_view(o):
    return "_pv_ref" in getattr(o, "__dict__", ())


def same_object(a, b):
    """identity of two objects as a truth value"""
    if is_view(a) and is_view(b):
        return wrap(a._pv_ref == b._pv_ref)
    return a is b


# ---------------------------------------------------------- opaque values
class Tok:
    """The value of a library function that is only compared: equal arguments
    give equal values; with inj, only those do."""
    __pv_arith__ = True

    def __init__(self, name, args, inj=True):
        self.name, self.args, self.inj = name, tuple(args), inj

    def __pv_eq__(self, o):
        if not isinstance(o, Tok):
            return False
        if o.name != self.name or len(o.args) != len(self.args):
            if self.inj and o.inj:
                return False
            raise Unsupported("comparison of unrelated values")
        c = And(*[deep_eq(a, b) for a, b in zip(self.args, o.args)])
        if self.inj or c is True:
            return c
        if eng().branch(boo(c)):
            return True
        raise Unsupported("comparison of values of %s" % self.name)

    def __eq__(self, o):
        return self.__pv_eq__(o)

    def __ne__(self, o):
        return Not(self.__pv_eq__(o))

    def __bool__(self):
        if self.name == "hash" and len(self.args) == 1 and type(self.args[0]).__name__ in ("SymInt", "SymReal"):
            t = num(self.args[0])
            return eng().branch(z3.Function("hash_is_not_zero", t.sort(), z3.BoolSort())(t))
        raise Unsupported("whether the value of %s is true" % self.name)

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __str__(self):
        return "<%s>" % self.name

    __repr__ = __str__

    def __format__(self, s):
        return "<%s>" % self.name

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _no(self, *a, **k):
        raise Unsupported("this use of the value of %s" % self.name)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __mod__ = __rmod__ = __truediv__ = __rtruediv__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __len__ = __iter__ = __getitem__ = __contains__ = __int__ = __float__ = __index__ = _no


class Text(Tok):
    """A formatted text: its pieces, some of them symbolic."""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "" or not isinstance(p, str):
                out.append(p)
        Tok.__init__(self, "text", out, False)

    def __add__(self, o):
        return Text(list(self.args) + (list(o.args) if isinstance(o, Text) else [o])) if isinstance(o, (str, Tok)) else NotImplemented

    def __radd__(self, o):
        return Text([o] + list(self.args)) if isinstance(o, str) else NotImplemented

    def __pv_eq__(self, o):
        if isinstance(o, str):
            raise Unsupported("comparison of a text built of symbolic values")
        if isinstance(o, Text) and len(o.args) == len(self.args):
            holes = []
            for x, y in zip(self.args, o.args):
                if isinstance(x, str) != isinstance(y, str):
                    break
                if isinstance(x, str):
                    if x != y:
                        break
                else:
                    holes.append((x, y))
            else:
                if len(holes) == 1 and all(type(v).__name__ == "SymInt" or type(v) is int for v in holes[0]):
                    return eq(*holes[0])
        if isinstance(o, Tok) and not isinstance(o, Text):
            raise Unsupported("comparison of unrelated values")
        return Tok.__pv_eq__(self, o)


def deep_eq(a, b):
    """equality of keys and plain values as a truth value"""
    if isinstance(a, (SymBase, Tok)) or isinstance(b, (SymBase, Tok)):
        return eq(a, b)
    if hasattr(a, "__pv_eq__"):
        return a.__pv_eq__(b)
    if hasattr(b, "__pv_eq__"):
        return b.__pv_eq__(a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[deep_eq(x, y) for x, y in zip(a, b)])
    if is_num(a) and is_num(b) or isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return a == b
    r = a == b
    return r


# -------------------------------------------------- substitution and merging
def subst(v, pairs, born, memo=None):
    """a copy of v with symbols replaced; objects born inside the iteration are
    copied, older ones are shared"""
    memo = {} if memo is None else memo
    if isinstance(v, (int, float, str, bool, type(None), bytes)) or isinstance(v, type):
        return v
    if isinstance(v, SymBase):
        return wrap(z3.substitute(v.t, *pairs))
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, Tok):
        return Tok(v.name, tuple(subst(x, pairs, born, memo) for x in v.args), v.inj)
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, tuple):
        return tuple(subst(x, pairs, born, memo) for x in v)
    if is_view(v):
        r = view(type(v).__pv_view__, z3.simplify(z3.substitute(v._pv_ref, *pairs)))
        return r
    if isinstance(v, SymList):
        raise Unsupported("a sequence inside a generic element")
    if isinstance(v, list):
        r = type(v)(subst(x, pairs, born, memo) for x in list.__iter__(v))
        return r
    if isinstance(v, dict) and type(v) is dict:
        return {k: subst(x, pairs, born, memo) for k, x in v.items()}
    if id(v) in born:
        r = object.__new__(type(v))
        ENG_RT[0].stamp(r)
        memo[id(v)] = r
        d = attrs(v)
        for k, x in d.items():
            object.__setattr__(r, k, subst(x, pairs, born, memo))
        return r
    return v


def attrs(o):
    d = {}
    for c in type(o).__mro__:
        for s in getattr(c, "__slots__", ()) or ():
            if isinstance(s, str) and s not in ("__dict__", "__weakref__"):
                n = s
                if n.startswith("__") and not n.endswith("__"):
                    n = "_%s%s" % (c.__name__.lstrip("_"), n)
                try:
                    d[n] = object.__getattribute__(o, n)
                except AttributeError:
                    pass
    d.update(getattr(o, "__dict__", {}))
    return d


def merge(cvs, born):
    """one value from [(condition, value)], conditions exclusive and complete"""
    vals = [v for _, v in cvs]
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    if all(is_num(v) for v in vals):
        acc = vals[-1]
        for c, v in reversed(cvs[:-1]):
            acc = If(c, v, acc)
        return acc
    if all(isinstance(v, (str, type(None))) and v == v0 for v in vals):
        return v0
    if all(isinstance(v, z3.ExprRef) for v in vals):
        acc = vals[-1]
        for c, v in reversed(cvs[:-1]):
            acc = z3.If(boo(c), v, acc)
        return acc
    if all(isinstance(v, Tok) and v.name == v0.name and len(v.args) == len(v0.args) for v in vals):
        return Tok(v0.name, tuple(merge([(c, v.args[k]) for c, v in cvs], born) for k in range(len(v0.args))), v0.inj)
    if all(isinstance(v, tuple) and len(v) == len(v0) for v in vals):
        return tuple(merge([(c, v[k]) for c, v in cvs], born) for k in range(len(v0)))
    if all(is_view(v) and type(v) is type(v0) for v in vals):
        acc = vals[-1]._pv_ref
        for c, v in reversed(cvs[:-1]):
            acc = z3.If(boo(c), v._pv_ref, acc)
        return view(type(v0).__pv_view__, z3.simplify(acc))
    if all(type(v) is type(v0) and id(v) in born for v in vals):
        ks = set(attrs(v0))
        if all(set(attrs(v)) == ks for v in vals):
            r = object.__new__(type(v0))
            ENG_RT[0].stamp(r)
            born[id(r)] = r
            for k in ks:
                object.__setattr__(r, k, merge([(c, attrs(v)[k]) for c, v in cvs], born))
            return r
    if all(not isinstance(v, SymBase) and not is_view(v) and type(v) is type(v0) for v in vals):
        try:
            if all(type(v).__eq__ is not object.__eq__ and id(v) not in born and v == v0 for v in vals):
                return v0
        except Exception:
            pass
    raise Unsupported("values of different kinds on different paths")


# -------------------------------------------------------------- fold results
class FoldMax:
    """description of an extremum over segments, kept for contracts"""


def extremum(parts, sense, seeds, what):
    """parts: [(seg, e(i))] ; seeds: [(cond, value)] values that also compete.
    Returns a real/int symbol R that is the extremum; assumes there is at least
    one competitor under the path condition."""
    e = eng()
    if len(parts) == 1 and not seeds and parts[0][0].kin is not None:
        r = parts[0][0].kin.extremum(sense, parts[0][1])
        if r is not None:
            return r
    sort_real = any(not num(v).is_int() for _, v in seeds)
    for seg, f in parts:
        with e.scope():
            if not num(f(seg.space.generic("m"))).is_int():
                sort_real = True
    R = e.fresh("ext_" + what, z3.RealSort() if sort_real else z3.IntSort())

    def le(a, b):
        a, b = tolr(num(a), num(b))
        return (a <= b) if sense == "max" else (a >= b)

    def same(a, b):
        a, b = tolr(num(a), num(b))
        return a == b
    Rv = wrap(R)
    for c, v in seeds:
        e.fact(z3.Implies(boo(c), le(v, Rv)))
    alts = [z3.And(boo(c), same(v, Rv)) for c, v in seeds]
    for seg, f in parts:
        e.forall(seg.space, lambda i, seg=seg, f=f: z3.Implies(boo(seg.guard(i)), le(f(i), Rv)), "bound of " + what)
        w = seg.space.generic("w")
        alts.append(z3.And(seg.inr(w), same(f(w), Rv)))
    e.fact(z3.Or(*alts) if alts else z3.BoolVal(False))
    return Rv


# --------------------------------------------------------------------- lists
class SymList:
    """A list of the verified program, possibly symbolic.  Mutation replaces the
    segments; lists without symbolic segments behave as Python lists."""
    __pv_list__ = True

    def __init__(self, segs=()):
        self.segs = list(segs)
        self.poison = None
        if ENG_RT:
            ENG_RT[0].stamp(self)

    def conc(self):
        """the Python list of the elements, or None when there are symbolic segments"""
        self.readable()
        if all(isinstance(s, Elem) for s in self.segs):
            return [s.v for s in self.segs]
        return None

    def readable(self):
        if self.poison is not None:
            raise Unsupported("a list that the loop builds is read inside the loop")

    def _via(self, meth, *a, **k):
        l = self.conc()
        if l is None:
            raise Unsupported("list.%s of a symbolic sequence" % meth)
        before = list(l)
        r = getattr(l, meth)(*a, **k)
        if len(l) != len(before) or any(x is not y for x, y in zip(l, before)):
            self._set([Elem(v) for v in l])
        return r

    # -- mutation bookkeeping
    def _set(self, segs):
        ENG_RT[0].note_list(self)
        if self.poison is not None:
            raise Unsupported("a list that the loop builds is changed other than by appending")
        self.segs = list(segs)

    # -- size and emptiness
    def nonempty(self):
        """truth value: there is an element"""
        e = eng()
        alts = []
        for s in self.segs:
            if isinstance(s, Elem):
                return True
            if s.kin is not None:
                return True
            if s.unguarded():
                alts.append(s.space.n > 0)
                s.space.use(z3.IntVal(0))
                continue
            key = "ne!"
            p = e.fresh("some", z3.BoolSort())
            w = s.space.generic("w")
            e.fact(z3.Implies(p, s.inr(w)))
            e.forall(s.space, lambda i, s=s, p=p: z3.Implies(boo(s.guard(i)), p), "non-empty")
            alts.append(p)
        return wrap(z3.Or(*alts)) if alts else False

    def __bool__(self):
        self.readable()
        return bool(self.nonempty())

    def length(self):
        e = eng()
        if self.poison is not None:
            n = e.fresh("len_so_far", z3.IntSort())     # some length: it depends on the iterations before
            e.fact(n >= 0)
            return wrap(n)
        self.readable()
        tot = 0
        for s in self.segs:
            if isinstance(s, Elem):
                tot = tot + 1
            elif s.unguarded():
                tot = tot + wrap(s.space.n)
            else:
                m = e.fresh("count", z3.IntSort()) if s.count is None else s.count
                e.fact(z3.And(m >= 0, m <= s.space.n))
                w, w2 = s.space.generic("w"), s.space.generic("w2")
                e.fact(z3.Implies(m >= 1, s.inr(w)))
                e.fact(z3.Implies(m >= 2, z3.And(s.inr(w2), w < w2)))
                e.forall(s.space, lambda i, s=s, m=m: z3.Implies(boo(s.guard(i)), m >= 1), "count")
                e.forall2(s.space, lambda i, j, s=s, m=m: z3.Implies(
                    z3.And(boo(s.guard(i)), boo(s.guard(j)), i != j), m >= 2), "count")
                tot = tot + wrap(m)
        return tot

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported("machine length of a symbolic sequence")

    def __iter__(self):
        l = self.conc()
        if l is not None:
            return iter(l)
        raise Unsupported("a symbolic sequence is iterated outside a loop")

    def __reversed__(self):
        return reversed(list(self))

    # -- elements
    def elems(self):
        return self.segs

    def concat(self, other):
        return SymList(self.segs + as_segs(other))

    def __add__(self, o):
        if not islist(o):
            raise TypeError("can only concatenate list")
        return self.concat(o)

    def __radd__(self, o):
        return SymList(as_segs(o) + self.segs)

    def __iadd__(self, o):
        self._set(self.segs + as_segs(o))
        return self

    def append(self, v):
        if self.poison is not None:
            self.poison.append(("append", v))
            return
        self._set(self.segs + [Elem(v)])

    def extend(self, o):
        if self.poison is not None:
            if isinstance(o, SymList) and o.conc() is None:
                raise Unsupported("a loop extends a list by a symbolic sequence")
            for x in o:
                self.poison.append(("append", x))
            return
        self._set(self.segs + as_segs(o))

    def copy(self):
        self.readable()
        return SymList(self.segs)

    def reverse(self):
        self._via("reverse")

    def __mul__(self, n):
        l = self.conc()
        if l is None or not isinstance(n, int):
            raise Unsupported("repetition of a symbolic sequence")
        return SymList([Elem(v) for v in l * n])

    __rmul__ = __mul__

    def __repr__(self):
        return repr(self.conc())

    def __lt__(self, o):
        return self.conc() < o.conc()

    def clear(self):
        self._set([])

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._slice(k)
        if type(k) is int and k == -1 and self.poison and self.poison[-1][0] == "append":
            return self.poison[-1][1]       # what this very iteration has appended
        self.readable()
        if isinstance(k, InsPoint):
            k = k.sym
        if hasattr(k, "__index__") and not isinstance(k, (int, SymBase)):
            k = k.__index__()
        if not isinstance(k, (int, SymInt)):
            raise TypeError("list indices must be integers")
        l = self.conc()
        if l is not None and isinstance(k, int):
            return l[k]
        return self._get(k)

    def _get(self, k):
        e = eng()
        segs = self.segs
        if isinstance(k, SymInt) and len(segs) > 1 and any(not isinstance(s, Elem) and not s.unguarded() for s in segs):
            # by position in the whole
            from . import rt
            s = rt.linear(self)
            n, t = s.space.n, z3.simplify(num(k))
            if e.branch(z3.And(t >= 0, t < n)):
                return s.value(t)
            if e.branch(z3.And(t < 0, t + n >= 0)):
                return s.value(z3.simplify(t + n))
            raise IndexError("list index out of range")
        if isinstance(k, int) and k < 0:
            # from the end
            segs = list(reversed(segs))
            rest = -k - 1
            for s in segs:
                if isinstance(s, Elem):
                    if rest == 0:
                        return s.v
                    rest -= 1
                    continue
                if s.unguarded():
                    if e.branch(s.space.n > rest):
                        return s.value(z3.simplify(s.space.n - 1 - rest))
                    if len(segs) == 1:
                        raise IndexError("list index out of range")
                    raise Unsupported("index from the end across segments")
                if rest == 0:
                    w = self._last(s)
                    if w is not None:
                        return s.value(w)
                    continue
                raise Unsupported("index from the end of a filtered sequence")
            raise IndexError("list index out of range")
        off = k
        for n, s in enumerate(segs):
            if isinstance(s, Elem):
                if e.branch(boo(eq(off, 0))):
                    return s.v
                off = off - 1
                continue
            if s.unguarded():
                o = num(off)
                if e.branch(z3.And(o >= 0, o < s.space.n)):
                    return s.value(z3.simplify(o))
                if e.branch(o < 0):
                    if n == 0 and len(segs) == 1 and e.branch(o + s.space.n >= 0):
                        return s.value(z3.simplify(o + s.space.n))
                    if n == 0 and len(segs) == 1:
                        raise IndexError("list index out of range")
                    raise Unsupported("negative index")
                off = wrap(o - s.space.n)
                continue
            if isinstance(off, int) and off == 0:
                w = self._first(s)
                if w is not None:
                    return s.value(w)
                continue
            raise Unsupported("index into a filtered sequence")
        raise IndexError("list index out of range")

    @staticmethod
    def _first(s):
        e = eng()
        w = s.space.quiet("first")
        if e.decide([None, None]) == 0:
            s.space.use(w)
            e.assume(s.inr(w))
            e.forall(s.space, lambda i: z3.Implies(i < w, z3.Not(boo(s.guard(i)))), "first")
            return w
        e.forall(s.space, lambda i: z3.Not(boo(s.guard(i))), "none")
        e.check_feasible()
        return None

    @staticmethod
    def _last(s):
        e = eng()
        w = s.space.quiet("last")
        if e.decide([None, None]) == 0:
            s.space.use(w)
            e.assume(s.inr(w))
            e.forall(s.space, lambda i: z3.Implies(i > w, z3.Not(boo(s.guard(i)))), "last")
            return w
        e.forall(s.space, lambda i: z3.Not(boo(s.guard(i))), "none")
        e.check_feasible()
        return None

    def _slice(self, k):
        e = eng()
        l = self.conc()
        if l is not None and not any(isinstance(x, SymBase) for x in (k.start, k.stop, k.step)):
            return SymList([Elem(v) for v in l[k]])
        if k.step not in (None, 1):
            if k.step == -1 and k.start is None and k.stop is None:
                from . import rt
                return SymList(rt.seglist(rt._reversed(self)).segs)
            raise Unsupported("slice step")
        if k.start is None and k.stop is None:
            return SymList(self.segs)
        if len(self.segs) != 1 or isinstance(self.segs[0], Elem) or not self.segs[0].unguarded():
            if all(isinstance(s, Elem) for s in self.segs) and not isinstance(k.start, SymBase) \
                    and not isinstance(k.stop, SymBase):
                return SymList([Elem(v) for v in [s.v for s in self.segs][k]])
            raise Unsupported("slice of a composite sequence")
        s = self.segs[0]
        n = s.space.n

        def bound(b, dflt):
            if b is None:
                return dflt
            t = num(b)
            t = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), t)
            return z3.simplify(z3.If(t > n, n, t))
        lo, hi = bound(k.start, z3.IntVal(0)), bound(k.stop, n)
        m = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        sp = Space(m, s.space.name + "_sl")
        sp.view_of = s, lambda i: z3.simplify(i - lo)
        return SymList([Seg(sp, always, lambda i: s.value(z3.simplify(i + lo)), None)])

    def insert(self, k, v):
        if isinstance(k, InsPoint):
            if k.lst is not self:
                raise Unsupported("insertion at a position of another sequence")
            if self.poison is not None:
                self.poison.append(("insort", v, k))
                return
            if len(k.segs) != len(self.segs) or any(x is not y for x, y in zip(k.segs, self.segs)):
                raise Unsupported("insertion at a stale position")
            return self._set(k.before + [Elem(v)] + k.after)
        if isinstance(k, int) and self.conc() is not None:
            return self._via("insert", k, v)
        if isinstance(k, int) and k == 0:
            return self._set([Elem(v)] + self.segs)
        if not isinstance(k, (int, SymInt)) or self.poison is not None:
            raise Unsupported("insertion at an unknown position")
        from . import rt
        s = rt.linear(self)
        n, t = s.space.n, num(k)
        t = z3.simplify(z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t)))
        s.space.use(t)
        s.space.use(z3.simplify(t - 1))
        self._set([self._part(s, lambda i: i < t), Elem(v), self._part(s, lambda i: i >= t)])

    @staticmethod
    def _part(s, cond):
        r = Seg(s.space, lambda i: z3.And(boo(s.guard(i)), cond(i)), s.value_, s.facts)
        r.lin = s.lin
        return r

    def _place(self, k):
        """the list by position, and a position that is certainly inside"""
        from . import rt
        if isinstance(k, InsPoint):
            k = k.sym
        if not isinstance(k, (int, SymInt)) or self.poison is not None:
            raise Unsupported("a position of another kind")
        e = eng()
        s = rt.linear(self)
        n, t = s.space.n, num(k)
        if not e.branch(z3.And(t >= 0, t < n)):
            if not e.branch(z3.And(t < 0, t + n >= 0)):
                raise IndexError("list index out of range")
            t = t + n
        t = z3.simplify(t)
        s.space.use(t)
        return s, t

    def pop(self, k=-1):
        if self.conc() is not None and isinstance(k, int):
            return self._via("pop", k)
        if isinstance(k, int) and k in (0, -1) and self.poison is None and isinstance(self.segs[k], Elem):
            v = self.segs[k].v
            self._set(self.segs[1:] if k == 0 else self.segs[:-1])
            return v
        s, t = self._place(k)
        v = s.value(t)
        self._set([self._part(s, lambda i: i != t)])
        return v

    def __setitem__(self, k, v):
        e = eng()
        if self.conc() is not None and not isinstance(k, SymBase):
            return self._via("__setitem__", k, v)
        if isinstance(k, int) and k == 0:
            s = self.segs[0] if self.segs else None
            if s is None:
                raise IndexError("list assignment index out of range")
            if isinstance(s, Elem):
                return self._set([Elem(v)] + self.segs[1:])
            if s.unguarded():
                if e.branch(s.space.n > 0):
                    s.space.use(z3.IntVal(0))
                    return self._set([Elem(v), Seg(s.space, lambda i: i >= 1, s.value_, s.facts)] + self.segs[1:])
        if isinstance(k, slice):
            raise Unsupported("assignment into a symbolic sequence")
        s, t = self._place(k)
        self._set([self._part(s, lambda i: i < t), Elem(v), self._part(s, lambda i: i > t)])

    def __delitem__(self, k):
        if self.conc() is not None and not isinstance(k, (SymBase, InsPoint)):
            return self._via("__delitem__", k)
        if isinstance(k, slice):
            raise Unsupported("deletion of a slice of a symbolic sequence")
        s, t = self._place(k)
        self._set([self._part(s, lambda i: i != t)])

    def remove(self, v):
        if self.conc() is not None or self.poison is not None:
            return self._via("remove", v)
        # the first element that equals v
        e = eng()
        out = list(self.segs)
        for q, s in enumerate(out):
            if isinstance(s, Elem):
                if e.branch(boo(deep_eq(s.v, v))):
                    return self._set(out[:q] + out[q + 1:])
                continue
            w = s.space.quiet("found")
            if e.decide([None, None]) == 0:
                s.space.use(w)
                e.assume(s.inr(w))
                e.assume(boo(deep_eq(s.value(w), v)))
                e.forall(s.space, lambda i, s=s: z3.Implies(z3.And(boo(s.guard(i)), i < w), z3.Not(boo(deep_eq(s.value(i), v)))), "first")
                r = Seg(s.space, lambda i, s=s: z3.And(boo(s.guard(i)), i != w), s.value_, s.facts)
                r.lin = s.lin
                return self._set(out[:q] + [r] + out[q + 1:])
            e.forall(s.space, lambda i, s=s: z3.Implies(boo(s.guard(i)), z3.Not(boo(deep_eq(s.value(i), v)))), "none")
            e.check_feasible()
        raise ValueError("list.remove(x): x not in list")

    def sort(self, *, key=None, reverse=False):
        if self.conc() is not None:
            l = sorted(self.conc(), key=key, reverse=reverse)
            return self._set([Elem(v) for v in l])
        self._set(eng().rt.sorted_(self, key=key, reverse=reverse).segs)

    def index(self, *a):
        return self._via("index", *a)

    def count(self, *a):
        return self._via("count", *a)

    def __contains__(self, v):
        l = self.conc()
        if l is not None:
            return v in l
        return bool(any_(SymList(map_segs(self.segs, lambda x: eq(x, v)))))

    def __eq__(self, o):
        if not isinstance(o, (list, SymList)):
            return NotImplemented
        l = self.conc()
        if l is not None and (not isinstance(o, SymList) or o.conc() is not None):
            return l == list(o)
        if not as_segs(o):
            return Not(self.nonempty())
        a, b = SymList(self.segs), SymList(as_segs(o))
        if a.segs and all(not isinstance(s, Elem) for s in a.segs):
            a, b = b, a
        l = a.conc()
        if l is not None and len(b.segs) == 1 and not isinstance(b.segs[0], Elem) and b.segs[0].unguarded():
            s = b.segs[0]
            if not eng().branch(s.space.n == len(l)):
                return False
            return And(*[eq(v, s.value(z3.IntVal(i))) for i, v in enumerate(l)])
        raise Unsupported("comparison of symbolic sequences")

    __hash__ = None


class SymTuple(SymList):
    """a tuple with symbolic segments"""
    __pv_list__ = False

    def _no(self, *a, **k):
        raise AttributeError("tuples cannot be changed")
    append = extend = insert = pop = remove = sort = reverse = clear = __setitem__ = __delitem__ = _no

    def __pv_eq__(self, o):
        if not isinstance(o, (tuple, SymTuple)):
            return False
        return SymList(self.segs) == SymList(as_segs(o))

    def __eq__(self, o):
        return self.__pv_eq__(o)

    def __ne__(self, o):
        return Not(self.__pv_eq__(o))

    def __hash__(self):
        raise Unsupported("hash of a symbolic tuple")


class InsPoint:
    """the position bisect found in a sequence"""
    __pv_arith__ = True

    def __init__(self, lst, before, after, sym):
        self.lst, self.segs, self.before, self.after, self.sym = lst, list(lst.segs), before, after, sym

    def __lt__(self, o):
        return self.sym < o

    def __le__(self, o):
        return self.sym <= o

    def __gt__(self, o):
        return self.sym > o

    def __ge__(self, o):
        return self.sym >= o

    def __eq__(self, o):
        return self.sym == o

    def __ne__(self, o):
        return self.sym != o

    __hash__ = None

    def __sub__(self, o):
        return self.sym - o

    def __add__(self, o):
        return self.sym + o


def islist(o):
    return isinstance(o, (list, tuple, SymList))


_FUNCTION = type(lambda: 0)


def as_segs(o):
    if isinstance(o, SymList):
        return list(o.segs)
    if isinstance(o, (list, tuple)):
        return [Elem(v) for v in o]
    if hasattr(o, "__pv_segs__"):
        return o.__pv_segs__()
    f = getattr(type(o), "__iter__", None)
    if isinstance(f, _FUNCTION):
        r = f(o)
        if r is not o:
            return as_segs(r)
    try:
        return [Elem(v) for v in o]
    except TypeError:
        raise TypeError("object is not iterable")


def map_segs(segs, f):
    """pure map"""
    out = []
    for s in segs:
        if isinstance(s, Elem):
            out.append(Elem(f(s.v)))
        else:
            out.append(Seg(s.space, s.guard, lambda i, s=s: f(s.value(i)), None))
            out[-1].kin = s.kin
    return out


def exists(segs, pred):
    """splits: returns a witness condition holding on this path, or None"""


def any_(lst, want=True):
    """any(lst) (want=True) or the negation of all(lst) (want=False): splits the path"""
    e = eng()
    segs = as_segs(lst)

    def p(x):
        b = boo(x)
        return b if want else z3.Not(b)
    for s in segs:
        if isinstance(s, Elem):
            if e.branch(p(s.v)):
                return True
    gs = [s for s in segs if not isinstance(s, Elem)]
    for s in gs:
        w = s.space.quiet("w")
        if e.decide([None, None]) == 0:
            s.space.use(w)
            e.assume(z3.And(s.inr(w), p(s.value(w))))
            return True
        e.forall(s.space, lambda i, s=s: z3.Implies(boo(s.guard(i)), z3.Not(p(s.value(i)))), "none holds")
        e.check_feasible()
    return False
