"""Contracts of the libraries the repository calls.

Every entry is trusted: it states what the library function returns, on values
the verifier understands; anything else is refused (Unsupported: undecided)."""
import bisect as _bisect
import collections as _collections
import collections.abc as _cabc
import dataclasses as _dataclasses
import decimal as _decimal
import functools as _functools
import itertools as _itertools
import json as _json
import math as _math
import sys
import types
import typing as _typing

import numpy as _np
import z3

from . import core, lists, rt
from .core import (SymBase, SymBool, SymInt, SymNum, SymReal, Unsupported, And, Or, Not, If, boo, eng, eq, is_num, num,
                   tolr, wrap, real, trunc_, floor_, ceil_, round_)
from .lists import SymList, Seg, Elem, Tok, as_segs, islist, map_segs

INF = float("inf")


class Mod(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Missing("%s.%s" % (self.__name__, name))


class Missing:
    """a library name without a contract: reading it is fine, using it is not"""

    def __init__(self, name):
        self._n = name

    def __call__(self, *a, **k):
        if len(a) == 1 and not k and isinstance(a[0], types.FunctionType):
            return a[0] if False else Missing(self._n)
        raise Unsupported("%s has no contract" % self._n)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return Missing("%s.%s" % (self._n, a))

    def __mro_entries__(self, bases):
        return (Opaque,)

    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __instancecheck__(self, o):
        return False


class Opaque:
    """stands for a library class that a class of the repository extends"""

    def __init__(self, *a, **k):
        raise Unsupported("a library base class has no contract")


def mod(name, **d):
    m = Mod(name)
    m.__dict__.update(d)
    return m


def sym(*xs):
    return any(isinstance(x, SymBase) for x in xs)


# -------------------------------------------------------------------- math
def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not sym(a, b, rel_tol, abs_tol):
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    if a is b:
        return True
    if not is_num(a) or not is_num(b):
        raise TypeError("must be real number")
    eng().trust("math.isclose: |a-b| <= max(rel*max(|a|,|b|), abs)")
    x, y = real(num(a)), real(num(b))
    d = z3.If(x >= y, x - y, y - x)
    ax, ay = z3.If(x >= 0, x, -x), z3.If(y >= 0, y, -y)
    r = real(num(rel_tol))
    return wrap(z3.Or(d <= r * ax, d <= r * ay, d <= real(num(abs_tol))))


def m_floor(x):
    if isinstance(x, float) and (x != x or x in (INF, -INF)):
        return _math.floor(x)
    return floor_(x)


def m_ceil(x):
    if isinstance(x, float) and (x != x or x in (INF, -INF)):
        return _math.ceil(x)
    return ceil_(x)


def _need_num(x):
    if not is_num(x) and not hasattr(x, "__float__"):
        raise TypeError("must be real number, not %s" % type(x).__name__)


def isfinite(x):
    if isinstance(x, SymBase):
        return True
    return _math.isfinite(x)


def isinf(x):
    if isinstance(x, SymBase):
        return False
    return _math.isinf(x)


def isnan(x):
    if isinstance(x, SymBase):
        return False
    return _math.isnan(x)


def guard(f, name):
    def g(*a):
        if sym(*a):
            raise Unsupported("%s of a symbolic number" % name)
        return f(*a)
    return g


MATH = mod("math", isclose=isclose, floor=m_floor, ceil=m_ceil, isfinite=isfinite, isinf=isinf, isnan=isnan, inf=INF,
           pi=_math.pi, e=_math.e, nan=_math.nan, fabs=lambda x: abs(x) if sym(x) else _math.fabs(x),
           trunc=lambda x: trunc_(x),
           log2=lambda x: core.log2(x) if sym(x) else _math.log2(x), log=guard(_math.log, "log"), log10=guard(_math.log10, "log10"),
           sqrt=guard(_math.sqrt, "sqrt"), exp=guard(_math.exp, "exp"), gcd=guard(_math.gcd, "gcd"),
           pow=lambda a, b: (real_pow(a, b)))


def real_pow(a, b):
    if not sym(a, b):
        return _math.pow(a, b)
    return rt._float(a) ** b


# ------------------------------------------------------------------- numpy
class Arr:
    """A one-dimensional array of numbers: a sequence, element-wise operations."""
    __pv_arith__ = True

    def __init__(self, seq, kind="real"):
        self.l, self.kind = seq, kind

    def _map(self, f, kind="real"):
        l = self.l.conc()
        if l is not None:
            return Arr(SymList([Elem(f(v)) for v in l]), kind)
        return Arr(SymList(map_segs(self.l.segs, f)), kind)

    def _bin(self, o, f, kind="real"):
        if isinstance(o, Arr):
            a, b = self.l.conc(), o.l.conc()
            if a is not None and b is not None and len(a) == len(b):
                return Arr(SymList([Elem(f(x, y)) for x, y in zip(a, b)]), kind)
            raise Unsupported("an operation on two symbolic arrays")
        if not is_num(o):
            raise Unsupported("array arithmetic with %s" % type(o).__name__)
        return self._map(lambda v: f(v, o), kind)

    def _k(self, o):
        return "int" if self.kind == "int" and not isinstance(o, (float, SymReal)) and \
            (not isinstance(o, Arr) or o.kind == "int") else "real"

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, self._k(o))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, self._k(o))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, self._k(o))

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, self._k(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        e = eng()
        if not isinstance(o, Arr) and e.branch(boo(eq(o, 0))):
            raise Unsupported("an array is divided by zero")
        if not isinstance(o, Arr):
            return self._map(lambda v: wrap(real(num(v)) / real(num(o))))
        return self._bin(o, lambda a, b: a / b)

    def __floordiv__(self, o):
        raise Unsupported("array floor division")

    def __len__(self):
        return rt._len(self.l)

    def __pv_segs__(self):
        return as_segs(self.l)

    def __iter__(self):
        return iter(self.l)

    def __getitem__(self, k):
        if isinstance(k, (int, SymInt)):
            return self.l[k]
        if isinstance(k, slice):
            return Arr(self.l[k], self.kind)
        raise Unsupported("array index")

    def __setitem__(self, k, v):
        e = eng()
        s = rt.linear(self.l)
        n, old = s.space.n, s.value_

        def within(b, dflt):
            if b is None:
                return dflt
            t = num(b)
            t = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), t)
            return z3.simplify(z3.If(t > n, n, t))
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("array slice step")
            a, b = within(k.start, z3.IntVal(0)), within(k.stop, n)
            m = z3.If(b > a, b - a, z3.IntVal(0))
            if is_num(v):
                f = lambda t: v
            else:
                g = rt.linear(array(v).l)
                if not e.branch(g.space.n == m) and not e.branch(g.space.n == 1):
                    raise ValueError("could not broadcast input array into shape")
                one = not e.branch(g.space.n == m)
                f = (lambda t: g.value(z3.IntVal(0))) if one else lambda t: g.value(z3.simplify(t - a))
            hit = lambda t: z3.And(t >= a, t < b)
        elif isinstance(k, (int, SymInt)) and is_num(v):
            t0 = num(k)
            if not e.branch(z3.And(t0 >= -n, t0 < n)):
                raise IndexError("index is out of bounds")
            t0 = z3.simplify(t0 if e.branch(t0 >= 0) else t0 + n)
            f, hit = (lambda t: v), (lambda t: t == t0)
        else:
            raise Unsupported("assignment to a part of an array")
        conv = trunc_ if self.kind == "int" else rt._float

        def at(t):
            h = z3.simplify(hit(t))
            if z3.is_true(h):
                return conv(f(t))
            if z3.is_false(h):
                return old(t)
            return rt.pick(wrap(h), conv(f(t)), old(t))
        rt.R.note_attr(self, "l")
        self.l = SymList([Seg(s.space, lists.always, at, s.facts)])

    def _cmp(self, o, f):
        return self._bin(o, f, "bool")

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: eq(a, b))

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: Not(eq(a, b)))

    __hash__ = None

    def any(self):
        return rt._any(SymList(map_segs(as_segs(self.l), lambda v: v if self.kind == "bool" else v != 0)))

    def all(self):
        return rt._all(SymList(map_segs(as_segs(self.l), lambda v: v if self.kind == "bool" else v != 0)))

    def min(self):
        return rt.BUILTINS["min"](self.l)

    def max(self):
        return rt.BUILTINS["max"](self.l)

    def sum(self):
        return rt._sum(self.l)

    def mean(self):
        return mean(self)

    def astype(self, t, **k):
        if t in (int, rt.VInt) or (isinstance(t, type) and issubclass(t, _np.integer)):
            return self._map(trunc_, "int")
        if t in (float, rt.VFloat) or (isinstance(t, type) and issubclass(t, _np.floating)):
            return self._map(rt._float, "real")
        if t in ("int", "int32", "int64"):
            return self._map(trunc_, "int")
        raise Unsupported("array of another kind")

    def tolist(self):
        return SymList(as_segs(self.l))

    def copy(self):
        return Arr(SymList(as_segs(self.l)), self.kind)

    @property
    def size(self):
        return self.l.length()

    @property
    def shape(self):
        return (self.l.length(),)

    @property
    def ndim(self):
        return 1


class NdMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (Arr, _np.ndarray))

    def __getitem__(cls, k):
        return cls


class ndarray(metaclass=NdMeta):
    pass


def npnative(f, name):
    def g(*a, **k):
        if any(isinstance(x, (SymBase, Arr, SymList)) for x in a):
            raise Unsupported("np.%s of a symbolic value" % name)
        return f(*a, **k)
    return g


def kind_of(l):
    """int when every element is a whole number by its kind"""
    k = "int"
    for s in as_segs(l):
        v = s.v if isinstance(s, Elem) else s.value(s.space.generic("k"))
        if not isinstance(v, (int, SymInt, SymBool)):
            k = "real"
    return k


def array(x, dtype=None, **k):
    if isinstance(x, Arr):
        r = x.copy()
    elif isinstance(x, SymList) or islist(x):
        l = SymList(as_segs(x))
        for s in l.segs:
            v = s.v if isinstance(s, Elem) else None
            if v is not None and not is_num(v):
                raise Unsupported("an array of other things than numbers")
        kd = kind_of(l)
        if kd == "real":
            l = SymList(map_segs(l.segs, rt._float)) if l.conc() is None else SymList([Elem(rt._float(v)) for v in l.conc()])
        r = Arr(l, kd if l.segs else "real")
    elif is_num(x):
        return x
    else:
        raise Unsupported("np.array of %s" % type(x).__name__)
    return r if dtype is None else r.astype(dtype)


def lift(f):
    def g(x, *a, **k):
        if isinstance(x, (SymList, list, tuple)):
            x = array(x)
        if isinstance(x, Arr):
            return x._map(lambda v: f(v, *a, **k))
        return f(x, *a, **k)
    return g


def around(x, decimals=0, **k):
    if isinstance(x, SymBase):
        if isinstance(x, SymInt):
            return x
        return rt._float(round_(x, decimals or None))
    return float(_np.around(x, decimals))


def clip1(x, lo=None, hi=None):
    r = x
    if lo is not None and not (isinstance(lo, float) and lo == -INF):
        r = rt.pick(r < lo, lo, r) if sym(r, lo) else max(r, lo)
    if hi is not None and not (isinstance(hi, float) and hi == INF):
        r = rt.pick(r > hi, hi, r) if sym(r, hi) else min(r, hi)
    return r


def clip(x, lo=None, hi=None, a_min=None, a_max=None):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    if isinstance(x, (SymList, list, tuple)):
        x = array(x)
    if isinstance(x, Arr):
        kd = x._k(lo if lo is not None else 0)
        if hi is not None and isinstance(hi, (float, SymReal)):
            kd = "real"
        return x._map(lambda v: clip1(v, lo, hi), kd)
    if not is_num(x):
        raise TypeError("clip of %s" % type(x).__name__)
    return clip1(x, lo, hi)


def divide(a, b):
    if isinstance(a, Arr):
        return a / b
    if eng().branch(boo(eq(b, 0))):
        raise Unsupported("np.divide by zero")
    return wrap(real(num(a)) / real(num(b))) if sym(a, b) else a / b


def diff(x, **k):
    """the differences of neighbours"""
    if k:
        raise Unsupported("np.diff with options")
    a = array(x)
    s = rt.linear(a.l)
    n = s.space.n
    sp = lists.Space(z3.simplify(z3.If(n > 0, n - 1, z3.IntVal(0))), "gaps")
    return Arr(SymList([Seg(sp, lists.always, lambda t: s.value(z3.simplify(t + 1)) - s.value(t), None)]), a.kind)


def percentile(x, q, **k):
    """between the least and the greatest number"""
    if k:
        raise Unsupported("np.percentile with options")
    a = array(x)
    if not bool(a.l.nonempty()):
        raise IndexError("percentile of nothing")
    e = eng()
    if not e.branch(boo(And(q >= 0, q <= 100))):
        raise ValueError("Percentiles must be in the range [0, 100]")
    e.trust("np.percentile: between the least and the greatest element")
    r = SymReal(e.fresh("percentile", z3.RealSort()))
    e.fact(z3.And(r.t >= real(num(a.min())), r.t <= real(num(a.max()))))
    return r


def full_like(x, v, dtype=None):
    x = array(x)
    if dtype is None and x.kind == "int":
        v = trunc_(v)
    return x._map(lambda _: v, x.kind if dtype is None else "real")


def mean(x, **k):
    x = array(x)
    e = eng()
    l = x.l.conc()
    if l is not None:
        if not l:
            raise Unsupported("mean of nothing")
        t = 0
        for v in l:
            t = t + v
        return rt._float(t) / len(l)
    # between the extremes
    m = SymReal(e.fresh("mean", z3.RealSort()))
    if not bool(x.l.nonempty()):
        raise Unsupported("mean of nothing")
    e.trust("np.mean: between the least and the greatest element, equal to neither unless all are equal")
    for s in x.l.segs:
        if isinstance(s, Elem):
            raise Unsupported("mean of a composite sequence")
    lo, hi = rt.BUILTINS["min"](x.l), rt.BUILTINS["max"](x.l)
    e.fact(z3.And(m.t >= num(lo), m.t <= num(hi), z3.Implies(num(lo) < num(hi), z3.And(m.t > num(lo), m.t < num(hi)))))
    return m


def np_power(a, b):
    if sym(a, b):
        return a ** b if not (a == 2) else core.pow2(b)
    return float(_np.power(float(a), b)) if not isinstance(a, Arr) else bad("power")


def bad(what):
    raise Unsupported(what)


def isscalar(x):
    if isinstance(x, (SymBase,)):
        return True
    if isinstance(x, (Arr, SymList)):
        return False
    return _np.isscalar(x)


def zeros(n, dtype=float):
    if isinstance(n, (tuple, SymList, list)) and len(n) == 1:
        n = n[0]
    whole = dtype in (int, rt.VInt) or (isinstance(dtype, type) and issubclass(dtype, _np.integer))
    z, kd = (0, "int") if whole else (0.0, "real")
    if isinstance(n, int) and not isinstance(n, bool):
        return Arr(SymList([Elem(z)] * n), kd)
    if not isinstance(n, SymInt):
        raise Unsupported("np.zeros of this shape")
    if eng().branch(n.t < 0):
        raise ValueError("negative dimensions are not allowed")
    return Arr(SymList([Seg(lists.Space(n.t, "zeros"), lists.always, lambda t: z, None)]), kd)


def arange(a, b=None, *r, **k):
    if len(r) == 1 and not k and b is not None:
        return arange_step(a, b, r[0])
    if r or k:
        raise Unsupported("np.arange with a step")
    lo, hi = (0, a) if b is None else (a, b)
    if isinstance(lo, int) and isinstance(hi, int):
        return Arr(SymList([Elem(i) for i in range(lo, hi)]), "int")
    if not all(isinstance(x, (int, SymInt)) for x in (lo, hi)):
        raise Unsupported("np.arange of fractions")
    n = num(hi) - num(lo)
    sp = lists.Space(z3.simplify(z3.If(n > 0, n, z3.IntVal(0))), "arange")
    return Arr(SymList([Seg(sp, lists.always, lambda t: wrap(z3.simplify(t + num(lo))), None)]), "int")


def arange_step(a, b, step):
    """start, start + step, ... as long as they come before the stop (few of them)"""
    e = eng()
    if not bool(step > 0):
        raise Unsupported("np.arange with a step that is not positive")
    e.trust("np.arange(start, stop, step): start + i * step as long as it is before the stop, exact")
    out = []
    while True:
        v = a + len(out) * step
        if not bool(v < b):
            return Arr(SymList([Elem(x) for x in out]), "float")
        if len(out) == 6:
            raise Unsupported("a long np.arange with a step")
        out.append(v)


def searchsorted(a, v, side="left", **k):
    """the place of a number in a sorted array"""
    e = eng()
    s = rt.linear(array(a).l)
    n, x = s.space.n, real(num(v))
    e.trust("np.searchsorted: the place of a number in an array in increasing order")
    val = lambda t: real(num(s.value(t)))
    i, j = s.space.generic("i"), s.space.generic("j")
    if e.check(z3.And(i >= 0, i < j, j < n, val(i) > val(j))) != z3.unsat:
        raise Unsupported("np.searchsorted in an array not known to be in order")
    p = e.fresh("place", z3.IntSort())
    e.fact(z3.And(p >= 0, p <= n))
    below = (lambda t: val(t) < x) if side == "left" else (lambda t: val(t) <= x)
    e.forall(s.space, lambda t: z3.Implies(t < p, below(t)), "before the place")
    e.forall(s.space, lambda t: z3.Implies(t >= p, z3.Not(below(t))), "after the place")
    s.space.use(p)
    s.space.use(z3.simplify(p - 1))
    return wrap(p)


NUMPY = mod("numpy", ndarray=ndarray, array=array, asarray=array, around=lift(around), round=lift(around), clip=clip,
            diff=diff, percentile=percentile, quantile=lambda x, q: percentile(x, q * 100), arange=arange, searchsorted=searchsorted, divide=divide, full_like=full_like, mean=mean, power=np_power, isscalar=isscalar,
            floor=lift(lambda x: rt._float(floor_(x))), ceil=lift(lambda x: rt._float(ceil_(x))),
            rint=lift(around), abs=lift(abs), absolute=lift(abs),
            min=lambda x: array(x).min(), max=lambda x: array(x).max(), amin=lambda x: array(x).min(),
            amax=lambda x: array(x).max(), sum=lambda x: array(x).sum(), any=lambda x: array(x).any(),
            minimum=lambda a, b: rt.BUILTINS["min"](a, b), maximum=lambda a, b: rt.BUILTINS["max"](a, b),
            isclose=lambda a, b, rtol=1e-5, atol=1e-8: wrap(
                z3.If(real(num(a)) >= real(num(b)), real(num(a)) - real(num(b)), real(num(b)) - real(num(a))) <=
                real(num(atol)) + real(num(rtol)) * z3.If(real(num(b)) >= 0, real(num(b)), -real(num(b))))
            if sym(a, b) else bool(_np.isclose(a, b, rtol, atol)),
            isfinite=isfinite, isnan=isnan, isinf=isinf,
            zeros=zeros, inf=INF, nan=float("nan"), pi=_math.pi, float64=rt._float, float32=rt._float,
            int32=_np.int32, int64=_np.int64, integer=_np.integer, floating=_np.floating, bool_=_np.bool_,
            number=_np.number)


class NumMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._native)

    def __call__(cls, x=0):
        return cls._conv(x)


NUMPY.float64 = NumMeta("float64", (_np.floating,), dict(_native=_np.float64, _conv=staticmethod(rt._float)))
NUMPY.float32 = NumMeta("float32", (_np.floating,), dict(_native=_np.float32, _conv=staticmethod(rt._float)))
NUMPY.int32 = NumMeta("int32", (_np.integer,), dict(_native=_np.int32, _conv=staticmethod(rt._int)))
NUMPY.int64 = NumMeta("int64", (_np.integer,), dict(_native=_np.int64, _conv=staticmethod(rt._int)))


# ------------------------------------------------------------------ librosa
NAMES = ["C", "C♯", "D", "D♯", "E", "F", "F♯", "G", "G♯", "A", "A♯", "B"]
PC = dict(C=0, D=2, E=4, F=5, G=7, A=9, B=11)


def midi_to_note(p, **k):
    if k:
        raise Unsupported("midi_to_note with options")
    eng().trust("librosa.midi_to_note: the name of a pitch, different for different pitches 0..127")
    if isinstance(p, SymReal):
        p = round_(p)
    if isinstance(p, SymBase):
        return Tok("pitch_name", (p,))
    return Tok("pitch_name", (int(round(p)),))


def note_to_midi(name, **k):
    e = eng()
    e.trust("librosa.note_to_midi: the inverse of the pitch name")
    if isinstance(name, Tok) and name.name == "pitch_name":
        return name.args[0]
    if isinstance(name, str):
        import re
        m = re.fullmatch(r"([A-Ga-g])([#b♯♭!]*)(-?\d+)?", name)
        if m is None:
            raise ValueError("not a note")     # librosa.ParameterError is a ValueError
        acc = sum(1 if c in "#♯" else -1 for c in m.group(2))
        return 12 * (int(m.group(3) or 0) + 1) + PC[m.group(1).upper()] + acc
    raise Unsupported("note_to_midi of %s" % type(name).__name__)


LIBROSA = mod("librosa", midi_to_note=midi_to_note, note_to_midi=note_to_midi)


# ------------------------------------------------------------------- bisect
def _bs(side):
    def f(a, x, lo=0, hi=None, *, key=None):
        return rt.bisect_(a, x, side, key=key, lo=lo, hi=hi)
    return f


def _is(side):
    def f(a, x, lo=0, hi=None, *, key=None):
        if lo != 0 or hi is not None:
            raise Unsupported("insort with bounds")
        rt.insort_(a, x, side, key=key)
    return f


BISECT = mod("bisect", bisect_left=_bs("left"), bisect_right=_bs("right"), bisect=_bs("right"),
             insort_left=_is("left"), insort_right=_is("right"), insort=_is("right"))


# ------------------------------------------------------------ collections etc.
class ODMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (rt.VOrderedDict, _collections.OrderedDict))


COLLECTIONS = mod("collections", OrderedDict=rt.VOrderedDict, defaultdict=rt.VDefaultDict, abc=_cabc,
                  namedtuple=_collections.namedtuple)


def cache(fn=None, **k):
    if fn is None:
        return cache
    return rt.CacheFn(fn)


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return rt.CacheFn(maxsize)
    return rt.CacheFn


def reduce(f, x, *init):
    acc = list(init)
    for v in rt.it_list(rt.it(x)):
        acc = [f(acc[0], v)] if acc else [v]
    return acc[0]


FUNCTOOLS = mod("functools", cache=cache, lru_cache=lru_cache, reduce=reduce, partial=_functools.partial,
                total_ordering=_functools.total_ordering, wraps=_functools.wraps, cmp_to_key=_functools.cmp_to_key)


class Log:
    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return lambda *x, **k: None


LOGGING = mod("logging", **{k: (lambda *a, **kw: None) for k in
                            "debug info warning error critical exception basicConfig disable log warn".split()},
              getLogger=lambda *a: Log(), DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50, Logger=Log)
WARNINGS = mod("warnings", warn=lambda *a, **k: None, simplefilter=lambda *a, **k: None,
               filterwarnings=lambda *a, **k: None, catch_warnings=Missing("warnings.catch_warnings"))


# ---------------------------------------------------------------- itertools
def chain(*xs):
    out = SymList([])
    for x in xs:
        out.segs += as_segs(rt.it(x))
    return rt.GenIter(out)


def chain_from(x):
    return chain(*rt.it_list(rt.it(x)))


class _Chain:
    def __call__(self, *xs):
        return chain(*xs)

    from_iterable = staticmethod(chain_from)


def islice(x, *a):
    x = rt.it(x)
    if isinstance(x, rt.GenIter) and len(a) == 1 and (x.off is not None or rt.seglist(x) is not None):
        return rt.PartIter(x, a[0])
    s = rt.seglist(x)
    if s is not None:
        return rt.GenIter(s[slice(*a)])
    return _itertools.islice(x if isinstance(x, rt.GenIter) else rt.it_list(x), *a)


def nat_iter(f):
    def g(*xs, **k):
        ys = []
        for x in xs:
            y = rt.it(x) if hasattr(type(x), "__iter__") else x
            if rt.symbolic(y):
                raise Unsupported("itertools of a symbolic sequence")
            ys.append(rt.it_list(y) if hasattr(type(y), "__iter__") else y)
        return f(*ys, **k)
    return g


def filterfalse(f, x):
    if rt.symbolic(rt.it(x)):
        return rt.comp("gen", x, lambda v: Not(f(v)), lambda v: v)
    return _itertools.filterfalse(f, rt.it_list(rt.it(x)))


ITERTOOLS = mod("itertools", chain=_Chain(), islice=islice, combinations=nat_iter(_itertools.combinations),
                permutations=nat_iter(_itertools.permutations), product=nat_iter(_itertools.product),
                accumulate=nat_iter(_itertools.accumulate), groupby=nat_iter(_itertools.groupby),
                count=_itertools.count, cycle=nat_iter(_itertools.cycle), repeat=_itertools.repeat,
                zip_longest=nat_iter(_itertools.zip_longest), tee=nat_iter(_itertools.tee),
                starmap=nat_iter(_itertools.starmap), takewhile=nat_iter(_itertools.takewhile),
                dropwhile=nat_iter(_itertools.dropwhile), pairwise=nat_iter(_itertools.pairwise),
                filterfalse=filterfalse)

COPY = mod("copy", copy=rt.copy_, deepcopy=rt.deepcopy)


def _op(name):
    import operator
    return getattr(operator, name)


def attrgetter(*ns):
    def g1(n):
        def g(o):
            for p in n.split("."):
                o = getattr(o, p)
            return o
        return g
    if len(ns) == 1:
        return g1(ns[0])
    gs = [g1(n) for n in ns]
    return lambda o: tuple(g(o) for g in gs)


OPERATOR = mod("operator", attrgetter=attrgetter, itemgetter=_op("itemgetter"), lt=lambda a, b: a < b,
               le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b, eq=lambda a, b: a == b,
               add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b)


# --------------------------------------------------------------------- json
class JSONDecoder:
    def __init__(self, *a, **k):
        raise Unsupported("json")


def Proxy(d):
    return d


class VProxy:
    """types.MappingProxyType: the mapping itself, without the operations that change it"""

    def __init__(self, d):
        object.__setattr__(self, "_d", d)

    def __getitem__(self, k):
        return self._d[k]

    def __contains__(self, k):
        return k in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(self._d)

    def __getattr__(self, a):
        if a in ("keys", "values", "items", "get", "copy"):
            return getattr(self._d, a)
        raise AttributeError(a)

    def __eq__(self, o):
        return self._d == (o._d if isinstance(o, VProxy) else o)

    __hash__ = None


TYPES = mod("types", **{k: v for k, v in vars(types).items() if not k.startswith("__")})
TYPES.MappingProxyType = VProxy


def make():
    """a fresh table of module models"""
    t = {"math": MATH, "numpy": NUMPY, "librosa": LIBROSA, "bisect": BISECT, "collections": COLLECTIONS,
         "collections.abc": _cabc, "functools": FUNCTOOLS, "logging": LOGGING, "warnings": WARNINGS,
         "itertools": ITERTOOLS, "copy": COPY, "operator": OPERATOR, "types": TYPES, "typing": _typing,
         "dataclasses": _dataclasses, "decimal": mod("decimal"), "json": mod("json", JSONDecoder=JSONDecoder,
                                                                             JSONEncoder=JSONDecoder)}
    for n in ("torch", "torch.nn", "torch.nn.functional", "torch.utils", "torch.utils.data", "torch_geometric", "torch_geometric.data",
              "torch_geometric.transforms", "torch_geometric.utils", "networkx", "networkx.classes", "networkx.classes.digraph",
              "pretty_midi", "mido", "mido.midifiles", "mido.midifiles.midifiles", "matplotlib", "matplotlib.pyplot",
              "tqdm", "decorator", "six", "scipy", "attr", "numpy.typing", "statistics", "heapq"):
        t.setdefault(n, mod(n))
    t["attr"].frozen = lambda c=None, **k: c if c is not None else (lambda d: d)
    from . import nxstub
    nxstub.install(t["networkx"])
    from . import torchstub
    torchstub.install(t["torch"], t)
    for n in list(t):
        if "." in n:
            par, _, leaf = n.rpartition(".")
            if par in t and isinstance(t[par], Mod):
                t[par].__dict__.setdefault(leaf, t[n])
    return t
