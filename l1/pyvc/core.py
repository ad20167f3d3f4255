"""Symbolic execution core: terms, path exploration, obligations.

Values of the verified code are ordinary Python objects whose leaves may be
symbolic (SymInt, SymReal, SymBool).  The real source runs on them; a test of a
symbolic truth value splits the path.  Every path of a unit is explored by
re-execution with a prefix of decisions, so that what a contract `ensure`s is
checked under the exact condition of each path."""
import contextlib
import time
from fractions import Fraction

import z3

z3.set_param("auto_config", True)


class Unsupported(BaseException):
    """The code left the subset the verifier understands: undecided."""


class Infeasible(BaseException):
    """The assumptions of this path contradict each other."""


class Timeout(BaseException):
    pass


class Refuted(BaseException):
    """A contract function reported a violation on a reachable path."""


ENGINE = None


def eng():
    return ENGINE


# --------------------------------------------------------------------- terms
def num(x):
    """Python number -> z3 arithmetic term, symbolic -> its term."""
    if isinstance(x, SymNum):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("infinite or undefined number in an expression")
        f = Fraction(x)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    if isinstance(x, Fraction):
        return z3.RealVal("%d/%d" % (x.numerator, x.denominator))
    raise Unsupported("not a number: %s" % type(x).__name__)


def is_num(x):
    return isinstance(x, (SymNum, SymBool, int, float, Fraction))


def boo(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SymNum):
        return x.t != 0
    return z3.BoolVal(bool(x))


def wrap(t):
    """z3 term -> Python value; literals become Python values again."""
    if z3.is_bool(t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SymBool(t)
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if t.is_int():
        return SymInt(t)
    return SymReal(t)


def tolr(a, b):
    """bring two terms to one sort"""
    if a.is_int() and not b.is_int():
        return z3.ToReal(a), b
    if b.is_int() and not a.is_int():
        return a, z3.ToReal(b)
    return a, b


def real(t):
    return z3.ToReal(t) if t.is_int() else t


class SymBase:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __reduce__(self):
        raise Unsupported("a symbolic value was pickled")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")


def _inf(o):
    return isinstance(o, float) and o in (float("inf"), float("-inf"))


def _arith(op):
    def f(self, other):
        if not is_num(other):
            if isinstance(other, (str, list, tuple, dict)) or other is None:
                return NotImplemented
            if hasattr(other, "__pv_arith__"):
                return NotImplemented
            raise Unsupported("arithmetic with %s" % type(other).__name__)
        if _inf(other):
            return _with_inf(op, self, other, False)
        a, b = tolr(self.num, num(other))
        return _op(op, a, b)

    def r(self, other):
        if not is_num(other):
            if isinstance(other, (str, list, tuple, dict)) or other is None:
                return NotImplemented
            raise Unsupported("arithmetic with %s" % type(other).__name__)
        if _inf(other):
            return _with_inf(op, self, other, True)
        a, b = tolr(num(other), self.num)
        return _op(op, a, b)
    return f, r


def _with_inf(op, s, inf, rev):
    if op == "+":
        return inf
    if op == "-":
        return inf if rev else -inf
    raise Unsupported("infinity in an expression")


def _op(op, a, b):
    if op == "+":
        return wrap(a + b)
    if op == "-":
        return wrap(a - b)
    if op == "*":
        if eng().abstract == "opaque" and not is_numeral(a) and not is_numeral(b):
            return wrap(O_MULI(a, b) if a.is_int() and b.is_int() else O_MULR(real(a), real(b)))
        if eng().abstract and not is_numeral(a) and not is_numeral(b):
            return wrap(mul_(a, b))
        return wrap(a * b)
    if op == "/":
        if eng().branch(b == 0):
            raise ZeroDivisionError("division by zero")
        if eng().abstract == "opaque" and not is_numeral(b):
            return wrap(O_DIV(real(a), real(b)))
        if eng().abstract and not is_numeral(b):
            return wrap(div_(real(a), real(b)))
        return wrap(real(a) / real(b))
    if op in ("//", "%"):
        if eng().branch(b == 0):
            raise ZeroDivisionError("division by zero")
        if a.is_int() and b.is_int():
            if eng().branch(b > 0):
                return wrap(a / b if op == "//" else a % b)
            # floor division by a negative divisor: a // b == (-a) // (-b)
            q = (-a) / (-b)
            return wrap(q if op == "//" else a - b * q)
        q = z3.ToInt(real(a) / real(b))
        return wrap(z3.ToReal(q) if op == "//" else real(a) - real(b) * z3.ToReal(q))
    raise Unsupported(op)


def is_numeral(t):
    t = z3.simplify(t)
    return z3.is_int_value(t) or z3.is_rational_value(t)


MULI = z3.Function("times_i", z3.IntSort(), z3.IntSort(), z3.IntSort())
MULR = z3.Function("times", z3.RealSort(), z3.RealSort(), z3.RealSort())
DIVR = z3.Function("over", z3.RealSort(), z3.RealSort(), z3.RealSort())


# opaque arithmetic: terms without meaning; a proof that needs their meaning gets the
# definitions of the ones it mentions
O_MULI = z3.Function("o_times_i", z3.IntSort(), z3.IntSort(), z3.IntSort())
O_MULR = z3.Function("o_times", z3.RealSort(), z3.RealSort(), z3.RealSort())
O_DIV = z3.Function("o_over", z3.RealSort(), z3.RealSort(), z3.RealSort())
O_ROUND = z3.Function("o_round", z3.RealSort(), z3.IntSort())
O_FLOOR = z3.Function("o_floor", z3.RealSort(), z3.IntSort())


def _o_round(x, r):
    d = 2 * (x - z3.ToReal(r))
    return z3.And(d <= 1, d >= -1, z3.Implies(z3.Or(d == 1, d == -1), r % 2 == 0))


OPAQUE = {f.get_id(): g for f, g in (
    (O_MULI, lambda a, b, r: r == a * b), (O_MULR, lambda a, b, r: r == a * b),
    (O_DIV, lambda a, b, r: z3.Implies(b != 0, r * b == a)), (O_ROUND, _o_round),
    (O_FLOOR, lambda x, r: z3.And(z3.ToReal(r) <= x, x < z3.ToReal(r) + 1)))}


def unfold(terms, done):
    """the definitions of the opaque terms in these"""
    out, todo = [], list(terms)
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in done:
            continue
        done[i] = t
        todo += t.children()
        if z3.is_app(t) and t.num_args():
            g = OPAQUE.get(t.decl().get_id())
            if g is not None:
                d = g(*t.children(), t)
                out.append(d)
                todo.append(d)
    return out


def mul_(a, b):
    """a product of two unknowns, as an uninterpreted term with the laws of sign,
    order and commutation (all true of the product): enough for most contracts
    and inside a decidable theory"""
    e = eng()
    if e.recorder is not None:
        raise Lazy()
    a, b = z3.simplify(a), z3.simplify(b)
    if a.get_id() > b.get_id():
        a, b = b, a
    f = MULI if a.is_int() and b.is_int() else MULR
    if f is MULR:
        a, b = real(a), real(b)
    r = f(a, b)
    e.approx = True
    e.fact(z3.And((r > 0) == z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0)), (r == 0) == z3.Or(a == 0, b == 0)))
    for x, k in ((a, b), (b, a)):
        e.fact(z3.And(z3.Implies(x == 1, r == k), z3.Implies(z3.And(x >= 1, k >= 0), r >= k),
                      z3.Implies(z3.And(x <= 1, k >= 0), r <= k)))
        for x2, k2, r2 in e.products:
            if k2.eq(k) and not x2.eq(x):
                e.fact(z3.And(z3.Implies(k > 0, z3.And((x < x2) == (r < r2), (x == x2) == (r == r2))),
                              z3.Implies(k < 0, z3.And((x < x2) == (r > r2), (x == x2) == (r == r2)))))
    if not any(r2.eq(r) for _, _, r2 in e.products):
        e.products += [(a, b, r), (b, a, r)]
    return r


def div_(a, b):
    e = eng()
    a, b = z3.simplify(a), z3.simplify(b)
    r = DIVR(a, b)
    m = mul_(r, b)
    e.fact(z3.Implies(b != 0, m == a))
    return r


def _cmp(op):
    def f(self, other):
        if not is_num(other):
            if op in ("==", "!="):
                if hasattr(other, "__pv_arith__"):
                    return NotImplemented
                return op == "!="
            return NotImplemented
        if _inf(other):
            pos = other > 0
            return {"==": False, "!=": True, "<": pos, "<=": pos, ">": not pos, ">=": not pos}[op]
        a, b = tolr(self.num, num(other))
        return wrap({"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b,
                     ">": lambda: a > b, ">=": lambda: a >= b}[op]())
    return f


class SymNum(SymBase):
    __slots__ = ()

    @property
    def num(self):
        return self.t

    __add__, __radd__ = _arith("+")
    __sub__, __rsub__ = _arith("-")
    __mul__, __rmul__ = _arith("*")
    __truediv__, __rtruediv__ = _arith("/")
    __floordiv__, __rfloordiv__ = _arith("//")
    __mod__, __rmod__ = _arith("%")
    __eq__, __ne__, __lt__ = _cmp("=="), _cmp("!="), _cmp("<")
    __le__, __gt__, __ge__ = _cmp("<="), _cmp(">"), _cmp(">=")
    __hash__ = SymBase.__hash__

    def __neg__(self):
        return wrap(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.t >= 0, self.t, -self.t))

    def __bool__(self):
        return eng().branch(self.t != 0)

    def __index__(self):
        raise Unsupported("a symbolic number is used as a machine index")

    def __float__(self):
        raise Unsupported("a symbolic number is used as a machine float")

    def __int__(self):
        raise Unsupported("a symbolic number is used as a machine integer")

    def __pow__(self, n):
        if isinstance(n, int) and not isinstance(n, bool) and 0 <= n <= 6:
            r = z3.IntVal(1) if self.t.is_int() else z3.RealVal(1)
            for _ in range(n):
                r = r * self.t
            return wrap(r)
        raise Unsupported("power")

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rpow__(self, base):
        if base == 2:
            return pow2(self)
        raise Unsupported("power")

    def __round__(self, nd=None):
        return round_(self, nd)

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return ceil_(self)

    def __trunc__(self):
        return trunc_(self)

    def is_integer(self):
        if self.t.is_int():
            return True
        return wrap(z3.IsInt(self.t))

    # numpy scalars and Python floats share these
    def item(self):
        return self

    def any(self):
        return self != 0

    def all(self):
        return self != 0


PW = z3.Function("two_to_the", z3.RealSort(), z3.RealSort())


def pow2(x):
    t = real(num(x))
    e = eng()
    if e.recorder is not None:
        raise Lazy()
    e.trust("2**x over the reals: positive, doubles with x+1, 2**0 == 1 (instantiated at the powers used)")
    e.fact(PW(t) > 0)
    e.fact(PW(z3.RealVal(0)) == 1)
    if isinstance(x, SymInt) or (isinstance(x, int)):
        pass
    for u in e.pows:
        # 2**t == 2**u * 2**k for whole k within +-11
        for k in range(-11, 12):
            e.fact(z3.Implies(t - u == k, PW(t) == PW(u) * z3.RealVal(str(Fraction(2) ** k))))
    if not e.pows:
        z = z3.RealVal(0)
        for k in range(-11, 12):
            e.fact(z3.Implies(t - z == k, PW(t) == z3.RealVal(str(Fraction(2) ** k))))
    e.pows.append(t)
    return wrap(PW(t))


class SymInt(SymNum):
    __slots__ = ()

    def __and__(self, other):
        return bitand(self, other)

    __rand__ = __and__

    def __lshift__(self, n):
        raise Unsupported("shift")

    def bit_count(self):
        raise Unsupported("bit_count")

    def bit_length(self):
        raise Unsupported("bit_length")


class SymReal(SymNum):
    __slots__ = ()


BITAND = z3.Function("bit_and", z3.IntSort(), z3.IntSort(), z3.IntSort())
POW2 = z3.Function("is_power_of_two", z3.IntSort(), z3.BoolSort())


def ispow2(x):
    """x is 1, 2, 4, ... (as a predicate pinned down up to 4096)"""
    t = num(x)
    e = eng()
    c = z3.Or(*[t == 2 ** k for k in range(13)])
    e.fact(z3.Implies(t <= 4096, POW2(t) == c))
    return wrap(POW2(t))


def bitand(a, b):
    ta, tb = num(a), num(b)
    e = eng()
    r = BITAND(ta, tb)
    e.trust("x & (x-1) == 0 exactly for powers of two among positive x")
    for x, y in ((ta, tb), (tb, ta)):
        e.fact(z3.Implies(z3.And(y == x - 1, x > 0), (r == 0) == POW2(x)))
    for t in (ta, tb):
        c = z3.Or(*[t == 2 ** k for k in range(13)])
        e.fact(z3.Implies(t <= 4096, POW2(t) == z3.And(t > 0, c)))
    return wrap(r)


LOG2 = z3.Function("log2", z3.RealSort(), z3.RealSort())


class SymLog2(SymReal):
    """log2 of a positive whole number, exact"""
    __slots__ = ("arg",)

    def is_integer(self):
        return ispow2(self.arg)


def log2(x):
    if not isinstance(x, SymInt):
        raise Unsupported("log2 of a symbolic real number")
    e = eng()
    if e.branch(x.t <= 0):
        raise ValueError("math domain error")
    e.trust("math.log2 of a whole number is exact: whole exactly for powers of two (pinned down up to 4096)")
    t = LOG2(real(x.t))
    for k in range(13):
        e.fact((real(x.t) == 2 ** k) == (t == k))
    e.fact((z3.ToReal(z3.ToInt(t)) == t) == boo(ispow2(x)))
    r = SymLog2(t)
    r.arg = x
    return r


class SymBool(SymBase):
    __slots__ = ()

    @property
    def num(self):
        return num(self)

    def __bool__(self):
        return eng().branch(self.t)

    def __and__(self, o):
        return wrap(z3.And(self.t, boo(o)))

    __rand__ = __and__

    def __or__(self, o):
        return wrap(z3.Or(self.t, boo(o)))

    __ror__ = __or__

    def __invert__(self):
        return wrap(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wrap(self.t == boo(o))
        if is_num(o):
            a, b = tolr(self.num, num(o))
            return wrap(a == b)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return wrap(z3.Not(boo(r)))

    __hash__ = SymBase.__hash__
    __add__, __radd__ = _arith("+")
    __sub__, __rsub__ = _arith("-")
    __mul__, __rmul__ = _arith("*")
    __lt__, __le__, __gt__, __ge__ = _cmp("<"), _cmp("<="), _cmp(">"), _cmp(">=")


# ----------------------------------------------------------- number functions
def whole(t):
    """the whole-number term equal to a real term, when it has one by its form"""
    if t.is_int():
        return t
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if z3.is_rational_value(t):
        f = t.as_fraction()
        return z3.IntVal(f.numerator) if f.denominator == 1 else None
    if k == z3.Z3_OP_ITE:
        a, b = whole(t.arg(1)), whole(t.arg(2))
        return None if a is None or b is None else z3.If(t.arg(0), a, b)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        cs = [whole(c) for c in t.children()]
        if any(c is None for c in cs):
            return None
        if k == z3.Z3_OP_UMINUS:
            return -cs[0]
        r = cs[0]
        for c in cs[1:]:
            r = r + c if k == z3.Z3_OP_ADD else r * c if k == z3.Z3_OP_MUL else r - c
        return r
    return None


def toint(t):
    """floor of a real term"""
    t = z3.simplify(t)
    w = whole(t)
    if w is not None:
        return w
    e = eng()
    if e.abstract == "opaque":
        return O_FLOOR(t)
    if len(e.frames) != 1 or e.recorder is not None:
        return z3.ToInt(t)
    for u, c in e.floors:
        if u.eq(t):
            return c
    c = e.fresh("floor", z3.IntSort())
    e.fact(z3.And(z3.ToReal(c) <= t, t < z3.ToReal(c) + 1))
    e.floors.append((t, c))
    return c


def floor_(x):
    if isinstance(x, (int, SymInt)):
        return x
    if isinstance(x, float):
        import math
        return math.floor(x)
    return wrap(toint(num(x)))


def ceil_(x):
    if isinstance(x, (int, SymInt)):
        return x
    if isinstance(x, float):
        import math
        return math.ceil(x)
    return wrap(-toint(-num(x)))


def trunc_(x):
    if isinstance(x, (int, SymInt)):
        return x
    if isinstance(x, float):
        return int(x)
    t = num(x)
    w = whole(z3.simplify(t))
    if w is not None:
        return wrap(w)
    return wrap(z3.If(t >= 0, toint(t), -toint(-t)))


def round_(x, nd=None):
    """round half to even, exact over the reals"""
    if not isinstance(x, SymBase):
        return round(x, nd) if nd is not None else round(x)
    if isinstance(x, SymInt):
        if nd is None or nd >= 0:
            return x
        raise Unsupported("round")
    t = num(x)
    w = whole(z3.simplify(t))
    if w is not None:
        return wrap(w) if nd is None else wrap(z3.ToReal(w))
    sc = 1 if not nd else 10 ** nd
    if eng().abstract == "opaque":
        r = O_ROUND(z3.simplify(t * sc))
        return wrap(r) if nd is None else wrap(z3.ToReal(r) / sc)
    u = t * sc + z3.RealVal("1/2")
    f = toint(u)
    r = z3.If(z3.And(z3.ToReal(f) == u, f % 2 == 1), f - 1, f)
    if nd is None:
        return wrap(r)
    return wrap(z3.ToReal(r) / sc)


def If(c, a, b):
    c = boo(c)
    if is_num(a) and is_num(b) and not (isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool))):
        x, y = tolr(num(a), num(b))
        return wrap(z3.If(c, x, y))
    return wrap(z3.If(c, boo(a), boo(b)))


def And(*a):
    return wrap(z3.And(*[boo(x) for x in a])) if a else True


def Or(*a):
    return wrap(z3.Or(*[boo(x) for x in a])) if a else False


def Not(a):
    return wrap(z3.Not(boo(a)))


def Implies(a, b):
    return wrap(z3.Implies(boo(a), boo(b)))


def Iff(a, b):
    return wrap(boo(a) == boo(b))


def eq(a, b):
    """Equality of two values as a truth value, without splitting the path.
    None and mixed kinds are compared as Python would."""
    if isinstance(a, SymBase) or isinstance(b, SymBase):
        if is_num(a) and is_num(b):
            if _inf(a) or _inf(b):
                return False
            x, y = tolr(num(a), num(b))
            return wrap(x == y)
        if hasattr(a, "__pv_eq__"):
            return a.__pv_eq__(b)
        if hasattr(b, "__pv_eq__"):
            return b.__pv_eq__(a)
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b) or isinstance(a, tuple) != isinstance(b, tuple):
            return False
        return And(*[eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return And(*[eq(a[k], b[k]) for k in a])
    if hasattr(a, "__pv_eq__"):
        return a.__pv_eq__(b)
    if hasattr(b, "__pv_eq__"):
        return b.__pv_eq__(a)
    return bool(a == b)


# --------------------------------------------------------------------- engine
class Frame:
    __slots__ = ("prefix", "trace")

    def __init__(self, prefix):
        self.prefix, self.trace = prefix, []


class Pool:
    """The paths of one contract, explored by several processes: each takes the deepest path it has noted; one that
    has none left waits until another gives it the shallowest of its own."""

    def __init__(self, n):
        import multiprocessing as mp
        self.n, self.q, self.lock = n, mp.SimpleQueue(), mp.Lock()
        self.waiting, self.gone = mp.Value("i", 0, lock=False), mp.Value("i", 0, lock=False)

    def over(self):
        if self.waiting.value + self.gone.value == self.n:
            for _ in range(self.waiting.value):
                self.q.put(None)

    def give(self, todo):
        if self.waiting.value and len(todo) > 1:
            with self.lock:
                while self.waiting.value and len(todo) > 1:
                    self.waiting.value -= 1
                    self.q.put(todo.pop(0))

    def take(self, deadline):
        with self.lock:
            self.waiting.value += 1
            self.over()
        if not self.q._reader.poll(max(0.0, deadline - time.time())):
            return None
        return self.q.get()

    def leave(self):
        with self.lock:
            self.gone.value += 1
            self.over()


class Ob:
    """One named obligation; a condition to discharge per path that reaches it."""
    __slots__ = ("name", "vcs", "ok", "status", "detail", "cases", "time", "backends", "approx", "bounded")

    def __init__(self, name):
        self.name, self.vcs, self.ok, self.status, self.detail = name, 0, 0, None, ""
        self.cases, self.time, self.backends, self.approx, self.bounded = [], 0.0, set(), False, False


def subst_raw(t, vs, to):
    """z3.substitute without its run-time checks: vs and to are arrays of terms of equal sorts"""
    c = t.ctx
    return z3.z3._to_expr_ref(z3.Z3_substitute(c.ref(), t.as_ast(), len(to), vs[0], to), c)


class Lazy(BaseException):
    """this statement cannot be evaluated once for all indices"""


class Recorder:
    """what a quantified statement is made of, for one symbolic index"""

    def __init__(self):
        self.facts, self.uses, self.seen = [], [], {}


class Rule:
    """a statement about all indices of a space (or all pairs of two)"""
    __slots__ = ("space", "f", "done", "what", "arity", "space2", "vars", "formula", "facts", "uses")

    def __init__(self, space, f, what, arity, space2):
        self.space, self.f, self.done, self.what, self.arity, self.space2 = space, f, set(), what, arity, space2
        self.formula = None


class Engine:
    FEAS_MS = 1500

    def __init__(self, deadline, prove_ms=8000):
        global ENGINE
        ENGINE = self
        self.deadline, self.prove_ms = deadline, prove_ms
        self.obs = {}
        self.trusted, self.assumed = set(), set()
        self.unit, self.bounded = "", False
        self.case_of = None
        self.paths = 0
        self.solver_s = 0.0
        self.max_paths = 4000
        self.abstract = False
        self.progress = None
        self.called, self.contracted = set(), set()
        self.reset()

    def reset(self):
        self.s = z3.Solver()
        self.s.set("timeout", self.FEAS_MS)
        self.pc = []            # (kind, condition); kind: "d" decision, "f" fact
        self.spaces = []
        self.univ = []          # (space, formula of an index, what)
        self.frames = []
        self.fresh_log = None
        self.fresh_n = 0
        self.pows = []
        self.products = []
        self.floors = []
        self.facts_seen = {}
        self.loans = ()         # (dictionary, key, value): values read from symbolic dictionaries
        self.symsets = {}       # identity -> symbolic set
        self.keep = []
        self.lins = {}          # lists by position, as numbered so far
        self.dict_of = None     # what a dictionary of a symbolic sequence of pairs is, given by a contract
        self.approx = False
        self.invariants = []    # loop invariants given by the contract
        self.inputs = {}
        self.known = {}
        from . import lists, rt
        self.heap = lists.Heap()
        self.inverse = {}
        self.cancel = set()     # (f, g): f(g(x)) is x, no new index
        self.templates = {}
        self.rule_n = 0
        self.recorder = None
        self.rt = rt
        rt.R.reset()

    def check_feasible(self):
        if self.check() == z3.unsat:
            raise Infeasible()

    # ---- names, trust
    def trust(self, s):
        self.trusted.add(s)

    def assumption(self, s):
        self.assumed.add(s)

    def fresh(self, name, sort):
        if self.recording() is not None:
            raise Lazy()
        self.fresh_n += 1
        c = z3.Const("%s!%d" % (name, self.fresh_n), sort)
        if self.fresh_log is not None:
            self.fresh_log.append(c)
        return c

    # ---- path condition
    def tick(self):
        if time.time() > self.deadline:
            raise Timeout()

    recorder, recorder_depth = None, 0

    def recording(self):
        return self.recorder if self.recorder is not None and len(self.frames) == self.recorder_depth else None

    def forall(self, space, f, what="", lazy=False):
        """f(index) holds for every index of the space: instantiated at every
        index term that occurs"""
        self.rule(Rule(space, f, what, 1, space), lazy)

    def forall2(self, space, f, what="", other=None, lazy=False):
        """f(i, j) holds for all indices i of the space and j of it (of the other space)"""
        self.rule(Rule(space, f, what, 2, other or space), lazy)

    def rule(self, u, lazy):
        if not lazy and self.abstract in (False, "opaque"):
            self.compile(u)
        self.univ.append(u)

    def compile(self, u):
        """evaluate the statement once, on symbolic indices"""
        if self.recorder is not None:
            raise Unsupported("a quantified statement inside another")
        self.rule_n += 1
        vs = [z3.Int("index!%d!%d" % (self.rule_n, k)) for k in range(u.arity)]
        was = self.pure, self.pure_depth
        self.recorder, self.recorder_depth = Recorder(), len(self.frames)
        self.recorder.about = [(u.space, vs[0])] + [(u.space2, t) for t in vs[1:]]
        self.pure, self.pure_depth = True, len(self.frames)
        try:
            g = boo(u.f(*vs))
            u.vars, u.facts, u.uses = vs, self.recorder.facts, self.recorder.uses
            inside = [u.space.inside(vs[0])] + [u.space2.inside(t) for t in vs[1:]]
            u.formula = z3.simplify(z3.Implies(z3.And(*inside), g))
            u.facts = [f for f in u.facts + [u.formula] if not z3.is_true(f)]
            u.vars = (z3.Ast * len(vs))(*[v.as_ast() for v in vs]), vs
        except Lazy:
            u.formula = None
        finally:
            self.recorder = None
            self.pure, self.pure_depth = was

    def follows(self, c):
        """inside a statement about all elements: c is true of the elements it is about"""
        rec, fs = self.recorder, []
        uses = list(rec.about) + list(rec.uses)
        for u in self.univ:
            if u.arity == 1 and u.formula is not None:
                for sp, t in uses:
                    if sp is u.space:
                        to = (z3.Ast * 1)(t.as_ast())
                        fs += [subst_raw(f, u.vars, to) for f in u.facts]
        self.s.push()
        try:
            self.s.add(*rec.facts, *fs, *[sp.inside(t) for sp, t in rec.about], z3.Not(boo(c)))
            return self.s.check() == z3.unsat
        finally:
            self.s.pop()

    def instantiate(self):
        if self.recorder is not None:
            return
        was = self.pure, self.pure_depth
        self.pure, self.pure_depth = True, len(self.frames)
        try:
            self._instantiate()
        finally:
            self.pure, self.pure_depth = was

    pure, pure_depth = False, 0

    def _instantiate(self):
        progress = True
        rounds = 0
        while progress and rounds < 4:
            progress = False
            rounds += 1
            for u in list(self.univ):
                space, space2, done = u.space, u.space2, u.done
                if u.arity == 1:
                    keys = [(t,) for t in space.terms if (t.get_id(),) not in done]
                else:
                    keys = [(a, b) for a in space.terms for b in space2.terms
                            if (a.get_id(), b.get_id()) not in done and (space is not space2 or not a.eq(b))]
                for k in keys:
                    i = tuple(t.get_id() for t in k)
                    done.add(i)
                    progress = True
                    if u.formula is None:
                        inside = [space.inside(k[0])] + [space2.inside(t) for t in k[1:]]
                        self.fact(z3.Implies(z3.And(*inside), boo(u.f(*k))))
                        continue
                    to = (z3.Ast * len(k))(*[t.as_ast() for t in k])
                    for f in u.facts:
                        self.fact(subst_raw(f, u.vars, to))
                    for sp, t in u.uses:
                        sp.use(z3.simplify(subst_raw(t, u.vars, to)))

    def check(self, *extra):
        self.tick()
        if self.univ:
            self.instantiate()
        t = time.time()
        r = self.s.check(*extra)
        self.solver_s += time.time() - t
        return r

    def add(self, c, kind="f"):
        c = boo(c)
        if z3.is_true(c):
            return
        self.pc.append((kind, c))
        self.s.add(c)
        self.known[c.get_id()] = (True, c)

    def fact(self, c):
        """A theorem (of a trusted library model); holds on every path."""
        rec = self.recording()
        if rec is not None:
            if c.get_id() not in rec.seen:
                rec.seen[c.get_id()] = c
                rec.facts.append(c)
            return
        i = c.get_id()
        if i in self.facts_seen:
            return
        self.facts_seen[i] = c          # kept, so that the id stays its own
        self.pc.append(("f", c))
        z3.Z3_solver_assert(c.ctx.ref(), self.s.solver, c.as_ast())

    def assume(self, c):
        c = boo(c)
        if z3.is_true(z3.simplify(c)):
            return
        self.add(c)
        if self.check() == z3.unsat:
            raise Infeasible()

    def decide(self, options):
        """options: list of conditions (or None for unconditional). Returns the
        index of the branch taken on this path."""
        if self.pure and len(self.frames) == self.pure_depth:
            for i, c in enumerate(options):
                if c is not None and self.recorder is not None and self.follows(c):
                    return i
            raise Unsupported("a statement about all elements splits the path")
        f = self.frames[-1]
        k = len(f.trace)
        if k < len(f.prefix):
            i, n = f.prefix[k]
            f.trace.append((i, n))
            if options[i] is not None:
                self.add(options[i], "d")
            return i
        feas = []
        for i, c in enumerate(options):
            if c is None or self.check(c) != z3.unsat:
                feas.append(i)
        if not feas:
            raise Infeasible()
        i = feas[0]
        f.trace.append((i, tuple(feas[1:])))
        if options[i] is not None:
            self.add(options[i], "d")
        return i

    def branch(self, c):
        c = z3.simplify(boo(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known.get(c.get_id())
        if k is not None and k[1].eq(c):
            return k[0]
        n = z3.simplify(z3.Not(c))
        r = self.decide([c, n]) == 0
        self.known[c.get_id()] = (r, c)
        self.known[n.get_id()] = (not r, n)
        return r

    def choose(self, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[self.decide([None] * len(seq))]

    # ---- exploration
    @staticmethod
    def next_prefix(trace):
        """prefix of the next unexplored path, or None"""
        t = list(trace)
        while t:
            i, rest = t.pop()
            if rest:
                return t + [(rest[0], rest[1:])]
        return None

    pool = None                      # shared with the other processes that explore the paths of this contract
    first = True                     # whether this process starts at the first path

    def explore(self, fn):
        """Run fn once per feasible path (outermost level)."""
        todo = [[]] if self.first else []
        n = 0
        try:
            while True:
                if not todo:
                    p = self.pool.take(self.deadline) if self.pool is not None else None
                    if p is None:
                        return n
                    todo.append(p)
                prefix = todo.pop()
                self.tick()
                self.reset()
                self.frames = [Frame(prefix)]
                n += 1
                self.paths += 1
                if n > self.max_paths:
                    raise Unsupported("more than %d paths" % self.max_paths)
                try:
                    fn()
                except Infeasible:
                    pass
                trace = self.frames[0].trace
                for k in range(len(prefix), len(trace)):
                    for i in reversed(trace[k][1]):
                        todo.append([(j, ()) for j, _ in trace[:k]] + [(i, ())])
                if self.pool is not None:
                    self.pool.give(todo)
        except BaseException:
            if self.pool is not None:
                self.pool.leave()
            raise

    def subexplore(self, fn):
        """Explore all paths of fn from the current state (used for the generic
        iteration of a loop).  fn runs with its own decisions and rolls the heap
        back itself.  Returns [(decisions, facts, fresh constants, result)]."""
        prefix, out, n = [], [], 0
        base, nuniv = len(self.pc), len(self.univ)
        known = dict(self.known)
        if self.univ:
            self.instantiate()
        seen = dict(self.facts_seen)
        dones = [set(u.done) for u in self.univ]
        terms = [(sp, list(sp.terms)) for sp in self.spaces]
        log = self.fresh_log
        while prefix is not None:
            self.tick()
            self.frames.append(Frame(prefix))
            self.fresh_log = []
            self.s.push()
            n += 1
            if n > 300:
                raise Unsupported("a loop body with more than 300 paths")
            try:
                try:
                    r = fn()
                    if len(self.univ) != nuniv:
                        raise Unsupported("a quantified fact inside a loop body")
                    out.append(([c for k, c in self.pc[base:] if k == "d"], [c for k, c in self.pc[base:] if k == "f"],
                                list(self.fresh_log), r))
                except Infeasible:
                    pass
            finally:
                fr = self.frames.pop()
                self.s.pop()
                del self.pc[base:]
                del self.univ[nuniv:]
                for u, d in zip(self.univ, dones):
                    u.done = set(d)
                for sp, t in terms:
                    sp.restore(t)
                self.known = dict(known)
                self.facts_seen = dict(seen)
                if log is not None:
                    log.extend(self.fresh_log)
                self.fresh_log = log
            prefix = self.next_prefix(fr.trace)
        return out

    # ---- obligations
    def ob(self, name):
        full = "%s/%s" % (self.unit, name)
        o = self.obs.get(full)
        if o is None:
            o = self.obs[full] = Ob(full)
            o.bounded = self.bounded
        return o

    def ensure(self, name, cond, detail=None):
        o = self.ob(name)
        o.vcs += 1
        g = boo(cond)
        t0 = time.time()
        status, model, be = self.decide_vc(g)
        o.time += time.time() - t0
        if status == "discharged":
            o.ok += 1
            o.backends.add(be)
            if o.status is None:
                o.status = "discharged"
        elif status == "failed":
            o.status = "failed"
            o.approx = o.approx or self.approx or bool(self.spaces)
            if len(o.cases) < 3:
                c = self.make_case(model, g)
                if c is not None:
                    o.cases.append(c)
            if not o.detail:
                o.detail = "%s; counter-model: %s" % ((detail or name)[:200], self.show(model)[:500])
        else:
            if o.status != "failed":
                o.status = status
                o.detail = detail or ""
        if self.progress is not None:
            self.progress()
        return status == "discharged"

    def decide_vc(self, g):
        g = z3.simplify(g)
        if z3.is_true(g):
            return "discharged", None, "simplifier"
        ng = z3.Not(g)
        if self.univ:
            self.instantiate()
        self.s.push()
        try:
            self.s.add(ng)
            self.s.set("timeout", self.prove_ms)
            r = self.check()
            if r == z3.unsat:
                return "discharged", None, "z3"
            if self.abstract == "opaque":
                for d in unfold(self.s.assertions(), {}):
                    self.s.add(d)
                r = self.check()
                if r == z3.unsat:
                    return "discharged", None, "z3"
            if r == z3.sat:
                if not self.spaces:
                    return "failed", self.nice_model(), "z3"
                m = self.small_model()
                if m is not None:
                    return "failed", m, "z3"
                return "unknown", None, ""
            r = self.cvc5_check()
            if r == "unsat":
                return "discharged", None, "cvc5"
            return "unknown", None, ""
        finally:
            self.s.set("timeout", self.FEAS_MS)
            self.s.pop()

    @contextlib.contextmanager
    def scope(self):
        """what is added inside is forgotten at the end"""
        npc, nuniv = len(self.pc), len(self.univ)
        known, seen = dict(self.known), dict(self.facts_seen)
        lins = dict(self.lins)
        dones = [set(u.done) for u in self.univ]
        nsp = len(self.spaces)
        terms = [(sp, list(sp.terms)) for sp in self.spaces]
        nums = list(self.floors), list(self.products), list(self.pows)
        self.s.push()
        try:
            yield
        finally:
            self.s.pop()
            del self.pc[npc:]
            del self.univ[nuniv:]
            del self.spaces[nsp:]
            for u, d in zip(self.univ, dones):
                u.done = d
            for sp, t in terms:
                sp.restore(t)
            self.known, self.facts_seen, self.lins = known, seen, lins
            self.floors, self.products, self.pows = nums

    def small_model(self):
        """a model in which every sequence is short and every statement about its
        elements holds for each of them: a real counterexample, not only one of the
        instances used in the proof attempt"""
        for k in self.scopes:
            with self.scope():
                for sp in list(self.spaces):
                    self.s.add(sp.n <= k)
                    for i in range(k):
                        sp.use(z3.IntVal(i))
                for _ in range(3):
                    self.instantiate()
                    for sp in self.spaces:
                        self.s.add(sp.n <= k)
                if self.abstract == "opaque":
                    for d in unfold(self.s.assertions(), {}):
                        self.s.add(d)
                self.s.set("timeout", 6000)
                if self.s.check() == z3.sat:
                    return self.nice_model()
        return None

    scopes = (1, 2, 3)

    def nice_model(self):
        """a model whose reals are short binary fractions, when there is one"""
        m = self.s.model()
        reals = [v for v in self.inputs.values() if not z3.is_bool(v) and not v.is_int()]
        for q in (8, 1024, 2 ** 20):
            self.s.push()
            try:
                self.s.set("timeout", 1500)
                for v in reals:
                    self.s.add(z3.IsInt(v * q), v > -10 ** 6, v < 10 ** 6)
                if self.s.check() == z3.sat:
                    return self.s.model()
            finally:
                self.s.pop()
        return m

    def cvc5_check(self):
        try:
            import cvc5
            txt = "(set-logic ALL)\n" + self.s.to_smt2()
            slv = cvc5.Solver()
            slv.setOption("tlimit", str(self.prove_ms))
            par = cvc5.InputParser(slv)
            par.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "vc")
            sm = par.getSymbolManager()
            res = ""
            while True:
                cmd = par.nextCommand()
                if cmd.isNull():
                    break
                res += cmd.invoke(slv, sm)
            return "unsat" if "unsat" in res else "sat" if "sat" in res else "unknown"
        except Exception as ex:  # a parse problem is not an answer
            return "unknown"

    def val(self, model, x):
        """symbolic value -> JSON value in the model"""
        if isinstance(x, SymBool):
            return z3.is_true(model.eval(x.t, model_completion=True))
        if isinstance(x, SymNum):
            v = model.eval(x.t, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(v.as_fraction())
            if z3.is_algebraic_value(v):
                return float(v.approx(20).as_fraction())
            return None
        if isinstance(x, dict):
            return {k: self.val(model, v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.val(model, v) for v in x]
        if hasattr(x, "__pv_val__"):
            return x.__pv_val__(lambda v: self.val(model, v))
        return x

    def make_case(self, model, g):
        if self.case_of is None:
            return None
        try:
            c = self.case_of(lambda x: self.val(model, x))
            return c
        except (Unsupported, ArithmeticError, KeyError):
            return None

    def show(self, model):
        out = []
        for k, v in self.inputs.items():
            out.append("%s=%s" % (k, model.eval(v, model_completion=True)))
        return ", ".join(out)

    # ---- inputs
    def inp(self, name, sort):
        n = name
        k = 1
        while n in self.inputs:
            k += 1
            n = "%s_%d" % (name, k)
        c = z3.Const(n, sort)
        self.inputs[n] = c
        return c

    def int(self, name, lo=None, hi=None):
        v = SymInt(self.inp(name, z3.IntSort()))
        if lo is not None:
            self.add(v.t >= lo)
        if hi is not None:
            self.add(v.t <= hi)
        return v

    def real(self, name, lo=None, hi=None):
        v = SymReal(self.inp(name, z3.RealSort()))
        if lo is not None:
            self.add(v.t >= num(lo))
        if hi is not None:
            self.add(v.t <= num(hi))
        return v

    def bool(self, name):
        return SymBool(self.inp(name, z3.BoolSort()))
