"""Run-time of the rewritten code: loops, comprehensions, containers, builtins."""
import builtins
import types

import z3

from . import core, lists
from .core import (SymBase, SymBool, SymInt, SymNum, SymReal, Unsupported, And, Or, Not, If, boo, eng, eq, is_num, num,
                   tolr, wrap, real, trunc_, floor_, ceil_, round_)
from .lists import (TRUE, SymList, Seg, Elem, Space, InsPoint, as_segs, islist, subst, merge, extremum, any_, view, is_view,
                    attrs, Heap)

NATIVE = {"math_", "abc", "enum", "types", "__future__", "decimal_", "itertools_", "os", "io", "pathlib", "attr",
          "argparse", "tempfile", "shutil", "re", "random", "string", "six", "time"}


class Ret:
    __slots__ = ("value",)

    def __init__(self, v):
        self.value = v


class _Break:
    pass


BREAK = _Break()
MISSING = object()


def is_ret(r):
    return isinstance(r, Ret)


# ------------------------------------------------------------- undo journal
class Journal:
    def __init__(self):
        self.stack = []       # active recordings: lists of (kind, obj, name, old)
        self.born = {}        # id -> object, per recording level


class RT:
    """Singleton with the mutable state of a path."""

    def __init__(self):
        self.reset()
        lists.ENG_RT[:] = [self]

    def reset(self):
        self.rec = []         # stack of undo lists
        self.births = [{}]    # stack of {id: object}
        self.keep = []        # keeps stamped objects alive
        self.caches = {}
        self.ticks = {}
        self.skip_hook = False

    def stamp(self, o):
        self.births[-1][id(o)] = o

    def note_attr(self, o, name):
        if self.rec:
            old = attrs(o).get(name, MISSING)
            self.rec[-1].append(("attr", o, name, old))

    def note_list(self, l):
        if getattr(l, "borrowed", False):
            raise Unsupported("a change to a list inside a symbolic dictionary that is walked through")
        if getattr(l, "loan", None) is not None:
            settle(l)
        if self.rec:
            self.rec[-1].append(("list", l, None, list(l.segs)))

    def note_dict(self, d):
        if getattr(d, "borrowed", False):
            raise Unsupported("a change to a dictionary inside a symbolic dictionary that is walked through")
        if getattr(d, "loan", None) is not None:
            settle(d)
        if self.rec:
            self.rec[-1].append(("dict", d, None, d._snap()))

    def undo(self, log):
        for kind, o, name, old in reversed(log):
            if kind == "attr":
                if old is MISSING:
                    try:
                        object.__delattr__(o, name)
                    except AttributeError:
                        pass
                else:
                    object.__setattr__(o, name, old)
            elif kind == "list":
                o.segs = list(old)
            else:
                o._restore(old)


R = RT()


def register_class(cls):
    """objects of repository classes record their creation and attribute writes"""
    if getattr(cls, "__pv_reg__", None) is cls or issubclass(cls, (BaseException, type)):
        return
    if cls.__setattr__ is not object.__setattr__ and "__pv_hook__" not in dir(cls):
        # frozen dataclasses and the like
        if getattr(getattr(cls, "__dataclass_params__", None), "frozen", False):
            stamped(cls)
        return
    if "__setattr__" in cls.__dict__:
        return

    def sa(self, name, v):
        if R.rec:
            p = getattr(type(self), name, None)
            if not isinstance(p, property):
                R.note_attr(self, name)
        object.__setattr__(self, name, v)
    try:
        cls.__setattr__ = sa
        cls.__pv_hook__ = True
        cls.__pv_reg__ = cls
    except (TypeError, AttributeError):
        return
    stamped(cls)


def stamped(cls):
    """its objects record their creation"""
    if "__new__" not in cls.__dict__ and cls.__new__ is object.__new__:
        def new(c, *a, **k):
            o = object.__new__(c)
            R.stamp(o)
            return o
        cls.__new__ = new


# --------------------------------------------------------------- sequences
def VList(x=()):
    if isinstance(x, SymList):
        return SymList(x.segs)
    return SymList(as_segs(x))


def genlist():
    return SymList([])


def geniter(l):
    return GenIter(l)


class GenIter:
    """What a generator yields, as a sequence that can be consumed once."""

    off = None      # how many are consumed, if a part of them was taken

    def __init__(self, l):
        self.l = l
        self.pos = None
        R.stamp(self)

    def __pv_segs__(self):
        return list(self.l.segs)

    def __iter__(self):
        return self

    def take(self, n):
        """the next n of them, or as many as are left"""
        segs = self.l.segs
        if len(segs) != 1 or not isinstance(segs[0], Seg) or not segs[0].unguarded() or self.pos is not None:
            raise Unsupported("a part of this symbolic generator")
        s, e = segs[0], eng()
        off = z3.IntVal(0) if self.off is None else self.off
        have = wrap(s.space.n - off)
        k = e.fresh("taken", z3.IntSort())
        m = If(have < 0, 0, have)
        e.fact(k == num(If(n < m, n, m)))
        sp = Space(k, "part%d" % len(e.keep))
        e.keep.append(sp)
        R.note_attr(self, "off")
        self.off = z3.simplify(off + k)

        def at(t):
            s.space.use(off + t)
            return s.value(off + t)
        out = SymList([Seg(sp, lists.always, at, None if s.facts is None else (lambda t: s.facts(off + t)))])
        out.part_of = (self, off, k)
        return out

    def __next__(self):
        if self.pos is None:
            c = self.l.conc()
            if c is None:
                raise Unsupported("next() of a symbolic generator")
            self.pos = iter(c)
        return next(self.pos)


def seglist(x):
    """SymList view of a symbolic iterable, or None"""
    if isinstance(x, SymList):
        x.readable()
        return x if x.conc() is None else None
    if isinstance(x, GenIter):
        if x.off is not None:
            return x.take(wrap(x.l.segs[0].space.n))
        return seglist(x.l)
    if isinstance(x, SymSet):
        return SymList([x.seg()])
    f = getattr(type(x), "__iter__", None)
    if isinstance(x, LazySeq):
        return x.seq()
    return None


class LazySeq:
    """zip/enumerate/range/reversed over symbolic sequences"""

    def __init__(self, l):
        self.l = l

    def seq(self):
        return self.l

    def __pv_segs__(self):
        return list(self.l.segs)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic sequence outside a loop")


class PartIter(GenIter):
    """the next n of a symbolic generator, taken when it is read"""

    def __init__(self, src, n):
        self.src, self.n, self.got, self.pos = src, n, None, None
        R.stamp(self)

    @property
    def l(self):
        if self.got is None:
            R.note_attr(self, "got")
            self.got = self.src.take(self.n)
        return self.got


def it(x):
    """what a `for` iterates: user-defined __iter__ is called once"""
    if isinstance(x, (list, tuple, dict, str, SymList, GenIter, LazySeq, range, set, frozenset, types.GeneratorType)):
        return x
    f = getattr(type(x), "__iter__", None)
    if f is not None and isinstance(f, types.FunctionType):
        r = f(x)
        if isinstance(r, (SymList, GenIter, LazySeq)):
            return r
        return r
    return x


def symbolic(x):
    return seglist(x) is not None


class While:
    LIMIT = 60


def while_tick(k):
    e = eng()
    n = R.ticks.get(k, 0) + 1
    R.ticks[k] = n
    if n > 20000:
        raise Unsupported("a while loop that does not end on a bounded input")


# ------------------------------------------------------------ loop summary
def cells_of(body):
    out = {}
    for n, c in zip(body.__code__.co_freevars, body.__closure__ or ()):
        if n.startswith("_pv_") and n != "_pv_out":
            continue
        out[n] = c
    return out


def cell_get(c):
    try:
        return c.cell_contents
    except ValueError:
        return MISSING


def cell_set(c, v):
    if v is MISSING:
        try:
            del c.cell_contents
        except ValueError:
            pass
    else:
        c.cell_contents = v


class Loc:
    """A variable the loop may change."""
    __slots__ = ("kind", "obj", "name")

    def __init__(self, kind, obj, name):
        self.kind, self.obj, self.name = kind, obj, name

    @property
    def key(self):
        return (self.kind, id(self.obj), self.name)

    def get(self):
        if self.kind == "cell":
            return cell_get(self.obj)
        if self.kind == "attr":
            return attrs(self.obj).get(self.name, MISSING)
        return self.obj

    def set(self, v):
        if self.kind == "cell":
            cell_set(self.obj, v)
        elif v is MISSING:
            try:
                object.__delattr__(self.obj, self.name)
            except AttributeError:
                pass
        else:
            object.__setattr__(self.obj, self.name, v)


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, SymBase) and isinstance(b, SymBase):
        return a.t.eq(b.t)
    if isinstance(a, (int, float, str, bool)) and type(a) is type(b):
        return a == b
    if is_view(a) and is_view(b):
        return a._pv_ref.eq(b._pv_ref)
    return False


def havoc(v, name):
    e = eng()
    if isinstance(v, (bool, SymBool)):
        return SymBool(e.fresh("h_" + name, z3.BoolSort()))
    if isinstance(v, (int, SymInt)):
        return SymInt(e.fresh("h_" + name, z3.IntSort()))
    if isinstance(v, (float, SymReal)):
        return SymReal(e.fresh("h_" + name, z3.RealSort()))
    return Poisoned(name)


class Poisoned:
    """the value of a variable at the start of an arbitrary iteration, when
    nothing is known about it: any use stops the analysis"""

    def __init__(self, name):
        object.__setattr__(self, "_pv_name", name)

    def __getattr__(self, a):
        raise Unsupported("variable %s carries a value from one iteration to the next" % self._pv_name)

    def _no(self, *a):
        raise Unsupported("variable %s carries a value from one iteration to the next" % self._pv_name)
    __bool__ = __len__ = __iter__ = __getitem__ = __setitem__ = __contains__ = __call__ = __lt__ = __le__ = _no
    __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __mul__ = __hash__ = __setattr__ = _no

    def __eq__(self, o):
        self._no()

    def __ne__(self, o):
        self._no()


class PathResult:
    pass


class Outcome:
    """one way an iteration can go: when (index -> condition), what is known then
    (index -> facts), what was seen, and how a term about it reads for another index"""


def trial(seg, body, cells, peek):
    """what one iteration does from the present state: [Outcome with .seen = peek(index,
    exit)]; the state is as before afterwards"""
    e = eng()
    i = seg.space.quiet("try")

    def once():
        seg.space.use(i)
        e.assume(seg.inr(i))
        return run_body(body, cells, lambda: seg.value(i), [], lambda out: peek(i, out)).peeked
    outs = []
    for dec, facts, consts, r in e.subexplore(once):
        fun = [(c, z3.Function(str(c) + "_of", z3.IntSort(), c.sort())) for c in consts]
        o = Outcome()
        o.at = lambda x, t, fun=fun: z3.substitute(x, (i, t), *[(c, f(t)) for c, f in fun])
        o.cond = lambda t, o=o, dec=dec: z3.And(*[o.at(d, t) for d in dec]) if dec else z3.BoolVal(True)
        o.facts = lambda t, o=o, facts=facts, dec=dec: [z3.Implies(o.cond(t), o.at(f, t)) for f in facts]
        o.seen, o.i = r, i
        outs.append(o)
    return outs


def run_body(body, cells, elem, havocs, peek=None):
    """one symbolic execution of the body; returns PathResult and rolls back"""
    e = eng()
    pre_cells = {n: cell_get(c) for n, c in cells.items()}
    undo = []
    R.rec.append(undo)
    R.births.append({})
    hs = e.heap.snapshot()
    hl = len(e.heap.log)
    loans = e.loans
    lists_poisoned = []
    try:
        for loc, v in havocs:
            if loc.kind == "list":
                loc.obj.poison = []
                lists_poisoned.append(loc.obj)
            else:
                if loc.kind == "attr":
                    R.note_attr(loc.obj, loc.name)
                loc.set(v)
        mark = len(undo)
        start = {n: cell_get(c) for n, c in cells.items()}
        r = PathResult()
        try:
            r.elem = elem()
            out = body(r.elem)
            r.exit = None if out is None else ("break", None) if out is BREAK else ("return", out.value)
        except Exception as ex:
            if is_engine_fault(ex):
                raise Unsupported("%s: %s" % (type(ex).__name__, ex))
            r.exit = ("raise", ex)
        if peek is not None:
            r.peeked = peek(r.exit)
        r.born = dict(R.births[-1])
        r.post = {}
        r.touched = {}
        for n, c in cells.items():
            v = cell_get(c)
            if not same_val(v, start[n]):
                r.touched[("cell", id(c), n)] = Loc("cell", c, n)
            r.post[("cell", id(c), n)] = v
        for kind, o, name, old in undo[mark:]:
            if id(o) in r.born:
                continue
            if kind == "attr":
                l = Loc("attr", o, name)
                r.touched[l.key] = l
                r.post[l.key] = l.get()
            elif kind == "list":
                l = Loc("list", o, None)
                r.touched[l.key] = l
            else:
                l = Loc("dict", o, None)
                r.touched[l.key] = l
        for loc, v in havocs:
            if loc.kind == "attr":
                r.post[loc.key] = loc.get()
        r.appends = {}
        for loc, v in havocs:
            if loc.kind == "list":
                r.appends[loc.key] = list(loc.obj.poison)
        # heap writes of this iteration
        r.heap = []
        for k in dict.fromkeys(e.heap.log[hl:]):
            r.heap.append((k, e.heap.layers[k][len(hs.get(k, ())):]))
        return r
    finally:
        for l in lists_poisoned:
            l.poison = None
        R.undo([u for u in undo if id(u[1]) not in R.births[-1]])     # objects of this iteration stay as it left them
        for n, c in cells.items():
            cell_set(c, pre_cells[n])
        R.rec.pop()
        e.loans = loans
        for l in loans:
            l[2].loan = l[:2]
        inner = R.births.pop()
        R.keep.append(inner)
        e.heap.restore(hs)
        del e.heap.log[hl:]


ENGINE_MARKS = ("Sym", "_pv", "Poisoned", "z3", "GenIter", "LazySeq", "VDict", "VSet", "Stub", "HashTok", "Opaque", "'Text'", "'Tok'", "InsPoint")


def is_engine_fault(ex):
    """exceptions that come from the limits of the proxies, not from the code"""
    if isinstance(ex, (TypeError, AttributeError)):
        s = str(ex)
        return any(m in s for m in ENGINE_MARKS)
    if isinstance(ex, z3.Z3Exception):
        return True
    if isinstance(ex, (NameError, UnboundLocalError)):
        tb = ex.__traceback__
        while tb is not None and tb.tb_next is not None:
            tb = tb.tb_next
        return tb is not None and "/pyvc/" in tb.tb_frame.f_code.co_filename
    return False


def loop(itx, body):
    """run the loop `for x in itx: body(x)`; returns None, BREAK or Ret"""
    seq = seglist(itx)
    segs = list(seq.segs)
    for s in segs:
        if isinstance(s, Elem):
            r = body(s.v)
            if r is BREAK or is_ret(r):
                return r
            continue
        r = loop_seg(s, body)
        if r is BREAK or is_ret(r):
            return r
    return None


class Invariant:
    """A loop invariant, given by a contract.  `match` says whether a loop is the one
    meant (by what it runs over and what it changes, not by names); `havoc(k)` puts the
    program into any state the invariant allows before iteration k; `check(k, what)`
    states the invariant of the state the program is in; `modifies` lists the Locs the
    iterations may change."""

    def match(self, seg, cells):
        raise NotImplementedError

    def modifies(self):
        return []


ASSIGNED = {}


def assigned_cells(body):
    import dis
    c = body.__code__
    if c not in ASSIGNED:
        ASSIGNED[c] = {i.argval for i in dis.get_instructions(c) if i.opname in ("STORE_DEREF", "DELETE_DEREF")}
    return ASSIGNED[c]


def loop_invariant(seg, body, cells, inv):
    e = eng()
    inv.check(0, "before the loop")
    mine = {l.key for l in inv.modifies()}
    temps = [(n, c) for n, c in cells.items() if n in assigned_cells(body) and ("cell", id(c), n) not in mine]
    for n, c in temps:
        cell_set(c, Poisoned(n))
    e.approx = True
    if e.decide([None, None]) == 1:
        inv.havoc(wrap(seg.space.n))
        return None
    k = seg.space.generic("k")
    e.assume(seg.inr(k))
    inv.havoc(wrap(k))
    undo = []
    R.rec.append(undo)
    R.births.append({})
    hl = len(e.heap.log)
    try:
        r = body(seg.value(k))
    finally:
        R.rec.pop()
        born = R.births.pop()
        R.keep.append(born)
        R.births[-1].update(born)
        if R.rec:
            R.rec[-1].extend(undo)
    for kind, o, name, old in undo:
        if id(o) not in born and (kind, id(o), name if kind == "attr" else None) not in mine:
            raise Unsupported("the loop changes more than its invariant says")
    if len(e.heap.log) > hl:
        raise Unsupported("the loop changes objects its invariant does not mention")
    if r is None:
        inv.check(wrap(k) + 1, "after each iteration")
        raise core.Infeasible()        # the rest is the business of the other path
    return r


def wanted(body):
    cells = cells_of(body)
    for inv in eng().invariants:
        if isinstance(inv, WhileInvariant):
            inv.assigned, inv.body = assigned_cells(body), body
            if inv.match(None, cells):
                return inv, cells
    return None, cells


def while_wanted(body):
    e = eng()
    if not e.invariants:
        return False
    e.while_found = wanted(body)
    return e.while_found[0] is not None


def while_loop(test, body):
    """a while loop whose invariant is given by a contract: any state of the invariant,
    from which either one iteration is run, or the loop is left"""
    e = eng()
    inv, cells = e.while_found
    e.assumption("loops under an invariant end")
    inv.check("before the loop")
    mine = {l.key for l in inv.modifies()}
    for n in inv.assigned:
        if n in cells and ("cell", id(cells[n]), n) not in mine:
            cell_set(cells[n], Poisoned(n))
    e.approx = True
    inv.havoc()
    if not bool(test()):
        return None
    undo = []
    R.rec.append(undo)
    R.births.append({})
    hl = len(e.heap.log)
    try:
        r = body(None)
    finally:
        R.rec.pop()
        born = R.births.pop()
        R.keep.append(born)
        R.births[-1].update(born)
        if R.rec:
            R.rec[-1].extend(undo)
    for kind, o, name, old in undo:
        if id(o) not in born and (kind, id(o), name if kind == "attr" else None) not in mine:
            raise Unsupported("the loop changes more than its invariant says")
    if len(e.heap.log) > hl:
        raise Unsupported("the loop changes objects its invariant does not mention")
    if r is None:
        inv.check("after each iteration")
        raise core.Infeasible()        # the rest is the business of the other paths
    return r


class WhileInvariant(Invariant):
    """the invariant of a while loop; havoc() and check(what) know no number of iterations"""


def loop_seg(seg, body):
    e = eng()
    cells = cells_of(body)
    for inv in e.invariants:
        if isinstance(inv, WhileInvariant) or getattr(body, "of_comp", False):
            continue
        inv.assigned, inv.body = assigned_cells(body), body
        if inv.match(seg, cells):
            return loop_invariant(seg, body, cells, inv)
    paths, havocs, i = generic_iteration(seg, body, cells)
    exits = [p for p in paths if p.exit is not None]
    if not exits:
        apply_summary(seg, i, paths, havocs, cells, None)
        return None
    # leaving the loop: its condition may only concern the element
    hv = [v.t for l, v in havocs if isinstance(v, SymBase)]
    exit_c = z3.Or(*[z3.And(*p.dec) if p.dec else core.z3.BoolVal(True) for p in exits])
    consts = list({c.get_id(): c for p in paths for c in p.consts}.values())
    if mentions(exit_c, hv):
        raise Unsupported("the loop is left depending on what earlier iterations computed")
    if mentions(exit_c, consts):
        raise Unsupported("the loop is left depending on an unspecified value")

    def leaves(t):
        return z3.substitute(exit_c, (i, t))
    normal = [p for p in paths if p.exit is None]
    if e.decide([None, None]) == 0:
        # nobody leaves
        e.forall(seg.space, lambda t: z3.Implies(boo(seg.guard(t)), z3.Not(leaves(t))), "no iteration leaves")
        e.check_feasible()
        if normal:
            apply_summary(seg, i, normal, havocs, cells, None)
        return None
    k = seg.space.generic("k")
    e.assume(z3.And(seg.inr(k), leaves(k)))
    e.forall(seg.space, lambda t: z3.Implies(z3.And(boo(seg.guard(t)), t < k), z3.Not(leaves(t))), "no earlier one leaves")
    e.check_feasible()
    if normal:
        apply_summary(seg, i, normal, havocs, cells, k)
    r = body(seg.value(k))
    if r is None:
        raise core.Infeasible()
    return r


def mentions(t, consts):
    ids = {c.get_id() for c in consts}
    if not ids:
        return False
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ids:
            return True
        todo.extend(x.children())
    return False


def generic_iteration(seg, body, cells):
    e = eng()
    havocs = []
    known = {}
    wider = set()           # whole numbers that an iteration replaces by real ones
    for attempt in range(6):
        i = seg.space.quiet("it")
        hv = [(l, havoc(0.0 if l.key in wider else l.get(), l.name or "v") if l.kind != "list" else None) for l in havocs]

        def once():
            seg.space.use(i)
            e.assume(seg.inr(i))
            return run_body(body, cells, lambda: seg.value(i), hv)
        res = e.subexplore(once)
        new = False
        paths = []
        for dec, facts, consts, p in res:
            p.dec, p.facts, p.consts = dec, facts, consts
            # decisions about the index itself are facts of the range
            paths.append(p)
            for k, l in p.touched.items():
                if k not in known:
                    if l.kind == "dict":
                        raise Unsupported("a loop over a symbolic sequence fills a dictionary")
                    known[k] = l
                    havocs.append(l)
                    new = True
            for l, h in hv:
                if isinstance(h, SymInt) and isinstance(p.post.get(l.key), (float, SymReal)) and l.key not in wider:
                    wider.add(l.key)
                    new = True
        if not new:
            return paths, hv, i
    raise Unsupported("the variables of the loop do not settle")


def apply_summary(seg, i, paths, havocs, cells, upto):
    """the state after the iterations (those below `upto`, when given)"""
    e = eng()
    rng = (lambda t: z3.BoolVal(True)) if upto is None else (lambda t: t < upto)
    # symbols born in one iteration become functions of the index
    consts = list({c.get_id(): c for p in paths for c in p.consts}.values())
    fun = {}
    for c in consts:
        f = z3.Function(str(c) + "_of", z3.IntSort(), c.sort())
        fun[c.get_id()] = (c, f)

    def at(t):
        return [(i, t)] + [(c, f(t)) for c, f in fun.values()]

    def cond(p):
        return z3.And(*p.dec) if p.dec else z3.BoolVal(True)

    def T(expr, t):
        return z3.substitute(expr, *at(t))
    born = {}
    for p in paths:
        born.update(p.born)
    facts = [z3.Implies(cond(p), f) for p in paths for f in p.facts]

    def facts_at(t):
        return [T(f, t) for f in facts] + (seg.facts(t) if seg.facts else [])
    hvt = [v.t for _, v in havocs if isinstance(v, SymBase)]
    poisons = [v for _, v in havocs if isinstance(v, Poisoned)]
    results = []
    for loc, h in havocs:
        if loc.kind == "list":
            results.append((loc, ("list", summarise_list(loc, seg, paths, cond, T, at, born, facts_at, hvt, rng))))
            continue
        pre = loc.get()
        posts = [(p, p.post.get(loc.key, h)) for p in paths]
        results.append((loc, summarise_scalar(loc, h, pre, posts, seg, i, cond, T, at, born, facts_at, hvt, rng)))
    # heap
    summarise_heap(seg, i, paths, cond, T, at, hvt, rng, facts_at)
    for loc, r in results:
        if loc.kind == "list":
            if r[1] is not None:
                loc.obj._set(r[1])
            continue
        if r[0] == "value":
            if loc.kind == "attr":
                R.note_attr(loc.obj, loc.name)
            loc.set(r[1])
        elif r[0] == "poison":
            loc.set(Poisoned(loc.name))
    return


def prove_generic(seg, i, facts, goal):
    """goal holds in an arbitrary iteration"""
    e = eng()
    with e.scope():
        seg.space.use(i)
        e.s.add(seg.inr(i))
        for f in facts:
            e.s.add(f)
        e.s.add(z3.Not(goal))
        e.s.set("timeout", 5000)
        try:
            return e.check() == z3.unsat
        finally:
            e.s.set("timeout", e.FEAS_MS)


def summarise_scalar(loc, h, pre, posts, seg, i, cond, T, at, born, facts_at, hvt, rng):
    e = eng()
    if all(same_val(v, h) for _, v in posts):
        return ("value", pre)
    changed = [(p, v) for p, v in posts if not same_val(v, h)]
    if isinstance(h, Poisoned) or not isinstance(h, SymBase):
        return last_value(loc, h, pre, posts, changed, seg, i, cond, T, at, born, facts_at, hvt, rng)
    if not all(is_num(v) for _, v in changed):
        return ("poison",)
    post = merge([(cond(p), v) for p, v in posts], born)
    F = facts_at(i)
    if isinstance(h, SymBool) and not isinstance(post, SymNum):
        # flag: v' = v or p / v' = v and p
        pt = boo(post)
        up = z3.substitute(pt, (h.t, z3.BoolVal(False)))
        dn = z3.substitute(pt, (h.t, z3.BoolVal(True)))
        if not mentions(up, hvt) and prove_generic(seg, i, F, pt == z3.Or(h.t, up)):
            some = any_(SymList([Seg(seg.space, lambda t: z3.And(boo(seg.guard(t)), rng(t)), lambda t: wrap(T(up, t)),
                                     facts_at)]))
            return ("value", True if some else pre)
        if not mentions(dn, hvt) and prove_generic(seg, i, F, pt == z3.And(h.t, dn)):
            some = any_(SymList([Seg(seg.space, lambda t: z3.And(boo(seg.guard(t)), rng(t)), lambda t: wrap(T(dn, t)),
                                     facts_at)]), want=False)
            return ("value", False if some else pre)
        return last_value(loc, h, pre, posts, changed, seg, i, cond, T, at, born, facts_at, hvt, rng)
    pt, ht = tolr(num(post), num(h))
    F = F + [z3.Or(*[cond(p) for p, _ in posts])]       # none of the iterations that leave the loop
    # a decision that mentions the carried value is not part of the guard
    g = z3.Or(*[z3.And(*[d for d in p.dec if not mentions(d, hvt)]) if p.dec else z3.BoolVal(True)
                for p, _ in changed])
    vals = [(z3.And(*[d for d in p.dec if not mentions(d, hvt)]), num(v)) for p, v in changed]
    pure = [(c, v) for c, v in vals if not mentions(v, hvt)]
    if not mentions(pt, hvt) or all(not mentions(num(v), hvt) for _, v in changed):
        # candidates for extremum: the assigned values
        if pure:
            acc = pure[-1][1]
            for c, v in reversed(pure[:-1]):
                a, b = tolr(v, acc)
                acc = z3.If(c, a, b)
            r = try_extremum(acc, g, pt, ht, pre, seg, i, F, T, facts_at, hvt, rng, loc)
            if r is not None:
                return r
    # v' = If(c, max(v, e), v) written with max(): find e as the other operand
    for cand in subterms(pt):
        if z3.is_arith(cand) and not mentions(cand, hvt) and not z3.is_rational_value(cand) \
                and not z3.is_int_value(cand):
            for guard in ([g] if not z3.is_true(z3.simplify(g)) else [z3.BoolVal(True)]):
                r = try_extremum(cand, guard, pt, ht, pre, seg, i, F, T, facts_at, hvt, rng, loc)
                if r is not None:
                    return r
    # sum: v' = v + e
    d = z3.simplify(pt - ht)
    if not mentions(d, hvt):
        if z3.is_int_value(d) or z3.is_rational_value(d):
            if seg.unguarded() and rng(z3.IntVal(0)) is not None and z3.is_true(rng(z3.IntVal(0))):
                n = wrap(seg.space.n)
                return ("value", wrap(num(pre) + d * num(n)) if z3.is_int_value(d) else wrap(real(num(pre)) + d * real(num(n))))
        s = e.fresh("sum", pt.sort())
        return ("value", wrap(s))     # its value is not constrained
    return last_value(loc, h, pre, posts, changed, seg, i, cond, T, at, born, facts_at, hvt, rng)


def subterms(t):
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        todo.extend(x.children())
    return out[:200]


def try_extremum(ex, g, pt, ht, pre, seg, i, F, T, facts_at, hvt, rng, loc):
    if mentions(ex, hvt) or mentions(g, hvt):
        return None
    a, b = tolr(ex, ht)
    p2, _ = tolr(pt, a)
    h2 = tolr(ht, a)[0]
    for sense, better in (("max", a > h2), ("min", a < h2)):
        goal = p2 == z3.If(z3.And(g, better), a, h2)
        # a value that is only ever raised (lowered) is never below (above) its first one
        since = []
        if is_num(pre):
            x, y = tolr(ht, num(pre))
            since = [x >= y if sense == "max" else x <= y]
        if prove_generic(seg, i, F, goal) or since and prove_generic(seg, i, F + since, goal):
            s2 = Seg(seg.space, lambda t: z3.And(boo(seg.guard(t)), rng(t), T(g, t)), lambda t: wrap(T(ex, t)), facts_at)
            R_ = extremum([(s2, lambda t: s2.value(t))], sense, [(True, pre)], loc.name or "v")
            return ("value", R_)
    return None


def last_value(loc, h, pre, posts, changed, seg, i, cond, T, at, born, facts_at, hvt, rng):
    """v' is set from the element alone: the value of the last iteration that sets it"""
    e = eng()
    hid = [h] if isinstance(h, Poisoned) else []
    for p, v in changed:
        if isinstance(v, SymBase) and mentions(v.t, hvt):
            return ("poison",)
        if isinstance(v, (SymList, dict)) or isinstance(v, Poisoned):
            return ("poison",)
    if any(mentions(d, hvt) for p, _ in changed for d in p.dec):
        return ("poison",)
    try:
        val = merge([(cond(p), v) for p, v in changed], born)
    except Unsupported:
        return ("poison",)
    g = z3.Or(*[cond(p) for p, _ in changed])
    s2 = Seg(seg.space, lambda t: z3.And(boo(seg.guard(t)), rng(t), T(g, t)), lambda t: subst(val, at(t), born), facts_at)
    # decided when it is used: split here
    w = seg.space.quiet("last")
    if e.decide([None, None]) == 0:
        seg.space.use(w)
        e.assume(s2.inr(w))
        e.forall(seg.space, lambda t: z3.Implies(t > w, z3.Not(boo(s2.guard(t)))), "last")
        return ("value", s2.value(w))
    e.forall(seg.space, lambda t: z3.Not(boo(s2.guard(t))), "none")
    if s2.unguarded():
        e.assume(seg.space.n <= 0)
    else:
        seg.space.use(z3.IntVal(0))
    e.check_feasible()
    return ("value", pre)


def summarise_list(loc, seg, paths, cond, T, at, born, facts_at, hvt, rng):
    e = eng()
    counts = {len(p.appends.get(loc.key, ())) for p in paths}
    if counts == {0}:
        return None
    if max(counts) > 1:
        if len(counts) > 1:
            raise Unsupported("a loop appends several elements at a time")
    kinds = {a[0] for p in paths for a in p.appends.get(loc.key, ())}
    if len(kinds) > 1:
        raise Unsupported("a loop builds a list in several ways")
    adders = [p for p in paths if p.appends.get(loc.key)]
    for p in adders:
        if any(mentions(d, hvt) for d in p.dec) and len(paths) > 1:
            if len(adders) != len(paths):
                raise Unsupported("what a loop appends depends on earlier iterations")
    m = max(counts)
    parts = []
    for q in range(m):
        val = merge([(cond(p), p.appends[loc.key][q][1]) for p in adders], born)
        check_closed(val, hvt, born)
        check_free(subst(val, at(z3.Int("elsewhere!")), born), p_index(at), 0)
        parts.append(val)
    if len(adders) == len(paths):
        g = z3.BoolVal(True)
    else:
        g = z3.Or(*[cond(p) for p in adders])
    if m > 1:
        raise Unsupported("a loop appends several elements at a time")
    val = parts[0]

    def value(t):
        return subst(val, at(t), born)
    if all(p.appends[loc.key][0][1] is p.elem and is_view(p.elem) for p in adders):
        # the elements themselves, all or some of them
        if z3.is_true(g) and z3.is_true(rng(z3.Int("elsewhere!"))):
            s2 = seg
        else:
            s2 = Seg(seg.space, lambda t: z3.And(boo(seg.guard(t)), rng(t), T(g, t)), seg.value_, facts_at)
            s2.lin = seg.lin
    else:
        s2 = Seg(seg.space, lambda t: z3.And(boo(seg.guard(t)), rng(t), T(g, t)), value, facts_at)
        if z3.is_true(g) and z3.is_true(rng(z3.Int("elsewhere!"))):
            s2.kin = seg.kin
    if kinds == {"append"}:
        return list(loc.obj.segs) + [s2]
    # insertion by bisect: the result is sorted and is a permutation of old and new elements
    ins = adders[0].appends[loc.key][0][2]
    return insort_all(loc.obj, s2, ins)


def p_index(at):
    return [at(z3.Int("elsewhere!"))[0][0]]


def check_free(v, consts, depth):
    """no value of one iteration is left in the value of another"""
    if isinstance(v, SymBase):
        if mentions(v.t, consts):
            raise Unsupported("an element that depends on another iteration")
    elif is_view(v):
        if mentions(v._pv_ref, consts):
            raise Unsupported("an element that depends on another iteration")
    elif isinstance(v, (tuple, list)) and not isinstance(v, SymList):
        for x in v:
            check_free(x, consts, depth + 1)
    elif depth < 4 and type(v).__module__.startswith("neural_graph_composer") and not isinstance(v, type):
        for x in attrs(v).values():
            check_free(x, consts, depth + 1)


def check_closed(v, hvt, born, depth=0):
    if isinstance(v, Poisoned):
        raise Unsupported("a loop appends a value carried from an earlier iteration")
    if isinstance(v, SymBase):
        if mentions(v.t, hvt):
            raise Unsupported("a loop appends a value that depends on earlier iterations")
    elif is_view(v):
        if mentions(v._pv_ref, hvt):
            raise Unsupported("a loop appends a value that depends on earlier iterations")
    elif isinstance(v, tuple):
        for x in v:
            check_closed(x, hvt, born, depth + 1)
    elif id(v) in born and depth < 6:
        for x in attrs(v).values():
            check_closed(x, hvt, born, depth + 1)


def summarise_heap(seg, i, paths, cond, T, at, hvt, rng, facts_at):
    e = eng()
    keys = {}
    for p in paths:
        for k, ws in p.heap:
            keys.setdefault(k, {})[id(p)] = ws
    for k, per in keys.items():
        ref = None
        for ws in per.values():
            for w in ws:
                if w[0] != "pt":
                    raise Unsupported("a nested loop updates elements")
                r = z3.simplify(w[1])
                if ref is None:
                    ref = r
                elif not ref.eq(r):
                    raise Unsupported("a loop updates several objects")
        if not ref_of_index(ref, i):
            raise Unsupported("a loop updates an object other than its element")
        idx = ref_of_index(ref, i)
        sort = per[next(iter(per))][0][2].sort()
        cvs = []
        for p in paths:
            ws = per.get(id(p))
            if ws:
                v = ws[-1][2]
                if mentions(v, hvt) or any(mentions(d, hvt) for d in p.dec):
                    raise Unsupported("an element is updated with a value of an earlier iteration")
                cvs.append((cond(p), v))

        any_set = z3.Or(*[c for c, _ in cvs])
        val = cvs[-1][1]
        for c, v in reversed(cvs[:-1]):
            a, b = (v, val) if z3.is_bool(v) else tolr(v, val)
            val = z3.If(c, a, b)
        inv = idx                       # index of a reference

        def member(r, seg=seg, inv=inv, any_set=any_set, ref=ref):
            t = inv(r)
            return z3.And(seg.space.inside(t), boo(seg.guard(t)), rng(t), z3.substitute(ref, (i, t)) == r, T(any_set, t))

        def value(r, inv=inv, val=val):
            return T(val, inv(r))
        e.heap.layers.setdefault(k, []).append(("set", member, value))
        e.heap.log.append(k)


def ref_of_index(ref, i):
    """the inverse function when ref is the reference of element i of a list of distinct objects"""
    if z3.is_app(ref) and ref.num_args() == 1 and ref.arg(0).eq(i):
        f = ref.decl()
        return eng().inverse.get(f.name())
    return None


# ------------------------------------------------------------ comprehension
def comp(kind, itx, cond, elt):
    itx = it(itx)
    seq = seglist(itx)
    if seq is None:
        def g():
            for x in itx:
                if cond is None or cond(x):
                    yield elt(x)
        if kind == "gen":
            return g()
        if kind == "list":
            return VList(list(g()))
        if kind == "set":
            return mkset(tuple(g()))
        return mkdict_pairs(list(g()))
    if kind == "dict" and getattr(itx, "entries_of", None) is not None:
        return filtered(itx.entries_of, cond, elt)
    if kind in ("set", "dict"):
        raise Unsupported("%s built from a symbolic sequence" % kind)
    out = SymList([])
    if eng().recorder is not None and cond is None:
        out.segs = lists.map_segs(seq.segs, elt)
        return out if kind == "list" else GenIter(out)

    def body(x):
        if cond is None or cond(x):
            out.append(elt(x))
    body.of_comp = True
    r = loop_over(seq, body)
    return out if kind == "list" else GenIter(out)


class FilteredBase:
    """the entries of another dictionary for which a condition holds, with other values"""

    def __init__(self, base, keep, value):
        self.base, self.keep, self.value = base, keep, value
        self.order = None

    def at(self, k):
        c, i = self.base.at(k)
        return wrap(z3.And(boo(c), boo(self.keep(i)))), i

    def in_order(self):
        s = self.base.in_order()
        at = lambda t: self.base.at(s.value(t))[1]
        r = Seg(s.space, lambda t: z3.And(boo(s.guard(t)), boo(self.keep(at(t)))), s.value_, s.facts)
        return r

    @property
    def n(self):
        raise Unsupported("the number of entries kept")


def filtered(d, cond, elt):
    """{key: f(value) for key, value in d.items() if ...}, the keys unchanged"""
    e = eng()
    b = d._base
    if d._log:
        raise Unsupported("a dictionary comprehension of a changed symbolic dictionary")
    entry = lambda i: (b.key(i), b.value(i))
    keep = (lambda i: True) if cond is None else lambda i: truth(cond(entry(i)))
    with e.scope():
        i = b.space.generic("entry")
        e.add(b.space.inside(i))
        k = elt(entry(i))[0]
        if not z3.is_true(z3.simplify(boo(lists.deep_eq(k, b.key(i))))):
            raise Unsupported("a dictionary with other keys made of a symbolic dictionary")
    r = VDict()
    r._base = FilteredBase(b, keep, lambda i: elt(entry(i))[1])
    return r


def truth(x):
    if isinstance(x, (bool, SymBool)):
        return x
    raise Unsupported("a condition that is not a truth value")


def comp_of(l, f):
    return comp("list", l, None, f)


def loop_over(seq, body):
    # comprehension bodies share no cells with the function except through closures of lambdas
    return loop(seq, body)


def flatten(l):
    out = []
    if isinstance(l, GenIter):
        l = l.l
    c = l.conc()
    if c is None:
        raise Unsupported("nested comprehension over a symbolic sequence")
    for x in c:
        out.extend(as_segs(x))
    return SymList(out)


# ------------------------------------------------- positions in a composite
class Lin:
    """A one-to-one correspondence between the elements of segments and the
    indices 0..n-1 (an arbitrary one, or the one in order)."""

    def __init__(self, segs, name, ordered):
        e = eng()
        self.segs = segs
        k = len(segs)
        if ordered and k == 1 and not isinstance(segs[0], Elem) and segs[0].unguarded():
            self.space = segs[0].space
            self.n = self.space.n
            self.identity = True
            return
        self.identity = False
        simple = all(isinstance(s, Elem) or s.unguarded() for s in segs)
        if simple:
            tot = z3.IntVal(0)
            for s in segs:
                tot = tot + (1 if isinstance(s, Elem) else s.space.n)
            self.n = z3.simplify(tot)
        else:
            self.n = e.fresh("len_" + name, z3.IntSort())
            e.fact(self.n >= 0)
        u = e.fresh_n = e.fresh_n + 1
        I = z3.IntSort()
        self.which = z3.Function("which_%s!%d" % (name, u), I, I)
        self.idx = z3.Function("idx_%s!%d" % (name, u), I, I)
        self.pos = [z3.Function("pos%d_%s!%d" % (q, name, u), I, I) for q in range(k)]
        self.space = Space(self.n, name)
        self.space.lin = self           # which elements its positions stand for
        sp = self.space
        for p in self.pos:
            e.cancel |= {(p.get_id(), self.idx.get_id()), (self.idx.get_id(), p.get_id())}
        e.keep.append(self)

        def fwd(j):
            alts = []
            for q, s in enumerate(segs):
                if isinstance(s, Elem):
                    alts.append(z3.And(self.which(j) == q, self.pos[q](z3.IntVal(0)) == j))
                else:
                    t = self.idx(j)
                    s.space.use(t)
                    alts.append(z3.And(self.which(j) == q, s.inr(t), self.pos[q](t) == j))
            return z3.Or(*alts) if alts else z3.BoolVal(False)
        self.fwd = fwd
        for q, s in enumerate(segs):
            if isinstance(s, Elem):
                p = self.pos[q](z3.IntVal(0))
                sp.use(p)
                e.fact(z3.And(p >= 0, p < self.n, self.which(p) == q))
            else:
                def back(i, q=q, s=s):
                    p = self.pos[q](i)
                    sp.use(p)
                    return z3.Implies(boo(s.guard(i)), z3.And(p >= 0, p < self.n, self.which(p) == q, self.idx(p) == i))
                e.forall(s.space, back, "position")
        e.forall(sp, fwd, "element")
        if ordered:
            for q, s in enumerate(segs):
                for q2, s2 in enumerate(segs):
                    if q < q2:
                        pass
            e.forall2(sp, lambda a, b: z3.Implies(a < b, z3.Or(self.which(a) < self.which(b), z3.And(
                self.which(a) == self.which(b), self.idx(a) < self.idx(b)))), "order")

    def value(self, j):
        if self.identity:
            return self.segs[0].value(j)
        cvs = []
        for q, s in enumerate(self.segs):
            v = s.v if isinstance(s, Elem) else s.value(self.idx(j))
            cvs.append((wrap(self.which(j) == q), v))
        if len(cvs) == 1:
            return cvs[0][1]
        return merge(cvs, {})

    def seg(self):
        if self.identity:
            return self.segs[0]
        s = Seg(self.space, lists.always, self.value, lambda j: [self.fwd(j)])
        s.perm_of, s.lin = self.segs, self
        return s


def sorted_(x, key=None, reverse=False):
    segs = as_segs(seglist(x) or x)
    e = eng()
    if reverse:
        raise Unsupported("reverse sorting of a symbolic sequence")
    e.trust("sorted/list.sort: a stable permutation in which no element is less than an earlier one")
    lin = Lin(segs, "sorted", False)
    f = key or (lambda v: v)

    def ordered(a, b):
        ka, kb = f(lin.value(a)), f(lin.value(b))
        c = lt_value(kb, ka)
        later = z3.Or(lin.which(a) < lin.which(b), z3.And(lin.which(a) == lin.which(b), lin.idx(a) < lin.idx(b)))
        return z3.Implies(a < b, z3.And(z3.Not(boo(c)), z3.Implies(z3.Not(boo(lt_value(ka, kb))), later)))
    e.forall2(lin.space, ordered, "sorted")
    return SymList([lin.seg()])


def lt_value(a, b):
    """a < b as a truth value, without splitting the path"""
    if isinstance(a, SymBase) or isinstance(b, SymBase):
        return a < b
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            raise Unsupported("order of tuples")
        acc = False
        for x, y in reversed(list(zip(a, b))):
            acc = Or(lt_value(x, y), And(eq(x, y), acc))
        return acc
    if is_num(a) and is_num(b) or isinstance(a, str):
        return a < b
    f = getattr(type(a), "__lt__", None)
    if hasattr(f, "__pv_contract__") and isinstance(b, f.__pv_contract__):
        return f(a, b)
    return pure_bool(lambda: a < b)


def pure_bool(fn):
    """the truth value of an expression that may split paths, as one formula"""
    e = eng()
    res = e.subexplore(lambda: boo(fn()))
    out = z3.BoolVal(False)
    for dec, facts, fresh, r in res:
        if fresh:
            raise Unsupported("an unspecified value in a condition")
        out = z3.Or(out, z3.And(*(dec + [r])))
        for f in facts:
            e.fact(z3.Implies(z3.And(*dec), f) if dec else f)
    return wrap(z3.simplify(out))


def linear(l):
    """the elements of a symbolic list as one segment over its positions"""
    segs = as_segs(l)
    if len(segs) == 1 and not isinstance(segs[0], Elem) and segs[0].unguarded():
        return segs[0]
    if not segs:
        return Seg(Space(z3.IntVal(0), "none"), lists.always, lambda i: None)
    e = eng()
    k = tuple(id(s) for s in segs)
    r = e.lins.get(k)
    if r is None:
        r = e.lins[k] = (Lin(segs, "pos", True).seg(), list(segs))
    return r[0]


def bisect_(lst, x, side, key=None, lo=0, hi=None):
    """insertion point in a list that is in order (an obligation of the caller)"""
    bounds = not (type(lo) is int and lo == 0) or hi is not None
    if isinstance(lst, SymList) and lst.poison is not None:
        if bounds:
            raise Unsupported("bisect with bounds in a list of unknown content")
        e = eng()
        p = e.fresh("at", z3.IntSort())
        e.fact(p >= 0)
        r = lists.InsPoint(lst, [], [], wrap(p))
        r.side, r.key = side, key
        return r
    l = lst.conc() if isinstance(lst, SymList) else list(lst) if islist(lst) else None
    if l is None and not isinstance(lst, SymList):
        raise Unsupported("bisect in %s" % type(lst).__name__)
    kf = key or (lambda v: v)
    if l is not None:
        # the algorithm of the library, on a list of known length
        a, b = (lo, len(l) if hi is None else hi) if bounds else (0, len(l))
        if type(a) is not int or type(b) is not int or a < 0 or b > len(l):
            raise Unsupported("bisect with these bounds")
        while a < b:
            m = (a + b) // 2
            if side == "left":
                c = kf(l[m]) < x
            else:
                c = Not_(x < kf(l[m]))
            if c:
                a = m + 1
            else:
                b = m
        return a
    e = eng()
    e.trust("bisect: on a list in order, the insertion point that splits it by the order")
    segs = list(lst.segs)
    whole = linear(lst)

    def before(v):
        return boo(lt_value(kf(v), x)) if side == "left" else z3.Not(boo(lt_value(x, kf(v))))
    # precondition: the elements before come first
    sp = whole.space
    first, last = z3.IntVal(0), sp.n
    if bounds:
        if type(lo) is not int and not isinstance(lo, SymInt) or \
                hi is not None and type(hi) is not int and not isinstance(hi, SymInt):
            raise Unsupported("bisect with these bounds")
        first = lo.t if isinstance(lo, SymInt) else z3.IntVal(lo)
        last = sp.n if hi is None else hi.t if isinstance(hi, SymInt) else z3.IntVal(hi)
        if not e.branch(z3.And(first >= 0, first <= last, last <= sp.n)):
            raise Unsupported("bisect with bounds outside the list")
    a, b = sp.generic("a"), sp.generic("b")
    e.ensure("a list searched by bisect is in order",
             z3.Implies(z3.And(whole.inr(a), whole.inr(b), first <= a, a < b, b < last, before(whole.value(b))),
                        before(whole.value(a))))
    p = e.fresh("at", z3.IntSort())
    sp.use(z3.simplify(p - 1))
    sp.use(p)
    e.fact(z3.And(p >= first, p <= last))
    e.forall(sp, lambda i: z3.And(z3.Implies(z3.And(first <= i, i < p), before(whole.value(i))),
                                  z3.Implies(z3.And(i >= p, i < last), z3.Not(before(whole.value(i))))), "bisect")
    left = Seg(sp, lambda i: i < p, whole.value_, whole.facts)
    right = Seg(sp, lambda i: i >= p, whole.value_, whole.facts)
    return InsPoint(lst, [left], [right], wrap(p))


def Not_(c):
    return Not(c) if isinstance(c, SymBool) else not c


def insort_(lst, x, side, key=None):
    k = bisect_(lst, key(x) if key else x, side, key=key)
    lst.insert(k, x)


def insort_all(lst, seg, ins):
    """a loop that inserts every element at its place: by induction the list stays
    in order, provided it was and the order is a strict weak order"""
    e = eng()
    if ins.key is not None:
        raise Unsupported("a loop inserts by bisect with a key")
    old = list(lst.segs)
    segs = old + [seg]
    less = lambda a, b: boo(lt_value(a, b))

    def one(nm):
        cvs = []
        for q, s in enumerate(segs):
            if isinstance(s, Elem):
                cvs.append((TRUE, s.v))
            else:
                t = s.space.generic(nm)
                cvs.append((s.inr(t), s.value(t)))
        return cvs
    for (ca, a) in one("a"):
        for (cb, b) in one("b"):
            for (cc, c) in one("c"):
                e.ensure("the order of the elements inserted by bisect is a strict weak order", z3.Implies(
                    z3.And(ca, cb, cc), z3.And(z3.Not(z3.And(less(a, b), less(b, a))),
                                               z3.Implies(less(a, c), z3.Or(less(a, b), less(b, c))))))
    if old:
        was = linear(lst)
        a, b = was.space.generic("a"), was.space.generic("b")
        e.ensure("a list searched by bisect is in order", z3.Implies(z3.And(was.inr(a), was.inr(b), a < b),
                                                                     z3.Not(less(was.value(b), was.value(a)))))
    e.trust("bisect: on a list in order, the insertion point that splits it by the order")
    lin = Lin(segs, "inserted", False)
    right = ins.side == "right"

    def ordered(a, b):
        va, vb = lin.value(a), lin.value(b)
        if right:
            later = z3.Or(lin.which(a) < lin.which(b), z3.And(lin.which(a) == lin.which(b), lin.idx(a) < lin.idx(b)))
        else:
            new = len(old)
            later = z3.Or(lin.which(a) > lin.which(b), z3.And(lin.which(a) == lin.which(b), z3.If(
                lin.which(a) == new, lin.idx(a) > lin.idx(b), lin.idx(a) < lin.idx(b))))
            if len(old) > 1:
                later = z3.Or(later, z3.And(lin.which(a) < new, lin.which(b) < new))
        return z3.Implies(a < b, z3.And(z3.Not(less(vb, va)), z3.Implies(z3.Not(less(va, vb)), later)))
    e.forall2(lin.space, ordered, "inserted")
    return [lin.seg()]


# ---------------------------------------------------------- dictionaries, sets
def concrete_key(k):
    if isinstance(k, (SymBase, lists.Tok)):
        return False
    if isinstance(k, tuple):
        return all(concrete_key(x) for x in k)
    if isinstance(k, VSet):
        return False
    if is_view(k):
        return False
    return True


def key_eq(a, b):
    if a is b:
        return True
    if concrete_key(a) and concrete_key(b):
        return a == b
    return bool(lists.deep_eq(a, b))


def shown(v, c, spec):
    """a value as text; its own __str__ or __repr__ may give a symbolic text"""
    f = None if type(v).__format__ is not object.__format__ else getattr(type(v), "__repr__" if c == 114 else "__str__")
    if isinstance(f, types.FunctionType) and not spec:
        try:
            r = f(v)
        except Unsupported:
            eng().trust("str and repr of an object: some text, no effect")
            return lists.Tok("text of an object", (id(v), c), False)
        if isinstance(r, lists.Tok):
            return r
        if not isinstance(r, str):
            raise TypeError("__str__ returned non-string")
        return r
    v = {114: repr, 115: str, 97: ascii}.get(c, lambda x: x)(v)
    return format(v, spec)


def fstring(*parts):
    """a formatted text; symbolic when a value in it is"""
    if not any(isinstance(p, tuple) and (isinstance(p[0], (SymBase, lists.Tok)) or lists.is_view(p[0])) for p in parts):
        out = []
        for p in parts:
            if isinstance(p, tuple):
                out.append(shown(*p))
            else:
                out.append(p)
        if not any(isinstance(p, lists.Tok) for p in out):
            return "".join(out)
        return lists.Text([q for p in out for q in (p.args if isinstance(p, lists.Text) else [p])])
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, c, spec = p
            if isinstance(v, lists.Text) and c in (-1, 115) and not spec:
                out.extend(v.args)
            elif isinstance(v, lists.Tok) and c in (-1, 115) and not spec:
                out.append(v)
            elif isinstance(v, SymBase) and not spec:
                out.append(v)
            elif isinstance(v, (SymBase, lists.Tok)):
                out.append(lists.Tok("format", (v, c, spec), False))
            elif lists.is_view(v):
                eng().trust("str and repr of an object: some text, no effect")
                out.append(lists.Tok("format", (wrap(v._pv_ref), c, spec), False))
            else:
                v = {114: repr, 115: str, 97: ascii}.get(c, lambda x: x)(v)
                out.append(format(v, spec))
        else:
            out.append(p)
    return lists.Text(out)


ABSENT = object()


class NumKey:
    """numbers of one sort as keys"""

    def __init__(self, sort):
        self.sort, self.sorts = sort, [sort]

    def parts(self, k):
        """(the key as terms, when it is of this kind)"""
        if not is_num(k):
            return None
        t = num(k)
        if self.sort == z3.RealSort() and z3.is_int(t):
            t = z3.ToReal(t)
        if self.sort == z3.IntSort() and not z3.is_int(t):
            t = z3.ToInt(t)
        return [z3.simplify(t)]

    def make(self, t):
        return wrap(t)

    def exact(self, k, ts):
        return num(k) == ts[0]


class Base:
    """entries a dictionary has: distinct keys key(0)..key(n-1), in any order"""
    flat = False        # its values cannot be changed

    def __init__(self, name, n, kind, value, facts=None):
        e = eng()
        self.name, self.n = name, n
        self.space = Space(n, name)
        self.kind = kind = kind if hasattr(kind, "parts") else NumKey(kind)
        many = len(kind.sorts) > 1
        self.keys = [z3.Function("key%s_%s" % (j if many else "", name), z3.IntSort(), s) for j, s in enumerate(kind.sorts)]
        self.inv = z3.Function("at_" + name, *kind.sorts, z3.IntSort())
        self.value_, self.order = value, None
        if not many:
            e.cancel |= {(self.inv.get_id(), self.keys[0].get_id())}
        e.keep.append(self)

        def about(i):
            f = [z3.Implies(self.space.inside(i), self.inv(*[q(i) for q in self.keys]) == i)]
            if facts is not None:
                f += [z3.Implies(self.space.inside(i), boo(c)) for c in facts(self.key(i), i)]
            return f
        self.about = about
        self.seg = Seg(self.space, lists.always, self.key, about)

    def key(self, i):
        return self.kind.make(*[q(i) for q in self.keys])

    def at(self, k):
        """(there is such a key, its index)"""
        ts = self.kind.parts(k)
        if ts is None:
            return False, z3.IntVal(-1)
        i = lists.cancelled(self.inv(*ts))
        if len(ts) > 1 and all(t.num_args() == 1 and t.decl().eq(q) and t.arg(0).eq(ts[0].arg(0)) for t, q in zip(ts, self.keys)):
            i = ts[0].arg(0)
        self.space.use(i)
        e = eng()
        for f in self.about(i):
            e.fact(f)
        return wrap(z3.And(self.space.inside(i), *[q(i) == t for q, t in zip(self.keys, ts)], self.kind.exact(k, ts))), i

    def value(self, i):
        return self.value_(i)

    def in_order(self):
        """the keys in the order in which they were added: any order"""
        if self.order is None:
            self.order = Lin([self.seg], "ins_" + self.name, False).seg()
        return self.order


class RangeBase(Base):
    """entries with the keys 0..n-1"""

    def __init__(self, name, n, value):
        self.name, self.n = name, n
        self.space = Space(n, name)
        self.value_, self.order = value, None
        self.seg = Seg(self.space, lists.always, wrap, None)

    def at(self, k):
        if not is_num(k):
            return False, z3.IntVal(-1)
        t = z3.simplify(num(k))
        i = t if z3.is_int(t) else z3.ToInt(t)
        self.space.use(i)
        return wrap(z3.And(self.space.inside(i), num(k) == i)), i


def same_term(a, b):
    """the same key, by its form"""
    if a is b:
        return True
    if isinstance(a, lists.Tok) and isinstance(b, lists.Tok):
        return a.name == b.name and len(a.args) == len(b.args) and all(map(same_term, a.args, b.args))
    if is_num(a) and is_num(b):
        return z3.simplify(num(a)).eq(z3.simplify(num(b)))
    if isinstance(a, SymSet) and isinstance(b, SymSet):
        return a.ident.eq(b.ident)
    return isinstance(a, str) and a == b


def return_loan(l):
    e = eng()
    l[2].loan = None
    e.loans = tuple(x for x in e.loans if x is not l)


def settle(v):
    """a value read from a symbolic dictionary is about to be changed"""
    d, k = v.loan
    e = eng()
    for l in e.loans:
        if l[2] is v:
            return_loan(l)
        elif l[0] is d and l[2].loan is not None and key_eq(l[1], k):
            raise Unsupported("a value of a symbolic dictionary with two names is changed")
    v.loan = None
    R.note_dict(d)
    d._log = tuple(d._log) + ((k, v),)


class VDict:
    """dict with known entries and possibly symbolic keys; with _base, on top of any
    number of entries"""
    __pv_dict__ = True
    _base = None
    _log = ()       # (key, value or ABSENT) in the order of the changes

    def __init__(self, *a, **k):
        self._ks, self._vs = [], []
        R.stamp(self)
        self._fill(*a, **k)

    def _fill(self, *a, **k):
        if a:
            src = a[0]
            if isinstance(src, (VDict, dict)):
                if isinstance(src, VDict) and src._base is not None and type(src) is type(self) is VDict and src._base.flat \
                        and not self._ks and self._base is None:
                    R.note_dict(self)
                    self._base, self._log = src._base, src._log
                elif isinstance(src, VDict) and (symbolic(src) or src._base is not None):
                    if type(self).__setitem__ is VDict.__setitem__:
                        raise Unsupported("dictionary from a symbolic dictionary")

                    def copied(q):
                        self[q] = src[q]
                    loop(_iter(src), copied)
                else:
                    for q in src.keys():
                        self[q] = src[q]
            elif hasattr(src, "keys"):
                for q in src.keys():
                    self[q] = src[q]
            else:
                if not symbolic(src):
                    for q, v in it_list(src):
                        self[q] = v
                elif type(self).__setitem__ is not VDict.__setitem__:
                    # as the C implementation does, through the method of the class
                    def added(p):
                        q, v = p
                        self[q] = v
                    loop(src, added)
                elif type(self) is VDict and eng().dict_of is not None and not self._ks and self._base is None:
                    R.note_dict(self)
                    self._base = eng().dict_of(src)
                else:
                    raise Unsupported("dictionary from a symbolic sequence")
        for q, v in k.items():
            self[q] = v

    def _snap(self):
        return (list(self._ks), list(self._vs), self._base, self._log)

    def _restore(self, s):
        self._ks, self._vs, self._base, self._log = list(s[0]), list(s[1]), s[2], s[3]

    def _hashable(self, k):
        if (isinstance(k, (SymList, VDict, list, dict)) and not isinstance(k, lists.SymTuple)) or \
                (isinstance(k, VSet) and not k.frozen):
            raise TypeError("unhashable type")

    def _find(self, k):
        self._hashable(k)
        if self._base is not None:
            raise Unsupported("this use of a symbolic dictionary")
        for i, q in enumerate(self._ks):
            if key_eq(q, k):
                return i
        return -1

    def _value(self, k, borrow=False):
        """the value of a key, or ABSENT; a borrowed one is only looked at"""
        self._hashable(k)
        if self._base is None:
            i = self._find(k)
            return ABSENT if i < 0 else self._vs[i]
        for q, v in reversed(self._log):
            if key_eq(q, k):
                return v
        c, i = self._base.at(k)
        if not eng().branch(boo(c)):
            return ABSENT
        e = eng()
        out = not borrow and e.recorder is None
        if out:
            for d, q, v in e.loans:
                if d is self and same_term(q, k):
                    return v
        v = self._base.value(i)
        if isinstance(v, (SymList, VDict)):
            if out:
                # it becomes part of the log when it is changed
                v.loan = (self, k)
                e.loans = e.loans + ((self, k, v),)
            else:
                v.borrowed = True
        return v

    def _put(self, k, v):
        if isinstance(v, (lists.Tok, SymBase)) and VDict._unchanged(self, k, v):
            return
        R.note_dict(self)
        if self._base is not None:
            for l in eng().loans:
                if l[0] is self and l[2].loan is not None and key_eq(l[1], k):
                    return_loan(l)
        if self._base is not None:
            self._log = tuple(self._log) + ((k, v),)
        elif v is ABSENT:
            i = self._find(k)
            del self._ks[i], self._vs[i]
        else:
            i = self._find(k)
            if i < 0:
                self._ks.append(k)
                self._vs.append(v)
            else:
                self._vs[i] = v

    def _unchanged(self, k, v):
        """an entry is set to the value it has"""
        if self._base is None:
            for q, w in zip(self._ks, self._vs):
                if same_term(q, k):
                    return w is v or isinstance(w, lists.Tok) and same_term(w, v)
        return False

    def has(self, k):
        """whether there is such a key, as one truth value (for statements)"""
        if self._base is None:
            return Or(*[lists.deep_eq(q, k) for q in self._ks]) if self._ks else False
        c, _ = self._base.at(k)
        for q, v in self._log:
            c = If(lists.deep_eq(q, k), v is not ABSENT, c)
        return c

    def _keys(self):
        """the keys in the order in which they were added"""
        if self._base is None:
            return list(self._ks)
        l = SymList([self._base.in_order()])
        before = []
        for k, v in self._log:
            # is it there at this point?
            there = None
            for q, x in reversed(before):
                if key_eq(q, k):
                    there = x is not ABSENT
                    break
            if there is None:
                there = eng().branch(boo(self._base.at(k)[0]))
            if v is ABSENT:
                if there:
                    l.remove(k)
            elif not there:
                l.append(k)
            before.append((k, v))
        return l

    def __getitem__(self, k):
        v = self._value(k)
        if v is ABSENT:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return v

    def __setitem__(self, k, v):
        self._hashable(k)
        self._put(k, v)

    def __delitem__(self, k):
        if VDict._value(self, k) is ABSENT:
            raise KeyError(k)
        self._put(k, ABSENT)

    def __contains__(self, k):
        return VDict._value(self, k) is not ABSENT

    def _count(self):
        if self._base is None:
            return len(self._ks)
        n, before = wrap(self._base.n), []
        for k, v in self._log:
            there = None
            for q, x in reversed(before):
                if key_eq(q, k):
                    there = x is not ABSENT
                    break
            if there is None:
                there = eng().branch(boo(self._base.at(k)[0]))
            n = n + (0 if v is not ABSENT and there else 1 if v is not ABSENT else -1 if there else 0)
            before.append((k, v))
        return n

    def __len__(self):
        n = self._count()
        if not isinstance(n, int):
            raise Unsupported("machine length of a symbolic dictionary")
        return n

    def __iter__(self):
        k = self._keys()
        return iter(list(k)) if self._base is None else GenIter(k)

    def __reversed__(self):
        return reversed(list(self._ks)) if self._base is None else _reversed(self._keys())

    def __bool__(self):
        n = _len(self)
        return bool(n > 0)

    def keys(self):
        return VList(self._keys())

    def _entries(self, f):
        """f(key, value) in the order of the keys, of a base nothing has been changed in"""
        s, b = self._base.in_order(), self._base

        def entry(t):
            k = s.value(t)
            v = b.value(b.at(k)[1])
            if isinstance(v, (SymList, VDict)):
                v.borrowed = True
            return f(k, v)
        return SymList([Seg(s.space, s.guard, entry, s.facts)])

    def values(self):
        if self._base is not None and not self._log:
            return self._entries(lambda k, v: v)
        if self._base is not None:
            return comp_of(self._keys(), lambda k: VDict._value(self, k, True))
        return VList(list(self._vs))

    def items(self):
        if self._base is not None:
            r = self._entries(lambda k, v: (k, v)) if not self._log else comp_of(self._keys(), lambda k: (k, VDict._value(self, k, True)))
            r.entries_of = self
            return r
        return VList(list(zip(self._ks, self._vs)))

    def get(self, k, d=None):
        v = VDict._value(self, k)
        return d if v is ABSENT else v

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def pop(self, k, *d):
        v = VDict._value(self, k)
        if v is ABSENT:
            if d:
                return d[0]
            raise KeyError(k)
        self._put(k, ABSENT)
        return v

    def popitem(self, last=True):
        if self._base is not None:
            raise Unsupported("popitem of a symbolic dictionary")
        if not self._ks:
            raise KeyError("dictionary is empty")
        R.note_dict(self)
        j = -1 if last else 0
        return (self._ks.pop(j), self._vs.pop(j))

    def update(self, *a, **k):
        self._fill(*a, **k)

    def clear(self):
        R.note_dict(self)
        self._ks, self._vs, self._base, self._log = [], [], None, ()

    def copy(self):
        if self._base is not None and type(self) is VDict and self._base.flat:
            d = VDict()
            d._base, d._log = self._base, self._log
            return d
        return self.__class__(self)

    def __copy__(self):
        return self.copy()

    def __eq__(self, o):
        if not isinstance(o, (VDict, dict)):
            return NotImplemented
        if isinstance(o, VDict) and (self._base is not None or o._base is not None):
            raise Unsupported("comparison of symbolic dictionaries")
        if len(self) != len(o):
            return False
        for k in VDict.__iter__(self):
            if k not in o or not bool(lists.deep_eq(self[k], o[k])):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __repr__(self):
        return "VDict(%d)" % len(self._ks)

    def __hash__(self):
        raise TypeError("unhashable type: 'dict'")

    @classmethod
    def fromkeys(cls, ks, v=None):
        d = cls()
        for k in ks:
            d[k] = v
        return d

    @classmethod
    def __class_getitem__(cls, x):
        return cls

    def __or__(self, o):
        d = VDict(self)
        d.update(o)
        return d


class VDefaultDict(VDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        super().__init__(*a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def copy(self):
        return VDefaultDict(self.default_factory, self)


class VOrderedDict(VDict):
    def move_to_end(self, k, last=True):
        v = VDict.pop(self, k)
        R.note_dict(self)
        if last:
            self._ks.append(k)
            self._vs.append(v)
        else:
            self._ks.insert(0, k)
            self._vs.insert(0, v)

    # the C implementation fills a new dictionary through the subclass' methods
    def pop(self, k, *d):
        v = VDict._value(self, k)
        if v is ABSENT:
            if d:
                return d[0]
            raise KeyError(k)
        type(self).__delitem__(self, k) if type(self) is not VOrderedDict else VDict.__delitem__(self, k)
        return v


def mkdict(pairs):
    return VDict(list(pairs))


def mkdict_pairs(pairs):
    return VDict(pairs)


class VSet:
    __pv_set__ = True

    def __init__(self, x=(), frozen=False):
        self.frozen = frozen
        self._ks = []
        R.stamp(self)
        for v in it_list(x):
            self._add(v)

    def _snap(self):
        return list(self._ks)

    def _restore(self, s):
        self._ks = list(s)

    def _has(self, v):
        return any(key_eq(q, v) for q in self._ks)

    def _add(self, v):
        if isinstance(v, (SymList, VDict, list, dict)):
            raise TypeError("unhashable type")
        if not self._has(v):
            R.note_dict(self)
            self._ks = self._ks + [v]

    def add(self, v):
        self._add(v)

    def update(self, *xs):
        for x in xs:
            for v in it_list(x):
                self._add(v)

    def discard(self, v):
        R.note_dict(self)
        self._ks = [q for q in self._ks if not key_eq(q, v)]

    def remove(self, v):
        if not self._has(v):
            raise KeyError(v)
        self.discard(v)

    def __contains__(self, v):
        return self._has(v)

    def __len__(self):
        return len(self._ks)

    def __iter__(self):
        return iter(list(self._ks))

    def __bool__(self):
        return bool(self._ks)

    def copy(self):
        return VSet(self._ks, self.frozen)

    def union(self, *o):
        s = VSet(self._ks, self.frozen)
        for x in o:
            for v in it_list(x):
                s._add(v)
        return s

    def __or__(self, o):
        return self.union(o)

    def __and__(self, o):
        return VSet([v for v in self._ks if v in o], self.frozen)

    intersection = __and__

    def __sub__(self, o):
        return VSet([v for v in self._ks if v not in o], self.frozen)

    difference = __sub__

    def issubset(self, o):
        return all(v in o for v in self._ks)

    __le__ = issubset

    def issuperset(self, o):
        return all(self._has(v) for v in o)

    __ge__ = issuperset

    def isdisjoint(self, o):
        return not any(v in o for v in self._ks)

    def __eq__(self, o):
        if not isinstance(o, (VSet, set, frozenset)):
            return NotImplemented
        return len(self._ks) == len(o) and all(self._has(v) for v in o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __pv_eq__(self, o):
        if not isinstance(o, (VSet, set, frozenset)):
            return False
        a, b = list(self._ks), list(o)
        # sets of distinct elements
        def sub(p, q):
            return And(*[Or(*[lists.deep_eq(x, y) for y in q]) for x in p])
        return And(sub(a, b), sub(b, a))

    def __hash__(self):
        if self.frozen and all(concrete_key(k) for k in self._ks):
            return hash(frozenset(self._ks))
        raise Unsupported("hash of a symbolic set")


class SymSet(VSet):
    """a set made of a symbolic sequence, as it is: its identity (equal for equal sets, only),
    and an enumeration of its elements in some order, each once"""

    def __init__(self, source, frozen, ident=None):
        e = eng()
        self.frozen, self.source, self.enum = frozen, source, None
        self.ident = e.fresh("set", z3.IntSort()) if ident is None else ident
        R.stamp(self)
        if ident is None:
            e.symsets[self.ident.get_id()] = self

    @property
    def _ks(self):
        raise Unsupported("this use of a symbolic set")

    def _snap(self):
        return None

    def _restore(self, s):
        pass

    def _add(self, v):
        raise Unsupported("a change to a symbolic set")

    discard = remove = _add

    def update(self, *a):
        self._add(None)

    def seg(self):
        """the elements, as one segment"""
        if self.enum is None:
            self.enum = self._enumerate()
        return self.enum

    def _enumerate(self):
        e = eng()
        if self.source is None:
            raise Unsupported("the elements of an unknown set")
        if e.recorder is not None:
            raise core.Lazy()
        self.number = k = "s%d" % len(e.keep)
        segs = as_segs(self.source)
        n = e.fresh("size", z3.IntSort())
        e.fact(n >= 0)
        if all(isinstance(g, Elem) or g.unguarded() for g in segs):
            e.fact(n <= z3.Sum([z3.IntVal(0)] + [z3.IntVal(1) if isinstance(g, Elem) else g.space.n for g in segs]))
        sort = None
        for g in segs:
            with e.scope():
                v = g.v if isinstance(g, Elem) else g.value(g.space.quiet("any"))
            if not is_num(v) or sort not in (None, num(v).sort()):
                raise Unsupported("a symbolic set of other things than numbers")
            sort = num(v).sort()
        sp = Space(n, "set_" + k)
        el = z3.Function("element_" + k, z3.IntSort(), sort)
        self.pos = pos = z3.Function("position_" + k, sort, z3.IntSort())
        frm = [z3.Function("from_%s_%d" % (k, j), z3.IntSort(), z3.IntSort()) for j in range(len(segs))]
        self.frm = frm

        def there(v):
            return z3.And(pos(v) >= 0, pos(v) < n, el(pos(v)) == v)
        for g in segs:
            if isinstance(g, Elem):
                e.fact(there(num(g.v)))
            else:
                e.forall(g.space, lambda i, g=g: z3.Implies(boo(g.guard(i)), there(num(g.value(i)))), "elements of a set")
                if g.kin is not None:
                    e.fact(n >= 1)

        def facts(j):
            alts = []
            for g, f in zip(segs, frm):
                if isinstance(g, Elem):
                    alts.append(num(g.v) == el(j))
                else:
                    g.space.use(f(j))
                    alts.append(z3.And(g.inr(f(j)), num(g.value(f(j))) == el(j)))
            return [pos(el(j)) == j, z3.Or(*alts) if alts else z3.BoolVal(False)]
        e.trust("sets: each element once, in some order")
        return Seg(sp, lists.always, lambda j: wrap(el(j)), facts)

    def _has(self, v):
        return bool(self.has(v))

    def has(self, v, quiet=False):
        """v is an element, as a truth value"""
        s = self.seg()
        t = num(v)
        j = self.pos(t)
        if quiet:
            return wrap(z3.And(s.space.inside(j), num(s.value_(j)) == t))
        s.space.use(j)
        return wrap(z3.And(s.space.inside(j), num(s.value(j)) == t))

    def __contains__(self, v):
        return self._has(v)

    def length(self):
        return wrap(self.seg().space.n)

    def __len__(self):
        raise Unsupported("machine length of a symbolic set")

    def __iter__(self):
        return GenIter(SymList([self.seg()]))

    def __bool__(self):
        return bool(self.length() > 0)

    def copy(self):
        return self

    def __pv_eq__(self, o):
        if isinstance(o, SymSet):
            return wrap(self.ident == o.ident)
        if isinstance(o, (VSet, set, frozenset)):
            raise Unsupported("a symbolic set compared with a known one")
        return False

    def __eq__(self, o):
        return self.__pv_eq__(o)

    def __ne__(self, o):
        return Not(self.__pv_eq__(o))

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")


def mkset(xs):
    return VSet(xs)


def it_list(x):
    x = it(x)
    if symbolic(x):
        raise Unsupported("a symbolic sequence is expanded")
    if isinstance(x, (SymList, GenIter)):
        return list(x)
    return list(x)


# ------------------------------------------------------------------ builtins
class VMeta(type):
    def __instancecheck__(cls, o):
        return cls._chk(o)

    def __subclasscheck__(cls, c):
        if type.__subclasscheck__(cls, c):
            return True
        return isinstance(c, type) and issubclass(c, cls._native)

    def __call__(cls, *a, **k):
        return cls._new(*a, **k)

    def __getattr__(cls, name):
        return getattr(cls._native, name)

    def __eq__(cls, o):
        return o is cls or o is cls._native

    def __ne__(cls, o):
        return not (cls == o)

    def __or__(cls, o):
        import typing
        return typing.Union[cls, o]

    def __hash__(cls):
        return hash(cls._native)

    def __repr__(cls):
        return repr(cls._native)

    def __getitem__(cls, x):
        return cls


def vtype(name, native, chk, new, **kw):
    return VMeta(name, (), dict(_native=native, _chk=staticmethod(chk), _new=staticmethod(new), **kw))


def _int(x=0, *a):
    if a or isinstance(x, (str, bytes)):
        return int(x, *a)
    if isinstance(x, SymBool):
        return wrap(x.num)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return trunc_(x)
    if hasattr(x, "__pv_int__"):
        return x.__pv_int__()
    if isinstance(x, InsPoint):
        return x.sym
    return int(x)


def _float(x=0.0):
    if isinstance(x, SymBool):
        return SymReal(z3.ToReal(x.num))
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.t))
    if isinstance(x, SymReal):
        return x
    if hasattr(x, "__pv_float__"):
        return x.__pv_float__()
    return float(x)


def _bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return x != 0
    return bool(x)


def _list(x=()):
    x = it(x)
    s = seglist(x)
    if s is not None:
        return SymList(s.segs)
    if isinstance(x, GenIter) and x.pos is None:
        return SymList(x.l.segs)
    return SymList([Elem(v) for v in x])


def _tuple(x=()):
    x = it(x)
    if symbolic(x):
        return lists.SymTuple(seglist(x).segs)
    return tuple(x)


def _dict(*a, **k):
    return VDict(*a, **k)


class ManySet:
    """the set of the elements of a symbolic sequence: only asked what is in it"""
    __pv_set__ = True

    def __init__(self, segs):
        self._l = SymList(list(segs))

    def __contains__(self, v):
        return v in self._l

    def __bool__(self):
        return bool(self._l.nonempty())

    def _no(self, *a, **k):
        raise Unsupported("a set of symbolically many elements")
    __iter__ = __len__ = __eq__ = __or__ = __and__ = __sub__ = __xor__ = __ror__ = __rand__ = __rsub__ = __deepcopy__ = __copy__ = _no
    __le__ = __lt__ = __ge__ = __gt__ = _no
    __hash__ = None

    def __getattr__(self, n):
        raise Unsupported("a set of symbolically many elements")


def _set(x=()):
    y = it(x)
    if symbolic(y):
        l = seglist(y)
        if l is not None and l.conc() is None:
            return ManySet(l.segs)
        x = y
    return VSet(x)


def _frozenset(x=()):
    if isinstance(x, frozenset) or isinstance(x, SymSet) and x.frozen:
        return x
    if seglist(x) is not None:
        return SymSet(SymList(seglist(x).segs), True)
    return VSet(x, True)


def _str(x="", *a, **k):
    if isinstance(x, SymBase):
        return "<sym>"
    return str(x, *a, **k)


VInt = vtype("int", int, lambda o: isinstance(o, (int, SymInt, SymBool)), _int)
VFloat = vtype("float", float, lambda o: isinstance(o, (float, SymReal)), _float)
VBool = vtype("bool", bool, lambda o: isinstance(o, (bool, SymBool)), _bool)
VListT = vtype("list", list, lambda o: isinstance(o, (list, SymList)) and not isinstance(o, lists.SymTuple), _list)
VTupleT = vtype("tuple", tuple, lambda o: isinstance(o, (tuple, lists.SymTuple)), _tuple)
VDictT = vtype("dict", dict, lambda o: isinstance(o, (dict, VDict)), _dict,
               fromkeys=staticmethod(VDict.fromkeys))
VSetT = vtype("set", set, lambda o: isinstance(o, set) or (isinstance(o, VSet) and not o.frozen), _set)
VFrozenT = vtype("frozenset", frozenset, lambda o: isinstance(o, frozenset) or (isinstance(o, VSet) and o.frozen),
                 _frozenset)
VStr = vtype("str", str, lambda o: isinstance(o, str), _str)


def _len(x):
    if isinstance(x, SymList):
        return x.length()
    if isinstance(x, SymSet):
        return x.length()
    if isinstance(x, (GenIter, LazySeq)):
        if isinstance(x, LazySeq):
            return x.l.length()
        raise TypeError("object of type 'generator' has no len()")
    f = getattr(type(x), "__pv_len__", None)
    if f is not None:
        return f(x)
    f = getattr(type(x), "__len__", None)
    if isinstance(x, VDict) and f is VDict.__len__:
        return x._count()
    if isinstance(f, types.FunctionType):
        return f(x)
    return len(x)


def _extreme(sense):
    native = max if sense == "max" else min

    def f(*a, key=None, default=MISSING):
        if len(a) == 1:
            x = it(a[0])
            s = seglist(x)
            if s is not None:
                return ext_seq(s, sense, key, default)
            a = list(it_list(x))
            if not a:
                if default is MISSING:
                    raise ValueError("%s() arg is an empty sequence" % sense)
                return default
            if len(a) == 1:
                return a[0]
        if key is None and all(is_num(v) for v in a) and any(isinstance(v, SymBase) for v in a):
            if any(isinstance(v, float) and v in (float("inf"), float("-inf")) for v in a):
                return native(a)
            acc = a[0]
            for v in a[1:]:
                c = (v > acc) if sense == "max" else (v < acc)
                acc = pick(c, v, acc)
            return acc
        return native(a, key=key) if key else native(a)
    return f


def pick(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return If(c, a, b)


def ext_seq(s, sense, key, default):
    e = eng()
    if not bool(s.nonempty()):
        if default is MISSING:
            raise ValueError("%s() arg is an empty sequence" % sense)
        return default
    segs = s.segs
    f = key or (lambda v: v)
    parts = [(g, lambda i, g=g: f(g.value(i))) for g in segs if not isinstance(g, Elem)]
    seeds = [(True, f(g.v)) for g in segs if isinstance(g, Elem)]
    if key is None:
        return extremum(parts, sense, seeds, sense)
    # the element itself: a witness index
    R_ = extremum(parts, sense, seeds, sense)
    for g in segs:
        if isinstance(g, Elem):
            if e.branch(boo(eq(f(g.v), R_))):
                return g.v
            continue
        w = g.space.generic("arg")
        if e.decide([None, None]) == 0:
            e.assume(z3.And(g.inr(w), boo(eq(f(g.value(w)), R_))))
            return g.value(w)
        e.forall(g.space, lambda i, g=g: z3.Implies(boo(g.guard(i)), z3.Not(boo(eq(f(g.value(i)), R_)))), "not extreme")
        e.check_feasible()
    raise core.Infeasible()


def _sum(x, start=0):
    x = it(x)
    s = seglist(x)
    if s is None:
        acc = start
        for v in it_list(x):
            acc = acc + v
        return acc
    e = eng()
    if any(isinstance(v, Seg) for v in s.segs):
        e.approx = True
        return SymReal(e.fresh("sum", z3.RealSort()))


def _any(x):
    x = it(x)
    s = seglist(x)
    if s is None:
        if isinstance(x, (list, tuple, SymList)):
            l = list(x)
            if l and all(isinstance(v, (bool, SymBool)) for v in l):
                return Or(*l)
        return any(x)
    return any_(s)


def _all(x):
    x = it(x)
    s = seglist(x)
    if s is None:
        if isinstance(x, (list, tuple, SymList)):
            l = list(x)
            if l and all(isinstance(v, (bool, SymBool)) for v in l):
                return And(*l)
        return all(x)
    return not any_(s, want=False)


def _sorted(x, *, key=None, reverse=False):
    x = it(x)
    if symbolic(x):
        return sorted_(seglist(x), key=key, reverse=reverse)
    return VList(sorted(it_list(x), key=key, reverse=reverse))


def _id(x):
    if x is not None and isinstance(x, (str, int, float, tuple, SymBase)):
        raise Unsupported("the identity of a value")
    return id(x)


def _range(*a):
    if not any(isinstance(v, SymBase) for v in a):
        return range(*[v.sym if isinstance(v, InsPoint) else v for v in a])
    step = a[2] if len(a) == 3 else 1
    if not isinstance(step, int) or step == 0:
        raise Unsupported("range with a step that is not a constant")
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if not isinstance(hi, (int, SymInt)) or not isinstance(lo, (int, SymInt)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    n = num(hi) - num(lo) if step > 0 else num(lo) - num(hi)
    if abs(step) > 1:
        n = (n + (abs(step) - 1)) / abs(step)                                   # z3: integer division rounds down here
    sp = Space(z3.simplify(z3.If(n > 0, n, z3.IntVal(0))), "range")
    return LazySeq(SymList([Seg(sp, lists.always, lambda i: wrap(num(lo) + step * i), None)]))


def _enumerate(x, start=0):
    x = it(x)
    s = seglist(x)
    if s is None:
        return enumerate(it_list(x), start)
    out, off = [], start
    for g in s.segs:
        if isinstance(g, Elem):
            out.append(Elem((off, g.v)))
            off = off + 1
        elif g.unguarded():
            out.append(Seg(g.space, lists.always, lambda i, g=g, off=off: (wrap(i + num(off)), g.value(i)), g.facts))
            off = wrap(num(off) + g.space.n)
        else:
            raise Unsupported("positions in a filtered sequence")
    return LazySeq(SymList(out))


def _zip(*xs, strict=False):
    xs = [it(x) for x in xs]
    if not any(symbolic(x) for x in xs):
        return zip(*[it_list(x) for x in xs])
    segs = []
    n = None
    for x in xs:
        s = seglist(x)
        if s is None:
            raise Unsupported("zip of a symbolic with a known sequence")
        g = linear(s)
        segs.append(g)
        n = g.space.n if n is None else z3.If(g.space.n < n, g.space.n, n)
    if all(g.space is segs[0].space for g in segs):
        sp = segs[0].space
    else:
        sp = Space(z3.simplify(n), "zip")
    return LazySeq(SymList([Seg(sp, lists.always, lambda i: tuple(g.value(i) for g in segs), None)]))


def _reversed(x):
    f = getattr(type(x), "__reversed__", None)
    if isinstance(f, types.FunctionType) and not isinstance(x, SymList):
        return f(x)
    x = it(x)
    s = seglist(x)
    if s is None:
        if isinstance(x, (SymList, list, tuple)):
            return iter(list(x)[::-1])
        return reversed(x)
    if len(s.segs) == 1 and s.segs[0].unguarded():
        g = s.segs[0]
        sp = Space(g.space.n, g.space.name + "_rev")
        at = lambda i: z3.simplify(g.space.n - 1 - i)
        sp.view_of = g, at
        return LazySeq(SymList([Seg(sp, lists.always, lambda i: g.value(at(i)), None)]))
    raise Unsupported("reversed composite sequence")


def _iter(x, *a):
    x = it(x)
    s = seglist(x)
    if s is not None:
        return GenIter(s)
    if isinstance(x, SymList):
        return iter(list(x))
    return iter(x, *a)


def _next(x, *d):
    if isinstance(x, GenIter):
        c = x.l.conc()
        if c is None:
            if x.pos is None:
                e = eng()
                if bool(x.l.nonempty()):
                    x.pos = iter(())
                    return first_of(x.l)
                if d:
                    return d[0]
                raise StopIteration
            raise Unsupported("next() of a symbolic generator")
        try:
            return x.__next__()
        except StopIteration:
            if d:
                return d[0]
            raise
    return next(x, *d)


def first_of(l):
    for s in l.segs:
        if isinstance(s, Elem):
            return s.v
        if s.unguarded():
            if eng().branch(s.space.n > 0):
                return s.value(z3.IntVal(0))
            continue
        w = SymList._first(s)
        if w is not None:
            return s.value(w)
    raise core.Infeasible()


def _map(f, *xs):
    if len(xs) == 1 and symbolic(it(xs[0])):
        return comp("gen", xs[0], None, f)
    return map(f, *[it_list(x) for x in xs])


def _filter(f, x):
    if symbolic(it(x)):
        return comp("gen", x, f or (lambda v: v), lambda v: v)
    return filter(f, it_list(x))


def _hash(x):
    if isinstance(x, (SymBase, lists.Tok)):
        return lists.Tok("hash", (x,))
    if isinstance(x, tuple) and not concrete_key(x):
        return lists.Tok("hash", x)
    if isinstance(x, VSet):
        if not x.frozen:
            raise TypeError("unhashable type: 'set'")
        if isinstance(x, SymSet):
            eng().trust("hash: equal hashes only for equal values")
            return lists.Tok("hash", (wrap(x.ident),))
        eng().trust("hash: equal hashes only for equal values")
        return lists.Tok("hash", (x,))
    f = getattr(type(x), "__hash__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return hash(x)


def _round(x, nd=None):
    return round_(x, nd)


def _abs(x):
    return abs(x)


def _print(*a, **k):
    return None


def _type(x, *a):
    if a:
        return type(x, *a)
    t = type(x)
    m = {SymInt: VInt, int: VInt, SymReal: VFloat, float: VFloat, SymBool: VBool, bool: VBool, SymList: VListT,
         list: VListT, VDict: VDictT, dict: VDictT, str: VStr, tuple: VTupleT}
    if t in m:
        return m[t]
    if is_view(x):
        return t.__mro__[1]
    return t


def _isinstance(o, c):
    if isinstance(c, tuple):
        return any(_isinstance(o, x) for x in c)
    if isinstance(o, Poisoned):
        o._no()
    import typing
    g = typing.get_origin(c)
    if g in VTYPES and not isinstance(c, type):       # typing.List and the like
        if typing.get_args(c):
            raise TypeError("Subscripted generics cannot be used with class and instance checks")
        return isinstance(o, VTYPES[g])
    return isinstance(o, c)


def _pow(a, b, *m):
    if m:
        return pow(a, b, *m)
    return a ** b


VTYPES = {int: VInt, float: VFloat, bool: VBool, list: VListT, tuple: VTupleT, dict: VDictT, set: VSetT,
          frozenset: VFrozenT, str: VStr}
BUILTINS = dict(id=_id, int=VInt, float=VFloat, bool=VBool, list=VListT, tuple=VTupleT, dict=VDictT, set=VSetT,
                frozenset=VFrozenT, str=VStr, len=_len, max=_extreme("max"), min=_extreme("min"), sum=_sum, any=_any,
                all=_all, sorted=_sorted, range=_range, enumerate=_enumerate, zip=_zip, reversed=_reversed, iter=_iter,
                next=_next, map=_map, filter=_filter, hash=_hash, round=_round, abs=_abs, print=_print, type=_type,
                isinstance=_isinstance, pow=_pow)


# ------------------------------------------------------------ functools.cache
class CacheFn:
    """A memoising wrapper, with its store."""

    def __init__(self, fn):
        self.fn = fn
        self.__wrapped__ = fn
        self.__name__ = getattr(fn, "__name__", "cached")

    def store(self):
        return R.caches.setdefault(id(self), [])

    def __get__(self, o, owner=None):
        if o is None:
            return self
        return BoundCache(self, o)

    def __call__(self, *a):
        st = self.store()
        for args, r in st:
            if len(args) == len(a) and all(x is y or key_eq(x, y) for x, y in zip(args, a)):
                return r
        r = self.fn(*a)
        st.append((a, r))
        return r

    def cache_clear(self):
        R.caches[id(self)] = []


class BoundCache:
    def __init__(self, c, o):
        self.c, self.o = c, o
        self.__wrapped__ = c.fn

    def __call__(self, *a):
        return self.c(self.o, *a)

    def cache_clear(self):
        self.c.cache_clear()

    def __bool__(self):
        return True


# ---------------------------------------------------------------------- copy
def deepcopy(x, memo=None):
    memo = {} if memo is None else memo
    if isinstance(x, (int, float, str, bytes, bool, type(None), SymBase, lists.Tok, type, types.FunctionType)):
        return x
    if id(x) in memo:
        return memo[id(x)][0]
    if isinstance(x, tuple):
        return tuple(deepcopy(v, memo) for v in x)
    if isinstance(x, SymList):
        x.readable()
        r = SymList([Elem(deepcopy(s.v, memo)) if isinstance(s, Elem) else
                     Seg(s.space, s.guard, frozen_copy(s), None) for s in x.segs])
        memo[id(x)] = (r, x)
        return r
    f = getattr(x, "__deepcopy__", None)
    if f is not None and not is_view(x):
        return f(memo)
    if isinstance(x, VDict):
        r = object.__new__(type(x))
        memo[id(x)] = (r, x)
        R.stamp(r)
        for k, v in x.__dict__.items():
            if k not in ("_ks", "_vs", "_base", "_log"):
                object.__setattr__(r, k, deepcopy(v, memo))
        if x._base is not None:
            raise Unsupported("deep copy of a symbolic dictionary")
        r._ks = [deepcopy(k, memo) for k in x._ks]
        r._vs = [deepcopy(v, memo) for v in x._vs]
        return r
    if isinstance(x, VSet):
        return VSet([deepcopy(k, memo) for k in x._ks], x.frozen)
    if isinstance(x, (list, dict, set, frozenset)):
        import copy
        return copy.deepcopy(x)
    if hasattr(x, "__pv_opaque__"):
        return x
    if is_view(x):
        r = object.__new__(type(x).__mro__[1])
        d = {k: getattr(x, k) for k in type(x).__pv_view__.fields}
    else:
        if type(x).__module__.split(".")[0] not in ("neural_graph_composer",):
            raise Unsupported("deep copy of %s" % type(x).__name__)
        r = object.__new__(type(x))
        d = attrs(x)
    memo[id(x)] = (r, x)
    R.stamp(r)
    for k, v in d.items():
        object.__setattr__(r, k, deepcopy(v, memo))
    return r


def frozen_copy(s):
    """copies of the elements as they are now"""
    e = eng()
    layers = e.heap.snapshot()

    def value(i):
        save = e.heap.layers
        e.heap.layers = {k: list(v) for k, v in layers.items()}
        try:
            return deepcopy(s.value(i))
        finally:
            e.heap.layers = save
    return value


def copy_(x):
    if isinstance(x, SymList):
        return SymList(x.segs)
    if isinstance(x, (VDict, VSet)):
        return x.copy()
    if isinstance(x, (int, float, str, bool, type(None), tuple, SymBase)):
        return x
    if is_view(x):
        r = object.__new__(type(x).__mro__[1])
        d = {k: getattr(x, k) for k in type(x).__pv_view__.fields}
    else:
        r = object.__new__(type(x))
        d = attrs(x)
    R.stamp(r)
    for k, v in d.items():
        object.__setattr__(r, k, v)
    return r
