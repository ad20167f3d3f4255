"""Registry of the contracts and helpers to write them."""
import z3
from pyvc import core, lists, rt
from pyvc.core import (And, Or, Not, If, Implies, Iff, eq, wrap, boo, num, real, floor_, ceil_, trunc_, round_,
                       SymInt, SymReal, SymBool, SymBase, Unsupported, Infeasible, is_num)

UNITS = []


class Unit:
    def __init__(self, pid, name, fn, bounded, prove_ms, share, abstract):
        self.pid, self.name, self.fn, self.bounded, self.prove_ms, self.share = pid, name, fn, bounded, prove_ms, share
        self.abstract = abstract
        self.home = pid


def contract(pid, name, bounded=None, prove_ms=8000, share=1.0, abstract=False):
    """registers a contract of property pid; bounded: text of the bound, or None"""
    def deco(fn):
        for p in ([pid] if isinstance(pid, str) else pid):
            UNITS.append(Unit(p, name, fn, bounded, prove_ms, share, abstract))
            UNITS[-1].home = pid if isinstance(pid, str) else pid[0]
        return fn
    return deco


E = core.eng

PKG = "neural_graph_composer."


class Out:
    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    ok = property(lambda s: s.kind == "ok")

    def refused(self, kinds=(ValueError, TypeError, AssertionError)):
        return self.kind == "raise" and isinstance(self.value, kinds)


def outcome(fn, *a, **k):
    """what a call does: returns a value, or raises"""
    try:
        return Out("ok", fn(*a, **k))
    except Exception as ex:
        if rt.is_engine_fault(ex):
            raise Unsupported(told(ex))
        if other_parameters(ex, 1) and getattr(fn, "__name__", "").startswith("_"):
            raise Unsupported("a helper with other parameters: " + told(ex))
        return Out("raise", ex)


def other_parameters(ex, depth):
    """the call itself was refused, the function did not begin"""
    tb = ex.__traceback__
    for _ in range(depth - 1):
        tb = tb and tb.tb_next
    return isinstance(ex, TypeError) and tb is not None and tb.tb_next is None


def ensure(name, cond, detail=None):
    return E().ensure(name, cond, detail)


def told(ex):
    """an exception as text"""
    try:
        return "%s: %s" % (type(ex).__name__, str(ex)[:200])
    except Exception:
        return type(ex).__name__


def returns(name, o, detail=None):
    """the call returns on this path (else the path is a violation)"""
    if o.ok:
        ensure(name, True)
        return True
    ensure(name, False, detail or "raises %s" % told(o.value))
    return False


def refuses(name, o, kinds=(ValueError, TypeError, AssertionError)):
    ensure(name, o.refused(kinds), told(o.value) if not o.ok else "accepted")


def case(unit, pid=None, **c):
    """how a counter-model becomes a case of an executable contract (of property pid,
    else of the property the contract was written for)"""
    e = E()
    if e.unit_pid != (pid or e.unit_home):
        return nocase()
    e.case_of = lambda val: dict(unit=unit, case=val(c))


def nocase():
    E().case_of = None


def clamp(v, lo, hi):
    return If(v < lo, lo, If(v > hi, hi, v))


def between(lo, x, hi):
    return And(lo <= x, x <= hi)


def absdiff(a, b):
    return If(a >= b, a - b, b - a)


def mx(a, b):
    return If(a >= b, a, b)


def mn(a, b):
    return If(a <= b, a, b)


# ------------------------------------------------------------------- notes
def note_args(name="n", quantized=None, valid=True):
    """symbolic arguments of a note constructor; valid: within all ranges"""
    e = E()
    r = lambda f: "%s.%s" % (name, f)
    lim = (lambda lo, hi: (lo, hi)) if valid else (lambda lo, hi: (None, None))
    d = dict(pitch=e.int(r("pitch"), *lim(0, 127)), start=e.real(r("start")), end=e.real(r("end")),
             program=e.int(r("program"), *lim(0, 255)), instrument=e.int(r("instrument"), *lim(0, 127)),
             velocity=e.int(r("velocity"), *lim(0, 127)), qs=e.int(r("qs"), -1, None), qe=e.int(r("qe"), -1, None),
             voice=e.int(r("voice")), num=e.int(r("num"), 1, 255),
             den=e.int(r("den"), 1, 255), drum=e.bool(r("drum")))
    if valid:
        e.add(And(d["end"] > d["start"], core.ispow2(d["den"])))
    if quantized is False:
        d["qs"] = d["qe"] = -1
    elif quantized:
        e.add(And(d["qs"] >= 0, d["qe"] >= 0))
    return d


def mk_note(w, d):
    return w.load(PKG + "midi.midi_note").MidiNote(
        pitch=d["pitch"], start_time=d["start"], end_time=d["end"], program=d["program"], instrument=d["instrument"],
        velocity=d["velocity"], quantized_start_step=d["qs"], quantized_end_step=d["qe"], voice=d["voice"],
        numerator=d["num"], denominator=d["den"], is_drum=d["drum"])


NOTE_FIELDS = ("pitch", "start_time", "end_time", "program", "instrument", "velocity", "quantized_start_step",
               "quantized_end_step", "voice", "numerator", "denominator", "is_drum")


def nstate(n):
    return tuple(getattr(n, f) for f in NOTE_FIELDS)


def same(a, b):
    """equality of two states as one truth value"""
    if isinstance(a, tuple):
        return And(*[same(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    return lists.deep_eq(a, b)


def changed_only(before, after, fields, **want):
    """after equals before except for the given fields"""
    cs = []
    for f, x, y in zip(fields, before, after):
        cs.append(eq(y, want[f]) if f in want else same(x, y))
    return And(*cs)


# ------------------------------------------------- callees by their contracts
def by_contract(cls, name, spec, where, static=False):
    """calls of the method are replaced by what its contract says; `where` names the
    unit in which the method is proved to meet it"""
    def f(*a, **k):
        E().assumption("calls of %s.%s by its contract, proved in: %s" % (cls.__name__, name, where))
        try:
            return spec(*a, **k)
        except TypeError as ex:
            if other_parameters(ex, 1):
                raise Unsupported("a call of %s other than its contract knows: %s" % (name, told(ex)))
            raise
    f.__pv_contract__ = cls
    type.__setattr__(cls, name, staticmethod(f) if static else f)
