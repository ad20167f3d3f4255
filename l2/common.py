"""Executable contracts: shared machinery.

A *unit* is one executable contract of a property: a case generator and a
function that builds the inputs of the case, calls the real code of /repo and
compares everything observable with the contract.  Cases are plain JSON, so
that a case found here, or a counter-model found by the verifier, is replayed
from a file by the same function.
"""
import math
import os
import random
import sys
import traceback
import warnings
import logging

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


class Violation(Exception):
    """The real code broke the contract on the case."""


class Skip(Exception):
    """The case is outside the precondition of the contract."""


UNITS = {}          # (pid, name) -> Unit


class Unit:
    def __init__(self, pid, name, gen, run, boundary, n, rule, heavy, big):
        self.big = big
        self.pid, self.name, self.gen, self.run = pid, name, gen, run
        self.boundary, self.n, self.rule, self.heavy = boundary, n, rule, heavy


BIG = [0]           # the sizes asked for when large cases are made


def ln(rng, a, b):
    """how many: between a and b, or many when a large case is made"""
    return rng.randint(BIG[0] // 2, BIG[0]) if BIG[0] else rng.randint(a, b)


def unit(pid, name, gen=None, boundary=(), n=300, rule="", heavy=False, big=()):
    """big: the sizes for which a few large cases are made as well"""
    def deco(fn):
        key = (pid, name)
        assert key not in UNITS, key
        UNITS[key] = Unit(pid, name, gen, fn, boundary, n, rule or (fn.__doc__ or ""), heavy, big)
        return fn
    return deco


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def ensure(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def refused(fn, kinds=(ValueError, TypeError, AssertionError)):
    """Call fn, tell whether it refused (raised one of kinds)."""
    try:
        fn()
    except kinds:
        return True
    return False


def must_refuse(what, fn, kinds=(ValueError, TypeError, AssertionError)):
    try:
        r = fn()
    except kinds:
        return
    fail("%s was not refused (got %r)", what, r)


def execute(u, case):
    """Run one case. Returns None when the contract held, a message when it was
    broken, and raises Skip when the case is outside the precondition."""
    devnull = open(os.devnull, "w")
    out = sys.stdout
    sys.stdout = devnull
    try:
        u.run(case)
        return None
    except Skip:
        raise
    except Violation as v:
        return str(v)[:1500]
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:  # the contract does not allow an exception here
        tb = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith(REPO) for f in tb):
            # The contract could not use what the code returned.  On the tree the
            # contracts were written for this never happens (the cases are fixed by
            # the seed), so the code changed the shape of its results.
            if isinstance(e, (OSError, ImportError, AssertionError, RecursionError)):
                raise
            return "the result cannot be used by a caller: %s: %s (contract line %d)" % (
                type(e).__name__, str(e)[:300], tb[-1].lineno)
        where = [f for f in tb if f.filename.startswith(REPO)][-1]
        return ("unexpected %s: %s (at %s:%s in %s)" % (
            type(e).__name__, str(e)[:300], os.path.relpath(where.filename, REPO),
            where.lineno, where.name))
    finally:
        sys.stdout = out
        devnull.close()


# ---------------------------------------------------------------- generators
def r_time(rng, lo=0.0, hi=20.0):
    k = rng.random()
    if k < 0.5:
        return rng.randrange(int(lo * 8), int(hi * 8) + 1) / 8.0
    if k < 0.7:
        return round(rng.uniform(lo, hi), 2)
    if k < 0.9:
        return rng.uniform(lo, hi)
    if k < 0.95:
        return float(rng.randrange(int(lo), int(hi) + 1))
    return max(lo, min(hi, rng.choice([0.0, 1e-3, 0.5, 1.0, 2.0])))


def g_time(rng, hi=12):
    """time on a coarse grid: equal or well apart"""
    return rng.randrange(0, hi * 4) / 4.0


def edgy_int(rng, lo, hi):
    k = rng.random()
    if k < 0.35:
        return rng.choice([lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 0, -1, 1])
    if k < 0.8:
        return rng.randint(lo, hi)
    return rng.choice([rng.randint(-1000, 1000), -10 ** 6, 10 ** 6, 128, 255, 256, 127])


def note_case(rng, times="grid", **over):
    if times == "grid":
        s = g_time(rng)
        e = s + rng.choice([0.25, 0.25, 0.5, 0.75, 1.0, 2.0, 5.0])
    else:
        s = r_time(rng)
        e = s + rng.choice([1e-3, 0.01, 0.1, 0.125, 0.25, 0.5, 1.0, 3.0, rng.uniform(1e-3, 4)])
    d = dict(pitch=rng.randint(0, 127), start=s, end=e, program=rng.randint(0, 255),
             instrument=rng.randint(0, 127), velocity=rng.randint(0, 127),
             qs=-1, qe=-1, voice=rng.randint(0, 5), num=rng.randint(1, 12),
             den=rng.choice([1, 2, 4, 8, 16]), drum=rng.random() < 0.2)
    d.update(over)
    return d


def mk_note(d):
    from neural_graph_composer.midi.midi_note import MidiNote
    return MidiNote(pitch=d["pitch"], start_time=d["start"], end_time=d["end"],
                    program=d.get("program", 0), instrument=d.get("instrument", 0),
                    velocity=d.get("velocity", 100), quantized_start_step=d.get("qs", -1),
                    quantized_end_step=d.get("qe", -1), voice=d.get("voice", 0),
                    numerator=d.get("num", 4), denominator=d.get("den", 4),
                    is_drum=d.get("drum", False))


NOTE_FIELDS = ("pitch", "start_time", "end_time", "program", "instrument", "velocity",
               "quantized_start_step", "quantized_end_step", "voice", "numerator",
               "denominator", "is_drum")


def nstate(n):
    """everything observable of a note"""
    return tuple(getattr(n, f) for f in NOTE_FIELDS)


def nfull(n):
    return nstate(n) + (n.is_quantized(), n.pitch_name)


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def states(notes):
    return [nstate(n) for n in notes]


def multiset(items):
    d = {}
    for i in items:
        d[i] = d.get(i, 0) + 1
    return d
