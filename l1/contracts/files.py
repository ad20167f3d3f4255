"""Contracts of reading and writing MIDI files (Q01)."""
from .base import *
from pyvc.lists import SymList, Seg, Space
from pyvc import stubs
from .listspec import *


def midi_cls(w):
    return w.load(PKG + "custom_pretty_midi").CustomPrettyMIDI


# --------------------------------------------------------------------- Q01
class Ticks(Space):
    """all ticks from 0 on"""

    def __init__(self):
        super().__init__(E().fresh("horizon", z3.IntSort()), "ticks")

    def inside(self, t):
        return t >= 0


class TempoMap:
    """a tempo map with any number of tempi: scale C(j), in seconds per tick, from tick S(j)
    on; TIME(t) is the time of tick t, as the property defines it"""

    def __init__(self, w, known=True):
        e = E()
        self.w = w
        self.n = n = e.int("len.scales", 1)
        self.res = e.int("resolution", 1)
        self.S = S = z3.Function("tick_of", z3.IntSort(), z3.IntSort())
        self.C = C = z3.Function("scale_of", z3.IntSort(), z3.RealSort())
        self.TIME = TIME = z3.Function("time_of", z3.IntSort(), z3.RealSort())
        self.REG = REG = z3.Function("tempo_at", z3.IntSort(), z3.IntSort())
        self.space = sp = Space(num(n), "scales")
        N = num(n)
        self.seg = Seg(sp, lists.always, lambda i: (wrap(S(i)), wrap(C(i))), lambda i: [
            z3.And(C(i) > 0, S(i) >= 0, z3.Implies(i == 0, S(i) == 0))])
        e.forall2(sp, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < N), S(i) < S(j)), "increasing ticks")
        self.ticks = tk = Ticks()
        e.fact(TIME(0) == 0)

        def about(t):
            r = REG(t)
            sp.use(r)
            sp.use(z3.simplify(r + 1))
            return z3.Implies(t >= 0, z3.And(
                r >= 0, r < N, S(r) <= t, z3.Implies(r + 1 < N, t < S(r + 1)), C(r) > 0, S(r) >= 0,
                TIME(t) == TIME(S(r)) + z3.ToReal(t - S(r)) * C(r)))
        e.forall(tk, about, "time of a tick")
        # by induction over the ticks from "each further tick lasts longer than nothing"
        e.forall2(tk, lambda i, j: z3.Implies(z3.And(i >= 0, i < j), TIME(i) < TIME(j)), "times increase")
        tk.use(z3.IntVal(0))
        cls = midi_cls(w)
        self.m = m = cls.__new__(cls)
        m.resolution = self.res
        m.is_debug = False
        m._tick_scales = SymList([self.seg])
        self.size = size = e.int("len.known", 1)
        if known:
            e.add(size > wrap(S(N - 1)))
            sp.use(z3.simplify(N - 1))
            m.tick_times = self.known(size)
        else:
            z = z3.Function("stale", z3.IntSort(), z3.RealSort())
            m.tick_times = stubs.Arr(SymList([Seg(Space(num(size), "old"), lists.always, lambda t: wrap(z(t)), None)]))

    def time(self, t):
        self.ticks.use(num(t))
        return wrap(self.TIME(num(t)))

    def listed_time(self, j):
        self.space.use(num(j))
        return self.time(wrap(self.S(num(j))))

    def listed_rate(self, j):
        self.space.use(num(j))
        return wrap(z3.RealVal(60) / (self.C(num(j)) * z3.ToReal(num(self.res))))

    def known(self, n):
        return stubs.Arr(SymList([Seg(Space(num(n), "times"), lists.always, lambda t: self.time(wrap(t)), None)]))

    def lasts(self, j, d):
        """within the reach of tempo j, d ticks last d times its scale"""
        j, d = num(j), num(d)
        self.space.use(z3.simplify(j))
        self.space.use(z3.simplify(j + 1))
        S, C, T = self.S, self.C, self.TIME
        E().fact(z3.Implies(z3.And(j >= 0, j < num(self.n), d >= 0, z3.Implies(j + 1 < num(self.n), d <= S(j + 1) - S(j))),
                            T(S(j) + d) == T(S(j)) + z3.ToReal(d) * C(j)))


def times_are(what, tm, size):
    """the known times are those of the ticks 0..size-1"""
    e = E()
    a = tm.m.tick_times
    ensure("%s: every tick up to the last asked for and the last tempo is known" % what, eq(rt._len(a), size))
    t = e.int("tick", 0)
    e.add(t < size)
    last = tm.n - 1
    tm.lasts(last, t - wrap(tm.S(num(last))))
    ensure("%s: a tick is at its time" % what, eq(a[t], tm.time(t)))


def entry(a, t):
    """the number at a position of an array, known to be inside"""
    return rt.linear(a.l).value(num(t))


class Fill(rt.Invariant):
    """of the tempi before k the ticks are known, up to the first tick of tempo k"""

    def __init__(self, tm):
        self.tm = tm

    def match(self, seg, cells):
        a = self.tm.m.tick_times
        ends = [(n, c) for n, c in cells.items() if is_num(rt.cell_get(c)) and n in self.assigned]
        if not isinstance(a, stubs.Arr) or len(ends) != 1:
            return False
        self.a, self.cell, self.size = a, ends[0], a.l.segs[0].space
        return True

    def modifies(self):
        n, c = self.cell
        return [rt.Loc("cell", c, n), rt.Loc("attr", self.a, "l")]

    def havoc(self, k):
        tm, k = self.tm, num(k)
        z = z3.Function("not_yet", z3.IntSort(), z3.RealSort())
        end = tm.S(k)
        tm.space.use(k)
        rt.R.note_attr(self.a, "l")
        self.a.l = SymList([Seg(self.size, lists.always, lambda t: If(wrap(t <= end), tm.time(wrap(t)), wrap(z(t))), None)])
        rt.cell_set(self.cell[1], tm.time(wrap(end)))

    def check(self, k, when):
        tm = self.tm
        e = E()
        k = num(k)
        tm.space.use(k)
        tm.space.use(z3.simplify(k - 1))
        end = wrap(tm.S(k))
        tm.lasts(wrap(k - 1), end - wrap(tm.S(k - 1)))
        ensure("the time reached is that of the next tempo, %s" % when, eq(rt.cell_get(self.cell[1]), tm.time(end)))
        ensure("all ticks are kept, %s" % when, eq(rt._len(self.a), wrap(self.size.n)))
        t = wrap(self.size.generic("t"))
        tm.lasts(wrap(k - 1), t - wrap(tm.S(k - 1)))
        ensure("the ticks before the next tempo are at their times, %s" % when, Implies(And(between(0, t, end), t < wrap(self.size.n)), eq(entry(self.a, t), tm.time(t))))


@contract("Q01", "CustomPrettyMIDI._update_tick_to_time", share=2)
def q01_update(w):
    e = E()
    tm = TempoMap(w, known=False)
    nocase()
    e.invariants.append(Fill(tm))
    top = e.int("max_tick", 0)
    o = outcome(tm.m._update_tick_to_time, top)
    if returns("the times can be computed", o):
        last = wrap(tm.S(num(tm.n) - 1))
        times_are("after the update", tm, mx(top, last) + 1)


def update_by_contract(w, tm):
    """calls of _update_tick_to_time by its contract"""
    def spec(m, max_tick):
        # the contract is about this map
        l = m._tick_scales
        ensure("the tempi are those of the map", eq(rt._len(l), tm.n))
        j = wrap(tm.space.generic("j"))
        E().assume(boo(between(0, j, tm.n - 1)))
        got, want = l[j], tm.seg.value(num(j))
        ensure("the tempi are those of the map", And(eq(got[0], want[0]), eq(got[1], want[1])))
        last = m._tick_scales[-1][0]
        m.tick_times = tm.known(mx(max_tick, last) + 1)
    by_contract(midi_cls(w), "_update_tick_to_time", spec, "Q01 CustomPrettyMIDI._update_tick_to_time")


@contract("Q01", "CustomPrettyMIDI.tick_to_time")
def q01_time(w):
    e = E()
    tm = TempoMap(w)
    nocase()
    update_by_contract(w, tm)
    t = e.int("t", 0)
    o = outcome(tm.m.tick_to_time, t)
    if e.branch(boo(t >= 10 ** 9)):
        refuses("a tick beyond the largest is refused", o, (IndexError,))
        return
    if not returns("a tick has a time", o):
        return
    ensure("the time is that of the tick", eq(o.value, tm.time(t)))
    times_are("afterwards", tm, mx(tm.size, t + 1))
    ensure("tick 0 is at 0", Implies(eq(t, 0), eq(o.value, 0)))


@contract("Q01", "each tick lasts as long as its tempo says")
def q01_lasts(w):
    """the lemma on the times: the next tick is one scale of the tempo in force later"""
    e = E()
    tm = TempoMap(w)
    nocase()
    t = e.int("t", 0)
    j = wrap(tm.REG(num(t)))
    tm.time(t), tm.time(t + 1)
    tm.lasts(j, t - wrap(tm.S(num(j))))
    tm.lasts(j, t + 1 - wrap(tm.S(num(j))))
    ensure("the next tick is one scale later", eq(tm.time(t + 1), tm.time(t) + wrap(tm.C(num(j)))))
    ensure("a scale is more than nothing", wrap(tm.C(num(j))) > 0)


@contract("Q01", "CustomPrettyMIDI.time_to_tick")
def q01_tick(w):
    e = E()
    tm = TempoMap(w)
    nocase()
    k = e.int("k", 0)
    last = tm.n - 1
    tm.lasts(last, k - wrap(tm.S(num(last))))
    tm.lasts(last, tm.size - 1 - wrap(tm.S(num(last))))
    o = outcome(tm.m.time_to_tick, tm.time(k))
    if returns("a time has a tick", o):
        ensure("the time of a tick is at that tick", eq(o.value, k))
        ensure("a tick is a whole number", isinstance(o.value, (int, SymInt)))
    times_are("afterwards", tm, tm.size)


@contract("Q01", "CustomPrettyMIDI.update_scale")
def q01_scale(w):
    """one more tempo: the ticks known before are known again, by the new map"""
    e = E()
    old, new = e.int("tick", 1), e.real("scale")
    e.add(new > 0)
    tm = TempoMap(w, known=False)       # the map with the new tempo as its last one; any times are known
    nocase()
    N = num(tm.n)
    for i in (1, 2):
        tm.space.use(z3.simplify(N - i))
    e.add(And(tm.n >= 2, eq(wrap(tm.S(N - 1)), old), eq(wrap(tm.C(N - 1)), new)))
    part = Space(z3.simplify(N - 1), "given")
    tm.m._tick_scales = SymList([Seg(part, lists.always, tm.seg.value, None)])
    update_by_contract(w, tm)
    o = outcome(tm.m.update_scale, (old, new))
    if returns("a tempo can be added", o):
        l = tm.m._tick_scales
        ensure("the tempo comes last", And(eq(rt._len(l), tm.n), eq(l[-1][0], old), eq(l[-1][1], new)))
        times_are("afterwards", tm, mx(tm.size, old + 1))


class Listing(rt.Invariant):
    """of the tempi before k, time and rate are listed"""

    def __init__(self, tm):
        self.tm = tm

    def match(self, seg, cells):
        arrs = [rt.cell_get(c) for c in cells.values()]
        arrs = [a for a in arrs if isinstance(a, stubs.Arr)]
        if len(arrs) != 2:
            return False
        out = rt.trial(seg, self.body, cells, lambda i, _: [num(a[wrap(i)]) for a in arrs])
        if len(out) != 1:
            return False
        is_time = [x.decl().eq(self.tm.TIME) for x in out[0].seen]
        if sorted(is_time) != [False, True]:
            return False
        self.times, self.rates = arrs if is_time[0] else arrs[::-1]
        self.sp = [a.l.segs[0].space for a in (self.times, self.rates)]
        return True

    def modifies(self):
        return [rt.Loc("attr", self.times, "l"), rt.Loc("attr", self.rates, "l"),
                rt.Loc("attr", self.tm.m, "_CustomPrettyMIDI__tick_to_time")]

    def havoc(self, k):
        tm, k = self.tm, num(k)
        for a, sp, f, z in ((self.times, self.sp[0], tm.listed_time, "t"), (self.rates, self.sp[1], tm.listed_rate, "r")):
            z = z3.Function("not_yet_" + z, z3.IntSort(), z3.RealSort())
            rt.R.note_attr(a, "l")
            a.l = SymList([Seg(sp, lists.always, lambda t, f=f, z=z: If(wrap(t < k), f(wrap(t)), wrap(z(t))), None)])
        n = E().int("now_known", 1)
        E().add(n > wrap(tm.S(num(tm.n) - 1)))
        tm.m.tick_times = tm.known(n)

    def check(self, k, when):
        for a, sp, f, what in ((self.times, self.sp[0], self.tm.listed_time, "times"),
                               (self.rates, self.sp[1], self.tm.listed_rate, "rates")):
            ensure("all %s are kept, %s" % (what, when), eq(rt._len(a), self.tm.n))
            t = wrap(sp.generic("t"))
            ensure("the %s before are listed, %s" % (what, when),
                   Implies(And(between(0, t, self.tm.n - 1), t < k), eq(entry(a, t), f(t))))


@contract("Q01", "CustomPrettyMIDI.get_tempo_changes")
def q01_changes(w):
    e = E()
    tm = TempoMap(w)
    nocase()
    N = num(tm.n)
    e.add(wrap(tm.S(N - 1)) < 10 ** 9)
    def at_its_time(m, tick):
        ensure("only ticks of the map are asked for", And(tick >= 0, tick < 10 ** 9))
        return tm.time(tick)
    by_contract(midi_cls(w), "tick_to_time", at_its_time, "Q01 CustomPrettyMIDI.tick_to_time")
    e.invariants.append(Listing(tm))
    o = outcome(tm.m.get_tempo_changes)
    if not returns("the tempi can be listed", o):
        return
    ts, qs = o.value
    ensure("as many times as tempi", And(eq(rt._len(ts), tm.n), eq(rt._len(qs), tm.n)))
    j = e.int("j", 0)
    e.add(j < tm.n)
    ensure("a tempo is listed at the time of its tick", eq(ts[j], tm.listed_time(j)))
    ensure("a tempo is listed with its rate", eq(qs[j], tm.listed_rate(j)))
