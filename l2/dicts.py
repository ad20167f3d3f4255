"""Executable contracts of the dictionaries and intervals (D01..D03)."""
import copy
import pickle
from common import *
from neural_graph_composer.midi.sorted_dict import SortedDict
from neural_graph_composer.midi.sorted_interval_dict import SortedIntervalDict
from neural_graph_composer.midi.Interval import Interval

MISSING = object()


def gen_hist(rng):
    kt = rng.choice(["int", "float", "str"])
    dom = {"int": list(range(-3, 6)), "float": [0.0, .5, 1.5, -2.0, 3.25, 7.0], "str": list("abcdxyz")}[kt]
    if BIG[0] and kt != "str":
        dom = [x / 2 if kt == "float" else x for x in range(-3, 2 * BIG[0])]
    k = lambda: rng.choice(dom)
    ops = []
    for i in range(rng.randint(1, 10)):
        o = rng.choice(["set", "set", "set", "del", "pop", "popd", "popitem", "popfirst", "update", "setdefault",
                        "clear" if rng.random() < .3 else "set", "copy", "pickle", "deepcopy", "get"])
        ops.append([o, k(), i] if o != "update" else [o, [[k(), i * 10 + j] for j in range(ln(rng, 0, 3) if rng.random() < .2 else rng.randint(0, 3))]])
    return dict(init=[[k(), -i] for i in range(ln(rng, 0, 4))], ops=ops, how=rng.choice(["list", "dict", "empty"]))


def check_map(d, m, what):
    ks = sorted(m)
    ensure(list(d) == ks, "after %s iteration gives %r, expected %r", what, list(d), ks)
    ensure(list(d.keys()) == ks, "after %s keys are %r, expected %r", what, list(d.keys()), ks)
    ensure(list(d.values()) == [m[k] for k in ks], "after %s values are %r", what, list(d.values()))
    ensure([tuple(x) for x in d.items()] == [(k, m[k]) for k in ks], "after %s items are %r", what, list(d.items()))
    ensure(len(d) == len(m), "after %s length is %r", what, len(d))
    ensure(list(reversed(d)) == ks[::-1], "after %s reversed order is %r", what, list(reversed(d)))
    for k in ks:
        ensure(k in d and d[k] == m[k] and d.get(k) == m[k], "after %s %r maps to %r", what, k, d.get(k))


@unit("D01", "histories", gen_hist, big=(90, 700, 1500), n=4000, boundary=[
    dict(init=[[3, 0], [1, 0], [2, 0]], ops=[["popitem", 0, 0], ["popfirst", 0, 0], ["pop", 2, 0]], how=h)
    for h in ("list", "dict", "empty")] + [
    dict(init=[[3, 0], [1, 0]], ops=[["del", 7, 0], ["set", 2, 1], ["del", 1, 0], ["set", 1, 5]], how="list")],
    rule="histories of up to 10 operations over int, float and text keys, all ways to build and copy")
def d01_hist(c):
    init = [tuple(x) for x in c["init"]]
    if c["how"] == "empty":
        d, m = SortedDict(), {}
    else:
        d, m = SortedDict(init if c["how"] == "list" else dict(init)), dict(init)
    check_map(d, m, "construction")
    for i, op in enumerate(c["ops"]):
        o, k = op[0], op[1]
        what = "%s %r (step %d)" % (o, k, i)
        if o == "set":
            d[k] = op[2]
            m[k] = op[2]
        elif o in ("del", "pop"):
            if k in m:
                if o == "del":
                    del d[k]
                else:
                    ensure(d.pop(k) == m[k], "%s gave another value", what)
                del m[k]
            else:
                must_refuse(what, (lambda: d.__delitem__(k)) if o == "del" else (lambda: d.pop(k)), KeyError)
        elif o == "popd":
            ensure(d.pop(k, MISSING) == m.pop(k, MISSING), "%s gave another value", what)
        elif o in ("popitem", "popfirst"):
            if m:
                w = max(m) if o == "popitem" else min(m)
                got = d.popitem() if o == "popitem" else d.popitem(last=False)
                ensure(tuple(got) == (w, m.pop(w)), "%s gave %r", what, got)
            else:
                must_refuse(what, lambda: d.popitem(), KeyError)
        elif o == "update":
            d.update([tuple(x) for x in k])
            m.update([tuple(x) for x in k])
        elif o == "setdefault":
            ensure(d.setdefault(k, op[2]) == m.setdefault(k, op[2]), "%s gave another value", what)
        elif o == "clear":
            d.clear()
            m.clear()
        elif o == "get":
            if k not in m:
                must_refuse(what, lambda: d[k], KeyError)
                ensure(k not in d and d.get(k) is None, "%s found a missing key", what)
        elif o in ("copy", "pickle", "deepcopy"):
            e = d.copy() if o == "copy" else pickle.loads(pickle.dumps(d)) if o == "pickle" else copy.deepcopy(d)
            check_map(e, m, what)
            if isinstance(e, SortedDict):
                e["zz" if isinstance(k, str) else 99] = 1
                check_map(d, m, "changing a " + o)
        check_map(d, m, what)


@unit("D01", "one operation", lambda rng: dict(keys=sorted(set(rng.randint(0, 6) / 2 for _ in range(rng.randint(0, 4)))),
                                                op=rng.choice(["set", "del", "pop", "popd", "setdefault", "get", "clear", "popitem",
                                                               "popfirst", "look"]),
                                                k=rng.randint(0, 6) / 2, q=rng.randint(0, 6) / 2), n=1500,
      rule="one operation on dictionaries of up to 4 keys")
def d01_one(c):
    ks = [float(k) for k in c["keys"]]
    for order in (ks, ks[::-1], ks[1:] + ks[:1]):
        one_op([[k, i] for i, k in enumerate(order)], c["op"], float(c["k"]))


def one_op(init, op, k):
    d01_hist(dict(init=init, how="list", ops=[] if op == "look" else [[op, k, 77], ["get", k, 0]]))


@unit("D01", "building", lambda rng: dict(keys=[rng.randint(0, 3) / 2 for _ in range(rng.randint(0, 2))],
                                           how=rng.choice(["list", "dict", "update", "update dict", "copy", "reduce"])), n=300,
      rule="constructions and updates of up to two entries")
def d01_building(c):
    ps = [[float(k), i] for i, k in enumerate(c["keys"])]
    how = c["how"]
    if how in ("list", "dict"):
        d01_hist(dict(init=ps, how=how, ops=[]))
    elif how.startswith("update"):
        d01_hist(dict(init=[], how="empty", ops=[["set", 1.0, 3], ["clear", 0.0, 0], ["update", ps]]))
    else:
        d01_hist(dict(init=ps, how="list", ops=[["copy" if how == "copy" else "pickle", 0.0, 0]]))


# ------------------------------------------------------------------ D02
def r_iv(rng):
    a = rng.randint(-2, 3 * BIG[0] if BIG[0] else 6)
    return [a, a + rng.choice([0, 1, 2, 4])]


def gen_ivd(rng):
    ops = []
    for i in range(rng.randint(1, 8)):
        o = rng.choice(["set", "set", "set", "del", "slice", "delslice", "get"])
        if o == "slice":
            b = r_iv(rng)
            if rng.random() < .3:
                b[0] = None
            if rng.random() < .3:
                b[1] = None
            ops.append([o, b])
        elif o == "delslice":
            ops.append([o, [rng.choice([None, 0, 1, 2]), rng.choice([None, 1, 2, 5])]])
        else:
            ops.append([o, r_iv(rng), i])
    return dict(init=[r_iv(rng) for _ in range(ln(rng, 0, 4))], ops=ops)


@unit("D02", "histories", gen_ivd, big=(90, 700, 1500), n=4000, rule="histories over small intervals; open and closed bounds")
def d02_hist(c):
    init = [(Interval(*x), i) for i, x in enumerate(c["init"])]
    d, m = SortedIntervalDict(init), dict(((k.start, k.end), v) for k, v in init)

    def chk(d, m, what):
        ks = sorted(m)
        ensure([(k.start, k.end) for k in d] == ks, "after %s intervals are %r, expected %r", what, list(d), ks)
        ensure([((k.start, k.end), v) for k, v in d.items()] == [(k, m[k]) for k in ks], "after %s items are %r",
               what, list(d.items()))
        ensure(len(d) == len(m), "after %s length is %d", what, len(d))
    chk(d, m, "construction")
    for op in c["ops"]:
        o = op[0]
        what = repr(op)
        if o == "set":
            d[Interval(*op[1])] = op[2]
            m[tuple(op[1])] = op[2]
        elif o == "del":
            if tuple(op[1]) in m:
                del d[Interval(*op[1])]
                del m[tuple(op[1])]
            else:
                must_refuse(what, lambda: d.__delitem__(Interval(*op[1])), KeyError)
        elif o == "get":
            if tuple(op[1]) in m:
                ensure(d[Interval(*op[1])] == m[tuple(op[1])], "%s gives %r", what, d[Interval(*op[1])])
            else:
                must_refuse(what, lambda: d[Interval(*op[1])], KeyError)
        elif o == "delslice":
            ks = sorted(m)[op[1][0]:op[1][1]]
            del d[op[1][0]:op[1][1]]
            for k in ks:
                del m[k]
        else:
            a, b = op[1]
            r = d[a:b]
            lo, hi = (float("-inf") if a is None else a), (float("inf") if b is None else b)
            w = {k: v for k, v in m.items() if k[0] <= hi and lo <= k[1]}
            ensure(isinstance(r, SortedIntervalDict), "a slice is a %r", type(r))
            chk(r, w, "slice " + what)
        chk(d, m, what)


@unit("D02", "kinds", boundary=[dict(k=k) for k in ("int", "str", "tuple")], rule="keys of other kinds")
def d02_kinds(c):
    d = SortedIntervalDict([(Interval(0, 1), 5)])
    k = {"int": 0, "str": "a", "tuple": (0, 1)}[c["k"]]
    for what, f in (("get", lambda: d[k]), ("set", lambda: d.__setitem__(k, 1)), ("del", lambda: d.__delitem__(k))):
        must_refuse(what, f, KeyError)
    ensure(list(d.items()) == [(Interval(0, 1), 5)], "a refused key changed the dictionary")


def gen_ivop(rng):
    return dict(keys=[r_iv(rng) for _ in range(rng.randint(0, 4))], k=r_iv(rng), q=r_iv(rng),
                op=rng.choice(["set", "del", "get", "pop", "popd", "setdefault", "look"]))


def iv_same(d, m, what):
    ks = sorted(m)
    ensure([(k.start, k.end) for k in d] == ks == [(k.start, k.end) for k in d.keys()], "%s: intervals are %r, expected %r", what, list(d), ks)
    ensure([((k.start, k.end), v) for k, v in d.items()] == [(k, m[k]) for k in ks], "%s: items are %r", what, list(d.items()))
    ensure(list(d.values()) == [m[k] for k in ks], "%s: values are %r", what, list(d.values()))
    ensure(len(d) == len(m), "%s: length is %d", what, len(d))


@unit("D02", "one operation on intervals", gen_ivop, n=500, rule="one operation on a dictionary of small intervals")
def d02_one(c):
    d, m = SortedIntervalDict(), {}
    for j, k in enumerate(c["keys"]):
        d[Interval(*k)] = m[tuple(k)] = "v%d" % j
    op, k, q, t = c["op"], Interval(*c["k"]), Interval(*c["q"]), tuple(c["k"])
    iv_same(d, m, "before")
    if op in ("del", "get", "pop") and t not in m:
        must_refuse(op, lambda: d.__delitem__(k) if op == "del" else d[k] if op == "get" else d.pop(k), KeyError)
        ensure(d.get(k) is None, "a missing interval gives %r", d.get(k))
    elif op == "set":
        d[k] = m[t] = "new"
    elif op == "del":
        del d[k], m[t]
    elif op == "get":
        ensure(d[k] == m[t] == d.get(k), "get gives %r", d[k])
    elif op == "pop":
        r = d.pop(k)
        ensure(r == m.pop(t), "pop gives %r", r)
    elif op == "popd":
        r = d.pop(k, "new")
        ensure(r == m.pop(t, "new"), "pop gives %r", r)
    elif op == "setdefault":
        r = d.setdefault(k, "new")
        ensure(r == m.setdefault(t, "new"), "setdefault gives %r", r)
    iv_same(d, m, op)
    ensure((q in d) == (tuple(c["q"]) in m), "%r in the dictionary is %r", q, q in d)


def gen_ivslice(rng):
    d = dict(keys=[r_iv(rng) for _ in range(ln(rng, 0, 5))], positions=False)
    if rng.random() < .5:
        d["positions"] = [rng.choice([None, 1, 2])]
        d["a"], d["b"] = rng.choice([None, 0, 1, 2, -1]), rng.choice([None, 0, 1, 2, 5, -1])
    else:
        d["a"], d["b"] = [rng.choice([None, x]) for x in r_iv(rng)]
    return d


@unit("D02", "slicing", gen_ivslice, big=(90, 700), n=500, rule="a slice by bounds, or one of positions deleted, of a dictionary of small intervals")
def d02_slicing(c):
    d, m = SortedIntervalDict(), {}
    for j, k in enumerate(c["keys"]):
        d[Interval(*k)] = m[tuple(k)] = "v%d" % j
    if c["positions"]:
        sl = slice(c["a"], c["b"], c["positions"][0])
        for k in sorted(m)[sl]:
            del m[k]
        del d[sl]
        iv_same(d, m, "deleting %r" % sl)
        return
    lo = float("-inf") if c["a"] is None else c["a"]
    hi = float("inf") if c["b"] is None else c["b"]
    if lo > hi:
        return
    r = d[slice(c["a"], c["b"])]
    iv_same(r, {k: v for k, v in m.items() if max(k[0], lo) <= min(k[1], hi)}, "slice [%r, %r]" % (lo, hi))
    iv_same(d, m, "after slicing")


@unit("D02", "building an interval dictionary", lambda rng: dict(keys=[r_iv(rng) for _ in range(rng.randint(0, 3))],
      how=rng.choice(["list", "dict", "update", "update dict", "clear"])), n=300, rule="construction, update and clear")
def d02_building(c):
    ps = [(Interval(*k), j) for j, k in enumerate(c["keys"])]
    how = c["how"]
    d = SortedIntervalDict(ps if how == "list" else dict(ps)) if "update" not in how else SortedIntervalDict()
    if "update" in how:
        d.update(ps if how == "update" else dict(ps))
    if how == "clear":
        d.clear()
    iv_same(d, {} if how == "clear" else {(k.start, k.end): v for k, v in ps}, how)


# ------------------------------------------------------------------ D03
@unit("D03", "relations", lambda rng: dict(a=r_iv(rng), b=r_iv(rng), c=r_iv(rng), p=rng.randint(-3, 11),
                                           f=rng.random() < .3), n=5000,
      rule="triples of small intervals and a point: touching, nested, equal, apart; half-integers")
def d03_rel(c):
    k = 0.5 if c["f"] else 1
    (a0, a1), (b0, b1), (c0, c1) = [[v * k for v in c[x]] for x in "abc"]
    p = c["p"] * k
    a, b, d = Interval(a0, a1), Interval(b0, b1), Interval(c0, c1)
    ensure((p in a) == (a0 <= p <= a1), "%r in %r is %r", p, a, p in a)
    ov = a0 <= b1 and b0 <= a1
    ensure(bool(a.overlaps(b)) == ov == bool(b.overlaps(a)), "%r overlaps %r is %r", a, b, a.overlaps(b))
    i = a.intersection(b)
    ensure((i is None) == (not ov), "intersection of %r and %r is %r", a, b, i)
    if ov:
        ensure((i.start, i.end) == (max(a0, b0), min(a1, b1)), "intersection of %r and %r is %r", a, b, i)
    u = a.union(b)
    ensure((u.start, u.end) == (min(a0, b0), max(a1, b1)), "union of %r and %r is %r", a, b, u)
    eq = (a0, a1) == (b0, b1)
    ensure((a == b) is eq and (a != b) is (not eq), "%r == %r is %r", a, b, a == b)
    ensure((not eq) or hash(a) == hash(b), "equal intervals have different hashes")
    ensure(bool(a < b) == ((a0, a1) < (b0, b1)), "%r < %r is %r", a, b, a < b)
    ensure(bool(a <= b) == ((a0, a1) <= (b0, b1)), "%r <= %r is %r", a, b, a <= b)
    ensure((a.start, a.end, b.start, b.end) == (a0, a1, b0, b1), "an interval was changed")
    ensure(not (a == 5) and a != "x", "an interval equals another kind of value")
