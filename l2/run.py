"""Run the executable contracts of one property, or replay one case.

  run.py PID OUT.json [--tier quick|thorough] [--seed N] [--budget S]
  run.py --replay FILE
Writes a JSON report; exit status 0 whatever was found (3 = harness error)."""
import hashlib
import json
import os
import random
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import UNITS, execute, Skip

MODULES = {"N": "note", "C": "note", "P": "note", "I": "note", "S": "seq", "T": "coll", "R": "coll",
           "D": "dicts", "G": "graph", "V": "graph", "M": "music", "X": "data", "F": "files", "Q": "files"}


BIG_EACH = 4            # large cases of each size


def load(pid):
    __import__(MODULES[pid[0]])
    return [u for (p, _), u in UNITS.items() if p == pid]


def run_property(pid, tier, seed, budget):
    t0 = time.time()
    units = load(pid)
    t_import = time.time() - t0
    rep = dict(property=pid, units=[], violations=[], evaluations=0, distinct=0, skipped=0, samples=[],
               import_s=round(t_import, 2))
    mult = 1 if tier == "quick" else 20
    deadline = time.time() + budget
    for k, u in enumerate(units):
        # each contract gets its share of the time that is left
        until = time.time() + max(0.0, deadline - time.time()) / (len(units) - k)
        rng = random.Random("%d:%s:%s" % (seed, pid, u.name))
        seen, ran, skipped, viol = set(), 0, 0, None
        cases = [(c, "boundary") for c in u.boundary]
        n = u.n * mult if u.gen else 0
        i = 0
        cut = False
        while True:
            if i < len(cases):
                case, kind = cases[i]
            elif i - len(cases) < n:
                case, kind = u.gen(rng), "random"
            elif i - len(cases) - n < BIG_EACH * len(u.big):
                common.BIG[0] = u.big[(i - len(cases) - n) // BIG_EACH]
                try:
                    case, kind = u.gen(rng), "large"
                finally:
                    common.BIG[0] = 0
            else:
                break
            i += 1
            if time.time() > until:
                cut = True
                break
            h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:10]
            try:
                msg = execute(u, case)
            except Skip:
                skipped += 1
                continue
            ran += 1
            if h not in seen:
                seen.add(h)
            if len(rep["samples"]) < 4 and ran in (1, 7):
                rep["samples"].append(dict(unit=u.name, case=case))
            if msg is not None:
                viol = dict(unit=u.name, case=case, message=msg if len(msg) < 1500 else msg[:1500] + " ...")
                rep["violations"].append(viol)
                break
        rep["units"].append(dict(name=u.name, evaluations=ran, distinct=len(seen), skipped=skipped,
                                 rule=u.rule, cut_by_time=cut))
        rep["evaluations"] += ran
        rep["distinct"] += len(seen)
        rep["skipped"] += skipped
    rep["wall_s"] = round(time.time() - t0, 2)
    return rep


def replay(path):
    d = json.load(open(path))
    load(d["property"])
    u = UNITS[(d["property"], d["unit"])]
    try:
        msg = execute(u, d["case"])
    except Skip:
        msg = None
        print("SKIP: outside the precondition")
    if msg is None:
        print("HELD property=%s unit=%s" % (d["property"], d["unit"]))
        return 0
    print("FAILED property=%s unit=%s: %s" % (d["property"], d["unit"], msg))
    return 1


def main(a):
    if a[0] == "--replay":
        return replay(a[1])
    pid, out = a[0], a[1]
    opt = dict(zip(a[2::2], a[3::2]))
    rep = run_property(pid, opt.get("--tier", "quick"), int(opt.get("--seed", "1")),
                       float(opt.get("--budget", "40")))
    json.dump(rep, open(out, "w"), indent=1)
    return 0


if __name__ == "__main__":
    import traceback
    try:
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
