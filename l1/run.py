#!/usr/bin/env python3-vt
"""l1/run.py PID OUT.json — verify every contract of one property against the
current source of /repo and write the outcome of each obligation."""
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULES = ("notes", "events", "seqs", "coll", "dicts", "registry", "theory", "graphs", "playing", "data", "files", "tensors", "datasets", "building", "learning", "queries", "reading", "decoding", "writing")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def load_contracts():
    import importlib
    from contracts import base
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, "contracts", m + ".py")):
            importlib.import_module("contracts." + m)
    return base.UNITS


class Called:
    """the functions of the repository that ran symbolically"""

    def __init__(self):
        self.names = set()

    def __call__(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            f = co.co_filename
            if f.startswith(REPO) and not co.co_name.startswith(("_pv", "<")):
                self.names.add("%s:%s" % (os.path.relpath(f, REPO), co.co_qualname))


def verify(u, deadline, tier, log, out, shard=None):
    """one contract (or one part of its paths); writes its state to the file `out` as it goes"""
    from pyvc import core, loader, rt, stubs
    t0 = time.time()
    e = core.Engine(deadline, prove_ms=u.prove_ms * (3 if tier == "thorough" else 1))
    e.unit_pid, e.unit_home, e.unit, e.bounded, e.abstract = u.pid, u.home, u.name, bool(u.bounded), u.abstract
    if shard:
        e.pool, e.first = shard[0], shard[1] == 0
    called = Called()
    last = [0.0]
    ended = []

    def dump(status=None, detail="", paths=0, force=False):
        if not force and time.time() - last[0] < 0.5:
            return
        last[0] = time.time()
        obs = []
        if not e.obs and (status or not shard):
            obs.append(dict(name="%s/all obligations" % u.name, status=status or "unsupported", backend="",
                            time=0.0, detail=detail or "no obligation was reached", cases=[], approx=False,
                            bounded=bool(u.bounded)))
        for o in e.obs.values():
            st = o.status or "unknown"
            if status and st == "discharged":
                st = status           # some paths were not explored
            obs.append(dict(name=o.name, status=st, backend="+".join(sorted(o.backends)) or "", time=round(o.time, 3),
                            detail=o.detail or (detail if status else ""), cases=o.cases, approx=o.approx,
                            bounded=o.bounded, vcs=o.vcs))
        d = dict(obs=obs, functions=sorted(called.names), trusted=sorted(e.trusted), assumed=sorted(e.assumed),
                 ended=len(ended), stat=dict(unit=u.name, paths=paths or e.paths, solver_s=round(e.solver_s, 2),
                           wall_s=round(time.time() - t0, 2), status=status or "complete", detail=detail))
        json.dump(d, open(out + ".part", "w"))
        os.replace(out + ".part", out)
    e.progress = lambda: dump("unknown", "out of time")
    status, detail, paths = None, "", 0
    try:
        w = loader.World(REPO, rt, stubs.make())
        e.world = w

        def once():
            e.case_of = None
            u.fn(w)
            ended.append(1)
        sys.setprofile(called)
        try:
            paths = e.explore(once)
            if not ended and not shard:
                raise core.Unsupported("no path reaches the end of the contract")
        finally:
            sys.setprofile(None)
    except core.Unsupported as ex:
        status, detail = "unsupported", str(ex)
        if log:
            traceback.print_exc()
    except core.Timeout:
        status, detail = "unknown", "out of time"
    except RecursionError:
        status, detail = "unsupported", "recursion"
    except Exception as ex:
        if log:
            traceback.print_exc()
        status = "unsupported"
        detail = "the contract could not be applied: %s: %s" % (type(ex).__name__, str(ex)[:300])
    dump(status, detail, paths, True)


def parts(mine):
    """[(unit, (pool, k) or None, share)]: when there are fewer contracts than processors, the paths of the
    larger ones are shared out"""
    from pyvc import core
    total = sum(u.share for u in mine)
    ns = [max(1, min(6, int(WORKERS * u.share / total))) for u in mine]
    while sum(ns) > WORKERS and max(ns) > 1:            # all parts of a contract must run at once
        ns[ns.index(max(ns))] -= 1
    out = []
    for k, (u, n) in enumerate(zip(mine, ns)):
        pool = core.Pool(n) if n > 1 else None
        out += [(k, pool and (pool, j), u.share / n) for j in range(n)]
    return out


def part_result(work, k, u):
    try:
        return json.load(open(os.path.join(work, "%d.json" % k)))
    except (OSError, ValueError):
        return dict(obs=[dict(name="%s/all obligations" % u.name, status="unknown", backend="", time=0.0,
                              detail="the verifier did not finish", cases=[], approx=False,
                              bounded=bool(u.bounded))], functions=[], trusted=[], assumed=[], ended=0,
                    stat=dict(unit=u.name, status="unknown", detail="the verifier did not finish"))


WORST = ("failed", "unknown", "unsupported")


def joined(ds, u):
    """the parts of a contract as one: an obligation is discharged where every part that reaches it discharges
    it and every part was explored"""
    if len(ds) == 1:
        return ds[0]
    open_ = [d["stat"] for d in ds if d["stat"]["status"] != "complete"]
    obs = {}
    for d in ds:
        for o in d["obs"]:
            m = obs.setdefault(o["name"], dict(o, vcs=0, time=0.0, cases=[], backend=set(), statuses=[]))
            m["vcs"] += o.get("vcs", 0)
            m["time"] = round(m["time"] + o["time"], 3)
            m["cases"] += o["cases"]
            m["backend"] |= set(o["backend"].split("+")) - {""}
            m["approx"] = m["approx"] or o["approx"]
            m["statuses"].append((o["status"], o["detail"]))
    for m in obs.values():
        st = m.pop("statuses")
        m["backend"] = "+".join(sorted(m["backend"]))
        bad = [x for x in st if x[0] != "discharged"]
        bad.sort(key=lambda x: WORST.index(x[0]) if x[0] in WORST else -1)
        if bad:
            m["status"], m["detail"] = bad[0]
        elif open_:
            m["status"], m["detail"] = open_[0]["status"], open_[0]["detail"]
        else:
            m["status"] = "discharged"
    whole = "%s/all obligations" % u.name
    if len(obs) > 1:
        obs.pop(whole, None)
    if not open_ and not any(d["ended"] for d in ds):
        obs = {whole: dict(name=whole, status="unsupported", backend="", time=0.0, cases=[], approx=False,
                           detail="no path reaches the end of the contract", bounded=bool(u.bounded), vcs=0)}
    stat = dict(unit=u.name, parts=len(ds), paths=sum(d["stat"].get("paths", 0) for d in ds),
                solver_s=round(sum(d["stat"].get("solver_s", 0) for d in ds), 2),
                wall_s=max(d["stat"].get("wall_s", 0) for d in ds),
                status=open_[0]["status"] if open_ else "complete", detail=open_[0]["detail"] if open_ else "")
    return dict(obs=list(obs.values()), stat=stat, functions=[f for d in ds for f in d["functions"]],
                trusted=[f for d in ds for f in d["trusted"]], assumed=[f for d in ds for f in d["assumed"]])


def run(pid, units, budget, tier, log=None, only=None):
    import tempfile
    from pyvc import core, loader, rt, stubs       # imported once, shared by the workers
    mine = [u for u in units if u.pid == pid and (only is None or only in u.name)]
    end = time.time() + budget
    obs, functions, trusted, assumed, stats = [], set(), set(), set(), []
    with tempfile.TemporaryDirectory(prefix="verif_l1_") as work:
        jobs = parts(mine)
        todo = sorted(range(len(jobs)), key=lambda k: -jobs[k][2])
        running = {}
        while todo or running:
            while todo and len(running) < WORKERS:
                k = todo.pop(0)
                u, shard, share = jobs[k]
                left = sum(jobs[j][2] for j in todo) + share
                par = max(1.0, min(WORKERS, len(todo) + len(running) + 1))
                slot = max(3.0, min(end - time.time(), (end - time.time()) * share * par / left))
                pid_ = os.fork()
                if pid_ == 0:
                    try:
                        os.setsid()
                        verify(mine[u], time.time() + slot, tier, log, os.path.join(work, "%d.json" % k), shard)
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(0)
                running[pid_] = (k, time.time() + slot + 8)
            time.sleep(0.02)
            for p, (k, limit) in list(running.items()):
                r, _ = os.waitpid(p, os.WNOHANG)
                if r == 0 and time.time() > limit:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    r = p
                if r:
                    del running[p]
        for k, u in enumerate(mine):
            d = joined([part_result(work, j, u) for j, (v, _, _) in enumerate(jobs) if v == k], u)
            obs += d["obs"]
            functions |= set(d["functions"])
            trusted |= set(d["trusted"])
            assumed |= set(d["assumed"])
            if u.bounded:
                assumed.add("bounded: %s: %s" % (u.name, u.bounded))
            stats.append(d["stat"])
    if mine:
        assumed.add("machine floating point is treated as real arithmetic, machine integers as integers")
    return dict(obligations=obs, functions=sorted(functions), trusted=sorted(trusted),
                assumptions=sorted(assumed), dropped=loader.DROPPED, inlined=[], units=stats)


def main():
    pid, out = sys.argv[1], sys.argv[2]
    budget, tier, only = 100.0, "quick", None
    a = sys.argv[3:]
    for i, x in enumerate(a):
        if x == "--budget":
            budget = float(a[i + 1])
        if x == "--tier":
            tier = a[i + 1]
        if x == "--only":
            only = a[i + 1]
    log = "-v" in a
    try:
        d = run(pid, load_contracts(), budget, tier, log, only)
    except Exception as ex:
        d = dict(obligations=[], functions=[], trusted=[], assumptions=[],
                 error="verifier: %s: %s" % (type(ex).__name__, str(ex)[:500]))
        traceback.print_exc()
    tmp = out + ".tmp"
    json.dump(d, open(tmp, "w"), indent=1)
    os.replace(tmp, out)
    if log:
        for o in d["obligations"]:
            if o["status"] != "discharged" or "-vv" in a:
                print("%-12s %s  [%d vcs, %.1fs] %s %s" % (o["status"], o["name"], o.get("vcs", 0), o["time"], o["detail"][:400],
                                                     json.dumps(o["cases"])[:500] if o["cases"] else ""))
        for s in d.get("units", []):
            print("   ", s)


if __name__ == "__main__":
    main()
