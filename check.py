#!/usr/bin/env python3-vt
"""check.py PID — decide one property on the current tree of /repo.

Runs the deductive verifier (l1/) on the source of /repo and the executable
contracts (l2/) on the real code, merges both, rewrites evidence/PID.json and
ends with 0 (held) or 1 (a VIOLATION line was printed)."""
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
VT = sys.executable
MORE, MORE_RUNS = {"quick": 35.0, "thorough": 600.0}, 7
LIM = {"quick": (150.0, 60.0), "thorough": (1500.0, 600.0)}


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="",
             WANDB_MODE="offline", VERIF_REPO=REPO, OMP_NUM_THREADS="1")
    e["PYTHONPATH"] = REPO
    return e


def start(cmd, log):
    return subprocess.Popen(cmd, stdout=open(log, "w"), stderr=subprocess.STDOUT, env=env(), cwd=HERE)


def finish(p, deadline):
    try:
        return p.wait(max(1.0, deadline - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None


def tail(path, n=1500):
    try:
        return open(path, errors="replace").read()[-n:]
    except OSError:
        return ""


def save_replay(pid, tag, d):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s.json" % (pid, tag))
    json.dump(d, open(path, "w"), indent=1)
    return path


def replays_fail(path, work):
    """Run the case of a replay file on the real code; True when the contract breaks."""
    log = os.path.join(work, "replay.log")
    p = start([VENV, "-B", os.path.join(HERE, "l2", "run.py"), "--replay", path], log)
    rc = finish(p, time.time() + 60)
    return rc == 1 and "FAILED property=" in tail(log, 4000), tail(log, 600)


def known(pid):
    try:
        k = json.load(open(os.path.join(HERE, "known_findings.json")))
    except OSError:
        return []
    return [f for f in k.get("findings", []) if f["property"] == pid]


def all_proved(l1):
    return bool(l1["obligations"]) and all(o["status"] == "discharged" for o in l1["obligations"])


def search_longer(pid, seed, tier, l2, work, deadline):
    """what the verifier leaves open is looked for longer on the real code"""
    budget = min(MORE[tier], deadline - time.time() - 20)
    if budget < 10:
        return
    ps = []
    for k in range(1, 1 + MORE_RUNS):
        f = os.path.join(work, "more%d.json" % k)
        ps.append((f, start([VENV, "-B", os.path.join(HERE, "l2", "run.py"), pid, f, "--tier", "thorough", "--seed",
                             str(seed * 1000 + k), "--budget", str(budget)], f + ".log")))
    for f, p in ps:
        finish(p, time.time() + budget + 60)
        if not os.path.exists(f):
            continue
        more = json.load(open(f))
        for q in ("evaluations", "distinct", "skipped"):
            l2[q] += more[q]
        for a in more["units"]:
            for b in l2["units"]:
                if a["name"] == b["name"]:
                    for q in ("evaluations", "distinct", "skipped"):
                        b[q] += a[q]
        have = {v["unit"] for v in l2["violations"]}
        l2["violations"] += [v for v in more["violations"] if v["unit"] not in have]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in LIM:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    lim, budget = LIM[tier]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    entry = next(c for c in man["checks"] if c["property"] == pid)
    with tempfile.TemporaryDirectory(prefix="verif_check_") as work:
        l2out, l1out = os.path.join(work, "l2.json"), os.path.join(work, "l1.json")
        p2 = start([VENV, "-B", os.path.join(HERE, "l2", "run.py"), pid, l2out, "--tier", tier, "--seed", str(seed),
                    "--budget", str(budget)], os.path.join(work, "l2.log"))
        p1 = start([VT, "-B", os.path.join(HERE, "l1", "run.py"), pid, l1out, "--tier", tier, "--seed", str(seed),
                    "--budget", str(lim * 0.8)], os.path.join(work, "l1.log"))
        deadline = t0 + lim + 60
        rc1, rc2 = finish(p1, deadline), finish(p2, deadline)
        l2 = json.load(open(l2out)) if os.path.exists(l2out) else None
        l1 = json.load(open(l1out)) if os.path.exists(l1out) else None
        rep_missing = l1 is None or l2 is None
        if l1 is None:
            l1 = dict(obligations=[], functions=[], trusted=[], assumptions=[],
                      error="the verifier ended with status %r: %s" % (rc1, tail(os.path.join(work, "l1.log"))))
        if l2 is None:
            l2 = dict(units=[], violations=[], evaluations=0, distinct=0, skipped=0, samples=[],
                      error="the executable contracts ended with status %r: %s" % (rc2, tail(os.path.join(work, "l2.log"))))
        if not l2["violations"] and l2.get("error") is None and not all_proved(l1):
            search_longer(pid, seed, tier, l2, work, t0 + lim + 60)
        out = []      # (replay path, suffix, text)
        listed = known(pid)
        seen = []
        for v in l2["violations"]:
            k = [f for f in listed if f["unit"] == v["unit"] and f.get("message", "") in v["message"]]
            if k:
                seen.append(k[0])
                continue
            path = save_replay(pid, "case", dict(property=pid, unit=v["unit"], case=v["case"], message=v["message"],
                                                 source="executable contract"))
            out.append((path, "", "%s: %s" % (v["unit"], v["message"])))
        failed = [o for o in l1["obligations"] if o["status"] == "failed"]
        for i, o in enumerate(failed[:6]):
            rep = dict(property=pid, obligation=o["name"], verifier_output=o.get("detail", ""), source="verifier")
            suffix = " no-failing-input-found"
            real = None
            for c in o.get("cases", [])[:4]:
                d = dict(rep, unit=c["unit"], case=c["case"])
                path = save_replay(pid, "vc%d" % i, d)
                real, log = replays_fail(path, work)
                if real:
                    suffix = ""
                    break
            else:
                if o.get("approx"):
                    # the counter-model uses an over-approximated library call and does not
                    # fail on the real code: the obligation is undecided, not violated
                    o["status"] = "unknown"
                    o["detail"] = "spurious counter-model: " + o.get("detail", "")
                    continue
                path = save_replay(pid, "vc%d" % i, rep)
            if suffix == "" or not out:
                out.append((path, suffix, "obligation %s failed: %s" % (o["name"], o.get("detail", "")[:400])))
        # a violation with a failing input first
        out.sort(key=lambda x: x[1] != "")
        for f in seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
        obs = l1["obligations"]
        done = [o for o in obs if o["status"] == "discharged"]
        open_ = [o for o in obs if o["status"] != "discharged"]
        write_evidence(pid, tier, seed, entry, l1, l2, obs, done, open_, time.time() - t0, len(out))
        print("%s: %d/%d obligations discharged, %d executions of the contract, %.1f s" % (
            pid, len(done), len(obs), l2["evaluations"], time.time() - t0))
        for o in open_:
            print("  open: %s (%s) %s" % (o["name"], o["status"], o.get("detail", "")[:200]))
        for e in (l1, l2):
            if e.get("error"):
                print("  note:", e["error"])
        for path, suffix, text in out:
            print(text)
        if out:
            path, suffix, _ = out[0]
            print("VIOLATION property=%s replay=%s%s" % (pid, path, suffix))
            return 1
        # a part that ended without an answer is no answer, not a pass
        return 2 if rep_missing else 0


def write_evidence(pid, tier, seed, entry, l1, l2, obs, done, open_, wall, nviol):
    by = {}
    for o in done:
        by[o.get("backend", "z3")] = by.get(o.get("backend", "z3"), 0) + 1
    proof = dict(
        obligations=len([o for o in obs if not o.get("bounded")]),
        discharged=len([o for o in done if not o.get("bounded")]),
        bounded_obligations=len([o for o in obs if o.get("bounded")]),
        bounded_discharged=len([o for o in done if o.get("bounded")]),
        discharged_by=by, solver_s=round(sum(o.get("time", 0) for o in obs), 2),
        checker_cmd="python3-vt /verif/l1/run.py %s OUT.json" % pid,
        functions_under_contract=l1.get("functions", []), inlined=l1.get("inlined", []),
        dropped_by_extraction=l1.get("dropped", []),
        trusted_base=l1.get("trusted", []) or ["none"],
        undischarged=[dict(name=o["name"], status=o["status"], detail=o.get("detail", "")[:300]) for o in open_][:40],
        obligation_names=[o["name"] for o in obs][:200])
    cov = dict(proof)
    cov.update(evaluations=l2["evaluations"], distinct_nontrivial=l2["distinct"],
               rule="executable contracts run on the real code (bounded, cross-check of the verifier): " +
                    "; ".join("%s: %s" % (u["name"], u["rule"]) for u in l2["units"]),
               samples=l2["samples"], units=l2["units"], skipped=l2["skipped"],
               explanation=entry.get("level_note", ""))
    for k, e in (("l1_error", l1), ("l2_error", l2)):
        if e.get("error"):
            cov[k] = e["error"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=seed, level=entry["level"], coverage=cov,
                   assumptions=l1.get("assumptions", []) or ["none"], wall_s=round(wall, 2), violations=nviol),
              open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
