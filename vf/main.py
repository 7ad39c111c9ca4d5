"""run.sh <PROPERTY> [--replay FILE] [--sub NAME]"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if sys.path[1:2] == [os.path.dirname(os.path.abspath(__file__))]:
    del sys.path[1]
from vf import core  # noqa: E402

NPROC = max(1, min(8, os.cpu_count() or 1))


def _task(args):
    mod, sub, shard, nshards, tier, seed, conn = args
    try:
        r = core.run_shard(mod, sub, shard, nshards, tier, seed)
    except BaseException as e:
        r = {"sub": sub.name, "shard": shard, "failure": None, "error": "".join(traceback.format_exception(e))}
    conn.send(r)
    conn.close()


def run_all(mod, subs, tier, seed):
    """Runs the shards of all sub-checks in forked processes, at most NPROC at a time; stops at the first failure."""
    ctx = mp.get_context("fork")
    todo = []
    for sub in subs:
        n = max(1, sub.shards)
        todo.extend((sub, k, n) for k in range(n))
    running, results, stop = {}, [], False
    todo.reverse()
    while (todo and not stop) or running:
        while todo and not stop and len(running) < NPROC:
            sub, k, n = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_task, args=((mod, sub, k, n, tier, seed, b),), daemon=True)
            p.start()
            b.close()
            running[a] = (p, sub, k)
        for a in mp.connection.wait(list(running), timeout=5):
            p, sub, k = running.pop(a)
            try:
                r = a.recv()
            except EOFError:
                p.join()
                r = {"sub": sub.name, "shard": k, "failure": None,
                     "error": "worker ended without a result (exit code %s)" % p.exitcode}
            a.close()
            p.join()
            results.append(r)
            if r["failure"] is not None:
                stop = True
        if stop:
            for a, (p, sub, k) in list(running.items()):
                p.terminate()
                p.join()
                a.close()
            running.clear()
    return results


def load_known(pid):
    with open(os.path.join(core.ROOT, "known_findings.json")) as f:
        kf = json.load(f)
    return {k["id"]: k for k in kf["known"] if k["property"] == pid}


def main():
    pid = sys.argv[1]
    if pid == "--setup":     # nothing to build: checks that the interpreter, the libraries and the code can be used
        core.setup_imports()
        os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
        print("ready")
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    core.setup_imports()
    mod = importlib.import_module("props." + pid.lower())
    assert mod.ID == pid
    subs = mod.SUBCHECKS

    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            rep = json.load(f)
        sub = [s for s in subs if s.name == rep["sub"]][0]
        try:
            core.run_case(sub, rep["case"])
        except (core.Violation, core.Hang) as v:
            print("reproduced:", v)
            print("VIOLATION property=%s replay=%s" % (pid, sys.argv[sys.argv.index("--replay") + 1]))
            return 1
        except core.Discard:
            print("the case is outside of the domain")
            return 0
        print("the case passes")
        return 0

    if "--sub" in sys.argv:
        subs = [s for s in subs if s.name == sys.argv[sys.argv.index("--sub") + 1]]
    results = run_all(mod, subs, tier, seed)

    errors = [r for r in results if r.get("error")]
    failures = [r for r in results if r.get("failure")]
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "inconclusive": 0, "rule": mod.RULE,
           "samples": [], "per_subcheck": {}}
    known = {}
    for sub in subs:
        rs = [r for r in results if r["sub"] == sub.name and "evaluations" in r]
        d, nt, labels = set(), set(), {}
        ev = 0
        samples = []
        for r in rs:
            ev += r["evaluations"]
            d |= r["distinct"]
            nt |= r["distinct_nt"]
            cov["discarded"] += r["discarded"]
            cov["inconclusive"] += r["inconclusive"]
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in r["known"].items():
                known[k] = known.get(k, 0) + v
            samples.extend(r["samples"])
        cov["evaluations"] += ev
        cov["distinct_nontrivial"] += len(nt)
        cov["per_subcheck"][sub.name] = {
            "evaluations": ev, "distinct": len(d), "distinct_nontrivial": len(nt),
            "labels": dict(sorted(labels.items())), "cpu_s": round(sum(r["wall"] for r in rs), 2)}
        for s in samples[:2]:
            cov["samples"].append({"subcheck": sub.name, "case": s})
    cov["known_finding_cases"] = known
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(failures)}
    os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(core.ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    listed = load_known(pid)
    for k in sorted(known):
        if k in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[k]["what"]))
        else:
            errors.append({"sub": "-", "shard": 0, "error": "unlisted known finding " + k})
    print("%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %d inconclusive, %.1f s" % (
        pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], cov["discarded"], cov["inconclusive"],
        time.time() - t0))
    if failures:
        failures.sort(key=lambda r: (len(json.dumps(r["failure"]["case"])), r["sub"], r["shard"]))
        r = failures[0]
        os.makedirs(os.path.join(core.ROOT, "replays"), exist_ok=True)
        path = os.path.join(core.ROOT, "replays", "%s-%s.json" % (pid, r["sub"]))
        with open(path, "w") as f:
            json.dump({"property": pid, "sub": r["sub"], "case": r["failure"]["case"],
                       "message": r["failure"]["message"], "seed": seed, "tier": tier}, f, indent=1)
        print("%s/%s: %s" % (pid, r["sub"], r["failure"]["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors[:3]:
            print("HARNESS ERROR in %s/%s shard %s:\n%s" % (pid, e["sub"], e["shard"], e["error"][-1500:]), file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    rc = 2
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
    sys.stdout.flush()
    sys.exit(rc)
