#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property
   check.py --learn [PROPERTY..]               rewrite tools/expected.json
   check.py --replay FILE                      re-run a recorded violation natively

Every job runs one harness symbolically (engine/), over LLVM IR regenerated
from /repo's current tree.  A counterexample counts only after the same harness,
compiled to ordinary machine code, fails on it."""
import json, os, subprocess, sys, time, threading, resource
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import baabuild
from baabuild import BUILD, VERIF

EXPECTED = os.path.join(HERE, "expected.json")
FINDINGS = os.path.join(VERIF, "known_findings.txt")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
MEM = 9 << 30
procs = set()
procs_lock = threading.Lock()


def csv(p):
    return ",".join(str(x) for x in p)


def job_name(j):
    return "%s(%s)/%s" % (j["h"], csv(j["p"]), j["prof"])


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (40 << 30, 40 << 30))


def run_engine(j, timeout):
    cmd = [os.path.join(BUILD, "engine/release/baasym"), "run", os.path.join(BUILD, j["prof"] + ".ll"), j["h"],
           "--param", csv(j["p"]), "--timeout", str(int(timeout)), "--query-ms", str(int(min(j.get("query_ms", 240_000), timeout * 1000))), "--seed", str(SEED)]
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    with procs_lock:
        procs.add(p)
    try:
        out, err = p.communicate(timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        err = "killed after %d s\n" % (timeout + 60) + err
    finally:
        with procs_lock:
            procs.discard(p)
    r = None
    try:
        r = json.loads(out)
    except Exception:
        lines = [l for l in err.splitlines() if "panicked" in l or "killed" in l or "memory" in l]
        r = {"violations": [], "incomplete": ["engine stopped (%s): %s" % (p.returncode, " | ".join((lines or err.splitlines() or ["?"])[:4]))],
             "ends": [], "covers": [], "functions": [], "lines": {}, "abstractions": [], "crashed": True,
             "stats": {}, "solver": {}, "dep_functions": 0, "seconds": time.time() - t0}
    r["wall"] = time.time() - t0
    return r


def native(prof, h, params, inputs, timeout=60):
    cmd = [os.path.join(BUILD, "native-" + prof, prof, "baareplay"), h, csv(params), csv(inputs)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return 1, [], "did not end within %d s" % timeout, cmd
    tr, res = [], ""
    for l in p.stdout.splitlines():
        if l.startswith("TRACE "):
            tr = l[6:].split(",") if l[6:] else []
        elif l.startswith("RESULT ") or l.startswith("PANIC "):
            res += l + "; "
    rc = p.returncode
    if rc not in (0, 1, 3):
        res += "ended by signal or abort (%d) %s" % (rc, p.stderr.strip()[:200])
        rc = 1
    return rc, tr, res, cmd


def findings():
    """{(property, harness, id)}: text   and the list of fixed entries"""
    known = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            if l.startswith("known: "):
                head, text = l[7:].split(" -- ", 1)
                d = dict(x.split("=", 1) for x in head.split())
                known[(d["property"], d["harness"], int(d["id"]))] = (d, text.strip())
    return known


def validate(j, r, limit):
    """replays the paths' sample inputs on the native build"""
    ok, bad = 0, []
    ends = r["ends"]
    if len(ends) > limit:
        step = len(ends) / limit
        ends = [ends[int(i * step)] for i in range(limit)]
    for e in ends:
        rc, tr, res, _ = native(j["prof"], j["h"], j["p"], e["inputs"])
        want = e["traces"]
        good = rc == 0 and (e["panicked"] or tr == want) and (e["panicked"] == ("panicked as required" in res))
        if good:
            ok += 1
        else:
            bad.append("%s inputs %s: native exit %d %s traces %s, symbolic %s%s" % (job_name(j), csv(e["inputs"]), rc, res, csv(tr)[:200], csv(want)[:200], " panicked" if e["panicked"] else ""))
    return ok, bad


def decide(prop, tier):
    import props
    t0 = time.time()
    P = props.PROPS[prop]
    jobs = props.jobs(prop, tier)
    exp = json.load(open(EXPECTED)) if os.path.exists(EXPECTED) else {}
    budget = P.get("budget", 600) if tier == "quick" else P.get("thorough_budget", 3000)
    try:
        baabuild.build_all()
    except baabuild.BuildError as e:
        print(e)
        print("ERROR property=%s the harnesses do not build against /repo's tree" % prop)
        return 2
    tb = time.time()
    jobs.sort(key=lambda j: -exp.get(job_name(j), {}).get("s", 20))
    deadline = t0 + budget
    stop = threading.Event()
    results = []

    def work(j, first=True):
        left = deadline - time.time()
        if stop.is_set() or left < 3:
            return j, None, None
        # no job may use up the time of the others: one that takes far longer than it used to is tried again at the end
        limit = max(40, 5 * exp.get(job_name(j), {}).get("s", 40)) if first and tier == "quick" else 10_000
        r = run_engine(j, min(left, limit, j.get("timeout", 10_000)))
        if first and r["incomplete"] and not r["violations"] and limit < left:
            again.append((j, r))
            return j, None, "again"
        conf = []
        for v in r["violations"]:
            rc, tr, res, cmd = native(j["prof"], j["h"], j["p"], v["inputs"])
            conf.append((v, rc, res, cmd))
        val = validate(j, r, 24 if tier == "quick" else 100)
        return j, r, (conf, val)

    known = findings()
    confirmed, unconfirmed, knownhit, mismatches, incomplete, notrun, vacuous = [], [], {}, [], [], [], []
    validated = 0
    again = []

    def rounds(ex):
        for f in as_completed([ex.submit(work, j) for j in jobs]):
            if f.result()[2] != "again":
                yield f.result()
        # what is left, the shortest first; what cannot be finished keeps its first result
        left = dict((job_name(j), r) for j, r in again)
        retry = sorted((j for j, _ in again), key=lambda j: exp.get(job_name(j), {}).get("s", 20))
        for f in as_completed([ex.submit(work, j, False) for j in retry]):
            j, r, x = f.result()
            yield (j, left[job_name(j)], ([], (0, []))) if r is None and not stop.is_set() else (j, r, x)

    with ThreadPoolExecutor(8) as ex:
        for j, r, x in rounds(ex):
            if r is None:
                notrun.append(job_name(j))
                continue
            conf, (ok, bad) = x
            validated += ok
            mismatches += bad
            results.append((j, r))
            new = False
            for v, rc, res, cmd in conf:
                if rc == 1:
                    k = known.get((prop, j["h"], v["id"]))
                    if k and (v["kind"] == "assert" and "fails" in res and "assertion %d " % v["id"] in res or v["kind"] == "panic" and "panic" in k[0] and k[0]["panic"].replace("_", " ") in res):
                        knownhit[(j["h"], v["id"])] = k[1]
                    else:
                        confirmed.append((j, v, res, cmd))
                        new = True
                elif any("uninterpreted" in x for x in r.get("abstractions", [])):
                    # possible only with the abstraction: says nothing (the jobs without it decide)
                    r["incomplete"].append("counterexample with inputs %s is not one of the real code: the abstraction (%s) is too coarse for this code" % (csv(v["inputs"]), "; ".join(r["abstractions"])))
                else:
                    unconfirmed.append((j, v, rc, res))
            if new and tier == "quick":
                stop.set()  # one confirmed violation decides
            for m in r["incomplete"]:
                incomplete.append("%s: %s" % (job_name(j), m))
            e = exp.get(job_name(j))
            if e and not r["incomplete"] and not r["violations"]:
                miss = sorted(set(e["c"]) - set(r["covers"]))
                if miss:
                    vacuous.append("%s: cover points %s not reached" % (job_name(j), miss))
            if not r["incomplete"] and r["stats"].get("asserts", 0) == 0:
                vacuous.append("%s: no assertion reached" % job_name(j))

    wall = time.time() - t0
    paths = []
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for i, (j, v, res, cmd) in enumerate(confirmed):
        f = os.path.join(rdir, "%s-%d.json" % (prop, i))
        json.dump({"property": prop, "harness": j["h"], "params": j["p"], "profile": j["prof"], "inputs": v["inputs"], "kind": v["kind"], "id": v["id"],
                   "message": v["msg"], "location": v["loc"], "native_result": res, "command": " ".join(cmd)}, open(f, "w"), indent=1)
        paths.append(f)

    write_evidence(prop, tier, P, results, validated, confirmed, unconfirmed, knownhit, mismatches, incomplete, notrun, vacuous, wall, tb - t0)

    for (h, i), text in sorted(knownhit.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    for m in sorted(set(incomplete))[:20]:
        print("INCOMPLETE", m[:300])
    for m in notrun:
        print("INCOMPLETE", m, "not run: out of time or stopped after a violation")
    for (j, v, res, cmd), f in list(zip(confirmed, paths))[:20]:
        print("  %s: %s %s %s at %s; inputs %s; natively: %s" % (job_name(j), v["kind"], v["id"], v["msg"], " < ".join(v["loc"][:4]), csv(v["inputs"]), res))
        print("VIOLATION property=%s replay=%s" % (prop, f))
    for j, v, rc, res in unconfirmed[:10]:
        print("UNCONFIRMED %s: %s %s %s; inputs %s; native exit %d %s" % (job_name(j), v["kind"], v["id"], v["msg"], csv(v["inputs"]), rc, res))
    for m in mismatches[:10]:
        print("MISMATCH", m[:600])
    for m in vacuous[:10]:
        print("VACUOUS", m)
    done = [j for j, r in results if not r["incomplete"]]
    print("%s %s: %d of %d jobs complete, %d queries, %d asserts, %d paths validated natively, build %.1f s, %.1f s in all" % (
        prop, tier, len(done), len(jobs), sum(r["solver"].get("queries", 0) for _, r in results), sum(r["stats"].get("asserts", 0) for _, r in results), validated, tb - t0, wall))
    if confirmed:
        return 1
    if unconfirmed or mismatches or vacuous:
        return 2
    if not done:
        print("ERROR nothing was explored completely")
        return 2
    return 0


def write_evidence(prop, tier, P, results, validated, confirmed, unconfirmed, knownhit, mismatches, incomplete, notrun, vacuous, wall, build_s):
    S = lambda k: sum(r["stats"].get(k, 0) for _, r in results)
    Z = lambda k: sum(r["solver"].get(k, 0) for _, r in results)
    fns, lines = {}, {}
    for _, r in results:
        for n, k in r["functions"]:
            fns[n] = max(fns.get(n, 0), k)
        for f, l in r["lines"].items():
            lines.setdefault(f, set()).update(x for x in l if x)
    samples = []
    for j, r in results:
        if r["ends"] and len(samples) < 12:
            e = r["ends"][len(r["ends"]) // 2]
            samples.append({"job": job_name(j), "inputs": e["inputs"], "observed": e["traces"][:16], "panicked": e["panicked"]})
    versions = sorted({r["solver"].get("version") for _, r in results if r["solver"].get("version")})
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": S("paths") + S("forks") + S("merges"),
            "transitions": S("steps"),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "exhaustive": False,
            "paths": S("paths"), "forks": S("forks"), "merges": S("merges"), "expected_panics": S("expected_panics"),
            "assertions": S("asserts"), "assertions_folded": S("asserts_trivial"), "assertions_by_solver": S("asserts_solver"),
            "solver": {"name": "z3", "version": versions, "queries": Z("queries"), "sat": Z("sat"), "unsat": Z("unsat"), "unknown": Z("unknown"), "cached": Z("cached"),
                       "seconds": round(Z("time"), 2), "slowest_query_s": max([r["solver"].get("slowest", 0) for _, r in results] or [0]),
                       "sample_model_queries": Z("validation_queries")},
            "functions_encoded": ["%s (%d lines)" % x for x in sorted(fns.items())],
            "lines_encoded": {f: len(l) for f, l in sorted(lines.items())},
            "dependency_functions_encoded": max([r.get("dep_functions", 0) for _, r in results] or [0]),
            "abstractions": sorted({a for _, r in results for a in r["abstractions"]}),
            "bounds": P["bounds"], "outside_bounds": P.get("outside", ""),
            "jobs": [{"job": job_name(j), "complete": not r["incomplete"], "paths": r["stats"].get("paths", 0), "queries": r["solver"].get("queries", 0),
                      "asserts": r["stats"].get("asserts", 0), "solver_s": r["solver"].get("time", 0), "wall_s": round(r["wall"], 2), "covers": r["covers"]} for j, r in results],
            "incomplete": sorted(set(incomplete)) + notrun,
            "known_findings_seen": sorted(set(knownhit.values())),
            "unconfirmed": len(unconfirmed), "mismatches": mismatches[:5], "vacuous": vacuous[:5],
            "build_s": round(build_s, 1),
        },
        "assumptions": P.get("assumptions", []) + [
            "the LLVM IR that rustc 1.99 emits (after opt -O1 without vectorisation) means what the native code does; checked by replaying sample inputs of every path natively",
            "the executor's memory model: allocations never fail and are disjoint",
            "z3's answers"],
        "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))


def learn(which, tier="quick", missing=False):
    import props
    baabuild.build_all()
    exp = json.load(open(EXPECTED)) if os.path.exists(EXPECTED) else {}
    todo, seen = [], set()
    for p in which or props.PROPS:
        for j in props.jobs(p, tier):
            if job_name(j) not in seen and not (missing and job_name(j) in exp):
                seen.add(job_name(j))
                todo.append((p, j))
    T = int(os.environ.get("T", "400"))
    with ThreadPoolExecutor(8) as ex:
        fs = {ex.submit(run_engine, j, T): (p, j) for p, j in todo}
        for f in as_completed(fs):
            p, j = fs[f]
            r = f.result()
            ok, bad = validate(j, r, 10)
            print("%-4s %-34s %6.1fs paths %-5d forks %-5d q %-5d slow %-6s asserts %-5d covers %s ends %d/%d %s %s" % (
                p, job_name(j), r["wall"], r["stats"].get("paths", 0), r["stats"].get("forks", 0), r["solver"].get("queries", 0), r["solver"].get("slowest"), r["stats"].get("asserts", 0),
                r["covers"], ok, len(r["ends"]), "INC " + str(r["incomplete"][:1])[:300] if r["incomplete"] else "", ("VIOL %s" % [(v["kind"], v["id"], v["inputs"]) for v in r["violations"][:3]]) if r["violations"] else ""), flush=True)
            for b in bad[:2]:
                print("     MISMATCH", b[:400])
            if not r["incomplete"] and r["stats"].get("asserts", 0) == 0:
                print("     VACUOUS: no assertion reached")
            elif not r["incomplete"]:
                exp[job_name(j)] = {"c": r["covers"], "s": round(r["wall"], 1)}
    json.dump(exp, open(EXPECTED, "w"), indent=0, sort_keys=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        d = json.load(open(a[1]))
        baabuild.build_all()
        rc, tr, res, cmd = native(d["profile"], d["harness"], d["params"], d["inputs"])
        print(res, "exit", rc, "trace", csv(tr))
        return rc
    if a and a[0] == "--learn":
        learn([x for x in a[1:] if not x.startswith("-")], "thorough" if "--thorough" in a else "quick", "--missing" in a)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return decide(a[0], tier)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    with procs_lock:
        for p in procs:
            p.kill()
    os._exit(rc)
