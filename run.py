#!/usr/bin/env python3
"""run.py <property> [quick|thorough]   decide one property against /repo's working tree
   run.py replay <file>               re-run one recorded violation
   run.py build                       build everything (setup_cmd)

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line.  Anything else: the check itself failed.
"""
import hashlib, json, os, signal, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import cbuild, checks

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:malloc_context_size=4:max_allocation_size_mb=1024:handle_abort=1",
           LC_ALL="C.UTF-8")

def known():
    """known-findings file: 'known: property=<id> key=<key> :: <text>' (fixed: lines suppress nothing)"""
    r = {}
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("known: property="):
                head, text = l[len("known: property="):].rstrip("\n").split(" :: ", 1)
                pid, key = head.split(" key=", 1)
                r[(pid, key)] = text
    return r

def run_part(part, tier, scratch):
    exe = checks.build(part)
    cmd = [exe, "--check", part["check"], "--tier", tier, "--jobs", str(cbuild.JOBS), "--out", scratch]
    budget = part.get("budget", {}).get(tier)
    if budget:
        cmd += ["--budget", str(budget)]
    cmd += part.get("args", [])
    env = dict(ENV, **part.get("env", {}))
    env["VERIF_SCRATCH"] = scratch
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=scratch)
    if p.returncode:
        raise RuntimeError("%s ended with %d: %s" % (" ".join(cmd), p.returncode, p.stderr.decode(errors="replace")[-3000:]))
    return json.loads(p.stdout.decode(errors="replace")), exe

def confirm(part, exe, case, tier, scratch, limit=300):
    env = dict(ENV, **part.get("env", {}))
    env["VERIF_SCRATCH"] = scratch
    try:
        p = subprocess.run([exe, "--check", part["check"], "--tier", tier, "--case", case, "--out", scratch], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=scratch, timeout=limit)
        return p.returncode != 0, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return True, "no end within %d s" % limit

def main():
    if sys.argv[1] == "build":
        checks.build_all()
        return 0
    if sys.argv[1] == "replay":
        r = json.load(open(sys.argv[2]))
        part = [x for x in checks.PARTS[r["property"]] if x["harness"] == r["harness"] and x["check"] == r["check"]][0]
        import tempfile
        with tempfile.TemporaryDirectory(prefix="verif") as scratch:
            bad, out = confirm(part, checks.build(part), r["case"], r["tier"], scratch)
        print(out)
        print("reproduced" if bad else "not reproduced")
        return 1 if bad else 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import tempfile
    kn = known()
    viol, found, unrep = [], {}, []
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": True, "parts": []}
    meta = checks.META[pid]
    cov["rule"] = meta["rule"]
    with tempfile.TemporaryDirectory(prefix="verif-%s-" % pid) as scratch:
        for part in checks.PARTS[pid]:
            try:
                res, exe = run_part(part, tier, scratch)
            except checks.GeneratedCodeBroken as e:
                viol.append((part, "generated-code", "", str(e)))
                continue
            recs = res.pop("records")
            cov["evaluations"] += res["evaluations"]
            cov["distinct_nontrivial"] += res["distinct_nontrivial"] or res["states"]
            cov["states"] += res["states"]
            cov["transitions"] += res["transitions"]
            cov["traces_validated_against_impl"] += res["traces"]
            if res["capped"]:
                cov["exhaustive"] = False
            cov["samples"] += [x["sample"][:400] for x in recs if "sample" in x][:12]
            cov["parts"].append({k: res[k] for k in ("harness", "items", "items_started", "evaluations", "states", "transitions", "traces", "capped", "crashes", "wall_s", "outcomes")})
            for x in recs:
                if "key" not in x:
                    continue
                if (pid, x["key"]) in kn:
                    found[x["key"]] = kn[(pid, x["key"])]
                    continue
                if len(viol) >= 12:
                    continue
                bad, out = confirm(part, exe, x["case"], tier, scratch)
                if bad:
                    viol.append((part, x["key"], x["case"], x["detail"]))
                else:
                    unrep.append(x)
    cov["samples"] = cov["samples"][:24]
    for k in sorted(found):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, found[k]))
    rc = 0
    rd = os.path.join(V, "evidence", "replay")
    for part, key, case, detail in viol:
        os.makedirs(rd, exist_ok=True)
        f = os.path.join(rd, "%s-%s.json" % (pid, hashlib.sha1((key + case).encode()).hexdigest()[:12]))
        with open(f, "w") as o:
            json.dump({"property": pid, "harness": part["harness"], "check": part["check"], "tier": tier, "key": key, "case": case, "detail": detail}, o, indent=1)
        print("%s: %s" % (key, detail[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, f))
        rc = 1
    for x in unrep:
        print("note: not reproduced in a fresh process, not reported: %s | %s | %s" % (x["key"], x["case"], x["detail"][:600]))
    cov["unreproduced"] = len(unrep)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": meta["level"], "coverage": cov, "assumptions": meta["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as o:
        json.dump(ev, o, indent=1)
    os.replace(tmp, os.path.join(V, "evidence", pid + ".json"))
    if rc == 0:
        print("%s held: %d executions, %d states, %d transitions, %.1f s" % (pid, cov["evaluations"], cov["states"], cov["transitions"], ev["wall_s"]))
    return rc

if __name__ == "__main__":
    try:
        sys.exit(main())
    except cbuild.BuildError as e:
        print("build error: %s" % e)
        sys.exit(3)
