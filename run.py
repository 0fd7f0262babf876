#!/usr/bin/env python3
"""run.py <PROPERTY> [quick|thorough]   decides one property on /repo's working tree.
   run.py --replay <file>               replays a recorded violation.
   run.py --setup                       builds everything."""
import json, os, struct, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build
from props import PROPS

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=87:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=88", TSAN_OPTIONS="exitcode=89:halt_on_error=1:report_thread_leaks=0", LC_ALL="C.UTF-8")


def known_for(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {k["key"]: k for k in d.get("findings", []) if k["property"] == pid}


def launch(exe, pid, tier, i, n, work, known_file, budget):
    out = os.path.join(work, "out%d.json" % i)
    sh = os.path.join(work, "cur%d" % i)
    err = open(os.path.join(work, "err%d" % i), "wb")
    for p in (out, sh):
        if os.path.exists(p):
            os.unlink(p)
    cmd = [exe, "--property", pid, "--tier", tier, "--out", out, "--shared", sh, "--shard", "%d/%d" % (i, n), "--known", known_file]
    if budget:
        cmd += ["--budget", str(budget)]
    return subprocess.Popen(cmd, stdout=err, stderr=err, env=ENV, cwd=work), out, sh, err.name


def replay_one(exe, pid, tier, scen, choices, known_file, timeout=150):
    p = subprocess.run([exe, "--property", pid, "--tier", tier, "--scenario", scen, "--replay", ",".join(map(str, choices)) or "-", "--known", known_file],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def crash_line(txt):
    lines = [l for l in txt.splitlines() if "CRASH" in l or "ERROR" in l or "WARNING: ThreadSanitizer" in l or "runtime error" in l or "FAILS" in l]
    return "crash: " + lines[0] if lines else ""


def rerun_crashed(run, pid, bounds, i, n, work, kf, left):
    """a shard died in a way that its last case alone doesn't repeat (memory used after its end, for example): the shard again, with the address sanitizer, then as it was"""
    for flavor in (["asan"] if run.get("flavor") == "plain" else []) + [run.get("flavor", "asan")]:
        exe = build.build(run["harness"], flavor)
        p, out, sh, err = launch(exe, pid, bounds, i, n, work, kf, max(30, int(left / 2)))
        try:
            rc = p.wait(timeout=max(60, left))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            continue
        if rc == 1 and os.path.exists(out):
            return [dict(v, harness=run["harness"], flavor=flavor, tier=bounds, exe=exe, kf=kf) for v in json.load(open(out))["violations"]]
        tail = open(err, errors="replace").read()
        cur = open(sh, errors="replace").read().split("\0")[0].split("\n") if os.path.exists(sh) else []
        if rc not in (0, 1, 3, -9) and len(cur) >= 3:
            ch = [int(x) for x in cur[2].split(",") if x]
            return [dict(scenario=cur[1], choices=ch, msg=crash_line(tail) or "crash: rc %s" % rc, desc=tail[-4000:], harness=run["harness"], flavor=flavor, tier=bounds, exe=exe, kf=kf)]
    return []


def main():
    if sys.argv[1] == "--setup":
        for hf in sorted({(r["harness"], r.get("flavor", "asan")) for s in PROPS.values() for r in s["runs"]}):
            print(build.build(*hf))
        return 0
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        exe = build.build(d["harness"], d["flavor"])
        kf = os.path.join(build.OUT, "known-%s.txt" % d["property"])
        open(kf, "w").write("\n".join(known_for(d["property"])) + "\n")
        rc, txt = replay_one(exe, d["property"], d.get("tier", "quick"), d["scenario"], d["choices"], kf)
        print(txt)
        return 0 if rc == 0 else 1
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[pid]
    t0 = time.time()
    tot = dict(executions=0, pruned=0, transitions=0, compared=0, known=0)
    states, outcomes, samples, viols, scen, counters, known_seen, capped = set(), set(), [], [], {}, {}, {}, False
    kn, unrepeated = known_for(pid), []
    os.makedirs(build.OUT, exist_ok=True)
    for run in spec["runs"]:
        flavor = run.get("flavor", "asan")
        try:
            exe = build.build(run["harness"], flavor)
        except RuntimeError as e:
            print("BUILD FAILED\n" + str(e)[:6000])
            return 2
        work = os.path.join(build.OUT, "work-%s-%s-%s-%s" % (pid, tier, run["harness"], flavor))
        os.makedirs(work, exist_ok=True)
        kf = os.path.join(work, "known.txt")
        open(kf, "w").write("\n".join(kn) + "\n")
        n = run.get("shards", 8)
        budget = run.get("budget_" + tier, 400 if tier == "quick" else 3600)
        bounds = run.get(tier, tier)   # the harness's bounds: quick, thorough or deeper
        ps = [launch(exe, pid, bounds, i, n, work, kf, budget) for i in range(n)]
        for i, (p, out, sh, err) in enumerate(ps):
            try:
                rc = p.wait(timeout=5400 if tier != 'quick' else 780)
            except subprocess.TimeoutExpired:
                p.kill()
                rc = -9
            if rc in (0, 1) and os.path.exists(out):
                d = json.load(open(out))
                for k in tot:
                    tot[k] += d[k]
                capped = capped or d["capped"]
                samples += d["samples"]
                for k, v in d["scenarios"].items():
                    scen[k] = scen.get(k, 0) + v
                for k, v in d["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                known_seen.update(d["knownSeen"])
                for f, s in ((out + ".states", states), (out + ".outcomes", outcomes)):
                    b = open(f, "rb").read()
                    s.update(struct.unpack("<%dQ" % (len(b) // 8), b))
                    os.unlink(f)
                for v in d["violations"]:
                    viols.append(dict(v, harness=run["harness"], flavor=flavor, tier=bounds, exe=exe, kf=kf))
            elif rc == 3:
                print("CHECK ERROR: " + open(err, errors="replace").read()[-3000:])
                return 2
            else:
                tail = open(err, errors="replace").read()
                cur = open(sh, errors="replace").read().split("\0")[0].split("\n") if os.path.exists(sh) else []
                if len(cur) < 3:
                    print("CHECK ERROR: shard died before any case (rc %s)\n%s" % (rc, tail[-3000:]))
                    return 2
                ch = [int(x) for x in cur[2].split(",") if x]
                if rc in (-9,):
                    print("CHECK ERROR: shard killed (rc %s)" % rc)
                    return 2
                try:
                    rr, txt = replay_one(exe, pid, bounds, cur[1], ch, kf)
                except subprocess.TimeoutExpired:
                    rr, txt = 86, "CRASH: the execution does not end"
                # a prefix is recorded: the choices after it are all the first alternative
                if rr == 0:
                    unrepeated.append((run, bounds, i, n, work, kf, "crash did not repeat (rc %s)\n%s" % (rc, tail[-3000:])))
                    continue
                viols.append(dict(scenario=cur[1], choices=ch, msg=crash_line(txt) or "crash: rc %s" % rr, desc=txt[:4000], harness=run["harness"], flavor=flavor, tier=bounds, exe=exe, kf=kf))
    for run, bounds, i, n, work, kf, txt in unrepeated:
        if not viols:
            viols += rerun_crashed(run, pid, bounds, i, n, work, kf, (840 if tier == "quick" else 5400) - (time.time() - t0))
    if unrepeated and not viols:
        print("CHECK ERROR: " + unrepeated[0][-1])
        return 2
    wall = time.time() - t0
    level = spec.get("level", "model_checking")
    cov = dict(states=len(states), transitions=tot["transitions"], traces_validated_against_impl=tot["compared"], executions=tot["executions"],
               distinct_outcomes=len(outcomes), pruned=tot["pruned"], per_scenario=scen, counters=counters, exhaustive=not capped,
               bounds=spec.get("bounds_" + tier, spec.get("bounds", "")), samples=samples[:14])
    if level == "fault_enumeration":
        cov.update(evaluations=tot["executions"], distinct_nontrivial=len(states), rule=spec.get("rule", ""))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=spec.get("assumptions", []),
                   wall_s=round(wall, 2), violations=len(viols)), open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d executions, %d states, %d transitions, %d compared, %d outcomes, %d pruned, %.1fs%s" % (
        pid, tier, tot["executions"], len(states), tot["transitions"], tot["compared"], len(outcomes), tot["pruned"], wall, " CAPPED" if capped else ""))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(scen), json.dumps(counters))
    for k in sorted(known_seen):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, kn[k].get("what", known_seen[k])))
    if viols:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, v in enumerate(viols[:4]):
            path = os.path.join(VERIF, "replays", "%s-%d.json" % (pid, i))
            json.dump(dict(property=pid, harness=v["harness"], flavor=v["flavor"], tier=v["tier"], scenario=v["scenario"], choices=v["choices"], msg=v["msg"], desc=v["desc"]), open(path, "w"), indent=1)
            print("  %s [%s] %s\n    %s" % (v["scenario"], ",".join(map(str, v["choices"])), v["msg"], v["desc"].replace("\n", "\n    ")[:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if tot["executions"] == 0:
        print("CHECK ERROR: nothing was executed")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
