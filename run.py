#!/usr/bin/env python3
"""run.py check <PID> [quick|thorough]   decide one property
   run.py replay <file>                  re-run a recorded violation
   run.py build                          build everything (setup)
   run.py list                           scenarios per property
"""
import fnmatch, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "mc"))
sys.dont_write_bytecode = True
import build as B
from table import CHECKS

KNOWN = os.path.join(V, "known_findings.txt")

def load_known(pid):
    """(scenario, needle, description) of the recorded, unrepaired findings"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip("\n")
            if l.startswith("known\t"):
                _, p, sc, needle, desc = l.split("\t", 4)
                if p == pid:
                    out.append((sc, needle, desc))
    return out

def symbolise(exe, text):
    pcs = sorted(set(re.findall(r"@(0x[0-9a-f]+)", text)))
    for pc in pcs[:40]:
        try:
            r = subprocess.run(["addr2line", "-Cfpi", "-e", exe, pc], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, timeout=60)
            s = " ".join(r.stdout.split("\n")[0].split())
            text = text.replace("@" + pc, "@" + pc + "{" + s[:160] + "}")
        except Exception:
            pass
    return text

def env(tmp):
    e = dict(os.environ)
    e["MC_TMP"] = tmp
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=0:max_allocation_size_mb=64:detect_stack_use_after_return=0:quarantine_size_mb=4"
    e["UBSAN_OPTIONS"] = "abort_on_error=1:print_stacktrace=0"
    return e

def replay_cmd(exe, tier, v):
    ch = ",".join(map(str, v["choices"])) or "-"
    return [exe, "replay", tier, v["scenario"], str(v["pb"]), ch]

def check(pid, tier):
    t0 = time.time()
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = tempfile.mkdtemp(prefix="mc_")
    known = load_known(pid)
    results, viols, hit, unrepro = [], [], set(), []
    budget = spec.get("budget", {}).get(tier, 45 if tier == "quick" else 600)
    if os.environ.get("MC_BUDGET"):
        budget = float(os.environ["MC_BUDGET"])
    builds = spec["builds"]
    exes = [B.build(**{k: v for k, v in b.items() if k not in ("scenarios", "share")}) for b in builds]
    tb = time.time() - t0
    kf = os.path.join(tmp, "known")
    with open(kf, "w") as f:
        for sc, needle, _ in known:
            f.write(sc + "\t" + needle + "\n")
    try:
        total_share = sum(b.get("share", 1) for b in builds)
        for b, exe in zip(builds, exes):
            names = subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True).stdout.split()
            sel = [n for n in names if any(fnmatch.fnmatch(n, g) for g in b["scenarios"])]
            if os.environ.get("MC_ONLY"):  # development
                sel = [n for n in sel if fnmatch.fnmatch(n, os.environ["MC_ONLY"])]
                if not sel:
                    continue
            if not sel:
                raise RuntimeError("no scenarios selected in " + b["name"])
            bud = (budget - (time.time() - t0 - tb)) * b.get("share", 1) / total_share
            total_share -= b.get("share", 1)
            def explore(scs, bud):
                of = os.path.join(tmp, "out.jsonl")
                r = subprocess.run([exe, "explore", tier, str(bud), of, kf] + scs, env=env(tmp), cwd=tmp,
                                   stdout=subprocess.DEVNULL)
                rs = [json.loads(l) for l in open(of)]
                if r.returncode not in (0, 1):
                    raise RuntimeError("explorer failed with status %d" % r.returncode)
                return rs
            for r in explore(sel, bud):
                r["build"] = b["name"]
                r["pb"] = max(r["pb_completed"] + 1, 0)
                for k in r["known"]:
                    hit.add(k)
                if r["diverged"]:
                    r["note"] = "replay divergence: result of this scenario not used"
                if "violation" in r:
                    ok = False
                    for attempt in range(3):
                        msgs = []
                        for _ in range(2):
                            q = subprocess.run(replay_cmd(exe, tier, dict(r, pb=99)), env=env(tmp), cwd=tmp,
                                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
                            msgs.append(q)
                        if all(m.returncode == 1 or m.returncode < 0 for m in msgs):
                            ok = True
                            break
                        rr = explore([r["scenario"]], 60)
                        if rr and "violation" in rr[0]:
                            r.update(rr[0]); r["build"] = b["name"]
                        else:
                            break
                    if ok:
                        r["trace"] = symbolise(exe, msgs[0].stdout)
                        r["violation"] = symbolise(exe, r["violation"])
                        viols.append(r)
                    else:
                        unrepro.append(dict(scenario=r["scenario"], text=r["violation"][:500]))
                results.append(r)
        # a sample: the default execution of the first scenario, written out
        samples = []
        for b, exe in zip(builds, exes):
            rs = [r for r in results if r["build"] == b["name"]]
            for r in rs[:2]:
                q = subprocess.run([exe, "replay", tier, r["scenario"], "0", "-"], env=env(tmp), cwd=tmp,
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
                samples.append(dict(scenario=r["scenario"], execution=q.stdout[:1500]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    cov = dict(
        states=sum(r["states"] for r in results),
        transitions=sum(r["transitions"] for r in results),
        traces_validated_against_impl=sum(r["schedules"] or r["partial_schedules"] for r in results),
        distinct_outcomes=sum(r["distinct_outcomes"] for r in results),
        executions_including_lower_bounds=sum(r["total_schedules"] for r in results),
        exhaustive=all(r["complete"] for r in results) and not viols,
        meaning="every execution is a run of the real code from /repo under one complete choice of schedule, "
                "virtual time and environment answers; states are distinct choice-tree nodes, transitions are "
                "scheduling/choice steps of the last completed bound",
        scenarios=[{k: r[k] for k in ("scenario", "build", "pb_completed", "pb_target", "complete", "schedules",
                                      "partial_schedules", "states", "transitions", "distinct_outcomes", "max_depth",
                                      "max_threads", "pruned", "diverged", "faults", "spurious", "wall_s") if k in r}
                   for r in results],
        unreproduced=unrepro,
        samples=samples)
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "model_checking"), coverage=cov,
              assumptions=spec.get("assumptions", []) + COMMON,
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(V, "evidence", "replays"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k][2]))
    print("%s %s: %d scenarios, %d executions, %d states, %.1fs (build %.1fs)%s" % (
        pid, tier, len(results), cov["traces_validated_against_impl"], cov["states"], time.time() - t0, tb,
        "" if all(r["complete"] for r in results) else "; bounds not completed in time: " +
        " ".join("%s(pb=%d)" % (r["scenario"], r["pb_completed"]) for r in results if not r["complete"] and "violation" not in r)))
    if os.environ.get("MC_VERBOSE"):
        for r in results:
            print("  %-40s pb %d/%d %8d exec %8d out:%d depth %d pruned %d div %d %.1fs %s" % (r["scenario"], r["pb_completed"], r["pb_target"],
                  r["total_schedules"], r["states"], r["distinct_outcomes"], r["max_depth"], r["pruned"], r["diverged"], r["wall_s"], r.get("violation", "")[:400]))
    for u in unrepro:
        print("note: not reproduced on replay, not reported: %s: %s" % (u["scenario"], u["text"][:200]))
    for r in viols:
        path = os.path.join(V, "evidence", "replays", "%s_%s.json" % (pid, r["scenario"]))
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, build=r["build"], scenario=r["scenario"], pb=r["pb"],
                           choices=r["choices"], violation=r["violation"], trace=r["trace"]), f, indent=1)
        print("  " + r["scenario"] + ": " + r["violation"][:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if viols else 0

COMMON = ["sequentially consistent interleavings at synchronisation operations and atomics (plain accesses are covered by the happens-before race check)",
          "bounds as listed per scenario; time, sockets and scheduling are simulated by the explorer"]

def replay(path):
    d = json.load(open(path))
    for b in CHECKS[d["property"]]["builds"]:
        if b["name"] == d["build"]:
            exe = B.build(**{k: v for k, v in b.items() if k not in ("scenarios", "share")})
            tmp = tempfile.mkdtemp(prefix="mc_")
            q = subprocess.run(replay_cmd(exe, d["tier"], dict(d, pb=99)), env=env(tmp), cwd=tmp,
                               stdout=subprocess.PIPE, text=True, errors="replace")
            shutil.rmtree(tmp, ignore_errors=True)
            print(symbolise(exe, q.stdout))
            return 1 if q.returncode else 0
    return 2

def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    if sys.argv[1] == "check":
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        try:
            return check(sys.argv[2], tier)
        except RuntimeError as e:
            print("ERROR:", e)
            return 3
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "build":
        r = subprocess.run([B.CXX, "--version"], stdout=subprocess.PIPE)
        return r.returncode
    if sys.argv[1] == "list":
        for p in sorted(CHECKS):
            for b in CHECKS[p]["builds"]:
                print(p, b["name"], b["harness"], b["scenarios"])
        return 0
    return 2

if __name__ == "__main__":
    sys.exit(main())
