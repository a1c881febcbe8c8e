#!/usr/bin/env python3
"""Confirms planted bugs: plant.py [--demo] ID... (default: all), in a scratch
copy of /repo: the demo passes without the patch; with it, the tree builds, the
stable tests pass and the demo fails. Then `plant.py --check ID...` also runs the
property's check on the patched copy."""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
demo_only, check = "--demo" in args, "--check" in args
ids = [a for a in args if a[0] != "-"] or sorted(os.listdir(V + "/seeded"))
def sh(c, cwd, t=900, env=None):
    try:
        r = subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"
def one(i):
    d = V + "/seeded/" + i
    s = tempfile.mkdtemp(prefix="plant_")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C " + s, shell=True)
        dd = s + "_d"
        shutil.copytree(d, dd)
        out = []
        r0, o0 = sh("bash %s/demo.sh" % dd, s, 300)
        ra, oa = sh("git init -q . ; git apply %s/patch.diff" % d, s)
        r1, o1 = sh("bash %s/demo.sh" % dd, s, 300)
        ok = r0 == 0 and ra == 0 and r1 != 0
        line = "%s demo clean=%d patched=%d apply=%d" % (i, r0, r1, ra)
        if not ok: out += [o0[-1500:], oa[-500:], o1[-1500:]]
        if ok and not demo_only:
            scope = s + "_scope"
            shutil.copytree("/opt/vp/scope", scope)
            subprocess.check_call("sed -i 's#^B=/repo/_build#B=%s/_build#; s#-S /repo#-S %s#' %s/env.sh" % (s, s, scope), shell=True)
            rb, ob = sh(". %s/env.sh; configure && ninja -j3 -C $B maf $TESTS && mkdir -p $B/r && python3 %s/run_tests.py $B $B/r $TESTS; cat $B/r/results.lines" % (scope, scope), s)
            base = set(json.dumps(json.load(open("/opt/vp/BASELINE.json"))))
            npass, fails = ob.count("\nPASS "), [l for l in ob.splitlines() if l.startswith("FAIL ")]
            line += " tests=%d passed %s" % (npass, fails)
            if npass < 33: ok = False; out.append(ob[-1500:])
            shutil.rmtree(scope, ignore_errors=True)
        if ok and check:
            pid = json.load(open(d + "/meta.json"))["property"]
            rc, oc = sh("python3 run.py check %s quick" % pid, V, env=dict(os.environ, MC_REPO=s))
            vs = [l[:200] for l in oc.splitlines() if l.startswith("VIOLATION")]
            line += "  CHECK %s exit=%d %s" % (pid, rc, vs[:1])
        return ("OK  " if ok else "BAD ") + line + ("\n" + "\n".join(out) if out else "")
    finally:
        shutil.rmtree(s, ignore_errors=True); shutil.rmtree(s + "_d", ignore_errors=True)
with ThreadPoolExecutor(1 if check else 2) as ex:
    for r in ex.map(one, ids): print(r, flush=True)
