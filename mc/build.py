"""Builds a harness against /repo's current working tree.

Objects are cached under /verif/.build by a hash of everything they are made
from, so a change anywhere in /repo/include or /repo/src rebuilds."""
import hashlib, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CXX = "clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"

WRAPS = """pthread_create pthread_join pthread_detach pthread_mutex_lock
pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_timedlock
pthread_mutex_clocklock pthread_cond_wait pthread_cond_timedwait
pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast pthread_once
pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock
pthread_rwlock_trywrlock pthread_rwlock_unlock sched_yield nanosleep
clock_nanosleep clock_gettime gettimeofday time usleep sleep syscall
__cxa_guard_acquire __cxa_guard_release _ZNSt6thread20hardware_concurrencyEv
__assert_fail""".split()
VSOCK_WRAPS = """socket bind listen accept connect select poll read write send
recv close shutdown fcntl setsockopt unlink sendmsg recvmsg accept4""".split()

BASE = ["-std=c++17", "-O1", "-g", "-gline-tables-only", "-w",
        "-include", "cstdint", "-include", "thread", "-fno-pie",
        "-fdelayed-template-parsing",
        "-DMAF_MIN_ALLOWED_LOG_LEVEL=1", "-DMC_HARNESS",
        "-fno-omit-frame-pointer", "-fno-builtin-memcpy"]
MODES = {
    "tsan": (["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"],
             ["-DMC_TSAN"], []),
    "asan": (["-fsanitize=address,undefined", "-fno-sanitize=vptr,function",
              "-fno-sanitize-recover=undefined"],
             ["-DMC_ASAN"], ["-fsanitize=address,undefined"]),
}

def includes():
    return ["-I" + REPO + "/include", "-I" + REPO + "/src/common",
            "-I" + REPO + "/src/platforms/unix", "-I" + REPO + "/src/common/maf", "-I" + VERIF + "/mc",
            "-I" + VERIF + "/h"]

_tree = None
def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for root in (REPO + "/include", REPO + "/src"):
            for d, ds, fs in sorted(os.walk(root)):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
        for p in sorted(glob.glob(VERIF + "/mc/*.h") + glob.glob(VERIF + "/h/*.h")):
            with open(p, "rb") as fh:
                h.update(p.encode() + fh.read())
        _tree = h.hexdigest()
    return _tree

def key(src, args, tree):
    h = hashlib.sha256()
    with open(src, "rb") as fh:
        h.update(fh.read())
    h.update(" ".join(args).encode())
    h.update(src.encode())
    h.update(tree.encode())
    return h.hexdigest()[:24]

def compile_one(src, args, tree):
    k = key(src, args, tree)
    out = os.path.join(BUILD, "o", k + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + args + ["-c", src, "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return None, "compiling %s failed:\n%s" % (src, r.stdout[:1500])
        os.rename(tmp, out)
    return out, ""

def maf_sources(groups):
    S = REPO + "/src/common/maf/"
    U = REPO + "/src/platforms/unix/maf/"
    sets = {
        "log": [S + "logging/*.cpp"],
        "msg": [S + "messaging/*.cpp"],
        "thr": [S + "threading/**/*.cpp", S + "utils/*.cpp"],
        "cs": [S + "messaging/client-server/*.cpp", S + "messaging/client-server/itc/*.cpp",
               S + "messaging/client-server/ipc/*.cpp", U + "messaging/**/*.cpp"],
        "unix": [U + "**/*.cpp"],
    }
    out = []
    for g in groups:
        for pat in sets[g]:
            for f in sorted(glob.glob(pat, recursive=True)):
                if f not in out:
                    out.append(f)
    return out

def build(name, harness, mode="tsan", groups=("log", "msg", "thr"), vsock=False, extra=(), plain=()):
    os.makedirs(os.path.join(BUILD, "o"), exist_ok=True)
    inst, rtdef, ld = MODES[mode]
    th = tree_hash()
    jobs = []
    for s in harness:
        if any(s.startswith(q) for q in plain):  # template-heavy, no memory of its own to watch
            jobs.append((os.path.join(VERIF, "h", s), BASE + ["-O0", "-g0", "-DMC_" + mode.upper()] + list(extra) + includes(), th))
            continue
        jobs.append((os.path.join(VERIF, "h", s), BASE + inst + ["-DMC_" + mode.upper()] + list(extra) + includes(), th))
    for s in maf_sources(groups):
        jobs.append((s, BASE + inst + includes(), th))
    rt = ["-std=c++17", "-O2", "-g", "-w", "-fno-pie", "-fno-omit-frame-pointer", "-I" + VERIF + "/mc"] + rtdef
    def hsh(fs):
        return hashlib.sha256(b"".join(open(f, "rb").read() for f in sorted(fs))).hexdigest()
    mh = hsh(glob.glob(VERIF + "/mc/*.h"))
    jobs.append((VERIF + "/mc/mc_rt.cpp", rt, mh))
    wraps = list(WRAPS)
    if vsock:
        jobs.append((VERIF + "/mc/vsock.cpp", rt, mh))
        wraps += VSOCK_WRAPS
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    errs = [e for o, e in res if o is None]
    if errs:
        raise RuntimeError("\n".join(errs))
    objs = [o for o, e in res]
    h = hashlib.sha256((" ".join(objs + wraps + ld)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "%s_%s" % (name, h))
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(BUILD, name + "_" + "[0-9a-f]" * 24)) + glob.glob(os.path.join(BUILD, name + "_" + "[0-9a-f]" * 24 + ".apc")):
            try: os.unlink(old)
            except OSError: pass
        cmd = [CXX, "-no-pie", "-static-libstdc++", "-static-libgcc", "-o", exe + ".tmp%d" % os.getpid()] + objs + ld + \
              ["-Wl,--wrap=" + w for w in wraps] + ["-lpthread", "-ldl"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError("linking %s failed:\n%s" % (name, r.stdout[-6000:]))
        tmp = exe + ".tmp%d" % os.getpid()
        if mode == "tsan":
            atomic_points(tmp, exe + ".apc")
        os.rename(tmp, exe)
    return exe

def atomic_points(exe, out):
    """Return addresses of the std::atomic operations written in the library or
    a harness (not those inside the standard library's own classes): these are
    scheduling points whatever their memory order."""
    calls, ret = [], {}
    p = subprocess.Popen(["objdump", "-d", "--no-show-raw-insn", exe], stdout=subprocess.PIPE, text=True)
    last = None
    for l in p.stdout:
        a = l.split(":", 1)
        if len(a) < 2 or l[0] != " ":
            continue
        if last is not None:
            ret[last] = int(a[0], 16)
            last = None
        if "<__tsan_atomic" in a[1] and "call" in a[1]:
            last = int(a[0], 16)
            calls.append(last)
    if p.wait():
        raise RuntimeError("objdump failed")
    r = subprocess.run(["llvm-symbolizer-18", "--obj=" + exe, "--inlines", "--output-style=LLVM"], input="".join("0x%x\n" % c for c in calls),
                       stdout=subprocess.PIPE, text=True, check=True)
    pts = []
    for c, block in zip(calls, r.stdout.split("\n\n")):
        files = [x.rsplit(":", 2)[0] for x in block.strip().split("\n")[1::2]]
        std = [f.endswith("/bits/atomic_base.h") or f.endswith("/atomic") for f in files]
        outer = [f for f, s in zip(files, std) if not s]
        if std and std[0] and outer and not os.path.realpath(outer[0]).startswith("/usr/") and c in ret:
            pts.append(ret[c])
    with open(out, "w") as f:
        f.write("".join("%x\n" % x for x in sorted(pts)))

if __name__ == "__main__":
    pass
