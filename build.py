"""Builds /repo's library sources and the harnesses into /verif/build (git-ignored).

Every object file is cached under a key made of the compiler flags, the source's content and the
content of every header it may include (all of /repo/include, /repo/source and /verif/harness), so a
check always runs what /repo's working tree says now, whatever its time stamps are.
"""
import fcntl, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CRG_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
CXX = "g++"

FLAVORS = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "plain": ["-O1", "-g1"],
}


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree(root, exts):
    r = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                r.append(os.path.join(d, f))
    return r


def version_defs():
    v = {}
    for m in re.finditer(r"^set\( VERSION_(MAJOR|MINOR|BUILD) ([0-9]+) \)", read(os.path.join(REPO, "CMakeLists.txt")).decode(), re.M):
        v[m.group(1)] = m.group(2)
    return ["-DCRG_VERSION_%s=%s" % kv for kv in sorted(v.items())]


def build(harness, flavor="asan"):
    """returns the path of the harness binary; raises RuntimeError(log) when it does not build"""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build_locked(harness, flavor)


def build_locked(harness, flavor):
    flags = ["-std=c++17", "-DCRG_BUILD_STATIC", "-w", "-pthread"] + version_defs() + FLAVORS[flavor] + [
        "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "source"), "-I" + os.path.join(VERIF, "harness")]
    repo_hdr = tree(os.path.join(REPO, "include"), ("",)) + tree(os.path.join(REPO, "source"), ("",))
    ver_hdr = tree(os.path.join(VERIF, "harness"), (".hpp", ".h"))
    hh = hashlib.sha256()
    for p in repo_hdr:
        hh.update(p.encode() + b"\0" + read(p))
    repo_key = hh.hexdigest()
    for p in ver_hdr:
        hh.update(p.encode() + b"\0" + read(p))
    all_key = hh.hexdigest()
    lib = tree(os.path.join(REPO, "source", "RenderGraph"), (".cpp",))
    own = [os.path.join(VERIF, "harness", f) for f in ("mockvk.cpp", "explore.cpp", harness + ".cpp")]
    link = []
    if os.path.exists(os.path.join(VERIF, "harness", harness + "_sched.cpp")):
        # the library's locks are taken through the controlled scheduler
        link = ["-Wl," + ",".join("--wrap=pthread_" + f for f in ("mutex_lock", "mutex_trylock", "mutex_unlock", "rwlock_rdlock", "rwlock_wrlock", "rwlock_tryrdlock", "rwlock_trywrlock", "rwlock_unlock"))]
        own.append(os.path.join(VERIF, "harness", harness + "_sched.cpp"))
    jobs, objs = [], []
    # the harness itself is not watched by ThreadSanitizer (the library comes first: its copies of the inline functions are kept)
    own_flags = [f for f in flags if f != "-fsanitize=thread"] + (["-DCRG_MC_TSAN"] if flavor == "tsan" else [])
    for src in lib + own:
        fl = own_flags if src in own else flags
        k = hashlib.sha256()
        k.update("\0".join(fl).encode())
        k.update((repo_key if src in lib else all_key).encode())
        k.update(src.encode() + b"\0" + read(src))
        o = os.path.join(OUT, "obj", os.path.basename(src) + "-" + k.hexdigest()[:24] + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((src, o, fl))

    def comp(j):
        src, o, fl = j
        tmp = o + ".tmp%d" % os.getpid()
        p = subprocess.run([CXX] + fl + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 0:
            os.rename(tmp, o)
            return None
        return p.stdout.decode(errors="replace")

    # biggest sources first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(comp, jobs) if e]
    if errs:
        raise RuntimeError("\n".join(errs)[:20000])
    k = hashlib.sha256("\0".join(objs + link + [flavor]).encode()).hexdigest()[:24]
    exe = os.path.join(OUT, "%s-%s-%s" % (harness, flavor, k))
    if not os.path.exists(exe):
        p = subprocess.run([CXX] + flags + objs + link + ["-o", exe + ".tmp", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError(p.stdout.decode(errors="replace")[:20000])
        os.rename(exe + ".tmp", exe)
    prune(objs, exe)
    return exe


def prune(objs, exe):
    """keeps the cache small: drops objects and binaries not used for a long time"""
    import time
    now = time.time()
    for p in objs + [exe]:
        os.utime(p)
    for d in (OUT, os.path.join(OUT, "obj")):
        files = [os.path.join(d, f) for f in os.listdir(d) if not f.startswith(".") and os.path.isfile(os.path.join(d, f))]
        files.sort(key=lambda p: os.path.getmtime(p))
        while len(files) > (600 if d.endswith("obj") else 60):
            p = files.pop(0)
            if now - os.path.getmtime(p) > 60:
                os.unlink(p)


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "asan"))
