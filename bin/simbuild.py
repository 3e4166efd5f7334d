"""Builds the simulator, the stxxl library (from /repo's working tree) and a check harness.

Everything is keyed by content hash below /verif/build (git-ignored), so a change in /repo always rebuilds."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))

BASE = ["-std=c++11", "-fopenmp", "-D_FILE_OFFSET_BITS=64", "-D_LARGEFILE_SOURCE", "-D_LARGE_FILES", "-w",
        "-fno-pie", "-g1"]
INSTR = ["-O1", "-fsanitize=thread"]
SIMFLAGS = ["-std=c++17", "-O2", "-g1", "-fno-pie", "-w"]

ON = {"STXXL_HAVE_MMAP_FILE", "STXXL_HAVE_LINUXAIO_FILE", "STXXL_POSIX_THREADS", "STXXL_HAVE_CXX11_RANGE_FOR_LOOP",
      "STXXL_HAVE_SYNC_ADD_AND_FETCH", "STXXL_PARALLEL", "STXXL_WITH_GNU_PARALLEL", "STXXL_HAVE_MALLINFO_PROTO",
      "STXXL_HAVE_MLOCK_PROTO"}
VALUES = {"STXXL_VERSION_MAJOR": "1", "STXXL_VERSION_MINOR": "4", "STXXL_VERSION_PATCH": "99",
          "STXXL_VERSION_STRING": '"1.4.99"', "STXXL_VERSION_PHASE": '"prerelease/simulation"'}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for base, dn, fn in sorted(os.walk(d)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".h", ".cpp", ".in", ".hpp", ".c")):
                    p = os.path.join(base, f)
                    h.update(os.path.relpath(p, d).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def gen_config(outdir):
    src = open(os.path.join(REPO, "include/stxxl/bits/config.h.in")).read()
    out = []
    for line in src.splitlines():
        m = re.match(r"\s*#cmakedefine\s+(\w+)(.*)$", line)
        if m:
            name, rest = m.group(1), m.group(2).strip()
            if name in VALUES:
                line = "#define %s %s" % (name, VALUES[name])
            elif name in ON:
                rest = re.sub(r"\$\{[^}]*\}|@[^@]*@", "1", rest) or "1"
                line = "#define %s %s" % (name, rest)
            else:
                line = "/* #undef %s */" % name
        else:
            line = re.sub(r"\$\{(\w+)\}|@(\w+)@", lambda m: VALUES.get(m.group(1) or m.group(2), "0").strip('"'), line)
        out.append(line)
    d = os.path.join(outdir, "include/stxxl/bits")
    os.makedirs(d, exist_ok=True)
    t = uniq(os.path.join(d, "config.h"))
    with open(t, "w") as f:
        f.write("\n".join(out) + "\n")
    os.rename(t, os.path.join(d, "config.h"))


def uniq(path):
    return "%s.%d.%d.tmp" % (path, os.getpid(), threading.get_ident())


class Lock:
    """several units, and several checks, may need the same library"""
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))


def compile_many(jobs, workers=8):
    with ThreadPoolExecutor(workers) as ex:
        for f in [ex.submit(sh, c) if isinstance(c, list) else ex.submit(c) for c in jobs]:
            f.result()


def prune(keep):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
    except OSError:
        return
    ds = [d for d in ds if os.path.isdir(d) and d not in keep]
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[90:]:
        if d.startswith(BUILD + "/"):
            shutil.rmtree(d, ignore_errors=True)


def tsan_compile(src, obj, incs, defs, extra=()):
    def go():
        tmp = uniq(obj)
        sh(["g++"] + BASE + INSTR + list(extra) + defs + incs + ["-c", src, "-o", tmp])
        sh(["objcopy", "--redefine-sym", "memcpy=sim_torn_memcpy", tmp])
        os.rename(tmp, obj)
    return go


def build(harness, defs=(), extra=()):
    """returns path of the simulation binary for checks/<harness>.cpp"""
    defs = list(defs)
    os.makedirs(BUILD, exist_ok=True)
    simdir, chk = os.path.join(ROOT, "sim"), os.path.join(ROOT, "checks")
    gxx = subprocess.run(["g++", "--version"], stdout=subprocess.PIPE, text=True).stdout
    me = open(__file__, "rb").read()
    hs = sha(gxx, tree_hash(simdir), me)
    libdefs = [d for d in defs if d in ("-DNDEBUG",) or d.startswith("-DSTXXL_")]
    hl = sha(gxx, tree_hash(os.path.join(REPO, "include"), os.path.join(REPO, "lib")), me, libdefs)
    src = os.path.join(chk, harness + ".cpp")
    hh = sha(hs, hl, defs, list(extra), tree_hash(chk))
    dsim, dlib = os.path.join(BUILD, "sim-" + hs), os.path.join(BUILD, "lib-" + hl)
    dbin = os.path.join(BUILD, "bin-" + hh)
    exe = os.path.join(dbin, harness)
    if os.path.exists(exe):
        for d in (dsim, dlib, dbin):
            os.utime(d) if os.path.exists(d) else None
        return exe
    for d in (dsim, dlib, dbin):
        os.makedirs(d, exist_ok=True)
    if not os.path.exists(os.path.join(dlib, "include/stxxl/bits/config.h")):
        gen_config(dlib)
    incs = ["-I" + os.path.join(dlib, "include"), "-I" + os.path.join(REPO, "include"), "-I" + simdir, "-I" + chk]
    hobj = os.path.join(dbin, "harness.o")
    with ThreadPoolExecutor(1) as one:
        hfut = one.submit(tsan_compile(src, hobj, incs, defs, extra))
        with Lock(os.path.join(BUILD, "lock-" + hl)):
            simobjs, libobjs, jobs = [], [], []
            for s in sorted(glob.glob(simdir + "/*.cpp")):
                o = os.path.join(dsim, os.path.basename(s)[:-4] + ".o")
                simobjs.append(o)
                if not os.path.exists(o):
                    def go(s=s, o=o):
                        t = uniq(o)
                        sh(["g++"] + SIMFLAGS + ["-I" + simdir, "-c", s, "-o", t])
                        os.rename(t, o)
                    jobs.append(go)
            for s in sorted(glob.glob(REPO + "/lib/*/*.cpp")):
                if s.endswith("malloc_count.cpp"):
                    continue
                o = os.path.join(dlib, s[len(REPO) + 5:-4].replace("/", "_") + ".o")
                libobjs.append(o)
                if not os.path.exists(o):
                    jobs.append(tsan_compile(s, o, incs, libdefs))
            compile_many(jobs)
        hfut.result()
    tmp = uniq(exe)
    sh(["g++", "-no-pie", "-rdynamic", "-o", tmp, hobj] + libobjs + simobjs + ["-ldl"])
    os.rename(tmp, exe)
    prune({dsim, dlib, dbin})
    return exe


if __name__ == "__main__":
    t = time.time()
    print(build(sys.argv[1], sys.argv[2:]), "%.1fs" % (time.time() - t))
