#!/usr/bin/env python3
"""Builds the instrumented FCollada library from /repo's working tree plus the
monitoring harness, into /verif/.build, with a content-addressed object store:
an object is reused only when the flags, the source and every header it read
are byte-identical, so a run always judges the current tree."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FCMON_REPO", "/repo")
OUT = os.environ.get("FCMON_BUILD", os.path.join(VERIF, ".build"))
CXX = "/usr/bin/clang++"
COMMON = ["-std=c++17", "-DLINUX", "-DFMT_SHARED", "-w", "-fno-omit-frame-pointer",
          "-I" + os.path.join(VERIF, "harness", "gen"), "-I" + os.path.join(REPO, "FCollada"),
          "-I" + os.path.join(REPO, "FColladaPlugins"), "-isystem", "/usr/include/libxml2",
          "-fsanitize-ignorelist=" + os.path.join(VERIF, "tools", "ubsan.ignore")]
FLAVOURS = {
    # the build users get from build.sh (Debug), plus the sanitizers
    "asan": (["-D_DEBUG", "-O1", "-gline-tables-only", "-fsanitize=address,undefined"],
             ["-fsanitize=address,undefined"]),
    # release semantics: asserts fall through silently, exceptions are handled
    "rel": (["-O2", "-gline-tables-only", "-fsanitize=address,undefined"],
            ["-fsanitize=address,undefined"]),
    # uninstrumented, for valgrind memcheck (uninitialised values)
    "vg": (["-D_DEBUG", "-O1", "-g"], []),
    # which lines the workloads reach (tools/cov.py); decides nothing
    "cov": (["-D_DEBUG", "-O1", "-fprofile-instr-generate", "-fcoverage-mapping"], ["-fprofile-instr-generate"]),
}
LIBS = ["-Wl,--wrap=_ZN11FUAssertion17OnAssertionFailedEPKcj", "-Wl,--wrap=fread", "-Wl,--wrap=fopen", "-lxml2", "-lfmt", "-ldl", "-lpthread"]


def lib_sources():
    s = []
    for pat in ("FCollada/*.cpp", "FCollada/FCDocument/*.cpp", "FCollada/FMath/*.cpp",
                "FCollada/FUtils/*.cpp", "FColladaPlugins/FArchiveXML/*.cpp"):
        s += sorted(glob.glob(os.path.join(REPO, pat)))
    return s


def harness_sources():
    return sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp")))


_h = {}


def fhash(p):
    if p not in _h:
        try:
            with open(p, "rb") as f:
                _h[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _h[p] = None
    return _h[p]


def key_for(src, flags, deps):
    h = hashlib.sha256()
    h.update(json.dumps(flags).encode())
    for d in [src] + sorted(deps):
        x = fhash(d)
        if x is None:
            return None
        h.update(d.encode() + b"\0" + x.encode())
    return h.hexdigest()[:32]


def parse_dep(path):
    t = open(path).read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [os.path.normpath(x) for x in t.split() if x.startswith((REPO + "/", VERIF + "/"))]


def compile_one(src, flavour):
    flags = COMMON + FLAVOURS[flavour][0]
    if src.startswith(VERIF):
        flags = flags + ["-I" + os.path.join(VERIF, "harness")]
        if flavour not in ("vg", "cov"):
            # the harness itself needs no instrumentation of alignment etc.; keep ASan
            flags = [f.replace("address,undefined", "address") for f in flags]
    tag = hashlib.sha256((flavour + src).encode()).hexdigest()[:20]
    depf = os.path.join(OUT, "deps", tag + ".json")
    deps = None
    if os.path.exists(depf):
        try:
            deps = json.load(open(depf))
        except ValueError:
            deps = None
    if deps is not None:
        k = key_for(src, flags, deps)
        if k and os.path.exists(os.path.join(OUT, "obj", k + ".o")):
            return os.path.join(OUT, "obj", k + ".o"), False, ""
    tmp = os.path.join(OUT, "tmp", "%s.%d" % (tag, os.getpid()))
    env = dict(os.environ, CCACHE_DISABLE="1")
    r = subprocess.run([CXX] + flags + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode != 0:
        return None, True, src + "\n" + r.stdout[-3000:]
    deps = sorted(set(parse_dep(tmp + ".d")) - {src})
    k = key_for(src, flags, deps)
    dst = os.path.join(OUT, "obj", k + ".o")
    os.replace(tmp + ".o", dst)
    os.unlink(tmp + ".d")
    with open(depf + ".t", "w") as f:
        json.dump(deps, f)
    os.replace(depf + ".t", depf)
    return dst, True, ""


def build(flavour="asan", log=sys.stderr):
    for d in ("obj", "deps", "tmp", "bin"):
        os.makedirs(os.path.join(OUT, d), exist_ok=True)
    t0 = time.time()
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srcs = lib_sources() + harness_sources()
        srcs.sort(key=lambda s: -os.path.getsize(s))
        objs, built, errs = [], 0, []
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for o, b, e in ex.map(lambda s: compile_one(s, flavour), srcs):
                built += b
                if o is None:
                    errs.append(e)
                else:
                    objs.append(o)
        if errs:
            raise RuntimeError("compile failed:\n" + "\n".join(e[:1500] for e in errs[:2]))
        objs.sort()
        lk_key = hashlib.sha256(("\n".join(objs) + json.dumps(FLAVOURS[flavour])).encode()).hexdigest()[:24]
        exe = os.path.join(OUT, "bin", "fcmon-%s-%s" % (flavour, lk_key))
        if not os.path.exists(exe):
            r = subprocess.run([CXX] + FLAVOURS[flavour][1] + objs + ["-o", exe + ".t"] + LIBS,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise RuntimeError("link failed:\n" + r.stdout[-3000:])
            os.replace(exe + ".t", exe)
        # keep the store small: drop old binaries and objects nobody used recently
        exes = sorted(glob.glob(os.path.join(OUT, "bin", "fcmon-*")), key=os.path.getmtime)
        for p in exes[:-6]:
            if p != exe:
                os.unlink(p)
        for o in objs:
            os.utime(o)
        old = sorted(glob.glob(os.path.join(OUT, "obj", "*.o")), key=os.path.getmtime)
        for p in old[:-4000]:
            os.unlink(p)
    print("build[%s]: %d compiled, %d total, %.1fs" % (flavour, built, len(srcs), time.time() - t0), file=log)
    return exe


if __name__ == "__main__":
    for fl in (sys.argv[1:] or ["asan"]):
        print(build(fl))
