#!/usr/bin/env python3
"""Builds the monitored binary from /repo's *current working tree*.

Flavours
  asan : gcc, AddressSanitizer + UndefinedBehaviorSanitizer, libstdc++ assertions,
         automatic variables pattern-initialised (so uninitialised reads become visible)
  tsan : gcc, ThreadSanitizer, linked against src/gomp_shim.cpp instead of libgomp

Every translation unit is compiled by itself through ccache (content addressed, so
mtimes do not matter); sources are globbed, so added or removed files are followed.
"""
import os, subprocess, sys, glob, time, hashlib, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MK_REPO", "/repo")
CACHE = os.environ.get("MK_CACHE", os.path.join(VERIF, ".cache"))

COMMON = ["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-fopenmp", "-w",
          "-D_GLIBCXX_ASSERTIONS", "-DHAVE_SRC_LOC_IN_ERR_MSGS=0", "-DUSE_LIBFMT=0",
          "-include", "numeric", "-include", "algorithm", "-include", "cstdint",
          "-include", "memory", "-include", "utility", "-include", "string", "-include", "vector",
          "-include", "functional", "-include", "cmath", "-include", "optional"]
FLAVOURS = {
    "asan": dict(cflags=["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
                         "-fno-sanitize=vptr", "-ftrivial-auto-var-init=pattern"],
                 ld=["-fsanitize=address,undefined", "-fopenmp"]),
    "tsan": dict(cflags=["-fsanitize=thread"], ld=["-fsanitize=thread", "-lpthread"]),
}
# harness sources that belong to only one flavour
ONLY = {"gomp_shim.cpp": "tsan"}


def build(flavour, verbose=True):
    """returns path of the binary; raises RuntimeError on a compile error"""
    t0 = time.time()
    fl = FLAVOURS[flavour]
    bdir = os.path.join(CACHE, "build", flavour)
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(bdir, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = os.path.join(bdir, "gen")
    os.makedirs(os.path.join(gen, "Version"), exist_ok=True)
    vt = open(os.path.join(REPO, "tools/Version/Version.hpp.in")).read() if os.path.exists(
        os.path.join(REPO, "tools/Version/Version.hpp.in")) else ""
    import re
    vt = re.sub(r"@[A-Za-z_]+@", "0", vt)
    vt = re.sub(r"\$\{[A-Za-z_]+\}", "0", vt)
    vpath = os.path.join(gen, "Version", "Version.hpp")
    if not os.path.exists(vpath) or open(vpath).read() != vt:
        open(vpath, "w").write(vt)

    # every exported function with its parameter names
    api = open(os.path.join(REPO, "libs/MeshKernelApi/include/MeshKernelApi/MeshKernel.hpp")).read()
    api = re.sub(r"//[^\n]*|/\*.*?\*/", "", api, flags=re.S)
    lines = []
    for m in re.finditer(r"MKERNEL_API\s+int\s+(mkernel_\w+)\s*\(([^;{]*)\)\s*;", api):
        args = [a.split("=")[0].strip() for a in " ".join(m.group(2).split()).split(",") if a.strip()]
        lines.append('API(%s, "%s")' % (m.group(1), ",".join(re.split(r"[\s*&]+", a)[-1] for a in args)))
    at = "\n".join(lines) + "\n"
    apath = os.path.join(gen, "api_list.inc")
    if not os.path.exists(apath) or open(apath).read() != at:
        open(apath, "w").write(at)

    inc = ["-I" + os.path.join(VERIF, "src"), "-I" + os.path.join(REPO, "libs/MeshKernel/include"),
           "-I" + os.path.join(REPO, "libs/MeshKernelApi/include"),
           "-I" + os.path.join(REPO, "extern/triangle/src"), "-I" + os.path.join(REPO, "extern/triangle/include"),
           "-I" + gen, "-isystem", "/usr/include/eigen3",
           '-DCMAKE_SRC_DIR="%s"' % REPO]
    srcs = sorted(glob.glob(os.path.join(REPO, "libs/MeshKernel/src/**/*.cpp"), recursive=True)) + \
        sorted(glob.glob(os.path.join(REPO, "libs/MeshKernelApi/src/**/*.cpp"), recursive=True))
    csrcs = [os.path.join(REPO, "extern/triangle/src", f) for f in ("triangle.c", "TriangleFacade.c")]
    hsrcs = [h for h in sorted(glob.glob(os.path.join(VERIF, "src/*.cpp")))
             if ONLY.get(os.path.basename(h), flavour) == flavour]
    cc = ["ccache"] if os.path.exists("/usr/bin/ccache") else []
    env = dict(os.environ, CCACHE_DIR=os.path.join(CACHE, "ccache"), CCACHE_MAXSIZE="4G",
               CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime,time_macros",
               CCACHE_COMPILERCHECK="%compiler% --version", CCACHE_NOHASHDIR="1", CCACHE_COMPRESSLEVEL="1",
               HOME=os.environ.get("HOME", "/root"))
    env.pop("CCACHE_DISABLE", None)
    # triangle.c is third party C code that packs pointers and whose expansion sums read (never use) one element
    # past their arrays: it is compiled without sanitizers
    cflags_c = [f for f in fl["cflags"] if not f.startswith("-fsanitize") and not f.startswith("-fno-sanitize")]
    jobs = []
    for s in csrcs:
        o = os.path.join(bdir, "c_" + os.path.basename(s) + ".o")
        jobs.append((s, o, cc + ["gcc", "-O1", "-g1", "-w", "-DANSI_DECLARATORS", "-DTRILIBRARY", "-DNO_TIMER"] +
                     (cflags_c if s.endswith("triangle.c") else [f for f in fl["cflags"] if "GLIBCXX" not in f and "std=" not in f]) + inc + ["-c", s, "-o", o]))
    for s in srcs + hsrcs:
        o = os.path.join(bdir, hashlib.sha1(s.encode()).hexdigest()[:10] + "_" + os.path.basename(s) + ".o")
        jobs.append((s, o, cc + ["g++"] + COMMON + fl["cflags"] + inc + ["-c", s, "-o", o]))
    # biggest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))

    def run(j):
        r = subprocess.run(j[2], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return j, r
    errs = []
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for j, r in ex.map(run, jobs):
            if r.returncode != 0:
                errs.append("%s\n%s" % (j[0], r.stdout[-3000:]))
    if errs:
        raise RuntimeError("compile errors:\n" + "\n".join(errs))
    out = os.path.join(bdir, "mkmon")
    r = subprocess.run(["g++", "-fuse-ld=gold" if os.path.exists("/usr/bin/ld.gold") else "-g1", "-o", out + ".new"] +
                       [j[1] for j in jobs] + fl["ld"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("link error:\n" + r.stdout[-3000:])
    os.replace(out + ".new", out)
    if verbose:
        print("built %s (%d units) in %.1fs" % (flavour, len(jobs), time.time() - t0), flush=True)
    return out


if __name__ == "__main__":
    for f in sys.argv[1:] or ["asan"]:
        build(f)
