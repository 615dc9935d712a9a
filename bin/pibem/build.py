"""Builds the verification harnesses from /repo's current working tree.

Objects are cached in /verif/build (git-ignored) under the hash of the
preprocessor-visible inputs (all headers + the source file + the flags), so a
check never uses an object that does not correspond to the current tree."""
import hashlib, os, subprocess, concurrent.futures as cf, glob, shutil, fcntl, tempfile

REPO = os.environ.get("PIBEM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILD = os.path.join(VERIF, "build")
L = "/usr/lib/x86_64-linux-gnu"
INC = ["-I%s/include" % REPO] + sum([["-isystem", p] for p in (
    L + "/openmpi/include", L + "/openmpi/include/openmpi", "/usr/include/petsc",
    "/usr/include/trilinos", "/usr/include/hdf5/openmpi", "/usr/include/scotch",
    "/usr/include/suitesparse", "/usr/include/opencascade", "/usr/include/slepc")], [])
CXX = ["g++", "-std=c++17", "-fPIC", "-w", "-O1", "-DNDEBUG"]
LIBS = [L + "/libdeal.ii.so.9.5.1"] + ["-l:" + s for s in
    ("libtbb.so.12 libtrilinos_epetra.so.13.2 libtrilinos_teuchoscomm.so.13.2 libtrilinos_teuchoscore.so.13.2 "
     "libmpi_cxx.so.40 libTKBRep.so.7 libTKernel.so.7 libTKGeomBase.so.7 libTKMath.so.7 libTKShHealing.so.7 "
     "libmpi.so.40 libpetsc_real.so.3.19").split()]
RPATH = "-Wl,-rpath,%s/hdf5/openmpi:%s/openmpi/lib" % (L, L)


class BuildError(Exception):
    pass


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def _rd(p):
    with open(p, "rb") as f:
        return f.read()


def _headers():
    hs = sorted(glob.glob(REPO + "/include/**/*", recursive=True))
    return _h(*[os.path.relpath(p, REPO).encode() + b"\1" + _rd(p) for p in hs if os.path.isfile(p)])


def sources():
    return sorted(p for p in glob.glob(REPO + "/source/*.cc") if os.path.basename(p) != "main.cc")


def _compile(src, flags, hh, extra=b""):
    key = _h(" ".join(flags), hh, _rd(src), os.path.basename(src), extra)
    obj = os.path.join(BUILD, "obj", os.path.basename(src)[:-3] + "-" + key + ".o")
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=os.path.dirname(obj))
    os.close(fd)
    r = subprocess.run(flags + INC + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        os.unlink(tmp)
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    os.rename(tmp, obj)
    return obj


def build(*targets):
    """targets: names of harness executables, e.g. 'bemx2', 'bemx3', 'expx'. Returns {name: path}"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(targets)


HARNESS = {  # name: (source, defines, link wraps)
    "bemx2": ("bemx.cc", ["-DBEMX_DIM=2"]),
    "bemx3": ("bemx.cc", ["-DBEMX_DIM=3"]),
    "bemw2": ("bemx.cc", ["-DBEMX_DIM=2", "-DBEMX_WRAP"]),
    "bemw3": ("bemx.cc", ["-DBEMX_DIM=3", "-DBEMX_WRAP"]),
    "expx": ("expx.cc", []),
    "kerx": ("kerx.cc", []),
    "conx": ("conx.cc", []),
    "mainx2": ("../source/main.cc", ["-DDEAL_II_DIMENSION=2"]),  # the program itself
    "mainx3": ("../source/main.cc", ["-DDEAL_II_DIMENSION=3"]),
}


def wraps(name):
    """symbols wrapped by harness/wrap.h"""
    import re
    t = _rd(os.path.join(VERIF, "harness", "wrap.h")).decode()
    w = set(re.findall(r"void __wrap_(\w+)\(|double __wrap_(\w+)\(|V __wrap_(\w+)\(", t))
    w = {a or b or c for a, b, c in w}
    w |= {a + name[-1] + b for a, b in re.findall(r"void SYM\(__wrap_(\w+), (\w+)\)", t)}
    return sorted(w)


def _build(targets):
    hh = _headers()
    jobs = {}
    with cf.ThreadPoolExecutor(8) as ex:
        # heavy files first
        srcs = sorted(sources(), key=lambda p: -os.path.getsize(p))
        hs = []
        for t in targets:
            f, d = HARNESS[t]
            jobs[t] = ex.submit(_compile, os.path.join(REPO, f[3:]) if f.startswith("../") else os.path.join(VERIF, "harness", f), CXX + d, hh,
                                b"".join(_rd(x) for x in sorted(glob.glob(VERIF + "/harness/*.h"))))
        libs = [ex.submit(_compile, s, CXX, hh) for s in srcs]
        libo = [j.result() for j in libs]
        ho = {t: j.result() for t, j in jobs.items()}
    res = {}

    def link(t):
        w = ["-Wl,--wrap=" + x for x in wraps(t)] if t.startswith("bemw") else []
        key = _h(t, ho[t], *(libo + w + LIBS))
        exe = os.path.join(BUILD, "exe", t + "-" + key)
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + ".tmp"
            r = subprocess.run(["g++", "-fuse-ld=gold", RPATH, "-o", tmp, ho[t]] + libo + w + ["-L" + L] + LIBS,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError("linking %s failed:\n%s" % (t, r.stdout[-4000:]))
            os.rename(tmp, exe)
        return t, exe
    with cf.ThreadPoolExecutor(4) as ex:
        for t, e in ex.map(link, targets):
            res[t] = e
    return res


if __name__ == "__main__":
    import sys
    a = sys.argv[1:]
    if a == ["all"]:
        a = [n for n, (f, d) in HARNESS.items() if f.startswith("../") or os.path.exists(os.path.join(VERIF, "harness", f))]
    for n, e in build(*a).items():
        print(n, e)
