"""Runs the library built in ./_build (cwd is the repository) through a small driver program."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, atexit
import numpy as np
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
sys.path.insert(0, HERE)
import mesh, prm
T = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, T, True)
L = "/usr/lib/x86_64-linux-gnu"
INC = sum([["-isystem", p] for p in (L + "/openmpi/include", L + "/openmpi/include/openmpi", "/usr/include/petsc", "/usr/include/trilinos",
      "/usr/include/hdf5/openmpi", "/usr/include/scotch", "/usr/include/suitesparse", "/usr/include/opencascade", "/usr/include/slepc")], [])
LIBS = [L + "/libdeal.ii.so.9.5.1"] + ["-l:" + s for s in ("libtbb.so.12 libtrilinos_epetra.so.13.2 libtrilinos_teuchoscomm.so.13.2 "
      "libtrilinos_teuchoscore.so.13.2 libmpi_cxx.so.40 libTKBRep.so.7 libTKernel.so.7 libTKGeomBase.so.7 libTKMath.so.7 libTKShHealing.so.7 libmpi.so.40 libpetsc_real.so.3.19").split()]


def compile(src, *defs):
    exe = os.path.join(T, src + "".join(defs).replace("-", "").replace("=", ""))
    if not os.path.exists(exe):
        b = os.path.join(REPO, "_build")
        subprocess.run(["g++", "-std=c++17", "-w", "-O0", "-DNDEBUG", *defs, "-I" + os.path.join(REPO, "include"), *INC, os.path.join(HERE, src), "-o", exe,
                        "-L" + b, "-lbem_fma-lib", "-Wl,-rpath," + b, "-Wl,-rpath,%s/hdf5/openmpi:%s/openmpi/lib" % (L, L), "-L" + L, *LIBS], check=True)
    return exe


def run(dim, script, files=None, np_=1, threads=1, grids=False, timeout=200, exe=None, args=None, keep=()):
    """returns (list of dumps of rank 0 by name -> list, return code, kept files)"""
    exe = exe or compile("bemx.cc", "-DBEMX_DIM=%d" % dim)
    d = tempfile.mkdtemp(dir=T)
    rd = os.path.join(d, "run")
    os.mkdir(rd)
    if grids:
        shutil.copytree(os.path.join(REPO, "grids"), os.path.join(d, "grids"))
    for n, t in (files or {}).items():
        open(os.path.join(rd, n), "w").write(t)
    open(os.path.join(rd, "script"), "w").write("\n".join(script) + "\n")
    cmd = [exe] + (args or ["script", "out", str(threads)])
    if np_ > 1:
        cmd = ["mpirun", "--oversubscribe", "-np", str(np_)] + cmd
    env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader", OMPI_MCA_plm="isolated",
               OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1", OMP_NUM_THREADS="1", TMPDIR=d)
    try:
        rc = subprocess.run(cmd, cwd=rd, env=env, stdout=open(os.path.join(d, "log"), "w"), stderr=subprocess.STDOUT, timeout=timeout).returncode
    except subprocess.TimeoutExpired:
        rc = -9
    res = {}
    p = os.path.join(rd, "out")
    if os.path.exists(p):
        for l in open(p):
            try:
                e = json.loads(l)
                res.setdefault(e["ev"], []).append(e)
            except ValueError:
                pass
    kept = {k: open(os.path.join(rd, k), "rb").read() for k in keep if os.path.exists(os.path.join(rd, k))}
    if rc:
        print("run ended with", rc, open(os.path.join(d, "log"), errors="replace").read()[-400:])
    return res, rc, kept


def fl(v):
    return np.array([float(x) for x in v])


def fail(msg):
    print("FAIL:", msg)
    sys.exit(1)
