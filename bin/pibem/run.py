"""Runs the harness executables in throw-away scratch directories."""
import json, os, subprocess, tempfile, shutil, signal
from . import build

ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
           OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_btl_vader_single_copy_mechanism="none",
           OMPI_MCA_btl="self,vader", OMPI_MCA_plm="isolated", OMPI_MCA_plm_rsh_agent="false", HOME=os.environ.get("HOME", "/root"),
           OMP_NUM_THREADS="1", OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_hwloc_base_binding_policy="none")
ENV.pop("DEAL_II_NUM_THREADS", None)


class Result:
    """events: per rank list of dicts; rc; out"""

    def __init__(self, events, rc, out, why, files=None):
        self.events, self.rc, self.out, self.why, self.files = events, rc, out, why, files or {}
        self.ok = why is None

    def get(self, ev, k=0, rank=0):
        l = [e for e in self.events[rank] if e.get("ev") == ev]
        return l[k] if len(l) > k or k < 0 else None

    def all(self, ev, rank=0):
        return [e for e in self.events[rank] if e.get("ev") == ev]


def harness(exe, script, files=None, np=1, threads=1, timeout=120, grids=False, keep=(), base=None, args=None, env=None):
    """script: list of lines; files: {name: text} written in the run dir."""
    base = base or os.environ.get("PIBEM_SCRATCH") or tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix="pibem-", dir=base)
    try:
        rd = os.path.join(d, "run")
        os.mkdir(rd)
        if grids:
            shutil.copytree(os.path.join(build.REPO, "grids"), os.path.join(d, "grids"))
        for n, t in (files or {}).items():
            p = os.path.join(rd, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w" if isinstance(t, str) else "wb") as f:
                f.write(t)
        with open(os.path.join(rd, "script"), "w") as f:
            f.write("\n".join(script) + "\n")
        cmd = [exe] + (args or ["script", "out", str(threads)])
        if np > 1:
            cmd = ["mpirun", "--oversubscribe", "-np", str(np)] + cmd
        env = dict(ENV, TMPDIR=d, **(env or {}))
        why = None
        with open(os.path.join(d, "log"), "wb") as lg:
            p = subprocess.Popen(cmd, cwd=rd, env=env, stdout=lg, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                why = "timeout after %ds" % timeout
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = -9
        with open(os.path.join(d, "log"), errors="replace") as f:
            log = f.read()
        evs = []
        for r in range(np):
            fn = os.path.join(rd, "out" + (".%d" % r if r else ""))
            l = []
            if os.path.exists(fn):
                for line in open(fn, errors="replace"):
                    try:
                        l.append(json.loads(line))
                    except ValueError:
                        l.append({"ev": "garbled"})
            evs.append(l)
        if why is None:
            exc = [e for l in evs for e in l if e.get("ev") == "exception"]
            if exc:
                why = "exception in '%s': %s" % (exc[0].get("cmd"), exc[0].get("what", "")[:600])
            elif rc != 0:
                why = "exit code %d: %s" % (rc, log[-600:])
            elif not all(l and l[-1].get("ev") == "end" for l in evs):
                why = "incomplete output"
        fs = {}
        for k in keep:
            p = os.path.join(rd, k)
            if os.path.exists(p):
                with open(p, "rb") as f:
                    fs[k] = f.read()
        return Result(evs, rc, log, why, fs)
    finally:
        shutil.rmtree(d, ignore_errors=True)
