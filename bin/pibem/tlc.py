"""Running TLC: exhaustive model checking and trace validation."""
import json, os, re, subprocess, tempfile, shutil
from .build import VERIF

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class TLCError(Exception):
    pass


class Out:
    def __init__(self, ok, states, distinct, diameter, violated, text, coverage=None):
        self.ok, self.states, self.distinct, self.diameter, self.violated, self.text = ok, states, distinct, diameter, violated, text
        self.coverage = coverage or {}


def tlc(module, cfg, env=None, workers=4, timeout=800, xmx="6g", extra=(), simulate=None):
    """Run TLC on spec/<module>.tla with config text or file name `cfg`."""
    d = tempfile.mkdtemp(prefix="pibem-tlc-", dir=os.environ.get("PIBEM_SCRATCH"))
    try:
        if "\n" in cfg or " " in cfg:
            cp = os.path.join(d, module + ".cfg")
            open(cp, "w").write(cfg)
        else:
            cp = os.path.join(SPEC, cfg)
        cmd = ["java", "-Xmx" + xmx, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Djava.io.tmpdir=" + d,
               "-DTLA-Library=" + SPEC, "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", cp] + list(extra)
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError("TLC timeout on " + module)
        t = "\n".join(x for x in p.stdout.split("\n") if not x.startswith(("Parsing file", "Semantic processing", "Linting")))
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", t)
        st, di = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"The depth of the complete state graph search is (\d+)", t)
        dia = int(m[-1]) if m else 0
        cov = {}
        for a, x, y in re.findall(r"^<(\w+) line [^>]*>: (\d+):(\d+)", t, re.M):
            cov[a] = cov.get(a, 0) + int(y)
        viol = None
        m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|property of the specification was violated|Deadlock reached|(?:POSTCONDITION|Postcondition)\s+(\S+)", t)
        if m:
            viol = m.group(0)
        ok = p.returncode == 0
        if not ok and not viol:
            if p.returncode in (10, 11, 12, 13, 14):
                viol = "TLC exit %d" % p.returncode
            else:
                raise TLCError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, t[-3500:]))
        return Out(ok, st, di, dia, viol, t, cov)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def validate(module, trace, consts="", timeout=800, workers=1, xmx="6g", invariants=()):
    """Trace validation: spec/<module>.tla reads the ndjson file named by env TRACE.

    The module defines TraceSpec, TraceAccepted (POSTCONDITION) and the view l.
    Returns (accepted, position of first unmatched line or None, Out)."""
    d = tempfile.mkdtemp(prefix="pibem-tr-", dir=os.environ.get("PIBEM_SCRATCH"))
    try:
        f = os.path.join(d, "trace.ndjson")
        with open(f, "w") as o:
            for r in trace:
                o.write(json.dumps(r, separators=(",", ":")) + "\n")
        cfg = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" + consts + "\n"
        for i in invariants:
            cfg += "INVARIANT %s\n" % i
        o = tlc(module, cfg, env={"TRACE": f}, workers=workers, timeout=timeout, xmx=xmx)
        pos = None
        if not o.ok:
            m = re.findall(r"TRACE-STUCK-AT (\d+)", o.text)
            pos = int(m[-1]) if m else None
            if pos is None and (o.violated or "").startswith("Invariant"):
                m = re.findall(r"/\\ l = (\d+)", o.text)
                pos = int(m[-1]) - 1 if m else None
            if pos is None:
                raise TLCError("trace validation of %s failed without a position:\n%s" % (module, o.text[-3500:]))
        return o.ok, pos, o
    finally:
        shutil.rmtree(d, ignore_errors=True)
