"""B04: the linear solver and its preconditioners."""
import json, os, tempfile
import numpy as np
from .. import check, mesh, prm, run, tlc
from ..canon import fl
from ..check import Scenario
from . import fields

BANDS, TOLS, LIMITS = (2, 6, 20, 100, 100000), (1e-3, 1e-6, 1e-9), (1, 3, 6, 9, 14, 30, 1000, 1000)
METHODS = [dict(method="Direct"), dict(method="FMA", levels=4, maxn=4, order=5), dict(method="FMA", levels=1, maxn=500, order=5), dict(method="FMA", levels=6, maxn=2, order=5)]
BOUND = 5 * 1000       # thousandths of the tolerance


def histories(num, seed, solves, methods):
    d = tempfile.mkdtemp(dir=os.environ.get("PIBEM_SCRATCH"))
    f = os.path.join(d, "h")
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Solves = %d\n Bands = %d\n Tols = %d\n Limits = %d\n Methods = %d\nINVARIANT Written\nCHECK_DEADLOCK FALSE\n" % (solves, len(BANDS), len(TOLS), len(LIMITS), methods)
    o = tlc.tlc("KrylovGen", cfg, env={"OUT": f}, workers=1, simulate="num=%d" % num, extra=["-depth", str(2 * solves + 1), "-seed", str(seed)])
    if not o.ok:
        raise tlc.TLCError("generation failed: " + o.text[-1500:])
    out, seen = [], set()
    for line in open(f):
        h = json.loads(line)
        h = json.loads(h) if isinstance(h, str) else h
        if json.dumps(h) not in seen:
            seen.add(json.dumps(h))
            out.append(h)
    return out[:num], o


def matrix(r, np_, k):
    n = r.get("dense")["n"]
    A = np.zeros((n, n))
    for p in range(np_):
        for i, row in r.get("dense", 0, p)[k]:
            A[i] = fl(row)
    return A


def cap(v):
    return int(min(2e9, np.ceil(v))) if v == v else 2 * 10 ** 9


def columns(f):
    """the operators of the fast method"""
    A, B = np.zeros((f["n"],) * 2), np.zeros((f["n"],) * 2)
    for k in f["cols"]:
        A[:, k["c"]], B[:, k["c"]] = fl(k["N"]), fl(k["D"])
    return A, B


def solve_event(e, o, t, N, D, tol):
    n = e["n"]
    ev = {"op": "solve", "ok": bool(e["ok"]), "steps": e["steps"], "max": e["max"], "enough": 1000, "bound": BOUND, "fp": [], "defect": 0, "condefect": 0, "dist": 0, "distbound": 0}
    if not e["ok"]:
        return ev
    a, x, kn = fl(o["alpha"]), fl(o["sol"]), fl(o["tmp"])
    d = np.rint(fl(o["dir"])).astype(int) == 1
    con = {c["i"]: c for c in t["c"]}
    M, K = N + np.diag(a), D
    A = np.where(d[None, :], -K, M)       # columns of the unknowns
    B = np.where(d[None, :], -M, K)       # columns of the data
    b = B @ kn
    for i, c in con.items():
        A[i], b[i] = 0, float(c["h"])
        A[i, i] = 1
        for j, w in c["e"]:
            A[i, j] -= float(w)
    free = np.array([i not in con for i in range(n)])
    r = np.abs(A @ x - b)
    size = np.abs(x).max() + np.abs(kn).max()
    nrm = np.abs(A).sum(1).max()
    slack = 1e-12 * nrm * size
    u = max(tol, 1e-11) * max(nrm, 1.) / 1000
    ev["defect"] = cap(max(0, r[free].max() - slack) / u)
    ev["condefect"] = cap(max(0, (r[~free].max() if not free.all() else 0) - 1e-11 * size) / u)
    # distance to the solution of the dense system
    ref = np.linalg.solve(A, b)
    inv = np.linalg.norm(np.linalg.inv(A), np.inf)
    ev["dist"] = cap(np.abs(x - ref).max() / size * 1e6)
    ev["distbound"] = cap(inv * (slack + BOUND * u) / size * 1e6 + 1)
    ev["fp"] = [int(v) for v in np.clip(np.rint(x / (np.abs(x).max() + 1e-300) * 1e6), -2e9, 2e9)]
    return ev


def scenario(c, key, P, k, hist):
    dirs = [m for m in METHODS if P.dim == 3 or m["method"] == "Direct"]

    def fn():
        files, script, plan = {"grid.inp": P.grid()}, [], []
        big = dict(maxsteps=1000, sorder=8, qorder=6)

        def put(**kw):
            f = "p%d.prm" % len(files)
            files[f] = P.params(**dict(big, **kw))
            return f
        script += ["new " + put()] + P.script(k) + ["reinit", "assemble", "dense"]
        old, have = None, {}
        for o in hist:
            if o["op"] == "set":
                st = o["st"]
                if old != st:
                    plan.append(("settings", [st["band"], st["tol"], st["method"]], None))
            else:
                m = dirs[(st["method"] - 1) % len(dirs)]
                # re-initialise with the limit lifted; the solve has the limit of the history
                if old != st:
                    script += ["prm " + put(tol=TOLS[st["tol"] - 1], **m), "band %d" % BANDS[st["band"] - 1], "reinit"]
                    old = st
                script += ["prm " + put(tol=TOLS[st["tol"] - 1], **dict(m, maxsteps=LIMITS[o["max"] - 1])), "trysolve"]
                k_ = METHODS.index(m)
                if k_ and k_ not in have:
                    have[k_] = len(have)
                    script += ["fmacols 1"]
                plan.append(("solve", TOLS[st["tol"] - 1], k_))
        r = run.harness(c.exe("bemx%d" % P.dim)[0], script, files, np=P.np, timeout=280)
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        op = {k_: columns(r.get("fmacols", i)) for k_, i in have.items()}
        op[0] = matrix(r, P.np, "N"), matrix(r, P.np, "D")
        tries, sols, cons = iter(r.all("trysolve")), iter(r.all("sol")), iter(r.all("constr"))
        out = []
        for what, a, b in plan:
            if what == "settings":
                out.append({"op": what, "s": a})
            else:
                e = next(tries)
                out.append(solve_event(e, next(sols) if e["ok"] else None, next(cons) if e["ok"] else None, *op[b], a))
        return out
    return Scenario(key, fn, dict(fields.desc(P), history=" ".join("%d/%d/%d" % tuple(o["st"].values()) if o["op"] == "set" else "max %d" % LIMITS[o["max"] - 1] for o in hist)))


def program(c, key, dim, P, np_, limits, **kw):
    """whole runs: results are written only after a converged solve"""
    def fn():
        ev = []
        for m in limits:
            f = "parameters_bem_%d.prm" % dim
            t = P.params(maxsteps=m, driver=True, tol="1e-10", fmt="inp", grid="grid", out="result", cycles=0, **kw)
            keep = ["result_scalar_results.vtu", "result_vector_results.vtu"]
            r = run.harness(c.exe("mainx%d" % dim)[0], [], {f: t, "grid.inp": P.grid()}, np=np_, timeout=200, keep=keep, args=["1"])
            ev.append({"op": "program", "max": m, "enough": m >= 1000, "rc": min(abs(r.rc), 255), "crash": r.rc < 0 or r.rc in (134, 136, 137, 139), "output": len(r.files) > 0})
        return ev
    return Scenario(key, fn, {"limits": limits, "np": np_})


def B04(c):
    c.model("KrylovDesign", "KrylovDesign_deep.cfg" if c.thorough else "KrylovDesign_ok.cfg")
    c.pmap(lambda b: c.rejects("KrylovDesign", "KrylovDesign_bad_%s.cfg" % b, workers=2), ("singular", "silent", "operator"), 3)
    S = []
    for dim, num, k, cells in ((2, 30 if c.thorough else 5, 3, 5), (3, 60 if c.thorough else 10, 2, 3)):
        ps, o = fields.problems(dim, num, c.seed + 40 + dim, (1, 1, 1, 2), k, cells)
        c.mc_trans += o.states
        hs, o = histories(num, c.seed + dim, 8 if c.thorough else 6, 1 if dim == 2 else len(METHODS))
        c.mc_trans += o.states
        for i, (p, h) in enumerate(zip(ps, hs)):
            if dim == 3 and p["prob"]["order"] == 2:
                p["prob"].update(r=1, loc=min(1, p["prob"]["loc"]))
            P = fields.Problem(p, i)
            S.append(scenario(c, "history %dd-%d" % (dim, i), P, i, h))
    some = lambda f: int((sum(f[0]) + f[1] + f[2]) % 2)
    S.append(program(c, "program 2d", 2, fields.fixed(fields.L2, some, r=2, rot=1), 1, (1, 1000)))
    S.append(program(c, "program 3d", 3, fields.fixed(fields.LB, some, rot=1), 2, (2, 1000)))
    S.append(program(c, "program fma", 3, fields.fixed(fields.LB, some, r=2, rot=2), 1, (2, 1000), method="FMA", levels=4, maxn=5))
    return check.run_scenarios(c, S, "KrylovTrace", pool=6)
