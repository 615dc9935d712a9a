"""N03: the constrained operator."""
import json, os, tempfile
import numpy as np
from .. import check, mesh, prm, run, tlc
from ..canon import fl, q
from ..check import Scenario
from . import nodes


def generate(module, extra=None):
    """cases written by TLC while it evaluates spec/<module>.tla"""
    d = tempfile.mkdtemp(prefix="pibem-gen-", dir=os.environ.get("PIBEM_SCRATCH"))
    f = os.path.join(d, "cases.ndjson")
    o = tlc.tlc(module, "\n", env=dict({"OUT": f}, **(extra or {})), workers=1)
    if not o.ok:
        raise tlc.TLCError("generation with %s failed: %s" % (module, o.text[-1500:]))
    return [json.loads(l) for l in open(f)]


def case_line(k, first):
    n = len(k["x"])
    t = [n] + [v for r in k["A"] for v in r] + [len(k["con"])]
    for c in k["con"]:
        t += [c["i"] - 1, len(c["m"])]
        for m, w in zip(c["m"], c["w"]):
            t += [m - 1, w]
        t.append(c["h"])
    return " ".join(map(str, t + k["x"] + k["b"] + first))


def random_system(r, n):
    A = [[r.randint(-3, 3) for _ in range(n)] for _ in range(n)]
    C = r.sample(range(1, n + 1), r.randint(0, n - 1))
    free = [i for i in range(1, n + 1) if i not in C]
    con = []
    for i in C:
        m = r.sample(free, min(len(free), r.randint(0, 3)))
        con.append({"i": i, "m": m, "w": [r.choice([-2, -1, 1, 2, 3]) for _ in m], "h": r.randint(-5, 5)})
    return {"A": A, "con": con, "x": [r.randint(-9, 9) for _ in range(n)], "b": [r.randint(-50, 50) for _ in range(n)]}


def exact(c, key, cases, np_):
    rng = c.rng
    firsts = [[0] + sorted(rng.sample(range(1, len(k["x"])), np_ - 1)) for k in cases]

    def fn():
        f = {"cases": "\n".join(case_line(k, fi) for k, fi in zip(cases, firsts)) + "\n"}
        r = run.harness(c.exe("conx")[0], [], f, np=np_, timeout=300, args=["cases", "out"])
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        evs = r.all("con")
        if len(evs) != len(cases):
            return [{"op": "abnormal", "why": "missing results"}]
        return [dict(k, op="exact", y=e["y"], r=e["r"], s=e["s"]) for k, e in zip(cases, evs)]
    return Scenario(key, fn, {"np": np_, "cases": len(cases)})


def rows_events(d, t, a, s, tol):
    n = d["n"]
    v, w, A, C, R, lin = (fl(a[k]) for k in ("v", "w", "A", "C", "R", "lin"))
    con = {k["i"]: k for k in t["c"]}
    sc = max(1.0, np.abs(A).max())
    res = np.array([v[i] - sum(float(e[1]) * v[e[0]] for e in con[i]["e"]) if i in con else 0 for i in range(n)])
    h = np.array([float(con[i]["h"]) if i in con else 0 for i in range(n)])
    ev = {"op": "rows", "con": [i + 1 for i in con], "du": q(np.abs(C - A) / sc, 1e-9), "dc": q(np.abs(C - res) / sc, 1e-9), "dr": q(np.abs(R - w) / sc, 1e-9), "dh": q(np.abs(R - h) / sc, 1e-9),
          "lin": q(np.abs(lin) / sc, 1e-9), "ltol": 1000}
    sol = fl(s["sol"])
    m = max(1.0, np.abs(sol).max())
    rs = np.array([abs(sol[i] - sum(float(e[1]) * sol[e[0]] for e in con[i]["e"]) - float(con[i]["h"])) if i in con else 0 for i in range(n)]) / m
    return [ev, {"op": "solved", "res": q(rs, 1e-9), "tol": tol}]


def real(c, cs, over=None, np_=None):
    key, dim, g, pre, script, kw, exact_, n0 = cs
    np_ = np_ or n0

    def fn():
        k2 = dict(kw, tol="1e-11", **(over or {}))
        r = run.harness(c.exe("bemx%d" % dim)[0], ["new p.prm", "read", "resize %d" % pre, "update"] + script + ["update", "reinit", "solve", "dofs", "constr", "sol", "apply 5"],
                        {"p.prm": prm.make(dim, **k2), "grid.inp": g}, np=np_, timeout=250)
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        return rows_events(r.get("dofs"), r.get("constr"), r.get("apply"), r.get("sol"), 100)
    return Scenario("real:%s:%s" % (key, (over or {}).get("method", "Direct")), fn, {"np": np_, "dim": dim})


def N03(c):
    c.exe("bemx2", "bemx3", "conx")
    c.model("ConstrainedDesign", "ConstrainedDesign_2.cfg")
    if c.thorough:
        c.model("ConstrainedDesign", "ConstrainedDesign_3.cfg")
    gen = generate("ConstrainedGen")
    c.extra["generated_cases"] = len(gen)
    sc = [exact(c, "generated:np%d" % n, gen, n) for n in (1, 2, 3)]
    for k in range(12 if c.thorough else 3):
        n = c.rng.choice([5, 8, 13])
        sc.append(exact(c, "random:%d" % k, [random_system(c.rng, n) for _ in range(60)], c.rng.choice([1, 2, 3, 4])))
    cs = nodes.cases(c)
    pick = [x for x in cs if x[0] in ("coplanar-DD", "glued-mixed", "local", "local-deep", "q2-local", "square2d", "straight2d", "pure-flux", "all-potential", "cube-21")] + (cs if c.thorough else cs[-4:])
    pick = list({x[0]: x for x in pick}.values())
    sc += [real(c, x) for x in pick]
    fm = [x for x in pick if x[1] == 3][:: 1 if c.thorough else 3]
    sc += [real(c, x, {"method": "FMA", "levels": 4, "maxn": 6, "order": 4}) for x in fm]
    return check.run_scenarios(c, sc, "ConstrainedTrace")
