"""L02: stages and results of a run."""
import hashlib, json, re
import numpy as np
from .. import check, mesh, prm, run, vtu
from ..canon import fl, q
from ..check import Scenario
from .nodes import POT3, WIND3, POT2, WIND2

FILES = {"result_scalar_results.vtu": ["phi", "dphi_dn", "alpha"], "result_vector_results.vtu": ["phi_gradient", "phi_surf_gradient", "normals_at_nodes"],
         "scalar_error.vtu": ["phi_error", "dphi_dn_error"], "vector_error.vtu": ["phi_gradient_error"]}


def path(cid):
    a, b = cid.split(":")
    return [int(a.split("_")[0])] + [int(x) for x in b]


def digest(o):
    return hashlib.sha1(json.dumps(o).encode()).hexdigest()[:10]


def stages(evs):
    """[(name, mesh, sol, extra dumps)]"""
    out = []
    for e in evs:
        if e["ev"] == "stage":
            out.append([e["name"], None, None, {}, e])
        elif out and e["ev"] == "mesh":
            out[-1][1] = e
        elif out and e["ev"] == "sol":
            out[-1][2] = e
        elif out:
            out[-1][3][e.get("name") or e["ev"]] = e
    return out


def file_events(name, fields, text, st):
    """values in a result file at the nodes of every cell, and what they should be"""
    try:
        v = vtu.read(text)
    except Exception as e:
        return [{"op": "abnormal", "why": "%s: %s" % (name, str(e)[:200])}]
    s, d = st[2], st[3]["dofs"]
    dim, n = len(d["x"][0]), d["n"]
    x = np.array(d["x"], float)
    ncell = len(d["cells"])
    P = v["f"]["points"][:, :dim]
    per = len(P) // ncell if ncell else 0
    scal = {"phi": fl(s["phi"]), "dphi_dn": fl(s["dphi"]), "alpha": fl(s["alpha"])}
    ix = np.array([[d["vo2s"][d["s2o"][i] + e * n] for e in range(dim)] for i in range(n)])
    vec = {"phi_gradient": fl(st[3]["grad"]["v"])[ix], "phi_surf_gradient": fl(st[3]["sgrad"]["v"])[ix], "normals_at_nodes": fl(st[3]["normals"]["v"])[ix]}
    wind = np.array(s["wind"], float)
    scal["phi_error"] = scal["phi"] - fl(s["pot"])
    scal["dphi_dn_error"] = scal["dphi_dn"] - (wind * vec["normals_at_nodes"]).sum(1)
    vec["phi_gradient_error"] = vec["phi_gradient"] - wind
    out = []
    for f in fields:
        got, want, missing = [], [], 0
        if f not in v["f"] or per == 0:
            out.append({"op": "abnormal", "why": "%s has no field %s" % (name, f)})
            continue
        g = v["f"][f].reshape(len(P), -1)
        w = scal[f].reshape(n, 1) if f in scal else vec[f]
        # a node may be written exactly once per cell it belongs to: patches follow the order of the cells
        for c, cell in enumerate(d["cells"]):
            pp = P[c * per:(c + 1) * per]
            corner = 0
            for i in cell["d"]:
                k = np.abs(pp - x[i]).max(1).argmin()
                if np.abs(pp[k] - x[i]).max() < 1e-5:
                    corner += 1
                    got += list(g[c * per + k][:w.shape[1]])
                    want += list(w[i])
            missing += corner < 2 ** (dim - 1)
        sc = max(1e-3, np.abs(want).max() if want else 1)
        out.append({"op": "file", "file": name, "field": f, "cells": ncell, "missing": int(missing), "got": q(np.array(got) / sc, 1e-6), "want": q(np.array(want) / sc, 1e-6), "tol": 5})
    return out


NORMS = [("Phi Nodes error L_inf norm", "pinf"), ("Phi Cells error L_2 norm", "p2"), ("dPhidN Nodes error L_inf norm", "dinf"), ("dPhidN Nodes error L_2 norm", "d2"),
         ("Phi Nodes Gradient error L_inf norm", "ginf"), ("Phi Cells Gradient  error L_2 norm", "g2")]


def norm_event(log, nm):
    got, want = [], []
    for t, k in NORMS:
        m = re.findall(re.escape(t).replace(r"\ \ ", r"\s+") + r":\s*(\S+)", log)
        if not m:
            return {"op": "abnormal", "why": "no line '%s'" % t}
        got.append(float(m[-1]))
        want.append(float(nm[k]))
    sc = np.maximum(np.array(want), 1e-9)
    num = lambda t: int((re.findall(t + r":\s*(\d+)", log) or ["-1"])[-1])
    return {"op": "norms", "got": q(np.array(got) / sc, 1e-6), "want": q(np.array(want) / sc, 1e-6), "tol": 30, "pcells": num("Number of active cells"), "pn": num("Number of degrees of freedom"), "n": nm["n"]}


def scenario(c, key, dim, files, kw, np_, plain=True, grids=False, norms=True, threads=1):
    def fn():
        k = dict(dict(dids="1", nids="0", tol="1e-10", cycles=0), **kw)
        f = dict(files, **{"p.prm": prm.make(dim, driver=True, **k)})
        r = run.harness(c.exe("bemw%d" % dim)[0], ["driver p.prm"], f, np=np_, threads=threads, timeout=250, grids=grids, keep=list(FILES))
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        S = [stages(e) for e in r.events]
        tr = [{"op": "config", "dim": dim, "global": int(k.get("global", "true") == "true"), "cycles": k["cycles"], "pre": k.get("pre", 0), "plain": int(plain), "frac": int(1000 * k.get("refine", .3))}]
        key_ = lambda st: (digest(sorted(a["id"] for a in st[1]["cells"])), digest([st[2]["phi"], st[2]["dphi"]]))
        for st in S[0]:
            if st[0] == "read":
                tr.append({"op": "read", "cells": st[4]["cells"]})
            elif st[0] == "written":
                out = [x for x in S[0] if x[0] == "output"][-1]
                for name, fields in FILES.items():
                    if name not in r.files:
                        tr.append({"op": "abnormal", "why": "no file " + name})
                    else:
                        tr += file_events(name, fields, r.files[name], out)
                if norms:
                    tr.append(norm_event(r.out, out[3]["norms"]))
            else:
                m, v = key_(st)
                e = {"op": st[0], "mesh": m, "vec": v}
                if st[0] == "solve":
                    e.update(cells=[path(a["id"]) for a in st[1]["cells"]], n=st[2]["n"], size=len(st[2]["phi"]))
                tr.append(e)
        for rk in S[1:]:
            so = [x for x in rk if x[0] == "solve"]
            m, v = key_(so[-1]) if so else ("", "")
            tr.append({"op": "rank", "solves": len(so), "mesh": m, "vec": v})
        tr.append({"op": "end"})
        return tr
    return Scenario("%s np=%d" % (key, np_), fn, {"dim": dim, "np": np_, "config": {k: str(v) for k, v in kw.items()}})


def L02(c):
    c.model("Driver", "Driver_ok.cfg")
    for k in (1, 2, 3, 4, 5):
        c.rejects("Driver", "Driver_bad%d.cfg" % k)
    S, r = [], c.rng
    B = {"grid.inp": mesh.box(n=(2, 1, 1), mat={"x+": 1, "z-": 1})}
    Q = {"grid.inp": mesh.polygon([(0, 0), (1.2, 0), (1, 1), (0, 1)], 3, split=True, mats=[0, 1, 0, 1])}
    H3, H2 = dict(pot3=POT3, wind3=WIND3), dict(pot2=POT2, wind2=WIND2)
    SP, CI = dict(grid="../grids/coarse_sphere", dids="1", nids="9"), dict(grid="../grids/circle", dids="1", nids="9")
    for g in ("true", "false"):
        for cyc in (0, 1, 2):
            for pre in (0, 1):
                if g == "true" and cyc == 2 and pre == 1 and not c.thorough:
                    continue
                K = {"global": g, "cycles": cyc, "pre": pre}
                S.append(scenario(c, "square global=%s cycles=%d pre=%d" % (g, cyc, pre), 2, Q, dict(H2, **K), 1 + (cyc + pre) % 3))
                if cyc < 2 or g == "false" or c.thorough:
                    S.append(scenario(c, "box global=%s cycles=%d pre=%d" % (g, cyc, pre), 3, B, dict(H3, **K), 1 + (cyc + pre + 1) % 3))
    S.append(scenario(c, "circle local", 2, {}, dict(H2, **CI, **{"global": "false", "cycles": 3, "pre": 1}), 2, grids=True, norms=False))
    S.append(scenario(c, "circle global", 2, {}, dict(H2, **CI, **{"global": "true", "cycles": 2, "pre": 1}), 1, grids=True, norms=False))
    S.append(scenario(c, "sphere local", 3, {}, dict(H3, **SP, **{"global": "false", "cycles": 2, "pre": 1}), 1, grids=True, norms=False))
    S.append(scenario(c, "sphere global", 3, {}, dict(H3, **SP, **{"global": "true", "cycles": 1, "pre": 3}), 3, grids=True, norms=False))
    S.append(scenario(c, "spheroid local", 3, {}, dict(H3, **SP, **{"global": "false", "cycles": 2, "pre": 1, "spheroid": "true", "ax": 1.2, "ay": 0.7, "az": 1.5}), 2, grids=True, norms=False))
    S.append(scenario(c, "box fma local", 3, B, dict(H3, method="FMA", levels=4, maxn=4, **{"global": "false", "cycles": 2, "pre": 1}), 1))
    S.append(scenario(c, "box fma global", 3, B, dict(H3, method="FMA", levels=4, maxn=4, **{"global": "true", "cycles": 1}), 2, threads=2))
    S.append(scenario(c, "box order 2", 3, B, dict(H3, sord=2, vord=2, mapdeg=2, **{"global": "false", "cycles": 1, "pre": 0}), 1, norms=True))
    S.append(scenario(c, "square order 3", 2, Q, dict(H2, sord=3, vord=3, **{"global": "false", "cycles": 2, "pre": 0}), 2))
    S.append(scenario(c, "pure flux", 3, {"grid.inp": mesh.box(n=(2, 1, 1))}, dict(H3, **{"global": "false", "cycles": 1, "pre": 0}), 1))
    S.append(scenario(c, "aspect", 3, {"grid.inp": mesh.box(n=(1, 1, 1), hi=(4, 1, 1), mat={"x+": 1})}, dict(H3, aspect=1.5, **{"global": "true", "cycles": 0}), 1, plain=False))
    for k in range(24 if c.thorough else 3):
        g, cyc, pre = r.choice(["true", "false", "false"]), r.randint(0, 2), r.randint(0, 1)
        S.append(scenario(c, "random %d" % k, 2, {"grid.inp": mesh.polygon([(0, 0), (1 + r.random(), 0), (1, 1 + r.random()), (-r.random(), 1)], [r.randint(2, 4) for _ in range(4)], split=True, mats=r.choice([[0, 1, 0, 1], [1, 0, 0, 0], [1, 1, 0, 0], [1, 1, 1, 1]]))},
                          dict(H2, refine=r.choice([.2, .4, .6]), coarsen=r.choice([.0, .2]), **{"global": g, "cycles": cyc, "pre": pre}), r.randint(1, 3)))
    return check.run_scenarios(c, S, "DriverTrace", pool=6)
