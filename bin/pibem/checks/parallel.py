"""P01: distribution of elements and unknowns over processes."""
import numpy as np
from .. import check, mesh, prm, run
from ..canon import fl, locs
from ..check import Scenario


def part_event(ds):
    n, nv, np_ = ds[0]["n"], ds[0]["nv"], len(ds)
    dim = len(ds[0]["x"][0])
    if any(d["n"] != n or d["nv"] != nv or len(d["cids"]) != len(ds[0]["cids"]) for d in ds):
        return {"op": "abnormal", "why": "different sizes on different processes"}
    L = locs([p for d in ds for p in d["x"] + d["vx"]])
    r = []
    step = n + nv
    one = lambda v: [i + 1 for i in v]
    for k, d in enumerate(ds):
        o = sorted(range(len(d["cids"])), key=lambda i: d["cids"][i])
        r.append({"own": one(d["own"]), "vown": one(d["vown"]), "ghost": one(d["ghost"]), "o2s": one(d["o2s"]), "s2o": one(d["s2o"]), "vo2s": one(d["vo2s"]), "vs2o": one(d["vs2o"]),
                  "sub": [d["cells"][i]["s"] for i in o],
                  "num": [j for i in o for j in d["cells"][i]["d"] + d["vcells"][i]] + L[k * step:(k + 1) * step]})
        if k == 0:
            cells = [{"d": one(d["cells"][i]["d"]), "v": one(d["vcells"][i])} for i in o]
    return {"op": "part", "np": np_, "n": n, "nv": nv, "dim": dim, "r": r, "x": L[:n], "vx": L[n:step], "comp": ds[0]["vcomp"], "cells": cells}


def scenario(c, key, dim, files, script, kw, np_, grids=False, every=1):
    """script may contain several reinit lines; a dump follows each"""
    def fn():
        s = ["new p.prm", "read"]
        k = 0
        for l in (script if "update" in script[-1:] else script + ["update"]) + ["reinit"]:
            s.append(l)
            if l == "reinit":
                s.append("dofs")
                k += 1
        r = run.harness(c.exe("bemx%d" % dim)[0], s, dict(files, **{"p.prm": prm.make(dim, **kw)}), np=np_, timeout=250, grids=grids)
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        return [part_event([r.get("dofs", i, q) for q in range(np_)]) for i in range(k)]
    return Scenario("%s np=%d" % (key, np_), fn, {"dim": dim, "np": np_, "script": script, **{k: str(v)[:60] for k, v in kw.items()}})


def P01(c):
    c.model("PartitionDesign", "PartitionDesign_ok.cfg")
    for k in (1, 2, 3):
        c.rejects("PartitionDesign", "PartitionDesign_bad%d.cfg" % k)
    r = c.rng
    S = []
    G = lambda **k: {"grid.inp": mesh.box(**k)}
    split2 = {"grid.inp": mesh.polygon([(0, 0), (1, 0), (1, 1), (0, 1)], [2, 3, 2, 3], split=True)}
    nps = [1, 2, 3, 4, 5] + ([6, 7, 8] if c.thorough else [])
    for p in nps:
        S.append(scenario(c, "box222", 3, G(n=(2, 2, 2)), [], {}, p))
        S.append(scenario(c, "square", 2, split2, [], {}, p))
    for p in [2, 3, 5]:
        S.append(scenario(c, "box-q2", 3, G(n=(2, 1, 2)), [], dict(sord=2, vord=2), p))
        S.append(scenario(c, "square-q2-local", 2, split2, ["flag iso 0 3", "exec", "update"], dict(sord=2, vord=2), p))
        S.append(scenario(c, "box-hanging", 3, G(n=(2, 2, 1)), ["flag iso 0 5", "exec", "update"], {}, p))
        S.append(scenario(c, "box-adapted-twice", 3, G(n=(1, 1, 1)), ["resize 1", "reinit", "flag iso 2 9", "exec", "update"], {}, p))
        S.append(scenario(c, "sphere", 3, {}, ["resize 1", "reinit", "flag x 1 4", "exec", "update"], dict(grid="../grids/coarse_sphere"), p, grids=True))
        S.append(scenario(c, "circle", 2, {}, ["resize 2"], dict(grid="../grids/circle"), p, grids=True))
        S.append(scenario(c, "box-asym", 3, G(n=(3, 1, 2)), [], {}, p))
    for k in range(c.thorough and 40 or 8):
        p = r.randint(2, 6)
        o = r.choice([1, 1, 2])
        if r.random() < 0.6:
            nn = tuple(r.randint(1, 3) for _ in range(3))
            f = G(n=nn, order=r.sample(mesh.FACES, 6), rot=r.randint(0, 3))
            sc = [] if r.random() < 0.4 else ["flag %s %s" % (r.choice(["iso", "iso", "x", "y"]), " ".join(str(r.randint(0, 40)) for _ in range(3))), "exec", "update"]
            S.append(scenario(c, "rand3-%d" % k, 3, f, sc, dict(sord=o, vord=o), p))
        else:
            m = r.randint(3, 6)
            f = {"grid.inp": mesh.polygon([(np.cos(2 * np.pi * i / m), np.sin(2 * np.pi * i / m)) for i in range(m)], [r.randint(2, 4) for _ in range(m)], split=[r.randint(0, 1) for _ in range(m)])}
            S.append(scenario(c, "rand2-%d" % k, 2, f, [] if r.random() < 0.5 else ["flag iso 0 1 5", "exec", "update"], dict(sord=o, vord=o), p))
    return check.run_scenarios(c, S, "PartitionTrace", pool=4)


# ---- P02 -----------------------------------------------------------------
FIELDS = {"phi": 2e-7, "dphi": 2e-7, "alpha": 1e-10, "A": 1e-10, "B": 1e-10, "grad": 2e-6, "nor": 1e-9}


def keys(d, L):
    cells = [[] for _ in range(d["n"])]
    for c, cid in zip(d["cells"], d["cids"]):
        for i in c["d"]:
            cells[i].append(cid)
    return [(L[i], tuple(sorted(cells[i]))) for i in range(d["n"])]


def run_events(runs, shift, dim, tolf=1.0):
    """runs: list of (label, dofs, sol, apply, normals field, gradient field) -> numbering independent events"""
    L = locs([p for r in runs for p in r[1]["x"]])
    out, off = [], 0
    allk = sorted({k for r, o in zip(runs, np.cumsum([0] + [r[1]["n"] for r in runs])) for k in keys(r[1], L[o:])})
    num = {k: i + 1 for i, k in enumerate(allk)}
    scale = {}
    for label, d, s, a, nf, gf in runs:
        n = d["n"]
        ks = keys(d, L[off:off + n])
        off += n
        can = [num[k] for k in ks]
        order = sorted(range(n), key=lambda i: can[i])
        vals = {}

        def put(name, v, sh=False):
            tol = FIELDS[name] * tolf
            v = np.asarray(v, float)
            sc = scale.setdefault(name, max(1e-3, float(np.nanmax(np.abs(v))) if len(v) else 1.0))
            u = sc * 1e-11
            vals[name] = {"v": [int(x) for x in np.clip(np.rint(np.where(np.isfinite(v), v, 1e9) / sc * 1e8), -10 ** 9, 10 ** 9)], "tol": max(1, int(tol * 1e8)), "shift": sh}
        if s is not None:
            put("phi", fl(s["phi"])[order], shift)
            put("dphi", fl(s["dphi"])[order])
            put("alpha", fl(s["alpha"])[order])
        if a is not None:
            put("A", fl(a["A"])[order])
            put("B", fl(a["B"])[order])
        for nm, f in (("nor", nf), ("grad", gf)):
            if f is None:
                continue
            vk = {}
            vcell = [[] for _ in range(d["nv"])]
            for c, cid in zip(d["vcells"], d["cids"]):
                for i in c:
                    vcell[i].append(cid)
            loc = {}
            for i, k in enumerate(ks):
                loc.setdefault(tuple(np.round(d["x"][i], 7)), []).append(k)
            ent = []
            for k in range(d["nv"]):
                cand = [q for q in loc.get(tuple(np.round(d["vx"][k], 7)), []) if q[1] == tuple(sorted(vcell[k]))]
                ent.append((num[cand[0]] if cand else 0, d["vcomp"][k], float(f["v"][k])))
            put(nm, [e[2] for e in sorted(ent)])
        grp = sorted({tuple(sorted(can[j] for j in g)) for g in d["dbl"]})
        out.append({"op": "run", "label": label, "n": n, "keys": sorted(can), "groups": [list(g) for g in grp],
                    "dir": [int(float(d["dir"][i])) for i in order], "neu": [int(float(d["neu"][i])) for i in order],
                    "cells": [{"m": d["cells"][i]["m"], "d": sorted(can[j] for j in d["cells"][i]["d"])} for i in sorted(range(len(d["cids"])), key=lambda i: d["cids"][i])], "vals": vals})
    return out


def watch_events(w, cap):
    return [{"op": "watch"}] + [{"op": "b" if e[0] else "e", "t": e[1], "o": e[2], "m": "w" if e[3] else "r"} for e in w["log"][:cap]]


def indep(c, key, dim, files, script, kw, confs, solve=True, grids=False, watch=None, tolf=1.0, shift=False):
    """confs: list of (processes, threads, granularity)"""
    def fn():
        runs, extra = [], []
        for p, t, g in confs:
            s = ["new p.prm", "read"] + script + ["reinit", "dofs"]
            w = watch and t > 1 and p == 1
            if w:
                s += ["watch %d %d" % (watch, 300)]
            s += (["solve", "sol", "normals", "dumpnormals", "gradients"] if solve else ["assemble", "alpha"]) + (["apply 3"] if not w else [])
            if w:
                s += ["unwatch"]
            exe = c.exe("bem%s%d" % ("w" if w else "x", dim))[0]
            r = run.harness(exe, s, dict(files, **{"p.prm": prm.make(dim, gran=g, **kw)}), np=p, threads=t, timeout=280, grids=grids)
            if not r.ok:
                return [{"op": "abnormal", "why": r.why, "conf": [p, t, g]}]
            f = {e["name"]: e for e in r.all("field")}
            runs.append(("%dp %dt g%d" % (p, t, g), r.get("dofs"), r.get("sol"), r.get("apply"), f.get("normals"), f.get("grad")))
            if w:
                extra += watch_events(r.get("watch"), 20000 if not c.thorough else 60000)
                c.extra["expansion_operations_watched"] = c.extra.get("expansion_operations_watched", 0) + r.get("watch")["ops"]
        # fields not present in every run are left out
        for k in (3,):
            if any(r[k] is None for r in runs):
                runs = [r[:k] + (None,) + r[k + 1:] for r in runs]
        return extra + run_events(runs, shift, dim, tolf)
    return Scenario(key, fn, {"dim": dim, "confs": confs, "script": script, **{k: str(v)[:60] for k, v in kw.items()}})


def P02(c):
    c.model("ParallelFMA", "ParallelFMA_ok.cfg")
    for k in (1, 2, 3):
        c.rejects("ParallelFMA", "ParallelFMA_bad%d.cfg" % k)
    S, r = [], c.rng
    G = lambda **k: {"grid.inp": mesh.box(**k)}
    from .nodes import POT3, WIND3, POT2, WIND2
    H3, H2 = dict(pot3=POT3, wind3=WIND3), dict(pot2=POT2, wind2=WIND2)
    mix = {"x-": 1, "y+": 1, "z-": 0}
    P = [(1, 1, 10), (2, 1, 10), (3, 1, 10), (4, 1, 10)]
    T = [(1, 1, 10), (1, 8, 1), (1, 3, 4), (1, 8, 1000), (2, 3, 2)]
    S.append(indep(c, "direct mixed box", 3, G(n=(2, 2, 2), mat=mix), ["update"], dict(H3), P))
    S.append(indep(c, "direct hanging", 3, G(n=(2, 2, 1), mat=mix), ["flag iso 0 5 9", "exec", "update"], dict(H3), P))
    S.append(indep(c, "direct glued", 3, G(n=(2, 2, 2), group={f: 0 for f in mesh.FACES}, mat={"x+": 1, "y-": 1}), ["update"], dict(H3), P))
    S.append(indep(c, "direct order 2", 3, G(n=(1, 1, 1), mat=mix), ["update"], dict(H3, sord=2, vord=2), [(1, 1, 10), (2, 1, 10), (3, 2, 1)]))
    S.append(indep(c, "direct pure flux", 3, G(n=(2, 2, 2)), ["update"], dict(H3, dids="1", nids="0"), P, shift=True))
    sq = {"grid.inp": mesh.polygon([(0, 0), (1, 0), (1, 1), (0, 1)], [3, 4, 3, 4], split=True, mats=[0, 1, 0, 1])}
    S.append(indep(c, "polygon", 2, sq, ["update"], dict(H2), P))
    S.append(indep(c, "polygon refined", 2, sq, ["flag iso 0 3", "exec", "update"], dict(H2, sord=2, vord=2), P))
    fm = dict(H3, method="FMA", levels=5, maxn=3)
    S.append(indep(c, "fma box", 3, G(n=(4, 4, 4), mat=mix), ["update"], dict(fm, order=5), P + T[1:], watch=r.randint(1, 10 ** 6)))
    S.append(indep(c, "fma graded", 3, G(n=(4, 4, 4), mat=mix, lo=(-1, -1, -1), f=graded), ["update"], dict(fm, levels=7, maxn=2, order=3), P + T[1:], watch=r.randint(1, 10 ** 6)))
    S.append(indep(c, "fma local", 3, G(n=(3, 3, 3), mat=mix), ["flag iso 0 7 20", "exec", "update", "flag iso 1 2 3 4", "exec", "update"], dict(fm, levels=7, maxn=2, order=3), [(1, 1, 10), (2, 1, 10), (4, 2, 1), (1, 8, 1)], watch=r.randint(1, 10 ** 6)))
    S.append(indep(c, "fma glued", 3, G(n=(4, 4, 4), group={f: 0 for f in mesh.FACES}, mat=mix), ["update"], dict(fm, order=4), [(1, 1, 10), (3, 1, 10), (1, 8, 1), (1, 5, 3)], watch=r.randint(1, 10 ** 6)))
    S.append(indep(c, "fma sphere", 3, {}, ["resize 1", "resize 1"], dict(fm, grid="../grids/coarse_sphere", order=5, maxn=6), [(1, 1, 10), (2, 2, 5), (5, 1, 10), (1, 8, 1)], grids=True, watch=r.randint(1, 10 ** 6)))
    return check.run_scenarios(c, S, "ParallelTrace", pool=3)


def graded(p):
    return np.sign(p) * np.abs(p) ** 2.5
