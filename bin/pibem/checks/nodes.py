"""N01, N02, N04: coincident nodes, constraint table, imposed data."""
import numpy as np
from .. import check, mesh, prm, run, vox
from ..canon import fl, locs, q, Intern
from ..check import Scenario

ONE = {f: 0 for f in mesh.FACES}


def nodes_event(d):
    return {"op": "nodes", "n": d["n"], "loc": locs(d["x"]), "edge": d["edge"], "dbl": [[j + 1 for j in s] for s in d["dbl"]],
            "dir": [int(v) for v in fl(d["dir"])], "neu": [int(v) for v in fl(d["neu"])],
            "cells": [{"m": c["m"], "d": [i + 1 for i in c["d"]]} for c in d["cells"]],
            "dids": d["dids"], "have": d["have_dir"]}


def lines(cs, hunit):
    return [{"i": c["i"] + 1, "m": [e[0] + 1 for e in c["e"]], "w": q([float(e[1]) * 8 for e in c["e"]], 1) if c["e"] else [], "h": q(c["h"], hunit)[0]} for c in cs]


def table_event(d, c, sol, exact=None, tol=20, xtol=None, unit=1e-6):
    n = d["n"]
    L = locs(d["x"])
    nor, sg, tmp = np.array(c["nor"], float), np.array(c["sg"], float), fl(c["rhs"])
    dir_ = fl(d["dir"])
    same, opp, grad, ex = [], [], [], []
    grp = {}
    for i in range(n):
        if d["edge"][i]:
            grp.setdefault(L[i], []).append(i)
    for g in grp.values():
        for i in g:
            for j in g:
                if i == j:
                    continue
                if np.linalg.norm(nor[i] - nor[j]) < 1e-4:
                    same.append([i + 1, j + 1])
                elif np.linalg.norm(nor[i] + nor[j]) < 1e-4:
                    opp.append([i + 1, j + 1])
                elif dir_[i] and dir_[j]:
                    cc = nor[i] @ nor[j]
                    h = (sg[j] @ nor[i] + (sg[i] @ nor[j]) * cc) / (1 - cc * cc)
                    grad.append([i + 1, j + 1, q(h, unit)[0]])
                    if exact is not None:
                        ex.append([i + 1, q(exact @ nor[i], unit)[0]])
    return {"op": "table", "c": lines(c["c"], unit), "hn": lines(c["hn"], unit), "same": same, "opp": opp, "grad": grad, "pot": q(tmp, unit),
            "cont": c["cont"], "tol": tol, "exact": [list(t) for t in {tuple(e) for e in ex}], "xtol": xtol or 50}


def data_event(d, s):
    it = Intern()
    phi, dphi, sol, tmp = fl(s["phi"]), fl(s["dphi"]), fl(s["sol"]), fl(s["tmp"])
    pot, wind, nor = fl(s["pot"]), np.array(s["wind"], float), np.array(s["nor"], float)
    nids = set(d["nids"])
    dids = set(d["dids"])
    n = d["n"]
    listed, unlisted = np.zeros(n, bool), np.zeros(n, bool)
    for c in d["cells"]:
        for i in c["d"]:
            if c["m"] in nids:
                listed[i] = True
            elif c["m"] not in dids:
                unlisted[i] = True
    fx = (wind * nor).sum(1)

    def dev(v):
        e = np.where(listed, np.abs(v - fx), np.abs(v))
        # a node on the border between prescribed flux and an unlisted id may take either
        e = np.where(listed & unlisted, np.minimum(np.abs(v - fx), np.abs(v)), e)
        return q(e, 1e-9)
    return {"op": "data", "phi": [it(v) for v in phi], "pot": [it(v) for v in pot], "tmp": [it(v) for v in tmp], "dphi": [it(v) for v in dphi],
            "sol": [it(v) for v in sol], "dflux": dev(dphi), "dtmp": dev(tmp), "shift": 0 if d["have_dir"] else 1}


def coplanar(n=2, cut=(0.5,), mats=None):
    """box whose x+ face is split into strips: coincident nodes with equal normals"""
    v, c = mesh.parse_ucd(mesh.box((n, n, n)))
    b = mesh.Builder()
    for k, (m, cc) in enumerate(c):
        pts = [v[i] for i in cc]
        face = k // (n * n)
        y = np.mean(pts, 0)[1]
        strip = sum(y > t for t in cut) if face == 1 else 0
        b.cell((face, strip), (mats or {}).get((face, strip), (mats or {}).get(face, 0)), pts)
    return mesh.ucd(b.v, b.c, 3)


POT3, WIND3 = "x*x-y*y+0.5*z+0.3*x*z", "2*x+0.3*z; -2*y; 0.5+0.3*x"
POT2, WIND2 = "x*x-y*y+0.5*x", "2*x+0.5; -2*y"


def random_case(c, k, dim):
    """random body, random split edges, random boundary ids and id lists"""
    r = c.rng
    mats = r.sample(range(0, 7), r.randint(1, 4))
    kw = {}
    dids, nids = [], []
    for m in mats:
        w = r.random()
        (dids if w < 0.5 else nids if w < 0.9 else []).append(m)
    kw["dids"] = ",".join(map(str, dids + ([110] if r.random() < 0.5 or not dids else [])))
    kw["nids"] = ",".join(map(str, nids + ([110] if r.random() < 0.5 or not nids else [])))
    lin = r.random() < 0.5
    if lin:
        a = [round(r.uniform(-1, 1), 2) for _ in range(dim)]
        kw["pot%d" % dim], kw["wind%d" % dim] = prm.linear(dim, a, 0.3)
    else:
        a = None
        kw["pot%d" % dim], kw["wind%d" % dim] = (POT3, WIND3) if dim == 3 else (POT2, WIND2)
    o = r.choice([1, 1, 2])
    kw.update(sord=o, vord=o)
    if dim == 3:
        n = [r.randint(1, 2 if o == 2 else 3) for _ in range(3)]
        split = r.random() < 0.6
        grp = {f: i if split else r.randint(0, 2) for i, f in enumerate(mesh.FACES)}
        mat = {f: r.choice(mats) for f in mesh.FACES}
        g = mesh.box(n, lo=[r.uniform(-1, 0) for _ in range(3)], hi=[r.uniform(0.5, 1.5) for _ in range(3)], group=grp, mat=mat, flip=r.random() < 0.3, rot=r.randint(0, 3), order=r.sample(mesh.FACES, 6))
        ref = "iso" if r.random() < 0.7 else r.choice("xy")
        script = [] if r.random() < 0.5 else ["flag %s %s" % (ref, " ".join(str(r.randint(0, 60)) for _ in range(r.randint(1, 3)))), "exec"]
        exact = np.array(a) if lin and split else None
    else:
        k2 = r.randint(3, 6)
        ang = sorted(r.uniform(0, 2 * np.pi) for _ in range(k2))
        ang = [2 * np.pi * (i + 0.6 * r.random()) / k2 for i in range(k2)]
        pts = [(np.cos(t) * (1 + 0.3 * r.random()), np.sin(t)) for t in ang]
        split = True if r.random() < 0.6 else [r.randint(0, 1) for _ in pts]
        g = mesh.polygon(pts, [r.randint(1, 3) for _ in pts], split=split, mats=[r.choice(mats) for _ in pts], flip=r.random() < 0.5)
        script = [] if r.random() < 0.5 else ["flag iso 0 2", "exec"]
        exact = np.array(a) if lin and split is True else None
    return ("rand%dd-%d" % (dim, k), dim, g, 0, script, kw, exact, r.choice([1, 1, 2, 3]))


def corner_case(bits, k):
    """unit cube with all edges split and one boundary type per face"""
    mat = {f: (bits >> i) & 1 for i, f in enumerate(mesh.FACES)}
    p, w = prm.linear(3, [0.7, -0.4, 1.1], 0.25)
    return ("cube-%02d" % bits, 3, mesh.box((1, 1, 1) if k % 2 else (2, 1, 2), mat=mat), 0, [], dict(dids="1", nids="0", pot3=p, wind3=w, cont="true"), np.array([0.7, -0.4, 1.1]), 1 + (k % 3 == 2))


def cases(c):
    out = []
    p, w = prm.linear(3, [0.7, -0.4, 1.1], 0.25)
    p2, w2 = prm.linear(2, [0.7, -0.4], 0.25)
    L3, L2 = dict(pot3=p, wind3=w), dict(pot2=p2, wind2=w2)
    X3 = np.array([0.7, -0.4, 1.1])
    out.append(("coplanar-DD", 3, coplanar(2, mats={1: 1}), 0, [], dict(L3, dids="1", nids="0"), X3, 1))
    out.append(("coplanar-DDD", 3, coplanar(3, (0.34, 0.67), mats={1: 1, 2: 1}), 0, [], dict(L3, dids="1", nids="0"), X3, 1))
    out.append(("coplanar-DN", 3, coplanar(2, mats={(1, 0): 1}), 0, [], dict(L3, dids="1", nids="0"), X3, 1))
    out.append(("glued-mixed", 3, mesh.box((2, 2, 2), group=ONE, mat={"x+": 1, "z-": 2}), 0, [], dict(pot3=POT3, wind3=WIND3, dids="1,2", nids="0"), None, 2))
    out.append(("glued-mixed-rev", 3, mesh.box((2, 2, 2), group=ONE, mat={"x-": 1}), 0, [], dict(pot3=POT3, wind3=WIND3, dids="1", nids="0"), None, 3))
    out.append(("unlisted", 3, mesh.box((2, 1, 2), mat={"x-": 1, "y+": 4}), 0, [], dict(L3, dids="1", nids="0"), X3, 1))
    out.append(("pure-flux", 3, mesh.box((2, 2, 2)), 0, [], dict(L3, dids="1", nids="0"), None, 1))
    out.append(("all-potential", 3, mesh.box((2, 2, 2)), 0, [], dict(L3, dids="0", nids="1"), X3, 1))
    out.append(("nocont", 3, mesh.box((2, 2, 2), mat={"x+": 1}), 0, [], dict(L3, dids="1", nids="0", cont="false"), None, 1))
    out.append(("local", 3, mesh.box((2, 2, 2), mat={"x+": 1, "y+": 1}), 0, ["flag iso 1 5 9", "exec", "flag iso 0 2", "exec"], dict(L3, dids="1", nids="0"), X3, 1))
    out.append(("local-deep", 3, mesh.box((1, 1, 1), mat={"z+": 3}), 1, ["flag iso 5", "exec", "flag iso 5 6", "exec"], dict(L3, dids="3", nids="0"), X3, 2))
    out.append(("q2-local", 3, mesh.box((1, 1, 1), mat={"x+": 1}), 1, ["flag iso 1 8", "exec"], dict(L3, dids="1", nids="0", sord=2, vord=2), X3, 1))
    out.append(("square2d", 2, mesh.polygon([(0, 0), (1, 0), (1, 1), (0, 1)], 3, mats=[1, 0, 1, 1], flip=True), 0, [], dict(L2, dids="1", nids="0"), np.array([0.7, -0.4]), 1))
    out.append(("straight2d", 2, mesh.polygon([(0, 0), (0.5, 0), (1, 0), (1, 1), (0, 1)], 2, mats=[1, 1, 0, 1, 0], flip=True), 1, [], dict(L2, dids="1", nids="0"), np.array([0.7, -0.4]), 2))
    # edges that are neither square nor along the axes
    A = np.array([[1, 0.4, -0.2], [0.1, 0.9, 0.5], [-0.3, 0.2, 1.1]])
    shear = dict(f=lambda x: A @ x)
    out.append(("oblique-DD", 3, mesh.box((2, 1, 2), **shear), 0, [], dict(L3, dids="0", nids="1"), X3, 1))
    out.append(("oblique-mixed", 3, mesh.box((2, 2, 1), mat={"x-": 1, "y+": 1, "z+": 1}, **shear), 0, [], dict(L3, dids="1", nids="0"), X3, 2))
    out.append(("oblique-mixed-rev", 3, mesh.box((1, 2, 1), mat={"x+": 1, "y+": 1}, flip=True, **shear), 0, [], dict(L3, dids="0", nids="1", sord=2, vord=2), X3, 1))
    out.append(("oblique2d", 2, mesh.polygon([(0, 0), (1.2, 0.1), (0.4, 0.9)], [2, 1, 3], mats=[1, 1, 1]), 0, [], dict(L2, dids="1", nids="0"), np.array([0.7, -0.4]), 1))
    # faces with opposite normals that meet in a vertex only
    saddle = [(0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 0, 1)]
    for k, (split, ids) in enumerate(((True, lambda f: int(f[1] == 0)), (True, lambda f: 1), (True, lambda f: int(f[1] != 1)))):
        out.append(("saddle-%d" % k, 3, vox.mesh(saddle, vox.Place(3, k, 0.8, [0.1, 0.2, -0.3]), 1, ids=ids, split=split), 0, [],
                    dict(L3, dids="1", nids="0", **({} if k != 1 else dict(sord=2, vord=2))), X3, 1 + k % 2))
    # hanging flux nodes between potential nodes
    for k, o in ((1, 1), (2, 2)):
        out.append(("hanging-mixed-%d" % k, 3, mesh.box((2, 2, 2), group=ONE, mat={"x+": 1, "z-": 1}), 0, ["flag iso 1 2 5 9 14 17 21", "exec"], dict(pot3=POT3, wind3=WIND3, dids="1", nids="0", sord=o, vord=o), None, k))
    # every combination of boundary types around the corners of a cube, up to a sample
    allb = list(range(64))
    pick = allb if c.thorough else [1, 3, 5, 7, 11, 21, 42, 63] + c.rng.sample(allb, 4)
    out += [corner_case(b, k) for k, b in enumerate(dict.fromkeys(pick))]
    nr = 60 if c.thorough else 8
    out += [random_case(c, k, 3) for k in range(nr)] + [random_case(c, k, 2) for k in range(nr)]
    return out


def record(c, cs, prop):
    key, dim, g, pre, script, kw, exact, np_ = cs

    def fn():
        kw2 = dict(kw)
        kw2.setdefault("tol", "1e-11")
        tail = ["reinit"] + (["dofs"] if prop == "N01" else ["solve", "dofs", "constr", "sol"])
        r = run.harness(c.exe("bemx%d" % dim)[0], ["new p.prm", "read", "resize %d" % pre, "update"] + script + ["update"] + tail,
                        {"p.prm": prm.make(dim, **kw2), "grid.inp": g}, np=np_, timeout=200)
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        ev = [nodes_event(d) for d in ([r.get("dofs", 0, k) for k in range(np_)] if prop == "N01" else [r.get("dofs")])]
        if prop != "N01":
            d, t, s = r.get("dofs"), r.get("constr"), r.get("sol")
            for e in ev:
                if prop == "N02":
                    e["cells"], e["dbl"] = [], []
            # linear data on flat split faces: exact gradient known when the whole face is of one type
            ev += [table_event(d, t, s, exact, xtol=2000 if kw.get("sord") == 2 else 200)] if prop == "N02" else [data_event(d, s)]
        return ev
    return Scenario(key, fn, {"dim": dim, "np": np_, **{k: kw.get(k) for k in ("dids", "nids", "sord")}})


def _run(c, prop, designs, bigger):
    c.exe("bemx2", "bemx3")
    for k in (1, 2, 3, 4):
        c.rejects("NodesDesign", "NodesDesign_bad%d.cfg" % k)
    for d in designs + (bigger if c.thorough else []):
        c.model("NodesDesign", d)
    return check.run_scenarios(c, [record(c, s, prop) for s in cases(c)], "NodesTrace", 'CONSTANT Prop = "%s"' % prop)


def N01(c):
    return _run(c, "N01", ["NodesDesign_3.cfg"], ["NodesDesign_4.cfg"])


def N02(c):
    return _run(c, "N02", ["NodesDesign_3.cfg", "NodesDesign_4.cfg"], ["NodesDesign_4opp.cfg"])


def N04(c):
    return _run(c, "N04", ["NodesDesign_3.cfg"], ["NodesDesign_4.cfg"])
