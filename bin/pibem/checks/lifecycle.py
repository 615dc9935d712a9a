"""L01: a solve depends only on the current mesh and data."""
import hashlib, json, os, tempfile, threading
import numpy as np
from .. import check, mesh, prm, run, tlc
from ..canon import fl, q
from ..check import Scenario
from .nodes import POT3, WIND3, POT2, WIND2

UNIT = 1e-8


class Base:
    """a start mesh and the values of the inputs (index -> parameters)"""

    def __init__(self, name, dim, files, pre, fixed, values, ops, grids=False):
        self.name, self.dim, self.files, self.pre, self.fixed, self.values, self.ops, self.grids = name, dim, files, pre, fixed, values, ops, grids

    def prm(self, st):
        kw = dict(tol="1e-12", maxsteps=400)
        kw.update(self.fixed)
        for k, v in st.items():
            kw.update(self.values[k][v - 1])
        return prm.make(self.dim, **kw)

    def start(self):
        return ["read"] + self.pre


DATA3 = [dict(pot3=POT3, wind3=WIND3), dict(pot3="x-2*y+0.3*z", wind3="1; -2; 0.3"), dict(pot3="x*y+1", wind3="y; x; 0")]
DATA2 = [dict(pot2=POT2, wind2=WIND2), dict(pot2="x-2*y", wind2="1; -2"), dict(pot2="x*y+1", wind2="y; x")]
FE = [dict(sord=1, vord=1), dict(sord=2, vord=2)]
SING = [dict(qorder=4, sorder=5), dict(qorder=4, sorder=8), dict(qorder=3, sorder=5), dict(qorder=6, sorder=5)]
METH = [dict(method="Direct"), dict(method="FMA", order=5, levels=4, maxn=3), dict(method="FMA", order=4, levels=3, maxn=8)]
SCRIPT = {"r1": ["flag iso 0 3 7", "exec", "update"], "r2": ["flag iso 1 2", "exec", "update"], "all": ["resize 1", "update"], "x": ["flag x 0 5", "exec", "update"],
          "co": ["flag coarsen 0 1 2 3 4 5 6 7 8 9", "exec", "update"], "conform": ["flag iso 2", "exec", "conform", "update"], "adapt": ["adapt", "update"], "moved": ["update"]}
# as many unknowns, distributed differently
for _f in ("0 2", "1 3", "2 9", "2 3 4", "3 8"):
    SCRIPT["s" + _f.replace(" ", "")] = ["flag iso " + _f, "exec", "update"]


def op(t):
    """text form of an operation: solve | reinit | new | mesh:k | set:k=v"""
    if ":" not in t:
        return {"op": t, "k": "", "v": 0}
    o, k = t.split(":")
    return {"op": o, "k": k.split("=")[0], "v": int(k.split("=")[1]) if "=" in k else 0}


LAYOUT = [(2, "mesh:s02 reinit solve new mesh:s13 reinit solve"), (3, "set:meth=2 mesh:s13 reinit solve new mesh:s02 reinit solve"), (4, "mesh:s29 reinit solve new mesh:s234 reinit solve new set:meth=2 mesh:s38 reinit solve")]


def bases():
    b = [
        Base("box", 3, {"grid.inp": mesh.box(n=(2, 1, 1), mat={"x+": 1, "z-": 1, "x-": 2})}, [], {},
             {"fe": FE, "sing": SING, "map": [dict(maptype="FE"), dict(maptype="Q", mapdeg=1), dict(maptype="Q", mapdeg=2)],
              "ids": [dict(dids="1", nids="0"), dict(dids="1,2", nids="0"), dict(dids="2", nids="0,1")], "meth": METH, "data": DATA3},
             ["r1", "r2", "x", "co", "conform", "adapt", "moved"]),
        Base("sphere", 3, {}, ["resize 1", "update"], dict(grid="../grids/coarse_sphere", dids="1", nids="9", ax="1.3", ay="0.8", az="1.6"),
             {"fe": FE, "sing": SING[:2], "map": [dict(maptype="FE"), dict(maptype="Q", mapdeg=1), dict(maptype="Q", mapdeg=2), dict(maptype="FE", spheroid=True)],
              "ids": [dict(dids="1", nids="9"), dict(dids="9", nids="1")], "meth": METH, "data": DATA3},
             ["r1", "co", "adapt"], True),
        Base("square", 2, {"grid.inp": mesh.polygon([(0, 0), (1.2, 0), (1, 1), (0, 1)], 3, split=True, mats=[0, 1, 0, 2])}, [], {},
             {"fe": FE + [dict(sord=3, vord=3)], "sing": SING, "map": [dict(maptype="FE"), dict(maptype="Q", mapdeg=1), dict(maptype="Q", mapdeg=3)],
              "ids": [dict(dids="1", nids="0"), dict(dids="1,2", nids="0"), dict(dids="2", nids="0,1")], "data": DATA2},
             ["r1", "r2", "all", "co", "adapt", "moved"]),
        Base("circle", 2, {}, ["resize 1", "update"], dict(grid="../grids/circle", dids="1", nids="9", ax="1.3", ay="0.8"),
             {"fe": FE, "sing": SING[:2], "map": [dict(maptype="FE"), dict(maptype="Q", mapdeg=1), dict(maptype="Q", mapdeg=2), dict(maptype="FE", spheroid=True)],
              "ids": [dict(dids="1", nids="9"), dict(dids="9", nids="1")], "data": DATA2},
             ["r1", "all", "adapt"], True)]
    return {x.name: x for x in b}


# three Dirichlet faces meeting in a point: the last pair of normals decides (known finding)
def tripod():
    return Base("tripod", 3, {"grid.inp": mesh.box(n=(2, 1, 1), mat={"x+": 1, "z-": 1, "y+": 1})}, [], dict(dids="1", nids="0"), {"data": DATA3}, ["r2"])


RESULT = ["gradients", "hypgradients", "dofs", "sol", "cellnormals"]


def refined(tree):
    return sorted("%s/%d" % (c["id"], c["rc"]) for c in tree["cells"] if not c["a"])


def mname(tree):
    return hashlib.sha1(json.dumps(sorted(c["id"] for c in tree["cells"] if c["a"])).encode()).hexdigest()[:10]


def fields(r):
    """(recovered, hypersingular) gradients of every solve; in two dimensions there are no hypersingular ones"""
    g = [e for e in r.all("field") if e["name"] == "grad"]
    h = [e for e in r.all("field") if e["name"] == "hgrad"]
    return list(zip(g, h or g))


def result(d, s, g, h, cn):
    """numbering independent form of a solved state"""
    n = d["n"]
    x = np.array(d["x"], float)
    nb = [[] for _ in range(n)]
    for c in d["cells"]:
        m = x[c["d"]].mean(0)
        for i in c["d"]:
            nb[i].append(m)
    key = [tuple(int(np.floor(v * 1e5 + .37)) for v in x[i]) + tuple(int(np.floor(v * 1e5 + .37)) for v in np.mean(nb[i], 0)) for i in range(n)]
    o = sorted(range(n), key=lambda i: key[i])
    pos = {i: k + 1 for k, i in enumerate(o)}

    def sc(v):
        v = fl(v)
        return q(v[o] / max(1e-3, np.abs(v).max()), UNIT)
    gv, hv = fl(g["v"]), fl(h["v"])
    hv = np.where(np.isfinite(hv), hv, 0)
    gi = [d["vo2s"][d["s2o"][i] + e * n] for i in o for e in range(len(x[0]))]
    ci = sorted(range(len(d["cids"])), key=lambda k: d["cids"][k])
    return {"n": n, "x": [v for i in o for v in q(x[i], UNIT)], "type": [int(round(float(d["dir"][i]))) for i in o],
            "dbl": [sorted(pos[j] for j in d["dbl"][i]) for i in o], "alpha": q(fl(s["alpha"])[o], UNIT), "phi": sc(s["phi"]), "dphi": sc(s["dphi"]),
            "grad": q(gv[gi] / max(1e-3, np.abs(gv).max()), UNIT),
            "hgrad": q(hv[gi] / max(1e-3, np.abs(hv).max()), UNIT), "area": [v + 0 for v in q([cn["c"][k]["a"] for k in ci], 1e-5)]}


class Fresh:
    """results of new objects in a new process, computed once per (base, mesh, inputs)"""

    def __init__(self, c):
        self.c, self.lock, self.m = c, threading.Lock(), {}

    def get(self, base, tree, st, np_, again):
        k = (base.name, np_, json.dumps(refined(tree)), json.dumps(st, sort_keys=True))
        if again:
            return self.run(base, tree, st, np_)
        with self.lock:
            e = self.m.setdefault(k, [threading.Lock(), None])
        with e[0]:
            if e[1] is None:
                e[1] = self.run(base, tree, st, np_)
        return e[1]

    def run(self, base, tree, st, np_):
        script = ["new p.prm"] + ["read", "grow " + " ".join(refined(tree)), "update", "tree", "reinit", "solve"] + RESULT
        r = run.harness(self.c.exe("bemx%d" % base.dim)[0], script, dict(base.files, **{"p.prm": base.prm(st)}), np=np_, timeout=200, grids=base.grids)
        if not r.ok:
            return {"op": "abnormal", "why": "fresh: " + r.why}
        return dict(result(r.get("dofs"), r.get("sol"), *fields(r)[0], r.get("cellnormals")), op="fresh", mesh=mname(r.get("tree")), **{"in": st})


def scenario(c, base, fresh, key, hist, np_, tol=100):
    calls = []

    def fn():
        again = bool(calls)
        calls.append(1)
        st = {k: 1 for k in base.values}
        files = dict(base.files)
        script, plan = [], []

        def put(st):
            n = "p%d.prm" % len([f for f in files if f.endswith(".prm")])
            files[n] = base.prm(st)
            return n
        script += ["new " + put(st)] + base.start() + ["tree"]
        plan.append(("start", dict(st)))
        for o in hist:
            if o["op"] == "set":
                st[o["k"]] = o["v"]
                script += ["prm " + put(st)]
                plan.append(("set", o))
            elif o["op"] == "mesh":
                script += SCRIPT[o["k"]] + ["tree"]
                plan.append(("mesh", o))
            elif o["op"] == "new":
                script += ["new " + put(st)] + base.start() + ["tree"]
                plan.append(("new", o))
            elif o["op"] == "reinit":
                # the driver partitions the mesh before every re-initialisation
                script += ["update", "reinit"]
                plan.append(("reinit", o))
            else:
                script += ["solve"] + RESULT
                plan.append(("solve", dict(st)))
        r = run.harness(c.exe("bemx%d" % base.dim)[0], script, files, np=np_, timeout=250, grids=base.grids)
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        trees, sols = iter(r.all("tree")), iter(zip(r.all("dofs"), r.all("sol"), *zip(*fields(r)), r.all("cellnormals")))
        tr, tree, seen = [], None, set()
        for k, v in plan:
            if k in ("start", "mesh", "new"):
                tree = next(trees)
                tr.append(dict({"op": k, "mesh": mname(tree)}, **({"in": v} if k == "start" else {"k": v["k"]})))
            elif k == "set":
                tr.append({"op": "set", "k": v["k"], "v": v["v"]})
            elif k == "reinit":
                tr.append({"op": "reinit"})
            else:
                fk = (mname(tree), json.dumps(v, sort_keys=True))
                if fk not in seen:
                    seen.add(fk)
                    tr.append(fresh.get(base, tree, v, np_, again))
                tr.append(dict(result(*next(sols)), op="solve", tol=tol))
        return tr
    return Scenario("%s np=%d" % (key, np_), fn, {"base": base.name, "np": np_, "history": " ".join(o["op"] + ((":" + o["k"] + (str(o["v"]) if o["v"] else "")) if o["k"] else "") for o in hist)})


def histories(base, mode, depth, num=0, seed=1):
    d = tempfile.mkdtemp(dir=os.environ.get("PIBEM_SCRATCH"))
    f = os.path.join(d, "h")
    vf = os.path.join(d, "values.json")
    json.dump({k: len(v) for k, v in base.values.items()}, open(vf, "w"))
    cfg = "\n".join(["SPECIFICATION Spec", "CONSTANTS", " GenDepth = %d" % depth, ' Mode = "%s"' % mode, " MeshOps = {%s}" % ", ".join('"%s"' % x for x in base.ops),
                     "INVARIANT Written", "CONSTRAINT Stop", "CHECK_DEADLOCK FALSE", ""])
    o = tlc.tlc("LifecycleGen", cfg, env={"OUT": f, "VALUES": vf}, workers=1, simulate=("num=%d" % num if mode != "short" else None),
                extra=(["-depth", str(12 * depth), "-seed", str(seed)] if mode != "short" else []))
    if not o.ok:
        raise tlc.TLCError("generation failed: " + o.text[-1500:])
    out, seen = [], set()
    for line in open(f):
        line = line.strip()
        h = json.loads(line)
        if isinstance(h, str):
            h = json.loads(h)
        k = json.dumps(h)
        if k not in seen:
            seen.add(k)
            out.append(h)
    return out, o


def L01(c):
    c.model("LifecycleDesign", "LifecycleDesign_ok.cfg", must_cover=("Change", "New", "Reinit", "Solve"))
    for k in (1, 2, 3, 4):
        c.rejects("LifecycleDesign", "LifecycleDesign_bad%d.cfg" % k)
    fresh = Fresh(c)
    S = []
    for name, base in sorted(bases().items()):
        hs, o = histories(base, "short", 1)
        c.mc_states += o.distinct
        c.mc_trans += o.states
        pick = hs if c.thorough or name == "square" else c.rng.sample(hs, min(len(hs), 7))
        for k, h in enumerate(pick):
            S.append(scenario(c, base, fresh, "%s one change: %s" % (name, " ".join("%s%s%s" % (x["op"], x["k"], x["v"] or "") for x in h[2:])), h, 1 if k % 4 else 2))
        if name == "box":
            for np_, t in LAYOUT:
                S.append(scenario(c, base, fresh, "layout %d" % np_, [op(x) for x in t.split()], np_))
            S.append(scenario(c, tripod(), fresh, "three dirichlet faces", [op(x) for x in "mesh:r2 reinit solve".split()], 2))
        num = 40 if c.thorough else 6
        hs, o = histories(base, "random", 5 if c.thorough else 4, num, c.seed)
        for k, h in enumerate(hs[:num]):
            S.append(scenario(c, base, fresh, "%s random %d" % (name, k), h, 1 + k % 3))
    return check.run_scenarios(c, S, "LifecycleTrace", pool=6)
