"""F01-F04: the fast multipole accelerator."""
import numpy as np
from .. import check, mesh, prm, run
from ..check import Scenario

UNIT = 2 ** 24


def abstract_octree(o):
    """harness 'octree' dump -> trace event (ids 1-based, integer coordinates)."""
    bl = o["blocks"]
    pm, de = np.array(bl[0]["pm"]), bl[0]["de"]

    def ip(p):
        return [int(v) for v in np.clip(np.rint((np.array(p) - pm) / de * UNIT), -2 ** 30, 2 ** 30)]
    nq = len(o["q"])
    leafq = {}
    for i, b in enumerate(bl):
        if not b["ch"]:
            for q in b["qs"]:
                leafq[q] = i + 1
    kmax = [len(d) for d in o["dbl"]]
    ev = {"op": "octree", "n": o["n"], "nq": nq, "maxn": o["maxn"], "levels": o["levels"],
          "lev": [b["lev"] for b in bl], "par": [b["par"] + 1 for b in bl],
          "ch": [[c + 1 for c in b["ch"]] for b in bl], "nd": [[i + 1 for i in b["nodes"]] for b in bl],
          "qd": [[q + 1 for q in b["qs"]] for b in bl], "lo": [ip(b["pm"]) for b in bl],
          "sz": [int(round(b["de"] / de * UNIT)) for b in bl],
          "il": [[[c + 1 for c in s] for s in b["il"]] for b in bl],
          "nl": [[[c + 1 for c in s] for s in b["nl"][:b["nnl"]]] for b in bl],
          "nqb": [len(b["qs"]) for b in bl],
          "x": [ip(p) for p in o["x"]], "q": [ip(p) for p in o["q"]],
          "w": [2520 // max(1, k) for k in kmax], "copies": [[j + 1 for j in d] for d in o["dbl"]],
          "childless": [c + 1 for c in o["childless"]], "filled": [[c + 1 for c in s] for s in o["filled"]],
          "elems": [{"d": [i + 1 for i in c["d"]], "lv": sorted({leafq.get(c["q0"] + k, 0) for k in range(c["nq"])})} for c in o["cells"]]}
    return ev


def slim(ev, prop):
    """drop what the property does not need (keeps TLC input small)"""
    e = dict(ev)
    if prop == "F01":
        for k in ("il", "nl"):
            e[k] = [[[]] for _ in e["lev"]]
        e["elems"], e["copies"] = [], []
    else:
        e["qd"] = [[] for _ in e["lev"]]
        e["x"], e["q"] = [], []
    return e


def graded(k):
    return lambda p: np.sign(p) * np.abs(p) ** k


def fma_scenarios(c, kinds):
    """mesh/parameter families: each is (key, grid text, prm kwargs, script prefix)"""
    rng = c.rng
    out = []

    def add(key, mesh_, pre=0, grids=False, script=None, **kw):
        out.append((key, mesh_, pre, grids, script, kw))
    one = {f: 0 for f in mesh.FACES}
    add("box4-split", mesh.box((4, 4, 4)), levels=5, maxn=3)
    add("box-long", mesh.box((9, 3, 2), hi=(4.5, 1, 0.7)), levels=4, maxn=4)
    add("box-glued", mesh.box((4, 4, 4), group=one), levels=6, maxn=2)
    add("box-offcentre", mesh.box((5, 4, 3), lo=(1.0, 2.0, -0.5), hi=(2.1, 2.9, 0.4)), levels=8, maxn=4)
    add("box-graded", mesh.box((6, 6, 6), lo=(-1, -1, -1), hi=(1, 1, 1), f=graded(2.5)), levels=7, maxn=2)
    add("box-corner", mesh.box((6, 6, 6), lo=(0, 0, 0), hi=(1, 1, 1), f=graded(3)), levels=9, maxn=3)
    add("box-local", mesh.box((3, 3, 3)), levels=7, maxn=2,
        script=["flag iso 0 7 20", "exec", "update", "flag iso 1 2 3 4", "exec", "update"])
    add("box-halfsplit", mesh.box((4, 3, 4), group={"x-": 0, "x+": 1, "y-": 0, "y+": 1, "z-": 2, "z+": 2}), levels=5, maxn=5)
    add("sphere", None, pre=2, grids=True, grid="../grids/coarse_sphere", levels=6, maxn=6)
    add("two-bodies", two_boxes(), levels=7, maxn=3)
    nr = 10 if c.thorough else 2
    for i in range(nr):
        n = [rng.randint(1, 6) for _ in range(3)]
        lo = [rng.uniform(-2, 2) for _ in range(3)]
        hi = [a + rng.uniform(0.2, 3) for a in lo]
        gr = {f: rng.randint(0, 5) for f in mesh.FACES}
        k = rng.choice([1, 1, 2, 3])
        add("rand%d" % i, mesh.box(n, lo, hi, group=gr, f=graded(k), order=rng.sample(mesh.FACES, 6)), levels=rng.randint(1, 8), maxn=rng.choice([1, 2, 3, 5, 8, 20]),
            qorder=rng.choice([2, 3, 4]), script=["flag iso %s" % " ".join(str(rng.randint(0, 50)) for _ in range(rng.randint(0, 4))), "exec", "update"])
    if c.thorough:
        add("sphere3", None, pre=3, grids=True, grid="../grids/coarse_sphere", levels=6, maxn=5)
        add("cube-repo", None, pre=2, grids=True, grid="../grids/coarse_cube_double_nodes", levels=7, maxn=4)
        add("q2", mesh.box((3, 3, 3)), levels=5, maxn=4, sord=2, vord=2)
        add("dgq0", mesh.box((4, 4, 4)), levels=5, maxn=4, sfe="FEDGQ", sord=0)
    return out


def two_boxes():
    a = mesh.parse_ucd(mesh.box((3, 3, 3), lo=(-1, -1, -1), hi=(-0.6, -0.6, -0.6)))
    b = mesh.parse_ucd(mesh.box((4, 4, 4), lo=(0.2, 0.1, 0.0), hi=(1, 1.1, 0.9)))
    n = len(a[0])
    return mesh.ucd(a[0] + b[0], a[1] + [(m, [k + n for k in v]) for m, v in b[1]], 3)


def script_for(s, tail):
    key, grid, pre, grids, script, kw = s
    return ["new p.prm", "read", "resize %d" % pre, "update"] + (script or []) + ["reinit"] + tail


def execute(c, s, tail, np_=1, threads=1, over=None, **k):
    key, grid, pre, grids, script, kw = s
    kw = dict(kw, method="FMA", **(over or {}))
    f = {"p.prm": prm.make(3, **kw)}
    if grid:
        f["grid.inp"] = grid
    return run.harness(c.exe("bemx3")[0], script_for(s, tail), f, grids=grids, np=np_, threads=threads, timeout=300, **k)


def octree_trace(c, s, prop):
    def fn():
        r = execute(c, s, ["octreeonly", "octree"])
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        return [slim(abstract_octree(r.get("octree")), prop)]
    return Scenario("octree:" + s[0], fn, {"levels": s[5].get("levels"), "maxn": s[5].get("maxn")})


def design(c, quick, thorough):
    for cfg in quick + (thorough if c.thorough else []):
        c.model("FmaDesign", cfg)


def F01(c):
    c.exe("bemx3")
    design(c, ["FmaDesign_1d.cfg"], ["FmaDesign_2d.cfg", "FmaDesign_1d3m0.cfg", "FmaDesign_1d3m2.cfg"])
    sc = [octree_trace(c, s, "F01") for s in fma_scenarios(c, "tree")]
    # a tree rebuilt on the same object after refinement
    sc.append(rebuilt(c, "F01"))
    return check.run_scenarios(c, sc, "FmaTrace", 'CONSTANTS Prop = "F01" Eps = 4')


def rebuilt(c, prop):
    def fn():
        r = run.harness(c.exe("bemx3")[0], ["new p.prm", "read", "resize 0", "update", "reinit", "octreeonly", "octree", "flag iso 0 3 9 11", "exec", "update", "reinit", "octreeonly", "octree"],
                        {"p.prm": prm.make(3, method="FMA", levels=6, maxn=3), "grid.inp": mesh.box((3, 3, 3))}, timeout=300)
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        return [slim(abstract_octree(o), prop) for o in r.all("octree")]
    return Scenario("octree:rebuilt", fn)


def F02(c):
    c.exe("bemx3")
    design(c, ["FmaDesign_1d.cfg", "FmaDesign_1d3m0.cfg"], ["FmaDesign_1d4m0.cfg", "FmaDesign_2dm0.cfg", "FmaDesign_1d3.cfg"])
    sc = [octree_trace(c, s, "F02") for s in fma_scenarios(c, "tree")] + [rebuilt(c, "F02")]
    fams = {s[0]: s for s in fma_scenarios(c, "cols")}
    names = ["box4-split", "box-local", "box-graded", "two-bodies"] + (list(fams) if c.thorough else [])
    for k in dict.fromkeys(names):
        sc.append(columns(c, fams[k], 10))
    return check.run_scenarios(c, sc, "FmaTrace", 'CONSTANTS Prop = "F02" Eps = 4')


def colmats(r):
    m = r.get("fmacols")
    return [k["c"] for k in m["cols"]], np.array([k["N"] for k in m["cols"]]).T, np.array([k["D"] for k in m["cols"]]).T


def columns(c, s, order, np_=1, threads=1, stride=None):
    """every entry of the fast operator against the all-direct one (a one-level
    tree of the same code: same quadrature everywhere, no expansion), in units
    of 1e-6 of the local magnitude of the entry"""
    def fn():
        st = stride or (3 if not c.thorough else 1)
        tail = ["fmaprepare", "fmacols %d" % st, "octree"]
        a = execute(c, s, tail, np_=np_, threads=threads, over={"order": order})
        b = execute(c, s, tail, over={"order": order, "levels": 1})
        for r in (a, b):
            if not r.ok:
                return [{"op": "abnormal", "why": r.why}]
        return column_events(a, b, order)
    return Scenario("columns:%s:p%d" % (s[0], order), fn, {"order": order})


def column_events(a, b, order):
    ca, Na, Da = colmats(a)
    cb, Nb, Db = colmats(b)
    o = a.get("octree")
    X = np.array(o["x"])
    evs = []
    h = np.zeros(len(X))
    for cell in o["cells"]:
        P = X[cell["d"]]
        d = np.linalg.norm(P[:, None] - P[None], axis=2).max()
        for i in cell["d"]:
            h[i] = max(h[i], d)
    for j, col in enumerate(ca):
        r = np.linalg.norm(X - X[col], axis=1)
        sd = np.abs(Db[:, j]) + 1e-14
        sn = sd / np.maximum(r, h[col] / 4 + 1e-12)
        dev = np.maximum(np.abs(Da[:, j] - Db[:, j]) / sd, np.abs(Na[:, j] - Nb[:, j]) / sn) * 1e6
        evs.append({"op": "column", "col": col + 1, "order": order, "dev": q30(dev)})
    return evs


def q30(v):
    v = np.where(np.isfinite(v), v, 1e9)
    return [int(x) for x in np.clip(np.rint(v), -10 ** 9, 10 ** 9)]


def F03(c):
    c.exe("bemx3")
    design(c, ["FmaDesign_1d.cfg", "FmaDesign_1d3m0.cfg"], ["FmaDesign_2dm0.cfg", "FmaDesign_1d3m2.cfg"])
    sc = [octree_trace(c, s, "F03") for s in fma_scenarios(c, "tree")] + [rebuilt(c, "F03")]
    return check.run_scenarios(c, sc, "FmaTrace", 'CONSTANTS Prop = "F03" Eps = 4')


def vecs(r):
    s, a = r.get("sol"), r.get("apply")
    d = {k: np.array([float(x) for x in s[k]]) for k in ("phi", "dphi", "alpha")}
    d.update({k: np.array([float(x) for x in a[k]]) for k in "AB"})
    return d


def reldev(a, b):
    m = np.abs(b).max() or 1.0
    d = np.abs(a - b)
    return q30(np.array([np.max(np.where(np.isfinite(d), d, 1e9)) / m * 1e6]))[0]


def F04(c):
    c.exe("bemx3")
    design(c, ["FmaDesign_1d.cfg"], ["FmaDesign_1d3m0.cfg"])
    d1 = {"x+": 1}
    pot, wind = "x*x-y*y+0.5*z+0.3*x*z", "2*x+0.3*z; -2*y; 0.5+0.3*x"
    base = dict(pot3=pot, wind3=wind, dids="1", nids="0", tol="1e-11")
    sc = []

    def fam(key, g, levels, maxn, orders=(3, 6, 9), dense=((4, 5), (8, 12)), **kw):
        kw = dict(base, **kw)
        grids = kw.pop("grids", False)
        pre = kw.pop("pre", 0)
        extra = kw.pop("script", [])

        def one(np_=1, threads=1, **over):
            f = {"p.prm": prm.make(3, **dict(kw, **over))}
            if g:
                f["grid.inp"] = g
            return run.harness(c.exe("bemx3")[0], ["new p.prm", "read", "resize %d" % pre, "update"] + extra + ["reinit", "solve", "sol", "apply 3"], f, grids=grids, np=np_, threads=threads, timeout=400)

        def trunc():
            ref = one(method="FMA", levels=1)
            if not ref.ok:
                return [{"op": "abnormal", "why": ref.why}]
            ref = vecs(ref)
            evs = []
            for p in orders:
                r = one(method="FMA", levels=levels, maxn=maxn, order=p)
                if not r.ok:
                    return evs + [{"op": "abnormal", "why": r.why}]
                v = vecs(r)
                evs += [{"op": "vector", "what": k, "order": p, "dev": reldev(v[k], ref[k])} for k in ("A", "B", "alpha", "phi", "dphi")]
            return evs

        def den():
            evs = []
            for i, (qo, so) in enumerate(dense):
                a, b = one(method="FMA", levels=1, qorder=qo, sorder=so), one(method="Direct", qorder=qo, sorder=so)
                for r in (a, b):
                    if not r.ok:
                        return evs + [{"op": "abnormal", "why": r.why}]
                a, b = vecs(a), vecs(b)
                evs += [{"op": "dense", "what": k, "k": i + 1, "dev": reldev(a[k], b[k])} for k in ("A", "B", "alpha", "phi", "dphi")]
            return evs
        sc.append(Scenario("truncation:" + key, trunc, dict(levels=levels, maxn=maxn, orders=orders)))
        sc.append(Scenario("dense:" + key, den, dict(quadrature=dense)))
    fam("box4", mesh.box((4, 4, 4), mat=d1), 6, 3)
    fam("box-long", mesh.box((6, 3, 2), hi=(3, 1, 0.6), mat={"x+": 1, "y-": 1}), 6, 3)
    fam("box-shift", mesh.box((3, 4, 3), lo=(1, -2, 0.5), hi=(2, -1, 1.5), mat={"z-": 1}, group={f: 0 for f in mesh.FACES}), 6, 4)
    fam("sphere", None, 6, 5, grids=True, grid="../grids/coarse_sphere", pre=2, dids="0", nids="1")
    fam("box-local", mesh.box((3, 3, 3), mat=d1), 6, 3, script=["flag iso 0 5 20", "exec", "update"])
    if c.thorough:
        fam("sphere-neumann", None, 6, 5, grids=True, grid="../grids/coarse_sphere", pre=2, dids="1", nids="0", orders=(4, 7, 10))
        fam("box-graded", mesh.box((5, 5, 5), lo=(-1, -1, -1), hi=(1, 1, 1), f=graded(1.7), mat=d1), 7, 3, orders=(3, 6, 10))
        fam("box6", mesh.box((6, 6, 6), mat={"x+": 1, "z-": 1}), 6, 5, orders=(4, 7))
        fam("q2", mesh.box((3, 3, 3), mat=d1), 5, 4, sord=2, vord=2, orders=(4, 7))
    return check.run_scenarios(c, sc, "FmaTrace", 'CONSTANTS Prop = "F04" Eps = 4')
