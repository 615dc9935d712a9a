"""B01, B02, B03: exact fields on bodies of unit cells."""
import itertools, json, os, tempfile
import numpy as np
from .. import check, mesh, prm, run, tlc, vox
from ..canon import fl, locs, q
from ..check import Scenario

TOP = 2 * 10 ** 9


def problems(dim, num, seed, orders, k=2, cells=5):
    d = tempfile.mkdtemp(dir=os.environ.get("PIBEM_SCRATCH"))
    f = os.path.join(d, "h")
    cfg = "\n".join(["SPECIFICATION Spec", "CONSTANTS", " K = %d" % k, " D = %d" % dim, " MaxCells = %d" % cells, " Orders = {%s}" % ", ".join(map(str, orders)),
                     "INVARIANT Written", "CHECK_DEADLOCK FALSE", ""])
    o = tlc.tlc("VoxelGen", cfg, env={"OUT": f}, workers=1, simulate="num=%d" % num, extra=["-depth", "100", "-seed", str(seed)])
    if not o.ok:
        raise tlc.TLCError("generation failed: " + o.text[-1500:])
    out, seen = [], set()
    for line in open(f):
        h = json.loads(line)
        h = json.loads(h) if isinstance(h, str) else h
        if json.dumps(h) not in seen:
            seen.add(json.dumps(h))
            out.append(h)
    return out, o


class Problem:
    def __init__(self, h, k=0, scale=None, shift=None):
        p = h["prob"]
        self.cells = [tuple(c) for c in h["body"]]
        self.dim = len(self.cells[0])
        self.order, self.r, self.np, self.loc = p["order"], p["r"], p["np"], p["loc"]
        self.poly = [(c, tuple(e)) for c, e in p["poly"] if c]
        self.D = max(1, self.order)
        self.bc = {(tuple(f[0]), f[1] - 1, f[2]): b for f, b in h["bc"]}
        # scales away from the degenerate one of the logarithmic kernel
        scales = (0.7, 6., 0.05) if self.dim == 3 else (0.25, 6.)
        shifts = ([0.3, -0.2, 0.5], [-40., 7., 11.], [0., 0., 0.])
        self.place = vox.Place(self.dim, p["rot"], scale or scales[k % len(scales)], (shift or shifts[(k // 2) % 3])[:self.dim])
        self.split = p.get("split", True)
        self.np = min(self.np, len(self.bc) // 2)
        self.flip = p.get("flip", k % 5 == 4)

    def grid(self, alldir=False):
        return vox.mesh(self.cells, self.place, self.r, ids=lambda f: 3 if alldir or self.bc.get(f, 1) else 5, split=self.split, flip=self.flip)

    def script(self, k):
        n = len(self.bc) * self.r ** (self.dim - 1)
        s = ["read", "update"]
        for i in range(self.loc):
            mode = "iso" if self.dim == 2 or (k + i) % 3 else "xy"[k % 2]
            s += ["flag %s %d %d" % (mode, (7 * k + 3 * i) % n, (11 * k + 5) % n), "exec", "update"]
        return s

    def params(self, **kw):
        d = self.dim
        k = {"sord": self.order, "vord": self.order, "dids": "3", "nids": "5", "tol": "1e-12", "maxsteps": "3000",
             "qorder": 8 if not self.loc else 12 if self.order == 1 else 28, "sorder": (8 if d == 3 else 16) if not self.loc else 16 if self.order == 1 else 24,
             "pot%d" % d: self.place.expr(self.poly), "wind%d" % d: self.place.grad(self.poly)}
        k.update(kw)
        return prm.make(d, **k)

    # ---- lattice coordinates ----
    def fit(self, X):
        X = np.atleast_2d(X)
        for k in range(6):
            S = self.order * self.r * 2 ** k
            if S % 2:
                continue
            Y = X * S
            if np.abs(Y - np.rint(Y)).max() < 1e-5:
                return S
        return None

    def ints(self, X, S):
        return [[int(v) for v in p] for p in np.rint(np.atleast_2d(X) * S)]

    def unit(self, S):
        m = max([max(c) for c in self.cells]) + 1
        big = max(1, sum(abs(c) * m ** sum(e) * 3 for c, e in self.poly)) * S ** self.D
        u = 10 ** 6
        while big * u > TOP and u > 1:
            u //= 10
        return u

    def body(self):
        return {"op": "body", "dim": self.dim, "o": -1 if self.flip else 1, "cells": [list(c) for c in self.cells], "poly": [[c, list(e)] for c, e in self.poly], "D": max(self.D, 3)}


def qv(v, unit=1.):
    v = np.asarray(v, float) * unit
    v = np.where(np.isfinite(v), v, TOP)
    return [int(a) for a in np.clip(np.rint(v), -TOP, TOP)]


OFF = [{"op": "abnormal", "why": "a node or element that is not on the body"}]


def alpha_event(P, co, tol, same):
    X = P.place.back(co["x"])
    S = P.fit(X)
    if not S:
        return None
    g = {}
    for i, k in enumerate(locs(co["x"], 1e-7 * P.place.s)):
        g.setdefault(k, []).append(i + 1)
    d = 2 ** P.dim
    return {"op": "alpha", "x": P.ints(X, S), "S": S, "a": qv(fl(co["alpha"]), 1e6 * d), "unit": 10 ** 6, "tol": int(tol * 1e6 * d), "same": max(1, int(same * 1e6 * d)),
            "groups": [v for v in g.values() if len(v) > 1]}


def centres(P, d):
    X = P.place.back(d["x"])
    return np.array([X[c["d"]].mean(0) for c in d["cells"]])


def cover_event(P, d):
    C = centres(P, d)
    S = P.fit(C * 2)
    if not S:
        return None
    return {"op": "cover", "M": 2 * S, "centres": P.ints(C, 2 * S)}


def field_event(P, d, s, ptol, dtol):
    X, C = P.place.back(s["x"]), centres(P, d)
    S, M = P.fit(X), P.fit(C * 2)
    if not S or not M:
        return None
    U = P.unit(S)
    phi, dphi = fl(s["phi"]), fl(s["dphi"]) * P.place.s
    p, dn = qv(phi, U * S ** P.D), qv(dphi, U * S ** (P.D - 1))
    XI, CI = P.ints(X, S), P.ints(C, 2 * M)
    rows = [{"x": XI[i], "m": CI[k], "p": p[i], "d": dn[i]} for k, c in enumerate(d["cells"]) for i in c["d"]]
    return {"op": "field", "S": S, "M": 2 * M, "U": U, "D": P.D, "rows": rows, "ptol": int(ptol * U * S ** P.D) + 1, "dtol": int(dtol * U * S ** (P.D - 1)) + 1}


def hanging(P, d, c):
    """locations of the hanging nodes"""
    X = np.round(P.place.back(d["x"]), 5)
    return {tuple(X[e["i"]]) for e in c["hn"]}


def vec_rows(P, d, f):
    """rows of a vector field: every node of every element, values along the lattice axes"""
    X = P.place.back(f["x"])
    v, comp = fl(f["v"]), f["comp"]
    C = centres(P, d)
    out = []
    for k, cell in enumerate(d["vcells"]):
        g = {}
        for i in cell:
            g.setdefault(tuple(np.round(X[i], 5)), {})[comp[i]] = i
        for t in g.values():
            if sorted(t) != list(range(P.dim)):
                return None
            ix = [t[a] for a in range(P.dim)]
            out.append((X[ix[0]], C[k], P.place.dirs(v[ix])[0]))
    return out


def vector_event(P, d, f, op, tol, convex=0, hang=()):
    R = vec_rows(P, d, f)
    if not R:
        return None
    X, C = np.array([r[0] for r in R]), np.array([r[1] for r in R])
    V = np.array([r[2] for r in R])
    S, M = P.fit(X), P.fit(C * 2)
    if not S or not M:
        return None
    XI, CI = P.ints(X, S), P.ints(C, 2 * M)
    if op == "normals":
        return {"op": op, "S": S, "M": 2 * M, "unit": 10 ** 6, "tol": int(tol * 1e6), "rows": [{"x": XI[i], "m": CI[i], "v": qv(V[i], 1e6)} for i in range(len(R))]}
    U = P.unit(S)
    V = V * P.place.s
    return {"op": op, "S": S, "M": 2 * M, "U": U, "D": P.D, "tol": int(tol * U * S ** (P.D - 1)) + 1, "convex": convex,
            "rows": [{"x": XI[i], "m": CI[i], "v": qv(V[i], U * S ** (P.D - 1)), "h": int(tuple(np.round(X[i], 5)) in hang)} for i in range(len(R))]}


def go(c, P, script, kw=None, timeout=280, threads=1):
    return run.harness(c.exe("bemx%d" % P.dim)[0], ["new p.prm"] + script, {"p.prm": P.params(**(kw or {})), "grid.inp": P.grid()}, np=P.np, threads=threads, timeout=timeout)


def desc(P):
    return {"dim": P.dim, "cells": len(P.cells), "faces": len(P.bc), "order": P.order, "r": P.r, "np": P.np, "refined": P.loc, "scale": P.place.s, "split": P.split, "inward": P.flip,
            "potential faces": sum(P.bc.values())}


TOLA = {1: 2e-6, 2: 1e-4, 3: 1e-3}


def b01(c, key, P, k, kw=None, tol=None, threads=1, direct=True):
    def fn():
        r = go(c, P, P.script(k) + ["reinit"] + (["assemble"] if direct else ["fmaprepare"]) + ["alpha", "coef", "dofs"], kw, threads=threads)
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        t = tol or TOLA[P.order]
        ev = [P.body(), cover_event(P, r.get("dofs")), alpha_event(P, r.get("coef"), t, t / 100 if direct else t)]
        return OFF if None in ev else ev
    return Scenario(key, fn, desc(P))


TOLP, TOLD = {1: 2e-6, 2: 5e-5, 3: 1e-3}, {1: 2e-5, 2: 5e-4, 3: 1e-2}


def b02(c, key, P, k, kw=None, ptol=None, dtol=None, threads=1):
    def fn():
        r = go(c, P, P.script(k) + ["reinit", "solve", "dofs", "sol"], kw, threads=threads)
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        d = r.get("dofs")
        ev = [P.body(), cover_event(P, d), field_event(P, d, r.get("sol"), ptol or TOLP[P.order], dtol or TOLD[P.order])]
        return OFF if None in ev else ev
    return Scenario(key, fn, desc(P))


TOLG = {1: 2e-5, 2: 1e-3, 3: 2e-2}


def b03(c, key, P, k, kw=None, tol=None, hyp=None, convex=1, threads=1):
    hyp = P.dim == 3 if hyp is None else hyp

    def fn():
        r = go(c, P, P.script(k) + ["reinit", "solve", "dofs", "surfgradients", "dumpnormals", "gradients", "constr"] + (["hypgradients"] if hyp else []), kw, threads=threads)
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        d = r.get("dofs")
        F = {f["name"]: f for f in r.all("field")}
        t = tol or TOLG[P.order]
        ev = [P.body(), cover_event(P, d), vector_event(P, d, F["normals"], "normals", 1e-6), vector_event(P, d, F["sgrad"], "surf", t), vector_event(P, d, F["grad"], "gradient", t)]
        if hyp:
            ev.append(vector_event(P, d, F["hgrad"], "hyp", 10 * t, convex, hanging(P, d, r.get("constr"))))
        return OFF if None in ev else ev
    return Scenario(key, fn, desc(P))


def designs(c):
    c.model("VoxelDesign", "VoxelDesign_2d.cfg")
    c.model("VoxelDesign", "VoxelDesign_3d.cfg")
    for k in (1, 2, 3, 4):
        c.rejects("VoxelDesign", "VoxelDesign_bad%d.cfg" % k)


def generated(c, n2, n3):
    out = []
    for dim, n, k, cells, orders in ((2, n2, 3, 6, (1, 2)), (3, n3, 2, 5, (1, 1, 2))):
        hs, o = problems(dim, n, c.seed + 10 * dim, orders, k, cells)
        c.mc_trans += o.states
        out += [("gen%dd-%d" % (dim, i), Problem(h, i), i) for i, h in enumerate(hs[:n])]
    return out


def fixed(body, bc=lambda f: 1, order=1, r=1, rot=0, np=1, loc=0, poly=None, split=True, flip=False, **kw):
    F = vox.faces(body)
    dim = len(body[0])
    poly = poly or {(2, 1): [[1, [1, 0]], [-2, [0, 1]], [1, [0, 0]]], (3, 1): [[1, [1, 0, 0]], [-2, [0, 1, 0]], [3, [0, 0, 1]], [1, [0, 0, 0]]],
                    (2, 2): [[1, [2, 0]], [-1, [0, 2]], [1, [1, 1]], [1, [1, 0]]], (3, 2): [[1, [2, 0, 0]], [1, [0, 2, 0]], [-2, [0, 0, 2]], [1, [1, 1, 0]], [-1, [0, 1, 1]], [1, [1, 0, 0]]]}[dim, order]
    return Problem({"body": body, "bc": [[[list(f[0]), f[1] + 1, f[2]], bc(f)] for f in F],
                    "prob": {"order": order, "poly": poly, "r": r, "rot": rot, "np": np, "loc": loc, "split": split, "flip": flip}}, **kw)


CUBE, LB = [(0, 0, 0)], [(0, 0, 0), (1, 0, 0), (0, 1, 0)]
TRI = LB + [(0, 0, 1)]
SEVEN = [c for c in itertools.product((0, 1), repeat=3)][:-1]
SQ, L2 = [(0, 0)], [(0, 0), (1, 0), (0, 1)]
RING = [(i, j) for i in range(3) for j in range(3) if (i, j) != (1, 1)]


def conv(c, key, dim, rec, ns, ratio, last, desc=None):
    """errors (in 1e-6) on finer and finer meshes; rec: n -> harness arguments, function of the nodes giving potential and normal derivative"""
    def fn():
        E = []
        for n in ns:
            grid, kw, np_, exact = rec(n)
            k = dict(dids="1", nids="0", tol="1e-10", maxsteps="2000")
            k.update(kw)
            r = run.harness(c.exe("bemx%d" % dim)[0], ["new p.prm", "read", "update", "reinit", "solve", "sol"], {"p.prm": prm.make(dim, **k), "grid.inp": grid}, np=np_, timeout=280)
            if not r.ok:
                return [{"op": "abnormal", "why": r.why}]
            s = r.get("sol")
            p, d = exact(np.array(s["x"], float))
            E.append([np.sqrt(((fl(s["phi"]) - p) ** 2).mean()), np.sqrt(((fl(s["dphi"]) - d) ** 2).mean())])
        E = np.array(E)
        return [{"op": "conv", "what": w, "err": qv(E[:, i], 1e6), "ratio": ratio, "floor": 100, "last": int(last[i] * 1e6)} for i, w in ((0, "phi"), (1, "dphi"))]
    return Scenario(key, fn, desc or {"dim": dim, "sizes": list(ns)})


ROUND = {f: 0 for f in mesh.FACES}


def sphere(mat, flip=False, np_=1, radius=1.5, **kw):
    def rec(n):
        g = mesh.box((n, n, n), lo=(-1, -1, -1), hi=(1, 1, 1), group=ROUND, mat=mat, f=lambda p: p / np.linalg.norm(p) * radius, flip=flip)

        def exact(X):
            x, y, z = X.T
            N = X / np.linalg.norm(X, axis=1)[:, None] * (-1 if flip else 1)
            return x * y + 2 * z - x, (N * np.stack([y - 1, x, 2 + 0 * z], 1)).sum(1)
        return g, dict(pot3="x*y+2*z-x", wind3="y-1; x; 2", **kw), np_, exact
    return rec


def ellipse(mats, flip=False, np_=1, **kw):
    def rec(n):
        t = np.arange(n) * 2 * np.pi / n
        g = mesh.polygon([(1.3 * np.cos(a), 0.8 * np.sin(a)) for a in t], [1] * n, split=[0] * n, mats=[mats(i, n) for i in range(n)], flip=flip)

        def exact(X):
            x, y = X.T
            N = np.stack([x / 1.69, y / .64], 1)
            N /= np.linalg.norm(N, axis=1)[:, None] * (1 if flip else -1)
            return x * x - y * y + x, (N * np.stack([2 * x + 1, -2 * y], 1)).sum(1)
        return g, dict(pot2="x*x-y*y+x", wind2="2*x+1; -2*y", **kw), np_, exact
    return rec


def B01(c):
    designs(c)
    S = [b01(c, k, P, i) for k, P, i in generated(c, 60 if c.thorough else 12, 60 if c.thorough else 8)]
    # surfaces whose elements are joined across the edges
    for i, b in enumerate((CUBE, LB, TRI, SEVEN, SQ, L2)):
        S.append(b01(c, "joined %d" % i, fixed(b, split=False, rot=i % 4, r=2 - i % 2), i))
    S.append(b01(c, "cavity 2d", fixed(RING, rot=1), 0))
    if c.thorough:
        S.append(b01(c, "cavity 3d", fixed([x for x in itertools.product(range(3), repeat=3) if x != (1, 1, 1)], rot=2), 0))
    S.append(b01(c, "fma tri", fixed(TRI, r=3, rot=2), 0, dict(method="FMA", levels=4, maxn=5, order=10), 5e-4, direct=False))
    S.append(b01(c, "fma L np=3", fixed(LB, r=2, rot=1, np=3, loc=1), 0, dict(method="FMA", levels=6, maxn=3, order=10), 5e-4, threads=2, direct=False))
    S.append(b01(c, "fma no octree", fixed(SEVEN, r=1, rot=1), 0, dict(method="FMA", levels=1, maxn=500, order=4), 5e-3, direct=False))
    return check.run_scenarios(c, S, "VoxelTrace", pool=6)


ALLD, MIX, ONED = {f: 1 for f in mesh.FACES}, {"x+": 1, "y-": 1, "z-": 1}, {"x+": 1}


def B02(c):
    designs(c)
    S = [b02(c, k, P, i) for k, P, i in generated(c, 60 if c.thorough else 12, 60 if c.thorough else 8)]
    some = lambda f: int((sum(f[0]) + f[1] + f[2]) % 2)
    S.append(b02(c, "seven mixed", fixed(SEVEN, some, rot=2), 0))
    S.append(b02(c, "tri second order", fixed(TRI, some, order=2, rot=1), 0))
    S.append(b02(c, "square second order", fixed(SQ, some, order=2, r=2, rot=3), 0))
    S.append(b02(c, "L inward np=2", fixed(LB, some, r=2, np=2, rot=1, flip=True), 0))
    S.append(b02(c, "cavity 2d", fixed(RING, some, rot=1), 0))
    S.append(b02(c, "fma tri", fixed(TRI, some, r=2, rot=2), 0, dict(method="FMA", levels=4, maxn=10, order=10), 3e-3, 1e-2, threads=2))
    ns = (3, 6, 12) if c.thorough else (3, 6)
    S.append(conv(c, "sphere potential", 3, sphere(ALLD), ns, 45, (1e-5, 0.035)))
    S.append(conv(c, "sphere mixed np=2", 3, sphere(MIX, np_=2), ns, 45, (5e-3, 0.035)))
    S.append(conv(c, "sphere inward", 3, sphere(ONED, flip=True), ns, 45, (6e-3, 0.035)))
    S.append(conv(c, "sphere fma", 3, sphere(MIX, method="FMA", levels=4, maxn=20, order=8), (3, 6), 60, (8e-3, 0.04)))
    S.append(conv(c, "ellipse potential", 2, ellipse(lambda i, n: 1), (12, 24, 48), 45, (1e-5, 0.02)))
    S.append(conv(c, "ellipse mixed", 2, ellipse(lambda i, n: int(i < n // 2), flip=True), (12, 24, 48), 45, (1e-2, 0.03)))
    return check.run_scenarios(c, S, "VoxelTrace", pool=6)


def B03(c):
    designs(c)
    S = [b03(c, k, P, i, hyp=P.dim == 3 and not P.flip) for k, P, i in generated(c, 40 if c.thorough else 8, 40 if c.thorough else 8)]
    some = lambda f: int((sum(f[0]) + f[1] + f[2]) % 2)
    S.append(b03(c, "cube hyp local", fixed(CUBE, some, r=1, loc=2, rot=2), 0))
    S.append(b03(c, "slab hyp np=3", fixed([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], order=2, np=3, rot=3), 0))
    S.append(b03(c, "tri mixed", fixed(TRI, some, r=2, rot=1), 0))
    S.append(b03(c, "square", fixed(SQ, some, r=2, order=2, rot=1), 0))
    # known: the free coefficients are those of convex bodies with outward normals
    S.append(b03(c, "hyp re-entrant", fixed(LB, rot=1), 0, convex=0))
    S.append(b03(c, "hyp inward", fixed(CUBE, rot=1, r=2, flip=True), 0, convex=0))
    return check.run_scenarios(c, S, "VoxelTrace", pool=6)
