"""B05: singular integrals of one element (Kernel.tla)."""
import json, os, tempfile
import numpy as np
from .. import check, run, tlc
from ..check import Scenario

CLIP = 6 * 10 ** 7


def q(v):
    return int(round(max(-CLIP, min(CLIP, v * 1e6)))) if v == v else CLIP + 1


def hists(depth, num, seed):
    d = tempfile.mkdtemp(prefix="pibem-gen-", dir=os.environ.get("PIBEM_SCRATCH"))
    f = os.path.join(d, "h")
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Depth = %d\nINVARIANT Written\nCHECK_DEADLOCK FALSE\n" % depth
    o = tlc.tlc("KernelGen", cfg, env={"OUT": f}, workers=1, simulate="num=%d" % num, extra=["-depth", str(depth + 1), "-seed", str(seed)])
    if not o.ok:
        raise tlc.TLCError("generation failed: " + o.text[-1500:])
    out, seen = [], set()
    for line in open(f):
        h = json.loads(line.strip())
        if isinstance(h, str):
            h = json.loads(h)
        k = json.dumps(h[:-1])
        if k not in seen:
            seen.add(k)
            out.append(h)
    return out[:num], o


def L2(t):
    return np.array([(2 * t - 1) * (t - 1), 4 * t * (1 - t), t * (2 * t - 1)])


def D2(t):
    return np.array([4 * t - 3, 4 - 8 * t, 4 * t - 1])


def shapes(o, u, v):
    f = {0: lambda t: np.ones((1,) + t.shape), 1: lambda t: np.array([1 - t, t]), 2: L2}[o]
    a, b = f(u), f(v)
    return np.array([b[j] * a[i] for j in range(len(b)) for i in range(len(a))])


def regular(C, a, n=24):
    """plain Gauss integrals over the element without the part a"""
    P = np.array(C["P"], float).reshape(3, 3, 3) / C["den"]
    X = lambda u, v, A, B: np.einsum("jq,iq,jik->qk", B(v), A(u), P)
    eu, ev = np.array([C["e"][0] / 4]), np.array([C["e"][1] / 4])
    x0 = X(eu, ev, L2, L2)[0]
    cu, cv = sorted({0, a[0], a[1], 4}), sorted({0, a[2], a[3], 4})
    g, w = np.polynomial.legendre.leggauss(n)
    V = [np.zeros(((o + 1) ** 2, 3)) for o in range(3)]
    W = [np.zeros(((o + 1) ** 2, 3)) for o in range(3)]
    for u0, u1 in zip(cu, cu[1:]):
        for v0, v1 in zip(cv, cv[1:]):
            if u0 >= a[0] and u1 <= a[1] and v0 >= a[2] and v1 <= a[3]:
                continue
            for s in range(4):  # four by four panels
                for t in range(4):
                    hu, hv = (u1 - u0) / 16, (v1 - v0) / 16
                    U, VV = np.meshgrid(u0 / 4 + hu * (s + (g + 1) / 2), v0 / 4 + hv * (t + (g + 1) / 2))
                    ww = (np.outer(w, w) * hu * hv / 4).ravel()
                    U, VV = U.ravel(), VV.ravel()
                    R = X(U, VV, L2, L2) - x0
                    n_ = np.cross(X(U, VV, D2, L2), X(U, VV, L2, D2))
                    r = np.linalg.norm(R, axis=1)[:, None]
                    kV = -(3 * R * (R * n_).sum(1)[:, None] / r ** 5 - n_ / r ** 3) / (4 * np.pi)
                    kW = R / r ** 3 * np.linalg.norm(n_, axis=1)[:, None] / (4 * np.pi)
                    for o in range(3):
                        N = shapes(o, U, VV) * ww
                        V[o] += N @ kV
                        W[o] += N @ kW
    return V, W


def scenario(c, key, hs):
    def fn():
        els = []
        for h in hs:
            for e in h:
                els += [p["C"] for p in e["parts"]] if e["op"] == "split" else [e["C"], e["C2"]] if e["op"] == "sim" else [e["C"]]
        s = ["el %d %s %.17g %.17g" % (o, " ".join("%.17g" % (x / C["den"]) for p in C["P"] for x in p), C["e"][0] / 4, C["e"][1] / 4)
             for C in els for o in range(3)]
        r = run.harness(c.exe("kerx")[0], s, timeout=400, args=["script", "out"], env={"MALLOC_PERTURB_": "173"})
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        ev = iter(r.all("el"))
        ints = lambda x: [[q(t) for t in p] for p in x]

        def val():
            x = [next(ev) for _ in range(3)]
            return {"V": [ints(e["V"]) for e in x], "W": [ints(e["W"]) for e in x], "b": [q(t) for t in x[0]["b"]],
                    "same": all(e["same"] for e in x) and all([q(t) for t in e["b"]] == [q(t) for t in x[0]["b"]] for e in x)}
        out = []
        for h in hs:
            C = None
            out.append({"op": "scenario", "key": key})
            for e in h:
                e = dict(e)
                if e["op"] == "split":
                    e["parts"] = [dict(p, val=val()) for p in e["parts"]]
                else:
                    e["val"] = val()
                    if e["op"] == "sim":
                        e["val2"] = val()
                    if e["op"] == "shrink":
                        V, W = regular(C, e["a"])
                        e["rV"], e["rW"] = [ints(x) for x in V], [ints(x) for x in W]
                    else:
                        C = e["C"]
                out.append(e)
        return out
    return Scenario(key, fn, {"histories": len(hs), "depth": len(hs[0]), "first": [e["op"] for e in hs[0]]})


def B05(c):
    c.exe("kerx")
    c.model("KernelDesign", "KernelDesign_ok.cfg" if c.thorough else "KernelDesign_ok1.cfg", workers=7)
    c.pmap(lambda b: c.rejects("KernelDesign", "KernelDesign_bad_%s.cfg" % b, workers=2), ("sign", "scale", "eta", "orient", "lost", "wsign"), 4)
    hs, o = hists(7, 2000 if c.thorough else 240, c.seed)
    c.mc_states += o.states
    n = 20
    sc = [scenario(c, "elements-%d" % (k // n), hs[k:k + n]) for k in range(0, len(hs), n)]
    c.extra["histories"] = len(hs)
    return check.run_scenarios(c, sc, "KernelTrace", tlc_par=4)
