"""N05: problems without imposed potential."""
import numpy as np
from .. import check, mesh, prm, run
from ..canon import fl, locs, q, Intern
from ..check import Scenario
from .nodes import POT3, WIND3, POT2, WIND2, data_event


def scenario(c, key, dim, files, script, kw, np_, tol, grids=False, threads=1):
    """tol: relative to the range of the potential"""
    def fn():
        k = dict(dict(dids="1", nids="0", tol="1e-12"), **kw)
        r = run.harness(c.exe("bemx%d" % dim)[0], ["new p.prm", "read"] + script + ["update", "reinit", "solve", "dofs", "sol"], dict(files, **{"p.prm": prm.make(dim, **k)}), np=np_, threads=threads, timeout=250, grids=grids)
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        d, s = r.get("dofs"), r.get("sol")
        pot = fl(s["pot"])
        rng = max(1e-3, pot.max() - pot.min())
        de = data_event(d, s)
        return [{"op": "solved", "have": d["have_dir"], "n": d["n"], "phi": q(fl(s["phi"]) / rng, 1e-8), "pot": q(pot / rng, 1e-8), "tol": int(tol * 1e8), "rtol": 20,
                 "dbl": [[j + 1 for j in g] for g in d["dbl"]], "dphi": de["dphi"], "tmp": de["tmp"], "dflux": de["dflux"]}]
    return Scenario("%s np=%d" % (key, np_), fn, {"dim": dim, "np": np_, "tol": tol, "script": script})


def N05(c):
    c.model("PureFlux", "PureFlux_ok.cfg")
    for k in (1, 2):
        c.rejects("PureFlux", "PureFlux_bad%d.cfg" % k)
    S, r = [], c.rng
    p, w = prm.linear(3, [0.7, -0.4, 1.1], 0.25)
    p2, w2 = prm.linear(2, [0.7, -0.4], 0.25)
    L3, L2 = dict(pot3=p, wind3=w), dict(pot2=p2, wind2=w2)
    H3, H2 = dict(pot3=POT3, wind3=WIND3), dict(pot2=POT2, wind2=WIND2)
    G = lambda **k: {"grid.inp": mesh.box(**k)}
    sq = {"grid.inp": mesh.polygon([(0, 0), (1, 0), (1, 1), (0, 1)], 4, split=True)}
    for n in (1, 2, 3):
        S.append(scenario(c, "box linear", 3, G(n=(2, 2, 2)), [], L3, n, 1e-4))
        S.append(scenario(c, "square linear", 2, sq, [], L2, n, 1e-4))
    S.append(scenario(c, "box hanging", 3, G(n=(2, 2, 2)), ["flag iso 1 5 9", "exec", "update"], L3, 2, 1e-4))
    S.append(scenario(c, "box order 2", 3, G(n=(1, 1, 1)), [], dict(H3, sord=2, vord=2), 2, 5e-3))
    S.append(scenario(c, "box quadratic", 3, G(n=(4, 4, 4)), [], H3, 4, 1e-2))
    S.append(scenario(c, "square quadratic", 2, sq, ["resize 2"], H2, 2, 5e-3))
    S.append(scenario(c, "sphere", 3, {}, ["resize 2"], dict(L3, grid="../grids/coarse_sphere", dids="9", nids="1"), 1, 3e-2, grids=True))
    S.append(scenario(c, "circle", 2, {}, ["resize 2"], dict(L2, grid="../grids/circle", dids="9", nids="1"), 2, 1e-3, grids=True))
    S.append(scenario(c, "box fma", 3, G(n=(4, 4, 4)), [], dict(L3, method="FMA", levels=4, maxn=5, order=8), 1, 5e-3))
    S.append(scenario(c, "box fma", 3, G(n=(4, 4, 4)), [], dict(L3, method="FMA", levels=4, maxn=5, order=8), 3, 5e-3, threads=2))
    S.append(scenario(c, "unlisted ids", 3, G(n=(2, 2, 2), mat={"x+": 5, "x-": 5}), [], dict(pot3="y-0.5*z", wind3="0; 1; -0.5"), 2, 1e-4))
    for k in range(30 if c.thorough else 4):
        n = [r.randint(1, 3) for _ in range(3)]
        lo = [r.uniform(-1, 0) for _ in range(3)]
        hi = [a + r.uniform(0.7, 1.5) for a in lo]
        a = [round(r.uniform(-1, 1), 2) for _ in range(3)]
        pp, ww = prm.linear(3, a, round(r.uniform(-3, 3), 2))
        S.append(scenario(c, "random box %d" % k, 3, G(n=n, lo=lo, hi=hi, order=r.sample(mesh.FACES, 6), rot=r.randint(0, 3)), [], dict(pot3=pp, wind3=ww), r.randint(1, 3), 5e-3))
    return check.run_scenarios(c, S, "PureFluxTrace", pool=4)
