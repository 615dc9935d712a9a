"""L03: parameters are honoured, defaulted and reproducible."""
import hashlib, json, os, re
import numpy as np
from .. import check, mesh, prm, run, vtu
from ..canon import fl
from ..check import Scenario
from .driver import digest, stages
from .nodes import POT3, WIND3, POT2, WIND2

SHORT = dict(prm.SHORT)
for _k in ("pot2", "pot3", "wind2", "wind3"):
    SHORT.pop(_k)
SHORT.update(pot="BoundaryConditions/Potential %dd|Function expression", wind="BoundaryConditions/Wind function %dd|Function expression")
FUNC_OTHER = {"pot": ("Potential", 1), "wind": ("Wind function", 3)}
INTS = "order gran maxn levels mapdeg qorder sorder sord vord maxsteps cycles pre maxcurv".split()
REALS = "coarsen refine tol cpc aspect cadtol ax ay az".split()
BOOLS = "cont curv cad spheroid global".split()
OBS = {"trunc": "order", "contgrad": "cont"}


def real(x):
    return "%.9g" % float(x)


def probe(dim):
    return {n: 0.25 * (d + 1) for d, n in enumerate("xyz"[:dim])}


def val(key, text, dim):
    """what a text means, as a value: kind, number, canonical form"""
    t = text.strip()
    if key in INTS:
        if re.fullmatch(r"[+-]?\d+", t):
            return {"t": "int", "n": max(-2 * 10 ** 9, min(2 * 10 ** 9, int(t) * 1000)), "s": str(int(t))}
        return {"t": "junk", "n": 0, "s": t}
    if key in REALS:
        try:
            x = float(t)
            return {"t": "real", "n": int(max(-2e9, min(2e9, np.sign(x) * max(abs(x) * 1000, 1 if x else 0)))), "s": real(x)}
        except ValueError:
            return {"t": "junk", "n": 0, "s": t}
    if key in BOOLS:
        return {"t": "bool" if t in ("true", "false") else "junk", "n": 0, "s": t}
    if key in ("dids", "nids"):
        p = [x.strip() for x in t.split(",")] if t else []
        return {"t": "list" if all(re.fullmatch(r"\d+", x) for x in p) else "junk", "n": 0, "s": ",".join(str(int(x)) if x.isdigit() else x for x in p)}
    if key in ("pot", "wind"):
        try:
            r = [real(eval(e, {"__builtins__": {}}, probe(dim))) for e in t.split(";")]
        except Exception:
            r = []
        return {"t": "func" if len(r) == (1 if key == "pot" else dim) else "junk", "n": 0, "s": ",".join(r)}
    return {"t": "word", "n": 0, "s": t}


def prmtext(dim, ov, extra=""):
    """a file mentioning exactly the parameters ov"""
    sec = {}
    for k, t in ov.items():
        s, name = SHORT[k].split("|")
        sec.setdefault(s % dim if "%d" in s else s, []).append((name, t))
    out = []
    for s, kv in sorted(sec.items()):
        p = s.split("/")
        p[0] += "<%d>" % dim
        out += ["subsection " + x for x in p] + ["set %s = %s" % x for x in kv] + ["end"] * len(p)
    return "\n".join(out) + "\n" + extra


def observed(p, dim):
    o = {}
    for k, v in p.items():
        k = OBS.get(k, k)
        if k in BOOLS:
            v = "true" if v else "false"
        elif k in REALS:
            v = real(v)
        elif k in ("dids", "nids"):
            v = ",".join(str(x) for x in v)
        elif k == "wind":
            v = ",".join(real(x) for x in v)
        elif k == "pot":
            v = real(v)
        elif isinstance(v, (int, float)):
            v = str(v)
        o[k] = v
    o.pop("ev", None)
    nq = o.pop("nquad", None)
    return o, int(nq)


def used(text, dim):
    """a file of used parameters, as canonical values"""
    path, kv = [], {}
    for ln in text.split("\n"):
        ln = ln.split("#")[0].strip()
        if ln.startswith("subsection "):
            path.append(ln[11:].strip())
        elif ln == "end":
            path.pop()
        elif ln.startswith("set "):
            k, v = ln[4:].split("=", 1)
            kv["/".join(path).replace("<%d>" % dim, "") + "|" + k.strip()] = v.strip()
    inv = {(s % dim if "%d" in s else s): k for k, s in SHORT.items()}
    return {inv[k]: val(inv[k], v, dim)["s"] for k, v in kv.items() if k in inv}


# texts of every key: (valid ones, invalid ones)
def texts(dim):
    ints = {"order": (["0", "3", "10"], ["-1", "11", "2.5", "six"]), "gran": (["1", "7", "1000"], ["0", "-3", "1.5"]), "maxn": (["0", "1", "64"], ["-1", "many"]),
            "levels": (["1", "3", "12"], ["0", "-1", "2.0"]), "mapdeg": (["1", "2", "5"], ["0", "-1", "x"]), "qorder": (["1", "5", "9"], ["0", "-1", "4.5", "4 5"]),
            "sorder": (["1", "4", "12"], ["0", "-1", "a"]), "sord": (["0", "1", "3"], ["-1", "1.0"]), "vord": (["0", "2", "3"], ["-1", "x"]), "maxsteps": (["1", "77", "1000"], ["1e3", "many"]),
            "cycles": (["0", "1", "9"], ["-1", "2.5"]), "pre": (["0", "1", "4"], ["-1", "x"]), "maxcurv": (["0", "1", "8"], ["-1", "1.5"])}
    reals = {"coarsen": (["0", "0.5", "1", "2e-2"], ["-0.1", "1.5", "x"]), "refine": (["0.0", ".25", "1"], ["-1", "2.", "30%"]), "tol": (["1e-3", "0.001", "5e-14"], ["small", "1e-"]),
             "cpc": (["1", "12.5", "40"], ["-1", "x"]), "aspect": (["1.2", "100", "2"], ["-2", "long"]), "cadtol": (["1", "0.5", "200"], ["-5", "x"]), "ax": (["1", "0.25", "7.5"], ["-1", "x"]),
             "ay": (["1", "0.25", "7.5"], ["-2", "x"]), "az": (["1", "0.25", "7.5"], ["-.5", "x"])}
    r = {}
    r.update(ints)
    r.update(reals)
    for b in BOOLS:
        r[b] = (["true", "false"], ["yes", "1", "True"])
    r["maptype"] = (["FE", "Q"], ["q", "fe", "Eulerian"])
    r["prec"] = (["ILU", "AMG"], ["ilu", "none", "Jacobi"])
    r["method"] = (["Direct", "FMA"], ["direct", "FMM", "fma"])
    r["sfe"] = (["FEQ", "FEDGQ"], ["FE_Q", "feq", "DGP"])
    r["vfe"] = (["FEQ", "FEDGQ"], ["FE_Q", "feq", "DGP"])
    r["qtype"] = (["gauss"], ["Gauss", "gauss2", "exact"])
    r["fmt"] = (["inp", "msh", "vtk"], ["xyz", "INP", "prm", "inp2"])
    r["out"] = (["result", "a", "run_7"], [])
    r["grid"] = (["g", "../grids/coarse_sphere"], [])
    r["cadpath"] = (["./", "../x/"], [])
    r["dids"] = (["1", "0,2, 7", "3,3"], ["-1", "a", "1;2"])
    r["nids"] = (["1", "0,2, 7", "4,9"], ["-1", "a", "1.5"])
    n = "xyz"[:dim]
    r["pot"] = (["x*y", "2.5", "x+3*y" + ("-z" if dim == 3 else "")], [])
    r["wind"] = (["; ".join(n), ";".join(["1", "2*x", "y"][:dim])], [])
    return r


RULES = [("gauss", 3, 1), ("gauss", 0, 0), ("gauss_lobatto", 4, 1), ("gauss_chebyshev", 5, 1), ("midpoint", 0, 1), ("milne", 0, 1), ("simpson", 0, 1), ("trapez", 0, 1), ("weddle", 0, 1),
         ("midpoint", 4, 0), ("simpson", 2, 0)]


def reading(c, key, dim, seq):
    """seq: list of (overrides, extra text) read one after the other into the same objects"""
    def fn():
        f = {"f%d.prm" % i: prmtext(dim, ov, ex) for i, (ov, ex) in enumerate(seq)}
        r = run.harness(c.exe("bemx%d" % dim)[0], ["driverparams " + " ".join("f%d.prm" % i for i in range(len(seq)))], f)
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        tr, i, st = [{"op": "begin", "dim": dim}], -1, None
        ev = r.events[0]
        for k, e in enumerate(ev):
            if e["ev"] != "reading":
                continue
            i += 1
            ov, ex = seq[i]
            nx = ev[k + 1] if k + 1 < len(ev) else {}
            rej = e["error"] != "" or nx.get("ev") == "params_error"
            o, nq = observed(nx, dim) if nx.get("ev") == "params" else ({}, 0)
            d = {a: val(a, t, dim) for a, t in ov.items()}
            if ex:
                d["?unknown"] = {"t": "junk", "n": 0, "s": ex.strip()}
            tr.append({"op": "read", "set": d, "res": "rejected" if rej else "ok", "obs": o, "nquad": nq})
        return tr
    return Scenario(key, fn, {"dim": dim, "files": len(seq)})


UNKNOWN = ["set Colour = red\n", "subsection BEMProblem<%d>\nset Mapping degree = 2\nend\n", "subsection Solver\nset Tolerance = 1e-3\nend\n", "subsection BEMFMA<%d>\nsubsection FMA Params\nset Truncation Order = 4\nend\nend\n"]


def readings(c, dim):
    S, T, r = [], texts(dim), c.rng
    for k, (good, bad) in sorted(T.items()):
        seq = [({}, "")]
        for i in range(max(len(good), len(bad))):
            if i < len(good):
                seq.append(({k: good[i]}, ""))
            if i < len(bad):
                seq.append(({k: bad[i]}, ""))
        S.append(reading(c, "read %s %dd" % (k, dim), dim, seq + [({}, "")]))
    S.append(reading(c, "read rules %dd" % dim, dim, [({}, "")] + [({"qtype": t, "qorder": str(n)}, "") for t, n, ok in RULES] + [({}, "")]))
    S.append(reading(c, "read unknown %dd" % dim, dim, [({}, "")] + [({}, u % dim if "%d" in u else u) for u in UNKNOWN] + [({"qorder": "6"}, UNKNOWN[0]), ({}, "")]))
    # functions are parsed when first needed: read last
    for k, bad in (("pot", ["x;y", "x+q", "2*(x", ""]), ("wind", ["x", ";".join("xyxy"[:dim + 1]), "; ".join("pqr"[:dim])])):
        for i, t in enumerate(bad):
            S.append(reading(c, "read %s bad%d %dd" % (k, i, dim), dim, [({}, ""), ({k: t}, "")]))
    keys = [k for k in sorted(T) if k != "qtype"]
    for j in range(60 if c.thorough else 8):
        seq = [({}, "")]
        for i in range(12):
            ov = {k: r.choice(T[k][0]) for k in r.sample(keys, r.choice([1, 2, 3, 6, 12, len(keys)]))}
            ex = ""
            if r.random() < .35:
                k = r.choice([k for k in keys if T[k][1]])
                ov[k] = r.choice(T[k][1])
            elif r.random() < .1:
                ex = r.choice(UNKNOWN)
                ex = ex % dim if "%d" in ex else ex
            seq.append((ov, ex))
        S.append(reading(c, "read random%d %dd" % (j, dim), dim, seq))
    return S


# ---- runs of the program --------------------------------------------------
def program(c, dim, files, text, np_=1, env=None, grids=True):
    f = dict(files)
    if text is not None:
        f["parameters_bem_%d.prm" % dim] = text
    return run.harness(c.exe("mainx%d" % dim)[0], [], f, np=np_, timeout=200, grids=grids, keep=["used_parameters_bem_%d.prm" % dim] + OUTS, args=["1"])


OUTS = ["%s_%s_results.vtu" % (p, q) for p in ("result", "other", "a") for q in ("scalar", "vector")] + ["scalar_error.vtu", "vector_error.vtu"]


def results(files):
    """digests of the fields of the result files"""
    out = {}
    for n in OUTS:
        if n in files:
            v = vtu.read(files[n])
            out[n] = digest([sorted(v["f"]), [["%.9g" % (x + 0.0) for x in np.ravel(v["f"][k])] for k in sorted(v["f"])]])
    return out


def outcome(r):
    # the harness reports the exit status in `why`; the program writes no "end" event
    sig = -r.rc if r.rc < 0 else (r.rc - 128 if r.rc in (134, 136, 137, 139) else 0)
    return r.rc, sig


def progrun(c, key, dim, files, ov):
    def fn():
        U = "used_parameters_bem_%d.prm" % dim
        r = program(c, dim, files, prmtext(dim, ov))
        d = {a: val(a, t, dim) for a, t in ov.items()}
        if r.rc or U not in r.files:
            return [{"op": "abnormal", "why": "rc %s: %s" % (r.rc, r.out[-300:])}]
        tr = [{"op": "run", "dim": dim, "set": d, "rc": r.rc, "used": used(r.files[U].decode(), dim), "result": results(r.files)}]
        r2 = program(c, dim, files, r.files[U].decode())
        tr.append({"op": "rerun", "rc": r2.rc, "used": used(r2.files.get(U, b"").decode(), dim), "result": results(r2.files)})
        return tr
    return Scenario(key, fn, {"dim": dim, "set": {k: str(v) for k, v in ov.items()}})


def refused(c, key, dim, files, ov, miss=False):
    def fn():
        r = program(c, dim, files, prmtext(dim, ov))
        rc, sig = outcome(r)
        return [{"op": "missing" if miss else "refused", "dim": dim, "set": {a: val(a, t, dim) for a, t in ov.items()}, "rc": rc, "signal": sig, "solved": int(any(n in r.files for n in OUTS))}]
    return Scenario(key, fn, {"dim": dim, "set": {k: str(v) for k, v in ov.items()}})


# ---- effects ----------------------------------------------------------------
def arr(*v):
    return [np.round(np.array(x, float).ravel(), 12) for x in v]


def parts(r, kind):
    """the parts of a simulation found in a recorded session: name -> list of arrays or a string"""
    p = {}
    if not r.ok:
        p["iter"] = "failed: " + re.sub(r"[^A-Za-z ]", "", r.why)[:60]
        if kind == "C":
            pass
    g = lambda n, k=0: r.get(n, k) or None
    if kind == "D":
        st = stages(r.events[0])
        p["seq"] = "|".join(digest(sorted((a["id"], a["p"]) for a in s[1]["cells"])) for s in st if s[0] == "solve" and s[1]) + "/%d" % sum(s[0] == "solve" for s in st)
        so = [s for s in st if s[0] == "solve" and s[2]]
        if so:
            p["sol"] = arr(so[-1][2]["phi"], so[-1][2]["dphi"])
        p["mesh"] = str([s[4].get("cells") for s in st if s[0] == "read"])
        p["files"] = ",".join(sorted(r.files))
        return p
    if kind == "M":
        ms = r.all("mesh")
        p["mesh"] = digest(sorted(a["id"] for a in ms[0]["cells"]))
        p["seq"] = digest([sorted(a["id"] for a in m["cells"]) for m in ms[1:]])
        p["shape"] = arr(*[sorted(x for a in m["cells"] for x in sum(a["p"], [])) for m in ms[1:]])
        return p
    m, d, cs, so, de, oc, fm, rs, cn = g("mesh"), g("dofs"), g("constr"), g("sol"), g("dense"), g("octree"), g("fmacols"), g("residual"), None
    if m:
        p["mesh"] = digest([(a["id"], a["m"], [["%.9g" % x for x in v] for v in a["p"]]) for a in m["cells"]])
    if d:
        p["dofs"], p["vdofs"] = str(d["n"]), str(d["nv"])
        p["types"] = digest([d["n"], d["dir"]])
        p["shape"] = arr(d["x"])
        q = g("dofs", -1)
    if oc:
        p["quad"] = arr(oc["q"])
        p["tree"] = digest([[b["lev"], b["par"], sorted(b["nodes"])] for b in oc["blocks"]])
    if de:
        N = np.array([x[1] for x in sorted(de["N"])], float)
        D = np.array([x[1] for x in sorted(de["D"])], float)
        p["dense"] = arr(N, D)
        near = np.zeros(N.shape, bool)
        for ce in d["cells"]:
            for i in ce["d"]:
                for k in ce["d"]:
                    for i2 in [i] + list(d["dbl"][i]):
                        near[i2, k] = True
        p["sing"] = arr(N[near], D[near])
    if fm:
        p["fma"] = arr(*[x["N"] for x in fm["cols"]], *[x["D"] for x in fm["cols"]])
    if cs:
        p["constr"] = digest([(x["i"], [(e[0], "%.6g" % e[1]) for e in x["e"]]) for x in cs["c"]])
    if so:
        p["sol"] = arr(so["phi"], so["dphi"])
        p["data"] = [a[np.array(k) > .5] if len(a) else a for a, k in ((fl(so["phi"]), fl(so["dir"])), (fl(so["dphi"]), 1 - fl(so["dir"])))]
    if rs:
        p["iter"] = "%d steps" % rs["steps"]
    return p


def differ(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a != b
    if len(a) != len(b) or any(x.shape != y.shape for x, y in zip(a, b)):
        return True
    s = max([1e-300] + [np.abs(x).max() for x in a if x.size])
    return any(x.size and np.abs(x - y).max() > 1e-9 * max(s, 1e-6) for x, y in zip(a, b))


def session(c, dim, kind, files, kw, pre=()):
    if kind == "D":
        f = dict(files, **{"p.prm": prm.make(dim, driver=True, **kw)})
        return run.harness(c.exe("bemw%d" % dim)[0], ["driver p.prm"], f, timeout=250, grids=True, keep=OUTS)
    f = dict(files, **{"p.prm": prm.make(dim, **kw)})
    if kind == "M":
        s = ["new p.prm", "read", "mesh", "resize 0", "mesh"]
    else:
        s = ["new p.prm", "read", "mesh"] + list(pre) + ["update", "reinit", "cellnormals", "dofs"]
        s += ["fmaprepare", "octree", "fmacols 5"] if kw.get("method") == "FMA" else ["assemble", "dense"]
        s += ["solve", "constr", "sol", "residual"]
    return run.harness(c.exe("bemx%d" % dim)[0], s, f, timeout=250, grids=True)


def effect(c, key, dim, kind, files, base, ch, label="", pre=(), drop=()):
    """base: settings; ch: the values of `key` replaced"""
    def fn():
        a = session(c, dim, kind, files, base, pre)
        b = session(c, dim, kind, files, dict(base, **ch), pre)
        if not a.ok:
            return [{"op": "abnormal", "why": a.why}]
        pa, pb = parts(a, kind), parts(b, kind)
        both = {p: bool(differ(pa[p], pb[p])) for p in pa if p in pb and p not in drop}
        return [{"op": "effect", "key": key, "part": both, "why": (b.why or "")[:120]}]
    return Scenario("effect %s%s %dd %s" % (key, label, dim, kind), fn, {"dim": dim, "change": {k: str(v) for k, v in ch.items()}})


def cadfiles():
    d = os.path.join(check.build.REPO, "NACA_FILES")
    return {n: open(os.path.join(d, n), "rb").read() for n in sorted(os.listdir(d)) if not n.endswith(".prm")}


MSH = "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n%d\n%s\n$EndNodes\n$Elements\n%d\n%s\n$EndElements\n"


def msh(text, dim):
    """gmsh form of an inp mesh"""
    V, C = mesh.parse_ucd(text)
    v = "\n".join("%d %.17g %.17g %.17g" % tuple([i + 1] + list(p) + [0.] * (3 - len(p))) for i, p in enumerate(V))
    e = "\n".join("%d %d 2 %d 1 %s" % (i + 1, 3 if dim == 3 else 1, m, " ".join(str(k + 1) for k in ids)) for i, (m, ids) in enumerate(C))
    return MSH % (len(V), v, len(C), e)


def effects(c):
    S = []
    box = mesh.box(n=(3, 2, 1), mat={"x+": 1, "z-": 1, "y+": 2})
    other = mesh.box(n=(2, 2, 2), mat={"x+": 1})
    B = {"grid.inp": box, "two.inp": other, "grid.msh": msh(other, 3)}
    pol = mesh.polygon([(0, 0), (1.2, 0), (1, 1), (0, 1)], 3, split=True, mats=[0, 1, 2, 1])
    pol2 = mesh.polygon([(0, 0), (1.2, 0), (1, 1), (0, 1)], 4, split=True, mats=[0, 1, 2, 1])
    Q = {"grid.inp": pol, "two.inp": pol2, "grid.msh": msh(pol2, 2)}
    K3 = dict(dids="1,2", nids="0", pot3=POT3, wind3=WIND3, tol="1e-12", maxsteps=400)
    K2 = dict(dids="1,2", nids="0", pot2=POT2, wind2=WIND2, tol="1e-12", maxsteps=400)
    for dim, F, K in ((3, B, K3), (2, Q, K2)):
        W = lambda key, ch, **kw: S.append(effect(c, key, dim, "C", F, K, ch, **kw))
        if dim == 3:  # without the condition the two equations at a sharp corner coincide; in 2D the iteration then gives up
            W("cont", dict(cont="false"))
        W("prec", dict(prec="AMG"))
        W("qorder", dict(qorder=6))
        W("sorder", dict(sorder=8))
        W("qtype", dict(qtype="gauss_lobatto"))
        W("sord", dict(sord=2, vord=2), label=" and vord")
        W("sfe", dict(sfe="FEDGQ", vfe="FEDGQ"), label=" and vfe")
        W("maxsteps", dict(maxsteps=2))
        W("tol", dict(tol="5e-1"))
        W("pot", {"pot%d" % dim: "x-y"})
        W("wind", {"wind%d" % dim: "; ".join(["2", "x", "1"][:dim])})
        # the functions of the other dimension govern nothing
        W("gran", {"pot%d" % (5 - dim): "7", "wind%d" % (5 - dim): "; ".join(["5", "6", "7"][:5 - dim])}, label=" (other dimension)")
        W("grid", dict(grid="two"))
        W("fmt", dict(fmt="msh"))
        W("dids", dict(dids="1"), label=" fewer")
        W("dids", dict(dids="1,2,0"), label=" more")
        # parameters of the unused method
        W("gran", dict(order=3, levels=3, maxn=5, gran=3), label=" (fma settings, direct)")
        # the built-in curved grids
        G = dict(K, grid="../grids/coarse_sphere" if dim == 3 else "../grids/circle", dids="1", nids="0", ax="1.3", ay="0.8", az="1.6")
        P = ["resize %d" % (1 if dim == 3 else 2)]
        Sp = lambda key, base, ch, **kw: S.append(effect(c, key, dim, "C", {}, dict(G, **base), ch, pre=P, **kw))
        Sp("maptype", dict(sord=1, vord=1, mapdeg=2), dict(maptype="Q"))
        Sp("mapdeg", dict(maptype="Q", mapdeg=1), dict(mapdeg=2))
        Sp("gran", dict(maptype="FE", mapdeg=1), dict(mapdeg=3), label=" (degree of an unused mapping)")
        Sp("spheroid", {}, dict(spheroid=True), )
        for a in ("ax", "ay", "az")[:dim]:
            Sp(a, dict(spheroid=True), {a: "1.1"})
        Sp("gran", {}, dict(ax="5", ay="6", az="7"), label=" (axes without spheroid)")
        # sequences of meshes
        D = dict(K, tol="1e-10", cycles=0)
        V = lambda key, base, ch, **kw: S.append(effect(c, key, dim, "D", F, dict(D, **base), ch, **kw))
        V("cycles", {}, dict(cycles=1))
        V("pre", {"global": "false"}, dict(pre=1))
        V("gran", {}, dict(pre=2), label=" (pre-refinement, global)")
        V("global", dict(cycles=1), {"global": "false"})
        V("refine", dict({"global": "false"}, cycles=1, refine=.2, coarsen=0), dict(refine=.7))
        V("out", {}, dict(out="other"))
    V = lambda key, base, ch, **kw: S.append(effect(c, key, 3, "D", B, dict(K3, tol="1e-10", cycles=0, **base), ch, **kw))
    long = {"grid.inp": mesh.box(n=(1, 1, 1), hi=(3, 1, 1), mat={"x+": 1})}
    S.append(effect(c, "aspect", 3, "D", long, dict(K3, tol="1e-10", cycles=0, dids="1", pre=0, aspect=5), dict(aspect=2)))
    M = dict(K3, method="FMA", order=5, levels=4, maxn=6)
    FM = {"grid.inp": mesh.box(n=(4, 4, 4), mat={"x+": 1, "z-": 1, "y+": 2})}
    for key, ch in (("order", dict(order=3)), ("gran", dict(gran=3)), ("gran", dict(gran=1000)), ("maxn", dict(maxn=20)), ("levels", dict(levels=2)), ("qorder", dict(qorder=5)), ("qtype", dict(qtype="gauss_lobatto")), ("sorder", dict(sorder=8)),
                    ("method", dict(method="Direct")), ("maxsteps", dict(maxsteps=2))):
        S.append(effect(c, key, 3, "C", FM, M, ch, label=" fma %s" % list(ch.values())[0], drop=("tree",) if key in ("qorder",) else ()))
    cad = dict(grid="naca0012", cadpath="./", aspect=10, dids="0", nids="1,2,3,4", cadtol=5, maxcurv=2, curv=True, cad=True)
    S.append(effect(c, "cad", 3, "M", cadfiles(), dict(cad, curv=False), dict(cad=False)))
    S.append(effect(c, "curv", 3, "M", cadfiles(), cad, dict(curv=False)))
    S.append(effect(c, "maxcurv", 3, "M", cadfiles(), cad, dict(maxcurv=0)))
    S.append(effect(c, "cpc", 3, "M", cadfiles(), cad, dict(cpc=4)))
    return S


def small(c, dim):
    r = c.rng
    if dim == 3:
        f = {"grid.inp": mesh.box(n=(2, 1, 1), mat={"x+": 1, "z-": 1, "y+": 2})}
        ov = dict(grid="grid", dids="1,2", nids="0", cycles=str(r.choice([0, 0, 1])), pre="0", aspect=r.choice(["3.5", "100"]), method=r.choice(["Direct", "FMA"]), pot=r.choice(["x+y+z", "x-2*y", "x*y"]),
                  wind=r.choice(["1; 1; 1", "1;-2;0", "y; x; 0"]))
    else:
        f = {"grid.inp": mesh.polygon([(0, 0), (1.2, 0), (1, 1), (0, 1)], 3, split=True, mats=[0, 1, 0, 1])}
        ov = dict(grid="grid", dids="1", nids="0", cycles=str(r.choice([0, 1, 2])), pre=r.choice(["0", "1"]), pot=r.choice(["x+y", "x*y"]), wind=r.choice(["1; 1", "y; x"]))
    extra = dict(maxsteps=r.choice(["200", "300"]), tol=r.choice(["1e-8", "1e-11"]), qorder=r.choice(["3", "5"]), sorder=r.choice(["4", "6"]), out=r.choice(["result", "other"]), levels=r.choice(["2", "4"]),
                 maxn=r.choice(["4", "30"]), order=r.choice(["3", "6"]), cont=r.choice(["true", "false"]), refine=r.choice(["0.3", "0.5"]), coarsen=r.choice(["0", "0.1"]), maptype=r.choice(["FE", "Q"]), mapdeg=r.choice(["1", "2"]))
    extra["global"] = r.choice(["true", "false"])
    for k in r.sample(sorted(extra), r.choice([4, 7, len(extra)])):
        ov[k] = extra[k]
    ov.setdefault("maxsteps", "300")
    if dim == 3 and ov["method"] == "FMA" and "cont" in ov:
        ov["cont"] = "true"
    return f, ov


def L03(c):
    c.model("ParamsDesign", "ParamsDesign_ok.cfg")
    for k in ("keep", "clamp", "partial", "skip", "mix", "omit"):
        c.rejects("ParamsDesign", "ParamsDesign_%s.cfg" % k)
    S = readings(c, 3) + readings(c, 2)
    for dim in (3, 2):
        for i in range(12 if c.thorough else 4):
            f, ov = small(c, dim)
            S.append(progrun(c, "run %d %dd" % (i, dim), dim, f, ov))
        # a file without entries, nothing but defaults; and as shipped
        S.append(progrun(c, "run defaults %dd" % dim, dim, {}, {} if dim == 2 else {"cycles": "0"}))
        f, _ = small(c, dim)
        b = dict(grid="grid", dids="1", nids="0", cycles="0")
        for k, t in (("order", "11"), ("fmt", "xyz"), ("levels", "0"), ("qorder", "-1"), ("method", "FMM"), ("sord", "-1"), ("cycles", "-1")):
            S.append(refused(c, "refused %s=%s %dd" % (k, t, dim), dim, f, dict(b, **{k: t})))
        S.append(refused(c, "missing grid %dd" % dim, dim, f, dict(b, grid="nosuch"), miss=True))
        S.append(refused(c, "missing msh %dd" % dim, dim, f, dict(b, fmt="msh"), miss=True))
    S += effects(c)
    c.exe("bemx2", "bemx3", "bemw2", "bemw3", "mainx2", "mainx3")
    c.extra["bounds"] = "every parameter of the program: each admissible/inadmissible class of values one at a time, random files read one after the other into the same objects, used-parameter files replayed, one-parameter experiments"
    return check.run_scenarios(c, S, "ParamsTrace", xmx="4g")
