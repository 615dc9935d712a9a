"""G01, G02: meshes under refinement."""
import numpy as np
from .. import check, mesh, prm, run
from ..canon import fl, locs, q
from ..check import Scenario

EDGES = {0: (0, 2), 1: (1, 3), 2: (0, 1), 3: (2, 3)}


def path(i):
    r, p = i.split(":")
    r = r.split("_")[0]
    return [int(r) + 1] + [int(x) for x in p]


def mesh_event(op, m, dim, closed=True):
    pts, segs = [], []
    for k, c in enumerate(m["cells"]):
        for f in range(4 if dim == 3 else 2):
            if c["b"][f]:
                a, b = EDGES[f] if dim == 3 else (f, f)
                segs.append((len(pts), len(pts) + 1, k + 1))
                pts += [c["p"][a], c["p"][b]]
    L = locs(pts, 1e-6) if pts else []
    return {"op": op, "ids": [path(c["id"]) for c in m["cells"]], "mat": [c["m"] for c in m["cells"]], "segs": [[L[a], L[b], k] for a, b, k in segs], "closed": closed}


def conf_scenario(c, key, dim, files, steps, kw=None, np_=1, grids=False, closed=True, first="read"):
    """steps: list of (op, [script lines]); a mesh is recorded after each"""
    def fn():
        s = ["new p.prm", first, "mesh"]
        ops = ["input"]
        for op, lines in steps:
            s += lines + ["mesh"]
            ops.append(op)
        f = dict(files, **{"p.prm": prm.make(dim, **(kw or {}))})
        r = run.harness(c.exe("bemx%d" % dim)[0], s, f, np=np_, timeout=200, grids=grids)
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        out = []
        for k in range(np_):
            ms = r.all("mesh", k)
            if len(ms) != len(ops):
                return [{"op": "abnormal", "why": "missing meshes"}]
            out += [{"op": "scenario", "key": key + " rank %d" % k}] + [mesh_event(o, m, dim, closed) for o, m in zip(ops, ms)]
        return out[1:] if np_ == 1 else out
    return Scenario(key, fn, {"dim": dim, "np": np_, "steps": [" ; ".join(b) for a, b in steps]})


U = ("update", ["update"])


def user(*lines):
    return ("user", list(lines) + ["exec"])


def shapes(r, k):
    """closed surfaces with split edges"""
    w = k % 5
    F = mesh.FACES
    if w == 0:
        return mesh.box([r.randint(1, 2) for _ in range(3)], rot=r.randint(0, 3), flip=r.random() < 0.3, order=r.sample(F, 6), mat={f: r.randint(0, 5) for f in F})
    if w == 1:
        return mesh.box([r.randint(1, 2) for _ in range(3)], group={f: r.randint(0, 2) for f in F}, rot=r.randint(0, 3), mat={f: r.randint(0, 5) for f in F})
    if w == 2:  # sheared and stretched
        A = np.eye(3) + np.array([[0, r.uniform(-.6, .6), 0], [0, 0, r.uniform(-.6, .6)], [r.uniform(-.4, .4), 0, 0]])
        return mesh.box([r.randint(1, 2) for _ in range(3)], hi=(2, 1, 0.7), f=lambda p: A @ p, mat={f: r.randint(0, 5) for f in F})
    if w == 3:  # one shared edge group, opposite pair split
        g = {f: 0 for f in F}
        g[r.choice(F)] = 1
        return mesh.box([r.randint(1, 3) for _ in range(3)], group=g, rot=r.randint(0, 3), mat={f: r.randint(0, 5) for f in F})
    return coplanar_box(r)


def coplanar_box(r):
    from . import nodes
    return nodes.coplanar(2, (0.5,))


def rand_steps(r, n):
    out = []
    for _ in range(n):
        w = r.random()
        ids = " ".join(str(r.randint(0, 400)) for _ in range(r.randint(1, 4)))
        ids2 = " ".join(str(r.randint(0, 400)) for _ in range(r.randint(1, 3)))
        if w < 0.35:
            out.append(user("flag iso " + ids))
        elif w < 0.55:
            out.append(user("flag %s %s" % (r.choice("xy"), ids)))
        elif w < 0.75:
            out.append(user("flag x " + ids, "flag y " + ids2))
        elif w < 0.9:
            b = r.randint(0, 200)
            fam = " ".join(str(b // 4 * 4 + i) for i in range(4))
            out.append(user("flag coarsen " + fam, "flag iso " + ids2))
        else:
            out.append(("user", ["resize 1"]))
        out.append(U)
        if r.random() < 0.3:
            out.append(U)
    return out


def coarsen_refine(c):
    """one patch coarsens while the other refines across the same edge"""
    r = c.rng
    g = mesh.box((2, 2, 2))
    out = []
    n = 24 if c.thorough else 5
    for k in range(n):
        fam = r.randrange(24) * 4
        # any cells elsewhere
        oth = [x for x in (r.randrange(96) for _ in range(5)) if x // 4 * 4 != fam]
        st = [("user", ["resize 1"]), U, user("flag coarsen %d %d %d %d" % (fam, fam + 1, fam + 2, fam + 3), "flag iso " + " ".join(map(str, oth))), U, U]
        out.append(conf_scenario(c, "coarsen-refine-%d" % k, 3, {"grid.inp": g}, st))
    # the pair found with the design specification
    out.append(conf_scenario(c, "two-levels", 3, {"grid.inp": g}, [("user", ["resize 1"]), U, user("flag coarsen 84 85 86 87", "flag iso 57"), U, U]))
    return out


def G01(c):
    c.exe("bemx2", "bemx3")
    c.model("ConformDesign", "ConformDesign_3.cfg", must_cover=("User", "Pass", "Stop"))
    if c.thorough:
        c.model("ConformDesign", "ConformDesign_8.cfg")
    c.rejects("ConformDesign", "ConformDesign_bad1.cfg")
    r = c.rng
    B = {"grid.inp": mesh.box((2, 2, 2))}
    sc = [conf_scenario(c, "idle", 3, B, [U, U]),
          conf_scenario(c, "one-cell", 3, B, [user("flag iso 0"), U, U]),
          conf_scenario(c, "corner-deep", 3, B, [user("flag iso 0"), U, user("flag iso 21"), U, user("flag iso 24"), U, user("flag iso 27"), U, U]),
          conf_scenario(c, "axis", 3, B, [user("flag x 0 5"), U, user("flag y 3 9"), U, U]),
          conf_scenario(c, "global-local", 3, B, [("user", ["resize 1"]), U, user("flag iso 3"), U, ("user", ["resize 1"]), U]),
          conf_scenario(c, "aspect", 3, {"grid.inp": mesh.box((1, 1, 1), hi=(5, 1, 0.6))}, [("user", ["resize 0"]), U, user("flag iso 2"), U], {"aspect": 1.6}),
          conf_scenario(c, "aspect-glued", 3, {"grid.inp": mesh.box((1, 2, 1), hi=(7, 1, 1), group={"x-": 0, "x+": 0, "y-": 1, "y+": 1, "z-": 2, "z+": 2})}, [("user", ["resize 1"]), U], {"aspect": 2.2}),
          conf_scenario(c, "sphere-split", 3, {}, [("user", ["resize 1"]), U, user("flag iso 1"), U, user("flag iso 9 30"), U], {"grid": "../grids/coarse_sphere_double_nodes"}, grids=True),
          conf_scenario(c, "cube-grid", 3, {}, [user("flag iso 1"), U, user("flag iso 3 4"), U], {"grid": "../grids/coarse_cube_double_nodes"}, grids=True, closed=False),
          conf_scenario(c, "near-origin", 3, {"grid.inp": mesh.box((2, 2, 2), hi=(1.5, 1.5, 1.5))}, [("update", ["update"]), ("user", ["cond 2"]), U]),
          conf_scenario(c, "mpi", 3, B, [("user", ["resize 1"]), U, user("flag iso 3 40"), U, user("flag y 17 71"), U], np_=3),
          conf_scenario(c, "square", 2, {"grid.inp": mesh.polygon([(0, 0), (1, 0), (1, 1), (0, 1)], 2, mats=[0, 1, 2, 3])}, [user("flag iso 0"), U, user("flag iso 0 3"), U, ("user", ["resize 2"]), U]),
          # a plate with a free edge and a re-entrant corner: nothing to restore
          conf_scenario(c, "plate", 3, {"grid.inp": plate()}, [U, user("flag iso 0"), U, user("flag x 1 4"), U], closed=False)]
    sc += coarsen_refine(c)
    for k in range(60 if c.thorough else 12):
        sc.append(conf_scenario(c, "rand-%d" % k, 3, {"grid.inp": shapes(r, k)}, rand_steps(r, 4 if c.thorough else 3), np_=r.choice([1, 1, 1, 2])))
    return check.run_scenarios(c, sc, "ConformTrace")


def plate():
    b = mesh.Builder()
    for i, j in ((0, 0), (1, 0), (0, 1)):
        b.cell(0, 1, [(i, j, 0), (i + 1, j, 0), (i + 1, j + 1, 0), (i, j + 1, 0)])
    return mesh.ucd(b.v, b.c, 3)


# ---------------------------------------------------------------- G02
def tree_event(op, t, dim, geo, scale=1, radius=0, lim=None, k=0, unit=1e-4, dist=None):
    ev = {"op": op, "dim": dim, "geo": geo, "radius": radius, "k": k, "lim": int(round((lim or 100) * 100)),
          "id": [], "rc": [], "p": [], "m": [], "ext": [], "bd": [], "nrm": [], "rad": []}
    for c in t["cells"]:
        P = np.array(c["p"], float)
        ev["id"].append(path(c["id"]))
        ev["rc"].append(c["rc"])
        ev["m"].append(c["m"])
        ev["bd"].append(c["bd"])
        e = [float(x) for x in c["ext"]]
        ev["ext"].append(q(e if dim == 3 else e * 2, 1e-3))
        ev["p"].append([[int(round(x * scale)) for x in p] for p in P] if geo == "flat" else [])
        if dim == 3:
            n = np.cross(P[3] - P[0], P[2] - P[1])
        else:
            n = np.array([P[1][1] - P[0][1], -(P[1][0] - P[0][0])])
        ev["nrm"].append(q(n / (np.linalg.norm(n) + 1e-300), 1e-4))
        ev["rad"].append(q([np.linalg.norm(p) for p in P] if geo == "round" else (dist(c) if dist else [0]), 1e-6))
    if geo == "round":
        ev["radius"] = q([radius], 1e-6)[0]
    elif dist:
        ev["radius"] = radius
    return ev


def file_cells(text, dim, scale, geo):
    vs, cs = mesh.parse_ucd(text)
    return [{"m": m, "p": [[int(round(x * scale)) for x in vs[i][:dim]] for i in c] if geo == "flat" else []} for m, c in cs]


def ref_scenario(c, key, dim, g, ks, aspect=100, geo="flat", scale=1 << 12, radius=0, grid=None, np_=1, fmt="inp", write=None):
    """g: UCD text (or grid name in /repo/grids)"""
    def fn():
        import os
        from .. import build
        kw = {"aspect": aspect, "fmt": fmt}
        text = g
        if grid:
            kw["grid"] = "../grids/" + grid
            text = open(os.path.join(build.REPO, "grids", grid + ".inp")).read()
        s = ["new p.prm", "read", "tree"]
        for k in [0] + ks:
            s += ["new p.prm", "read", "resize %d" % k, "tree"]
        f = {"p.prm": prm.make(dim, **kw)}
        if not grid:
            f["grid." + fmt] = write(text) if write else text
        r = run.harness(c.exe("bemx%d" % dim)[0], s, f, np=np_, grids=bool(grid), timeout=200)
        if not r.ok:
            return [{"op": "abnormal", "why": r.why}]
        ts = r.all("tree")
        if len(ts) != 2 + len(ks):
            return [{"op": "abnormal", "why": "missing hierarchies"}]
        out = [dict(tree_event("input", ts[0], dim, geo, scale, radius), file=file_cells(text, dim, scale, geo) if text else [])]
        out.append(tree_event("shape", ts[1], dim, geo, scale, radius, aspect))
        for k, t in zip(ks, ts[2:]):
            out.append(tree_event("global", t, dim, geo, scale, radius, aspect, k))
        return out
    return Scenario(key, fn, {"dim": dim, "levels": ks, "aspect": aspect})


def to_msh(text):
    """the same mesh in gmsh format"""
    vs, cs = mesh.parse_ucd(text)
    o = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat", "$Nodes", str(len(vs))]
    o += ["%d %.17g %.17g %.17g" % (i + 1, *v) for i, v in enumerate(vs)]
    o += ["$EndNodes", "$Elements", str(len(cs))]
    o += ["%d %d 2 %d %d %s" % (i + 1, 3 if len(c) == 4 else 1, m, m, " ".join(str(k + 1) for k in c)) for i, (m, c) in enumerate(cs)]
    return "\n".join(o + ["$EndElements"]) + "\n"


def to_vtk(text):
    vs, cs = mesh.parse_ucd(text)
    o = ["# vtk DataFile Version 3.0", "mesh", "ASCII", "DATASET UNSTRUCTURED_GRID", "POINTS %d double" % len(vs)]
    o += ["%.17g %.17g %.17g" % tuple(v) for v in vs]
    o += ["", "CELLS %d %d" % (len(cs), sum(len(c) + 1 for m, c in cs))] + ["%d %s" % (len(c), " ".join(map(str, c))) for m, c in cs]
    o += ["", "CELL_TYPES %d" % len(cs)] + ["9" if len(cs[0][1]) == 4 else "3" for _ in cs]
    o += ["", "CELL_DATA %d" % len(cs), "SCALARS MaterialID int 1", "LOOKUP_TABLE default"] + [str(m) for m, c in cs]
    return "\n".join(o) + "\n"


def ibox(r, n, hi, **kw):
    """box with integer vertex coordinates"""
    n = [min(a, b) for a, b in zip(n, hi)]
    hi = [h // a * a for h, a in zip(hi, n)]
    return mesh.box(n, lo=(0, 0, 0), hi=hi, **kw)


def plates(ps, mats=None, rot=0):
    """open surface of single four-sided plates"""
    b = mesh.Builder()
    for i, p in enumerate(ps):
        p = [tuple(x) + (0,) * (3 - len(x)) for x in p]
        b.cell(i, (mats or {}).get(i, i), p[rot:] + p[:rot])
    return mesh.ucd(b.v, b.c, 3)


def tapered(r):
    """a plate whose opposite sides differ in length (even integer coordinates)"""
    a, b, h = r.randint(1, 4), r.randint(6, 12), r.randint(1, 6)
    s = b - a + r.randint(-1, 1)
    return [(2 * s, 0), (2 * (s + 2 * a), 0), (4 * b, 2 * h), (0, 2 * h)]


def G02(c):
    c.exe("bemx2", "bemx3")
    c.model("RefineDesign", "RefineDesign_ok.cfg", must_cover=("Aspect", "Done", "Global"))
    c.rejects("RefineDesign", "RefineDesign_bad1.cfg")
    r = c.rng
    F = mesh.FACES
    M = {f: i for i, f in enumerate(F)}
    S = {f: 0 for f in F}
    Z = 1 << 12
    sc = [ref_scenario(c, "cube", 3, ibox(r, (1, 1, 1), (1, 1, 1), mat=M), [0, 1, 2]),
          ref_scenario(c, "cube-glued", 3, ibox(r, (2, 2, 2), (2, 2, 2), group=S, mat=M), [1, 2]),
          ref_scenario(c, "long", 3, ibox(r, (1, 1, 1), (5, 1, 1), mat=M), [0, 1], 2.2),
          ref_scenario(c, "long-3", 3, ibox(r, (1, 1, 1), (9, 3, 1), mat=M), [1], 1.7),
          ref_scenario(c, "long-glued", 3, ibox(r, (1, 2, 1), (24, 2, 1), group={"x-": 0, "x+": 0, "y-": 1, "y+": 1, "z-": 2, "z+": 2}), [1], 3),
          ref_scenario(c, "flat-box", 3, ibox(r, (2, 2, 1), (12, 10, 1)), [1], 4.5),
          ref_scenario(c, "rotated", 3, ibox(r, (1, 1, 1), (7, 2, 3), rot=1, mat=M), [1], 2.5),
          ref_scenario(c, "limit-exceeded", 3, ibox(r, (1, 1, 1), (64, 2, 2)), [0], 1.0001 if c.thorough else 2.0),
          ref_scenario(c, "no-limit", 3, ibox(r, (1, 1, 1), (40, 1, 1)), [1], 100),
          ref_scenario(c, "inward", 3, ibox(r, (2, 1, 1), (2, 1, 1), flip=True, mat=M), [1]),
          ref_scenario(c, "mpi", 3, ibox(r, (2, 2, 2), (2, 2, 2), mat=M), [1, 2], np_=3),
          ref_scenario(c, "msh", 3, ibox(r, (2, 1, 3), (2, 1, 3), mat=M), [1], fmt="msh", write=to_msh),
          ref_scenario(c, "vtk", 3, ibox(r, (2, 1, 3), (2, 1, 3), mat=M), [1], fmt="vtk", write=to_vtk),
          ref_scenario(c, "square", 2, mesh.polygon([(0, 0), (2, 0), (2, 2), (0, 2)], 2, mats=[0, 1, 2, 3]), [0, 1, 2, 3, 4]),
          ref_scenario(c, "polygon", 2, mesh.polygon([(0, 0), (8, -4), (12, 8), (2, 6)], 2, mats=[3, 1, 0, 1], flip=True, split=False), [1, 3]),
          ref_scenario(c, "square-msh", 2, mesh.polygon([(0, 0), (2, 0), (2, 2), (0, 2)], 2, mats=[0, 1, 2, 3]), [2], fmt="msh", write=to_msh),
          ref_scenario(c, "circle", 2, None, [0, 1, 2, 3], grid="circle", geo="round", radius=1.0),
          ref_scenario(c, "sphere", 3, None, [0, 1, 2], grid="coarse_sphere", geo="round", radius=1.0),
          ref_scenario(c, "sphere-split", 3, None, [1, 2], grid="coarse_sphere_double_nodes", geo="round", radius=1.0),
          ref_scenario(c, "cube-grid", 3, None, [1, 2], grid="coarse_cube")]
    # plates with opposite sides of different length: the longer one counts
    for k in range(4):
        sc.append(ref_scenario(c, "tapered-%d" % k, 3, plates([[(14, 0), (18, 0), (32, 6), (0, 6)]], rot=k), [0, 1], 1.5, scale=1 << 16))
    for k in range(24 if c.thorough else 8):
        ps = [[(x, y, 40 * j) for x, y in tapered(r)] for j in range(r.randint(1, 4))]
        sc.append(ref_scenario(c, "plates-%d" % k, 3, plates(ps, rot=r.randint(0, 3)), [r.randint(0, 1)], r.choice([1.5, 1.7, 2.0, 2.5]), scale=1 << 16))
    for k in range(40 if c.thorough else 8):
        hi = [r.choice([1, 2, 3, 4, 6, 8, 12]) for _ in range(3)]
        grp = {f: i if r.random() < 0.7 else 0 for i, f in enumerate(F)}
        sc.append(ref_scenario(c, "box-%d" % k, 3, ibox(r, [r.randint(1, 2) for _ in range(3)], hi, group=grp, mat={f: r.randint(0, 9) for f in F}, rot=r.randint(0, 3), flip=r.random() < 0.3, order=r.sample(F, 6)),
                               [r.randint(0, 2)], r.choice([1.5, 2.0, 2.5, 3.3, 5, 100])))
    return check.run_scenarios(c, sc, "RefineTrace")
