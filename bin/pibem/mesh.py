"""Surface meshes for the real code (UCD .inp text)."""
import numpy as np


def ucd(verts, cells, dim):
    kind = "quad" if dim == 3 else "line"
    o = ["%d %d 0 0 0" % (len(verts), len(cells))]
    for i, v in enumerate(verts):
        v = list(v) + [0.0] * (3 - len(v))
        o.append("%d %.17g %.17g %.17g" % (i + 1, *v))
    for i, (m, c) in enumerate(cells):
        o.append("%d %d %s %s" % (i + 1, m, kind, " ".join(str(k + 1) for k in c)))
    return "\n".join(o) + "\n"


class Builder:
    def __init__(self):
        self.v, self.c, self.ix = [], [], {}

    def vert(self, grp, p):
        k = (grp,) + tuple(round(float(x), 9) for x in p)
        if k not in self.ix:
            self.ix[k] = len(self.v)
            self.v.append([float(x) for x in p])
        return self.ix[k]

    def cell(self, grp, mat, pts):
        self.c.append((mat, [self.vert(grp, p) for p in pts]))


FACES = ["x-", "x+", "y-", "y+", "z-", "z+"]


def box(n=(2, 2, 2), lo=(0, 0, 0), hi=(1, 1, 1), group=None, mat=None, f=None, flip=False, skip=(), order=None, rot=0):
    """Closed box surface. group: dict face->group id (vertices are merged inside
    a group only; default one group per face = all edges split).  mat: dict
    face->material id.  f: map of points."""
    b = Builder()
    lo, hi = np.array(lo, float), np.array(hi, float)
    group = group or {k: i for i, k in enumerate(FACES)}
    mat = mat or {}
    f = f or (lambda p: p)
    for fc in (order or FACES):
        if fc in skip:
            continue
        a = "xyz".index(fc[0])
        s = fc[1] == "+"
        u, w = (a + 1) % 3, (a + 2) % 3
        nu, nw = n[u], n[w]
        for i in range(nu):
            for j in range(nw):
                def P(ii, jj):
                    p = np.zeros(3)
                    p[a] = hi[a] if s else lo[a]
                    p[u] = lo[u] + (hi[u] - lo[u]) * ii / nu
                    p[w] = lo[w] + (hi[w] - lo[w]) * jj / nw
                    return f(p)
                q = [P(i, j), P(i + 1, j), P(i + 1, j + 1), P(i, j + 1)]
                if s == bool(flip):
                    q = [q[0], q[3], q[2], q[1]]
                if rot:
                    q = q[rot:] + q[:rot]
                b.cell(group[fc], mat.get(fc, 0), q)
    return ucd(b.v, b.c, 3)


def polygon(pts, n=4, split=True, mats=None, flip=False, close=True):
    """closed polygon in 2D; each side subdivided n times; split: double nodes at corners"""
    b = Builder()
    k = len(pts)
    for s in range(k):
        p, q = np.array(pts[s], float), np.array(pts[(s + 1) % k], float)
        ns = n[s] if isinstance(n, (list, tuple)) else n
        sp = split[s] if isinstance(split, (list, tuple)) else split
        for i in range(ns):
            a, e = p + (q - p) * i / ns, p + (q - p) * (i + 1) / ns
            g = s if split is True else (0 if split is False else None)
            if g is None:  # per-side groups
                g = split[s]
            pp = [a, e]
            if flip:
                pp = pp[::-1]
            b.cell(g, (mats[s] if mats else 0), pp)
    return ucd(b.v, b.c, 2)


def parse_ucd(text):
    t = [l.split() for l in text.split("\n")]
    t = [w for w in t if w and not w[0].startswith("#")]
    nv, nc = map(int, t[0][:2])
    vs = [list(map(float, w[1:4])) for w in t[1:1 + nv]]
    cs = []
    for w in t[1 + nv:1 + nv + nc]:
        k = [i for i, x in enumerate(w) if x in ("quad", "line", "tri", "hex")]
        if not k:
            continue
        cs.append((int(w[k[0] - 1]), [int(x) - 1 for x in w[k[0] + 1:]]))
    return vs, cs
