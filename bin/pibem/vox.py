"""Bodies made of unit cells of a lattice (pixels in 2D, cubes in 3D), their split surface meshes, placed anywhere in space."""
import itertools
import numpy as np
from .mesh import Builder, ucd

# orthogonal matrices with rational entries (Pythagorean), last index is the image of each lattice axis
ROT3 = [np.eye(3), np.array([[3, -4, 0], [4, 3, 0], [0, 0, 5]]) / 5., np.array([[2, -2, 1], [1, 2, 2], [-2, -1, 2]]) / 3., np.array([[6, 2, 3], [-3, 6, 2], [-2, -3, 6]]) / 7.]
ROT2 = [np.eye(2), np.array([[3, -4], [4, 3]]) / 5., np.array([[5, 12], [-12, 5]]) / 13., np.array([[-8, -15], [15, -8]]) / 17.]


class Place:
    """lattice point X -> s R X + t"""

    def __init__(self, dim, rot=0, s=1., t=None):
        self.R = (ROT3 if dim == 3 else ROT2)[rot]
        self.s, self.t = s, np.zeros(dim) if t is None else np.array(t, float)

    def to(self, X):
        return self.s * self.R @ np.array(X, float) + self.t

    def back(self, x):
        """rows of x -> lattice coordinates"""
        return ((np.atleast_2d(np.array(x, float)) - self.t) / self.s) @ self.R

    def dirs(self, v):
        """vectors -> lattice axes"""
        return np.atleast_2d(np.array(v, float)) @ self.R

    def expr(self, terms):
        """polynomial in the lattice coordinates as an expression in x, y, z; terms: [(c, exponents)]"""
        n = "xyz"[:len(self.t)]
        L = ["(%s)" % "+".join("(%.17g)*(%s-(%.17g))" % (self.R[i, k] / self.s, n[i], self.t[i]) for i in range(len(n))) for k in range(len(n))]
        return "+".join("*".join(["(%.17g)" % c] + [L[k] for k, e in enumerate(ex) for _ in range(e)]) for c, ex in terms) or "0"

    def grad(self, terms):
        """gradient expressions in space"""
        dim = len(self.t)
        g = []
        for k in range(dim):
            g.append(self.expr([(c * ex[k], tuple(e - (i == k) for i, e in enumerate(ex))) for c, ex in terms if ex[k]]))
        return "; ".join("+".join("(%.17g)*(%s)" % (self.R[i, k] / self.s, g[k]) for k in range(dim)) for i in range(dim))


def faces(cells):
    """boundary faces: (cell, axis, side)"""
    S = set(map(tuple, cells))
    dim = len(next(iter(S)))
    out = []
    for c in sorted(S):
        for a in range(dim):
            for s in (0, 1):
                n = list(c)
                n[a] += 2 * s - 1
                if tuple(n) not in S:
                    out.append((c, a, s))
    return out


def manifold(cells):
    """no two cells that touch in a corner or edge only (around that place)"""
    S = set(map(tuple, cells))
    dim = len(next(iter(S)))
    # around every lattice vertex the cells present and the cells absent must each be connected through faces
    for v in itertools.product(*[range(min(c[a] for c in S), max(c[a] for c in S) + 2) for a in range(dim)]):
        oct_ = list(itertools.product((0, 1), repeat=dim))
        ins = [o for o in oct_ if tuple(v[a] - 1 + o[a] for a in range(dim)) in S]
        for grp in (ins, [o for o in oct_ if o not in ins]):
            if grp:
                seen, todo = {grp[0]}, [grp[0]]
                while todo:
                    o = todo.pop()
                    for p in grp:
                        if p not in seen and sum(abs(a - b) for a, b in zip(o, p)) == 1:
                            seen.add(p)
                            todo.append(p)
                if len(seen) != len(grp):
                    return False
    return True


def connected(cells):
    S = list(map(tuple, cells))
    seen, todo = {S[0]}, [S[0]]
    while todo:
        c = todo.pop()
        for d in S:
            if d not in seen and sum(abs(a - b) for a, b in zip(c, d)) == 1:
                seen.add(d)
                todo.append(d)
    return len(seen) == len(S)


def corners(f):
    """lattice corners of a face, ordered so that the normal of (p0,p1,p2..) points outwards"""
    c, a, s = f
    dim = len(c)
    o = np.array(c, float)
    if dim == 2:
        b = 1 - a
        p, q = o.copy(), o.copy()
        p[a] = q[a] = c[a] + s
        q[b] = c[b] + 1
        # direction of travel that gives outward normals
        right = (a == 0) != (s == 1)
        return [p, q] if right else [q, p]
    b, d = (a + 1) % 3, (a + 2) % 3
    p = o.copy()
    p[a] = c[a] + s
    e, g = np.eye(3)[b], np.eye(3)[d]
    r = [p, p + e, p + e + g, p + g]
    return r if s else r[::-1]


def mesh(cells, place, r=1, ids=None, split=True, flip=False):
    """ucd text of the surface; r: elements per unit length; ids: fn(face)->material id.
    Coplanar faces connected through edges form one patch; patches share no vertices; flip: inward normals."""
    F = faces(cells)
    dim = len(F[0][0])
    grp = {}
    for f in F:
        if f in grp:
            continue
        grp[f], todo = len(grp), [f]
        while todo:
            g = todo.pop()
            for h in F:
                if h not in grp and h[1:] == g[1:] and h[0][h[1]] == g[0][h[1]] and sum(abs(x - y) for x, y in zip(h[0], g[0])) == 1:
                    grp[h] = grp[f]
                    todo.append(h)
    b = Builder()
    for f in F:
        P = corners(f)[::-1] if flip else corners(f)
        m = ids(f) if ids else 0
        G = grp[f] if split else 0
        if dim == 2:
            for i in range(r):
                pts = [P[0] + (P[1] - P[0]) * k / r for k in (i, i + 1)]
                b.cell(G, m, [tuple(np.round(place.to(p), 12)) for p in pts])
        else:
            e, g = (P[1] - P[0]) / r, (P[3] - P[0]) / r
            for i in range(r):
                for j in range(r):
                    o = P[0] + i * e + j * g
                    b.cell(G, m, [tuple(np.round(place.to(p), 12)) for p in (o, o + e, o + e + g, o + g)])
    return ucd(b.v, b.c, dim)
