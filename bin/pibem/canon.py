"""Canonical (numbering independent) views of recorded data."""
import numpy as np


def fl(v):
    return np.array([float(x) for x in v])


def locs(x, tol=1e-8):
    """location classes: list of 1-based ids, points closer than tol are one place"""
    x = np.array(x, float)
    ids, rep, grid = [], [], {}
    for p in x:
        k = tuple(np.floor(p / (4 * tol)).astype(int))
        hit = None
        for d in np.ndindex(*([3] * len(k))):
            for r in grid.get(tuple(a + b - 1 for a, b in zip(k, d)), ()):
                if np.abs(rep[r] - p).max() < tol:
                    hit = r
        if hit is None:
            hit = len(rep)
            rep.append(p)
            grid.setdefault(k, []).append(hit)
        ids.append(hit + 1)
    return ids


def q(v, unit, cap=10 ** 9):
    v = np.atleast_1d(np.asarray(v, float)) / unit
    v = np.where(np.isfinite(v), v, cap)
    return [int(a) for a in np.clip(np.rint(v), -cap, cap)]


class Intern:
    """bit patterns -> small integers"""

    def __init__(self):
        self.d = {}

    def __call__(self, v):
        f = float(v)
        k = f.hex() if f else "0"
        return self.d.setdefault(k, len(self.d) + 1)


def patches(n, cells):
    """connected components of nodes through cells; returns component of each node"""
    par = list(range(n))

    def find(a):
        while par[a] != a:
            par[a] = par[par[a]]
            a = par[a]
        return a
    for c in cells:
        r = find(c[0])
        for i in c[1:]:
            par[find(i)] = r
    return [find(i) for i in range(n)]
