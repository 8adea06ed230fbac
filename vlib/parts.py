"""Finished parts put back in space (floating point, vectorised)."""
import numpy as np
import shapely

from . import sp3


class Parts:
    def __init__(self, sp, cuts):
        self.sp = sp
        self.ids = sorted(sp.sheets)
        self.shape = {s: sp3.shape(cuts[s]) for s in self.ids}
        self.T = {s: float(sp.sheets[s].offset(0) + sp.sheets[s].offset(1))
                  for s in self.ids}
        for g in self.shape.values():
            shapely.prepare(g)

    def has(self, s, pts, eps=0.0):
        """Which points lie in part s (eps > 0: by that margin in depth)."""
        xy, d = sp3.flat(self.sp.sheets[s], pts)
        r = (d > eps) & (d < self.T[s] - eps)
        if not r.any() or self.shape[s].is_empty:
            return np.zeros(len(pts), bool)
        r[r] = shapely.contains_xy(self.shape[s], xy[r, 0], xy[r, 1])
        return r

    def clear(self, s, pts, dist):
        """Points further than dist from the surface of part s."""
        xy, d = sp3.flat(self.sp.sheets[s], pts)
        g = self.shape[s]
        near = np.minimum(abs(d), abs(d - self.T[s])) > dist
        if g.is_empty:
            return np.ones(len(pts), bool)
        inside = (d > -dist) & (d < self.T[s] + dist)
        far2 = shapely.distance(g.boundary, shapely.points(xy)) > dist
        return ~inside | (near & far2)

    def count(self, pts):
        return sum(self.has(s, pts).astype(int) for s in self.ids)

    def random_in(self, rng, s, n):
        """n random points inside part s."""
        g = self.shape[s]
        if g.is_empty or g.area == 0:
            return np.zeros((0, 3))
        x0, y0, x1, y1 = g.bounds
        xy = np.zeros((0, 2))
        for _ in range(200):
            c = rng.uniform((x0, y0), (x1, y1), (2 * n, 2))
            c = c[shapely.contains_xy(g, c[:, 0], c[:, 1])]
            xy = np.concatenate([xy, c])
            if len(xy) >= n:
                break
        xy = xy[:n]
        return sp3.lift(self.sp.sheets[s], xy,
                        rng.uniform(0, self.T[s], len(xy)))


def joint_points(rng, sp, inter, n, parts=None):
    """Random points of the space where both plates of a joint could be:
    (points, total volume)."""
    a, b = (sp.sheets[s] for s in inter.sheets())
    d = np.asarray(inter.direction, float)
    d = d / np.linalg.norm(d)
    lo, hi = [], []
    for s in (a, b):
        g = parts.shape[s.id]
        if g.is_empty:
            return np.zeros((0, 3)), 0.
        xy = shapely.get_coordinates(g)
        t = sp3.lift(s, xy, np.zeros(len(xy))) @ d
        # the depth direction is orthogonal to d
        lo.append(t.min())
        hi.append(t.max())
    lo, hi = max(lo), min(hi)
    if hi <= lo:
        return np.zeros((0, 3)), 0.
    _, _, na, ha, _ = sp3.frame(a)
    _, _, nb, hb, _ = sp3.frame(b)
    M = np.array([na, nb, d])
    Ta, Tb = parts.T[a.id], parts.T[b.id]
    # stratified along the joint
    t = lo + (hi - lo) * (np.arange(n) + rng.uniform(0, 1, n)) / n
    rhs = np.stack([ha - rng.uniform(0, Ta, n), hb - rng.uniform(0, Tb, n),
                    t])
    pts = np.linalg.solve(M, rhs).T
    vol = Ta * Tb * (hi - lo) / abs(np.linalg.det(M))
    return pts, vol
