"""Independent 3D view of an extracted sheetplex, and workloads for it."""
import random

import numpy as np
import shapely
import shapely.geometry as sg

from . import geo2, pipe


def tol(m):
    """Length tolerance for positions derived from the mesh."""
    return (3e-6 if m.coarse else 1e-6) * scale_of(m)


def tol_dir(m):
    return 2e-5 if m.coarse else 1e-6


# ---------------------------------------------------------------- workloads

def with_window(rng, spec):
    """A 'walls' spec with a window, a notch or a full split cut into it,
    clear of the dividers."""
    for _ in range(100):
        s, kind = _with_window(rng, spec)
        T = spec[2]
        if all(w[ax][1] < c - 1 or w[ax][0] > c + T + 1
               for w in s[5] for ax, c in s[4]):
            return s, kind
    return spec, 'none'


def _with_window(rng, spec):
    _, dims, T, walls = spec[:4]
    kind = rng.choice(['window', 'window', 'notch', 'split'])
    w = rng.choice(walls)
    axis = 'xyz'.index(w[0])
    b = [None] * 3
    b[axis] = (0, T) if w[1] == '0' else (dims[axis] - T, dims[axis])
    others = [a for a in range(3) if a != axis]
    rng.shuffle(others)
    u, v = others

    def span(a, n):
        lo = rng.randint(T + 3, max(T + 3, dims[a] - 2 * T - n - 3))
        hi = min(lo + n, dims[a] - T - 3)
        if abs(hi - lo - T) < 1:
            hi += 2
        return (lo, hi)
    b[u] = span(u, rng.randint(4, 9))
    if kind == 'window':
        b[v] = span(v, rng.randint(4, 9))
    elif kind == 'notch':
        # open towards a side with no wall
        lo, hi = span(v, 8)
        free0 = 'xyz'[v] + '0' not in walls
        free1 = 'xyz'[v] + '1' not in walls
        if free0:
            b[v] = (0, hi)
        elif free1:
            b[v] = (lo, dims[v])
        else:
            b[v] = (lo, hi)
    else:
        if 'xyz'[v] + '0' not in walls and 'xyz'[v] + '1' not in walls:
            b[v] = (0, dims[v])
        else:
            b[v] = span(v, 7)
    div = spec[4] if len(spec) > 4 else ()
    return ('walls', dims, T, walls, div, (tuple(b),)), kind


def base(rng):
    k = rng.random()
    if k < .28:
        s = pipe.small(rng)
        if s[0] == 'walls' and rng.random() < .6:
            s = with_window(rng, s)[0]
        return s
    if k < .36:
        return pipe.furniture(rng)
    if k < .44:
        s = pipe.corner(rng)
        if rng.random() < .4:
            s = with_window(rng, s)[0]
        return s
    if k < .55:
        return ('rand', rng.randrange(10 ** 6))
    if k < .68:
        n = rng.choice([3, 4, 5, 6, 8])
        T = rng.choice([2, 3, 4])
        return ('tube', n, T, rng.randint(25, 40), rng.randint(18, 40),
                round(rng.uniform(0, 2), 3))
    if k < .85:
        m = rng.choice([1, 2, 2])
        return ('fold', tuple(rng.choice([-1, 1]) * rng.choice(
            [5, 20, 45, 60, 90, 120]) if m == 1 else
            rng.choice([30, 45, 60, 90]) for _ in range(m)),
            tuple(rng.randint(24, 40) for _ in range(m + 1)),
            rng.choice([2, 3.5, 4, 6.25]), rng.randint(18, 40))
    if k < .95:
        T = rng.choice([3.3, 4.25, 2.9])
        d = [rng.randint(20, 40) + rng.choice([0, .1, .37])
             for _ in range(3)]
        walls = rng.choice([('x0', 'y0'), ('x0', 'x1', 'z0'),
                            ('x1', 'y0', 'z1'),
                            ('x0', 'x1', 'y0', 'y1', 'z0')])
        return ('walls', tuple(d), T, walls)
    return ('comb', rng.choice([3, 5]), 3, rng.choice([7, 9]))


def variant(rng, s, far=True):
    """Move / permute / retriangulate a spec."""
    for _ in range(rng.choice([0, 1, 1, 2])):
        k = rng.random()
        if k < .55:
            d = rng.choice([0, 1, 50, 700, 5000] if far else [0, 1, 50])
            s = ('moved', s, rng.randrange(10 ** 6), d,
                 rng.random() < .75)
        elif k < .75:
            s = ('perm', s, rng.randrange(10 ** 6))
        elif k < .92:
            s = ('remesh', s, rng.randrange(10 ** 6))
        else:
            s = ('subdiv', s)
    if rng.random() < .12:
        s = ('stl', ('moved', s if s[0] != 'moved' or s[3] <= 50 else s[1],
                     rng.randrange(10 ** 6), 30, True))
    return s


def fresh(rng, gen=None):
    """A spec whose model can be built."""
    while True:
        s = (gen or (lambda r: variant(r, base(r))))(rng)
        try:
            pipe.model(s)
        except AssertionError:
            continue
        return s


# ------------------------------------------------------------------ lifting

def scale_of(m):
    return 1 + float(np.abs(m.mesh.vertices).max())


def frame(sheet):
    """(u, v, n, h0, h1): 3D directions of the 2D axes, unit normal of side
    0, plane heights of side 0 and side 1 along n."""
    R = np.asarray(sheet.slice_rotation, float)
    n0 = np.asarray(sheet.normal(0), float)
    return (R[:3, 0], R[:3, 1], n0, float(sheet.offset(0)),
            -float(sheet.offset(1)))


def lift(sheet, xy, depth):
    """3D points of 2D points at `depth` below side 0 (vectorised)."""
    u, v, n, h0, _ = frame(sheet)
    xy = np.asarray(xy, float)
    depth = np.asarray(depth, float)
    return xy[..., 0:1] * u + xy[..., 1:2] * v + \
        np.expand_dims(h0 - depth, -1) * n


def flat(sheet, p):
    """2D coordinates and depth of 3D points."""
    u, v, n, h0, _ = frame(sheet)
    p = np.asarray(p, float)
    return np.stack([p @ u, p @ v], -1), h0 - p @ n


def shape(geom):
    """shapely (float) version of a Geom2D, through its public interface."""
    polys = []
    for out, holes in geo2.region(geom):
        f = [(float(x), float(y)) for x, y in out]
        if len(f) < 3:
            continue
        polys.append(sg.Polygon(f, [[(float(x), float(y)) for x, y in h]
                                    for h in holes]))
    if not polys:
        return sg.MultiPolygon()
    polys = [p if p.is_valid else p.buffer(0) for p in polys]
    return shapely.union_all(polys)


def contains(shp, xy):
    xy = np.asarray(xy, float)
    if shp.is_empty:
        return np.zeros(len(xy), bool)
    shapely.prepare(shp)
    return shapely.contains_xy(shp, xy[:, 0], xy[:, 1])


def edge_distance(shp, xy):
    if shp.is_empty:
        return np.full(len(xy), np.inf)
    return shapely.distance(shp.boundary, shapely.points(xy))


def sample(rng, bounds, n):
    x0, y0, x1, y1 = bounds
    return np.array([(rng.uniform(x0, x1), rng.uniform(y0, y1))
                     for _ in range(n)])


# ----------------------------------------------------------- joint geometry

def planes(m):
    """Distinct plate planes by construction: (normal, high, low)."""
    res = []
    for p in m.plates:
        n = np.asarray(p['normal'], float)
        hi = p['offset']
        lo = hi - p['thickness']
        for q in res:
            c = n @ q[0]
            if abs(c) > 1 - 1e-9:
                a, b = (hi, lo) if c > 0 else (-lo, -hi)
                if abs(a - q[1]) < 1e-6 and abs(b - q[2]) < 1e-6:
                    break
        else:
            res.append((n, hi, lo))
    return res


def band(sheet, other, direction):
    """Interval of normal-offsets on `sheet` where `other` crosses it, as
    (2D normal, lo, hi), computed from the side planes alone."""
    u, v, n, h0, h1 = frame(sheet)
    _, _, m, g0, g1 = frame(other)
    d = np.asarray(direction, float)
    d = d / np.linalg.norm(d)
    e = np.cross(n, d)
    vals = []
    for h in (h0, h1):
        for g in (g0, g1):
            p = np.linalg.solve(np.array([n, m, d]), np.array([h, g, 0.]))
            vals.append(p @ e)
    return e, min(vals), max(vals)
