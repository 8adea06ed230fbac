"""Synthetic 3D models (watertight triangle meshes) with known ground truth.

Two constructions, neither of which uses any code of the repository:
  * voxel(): arbitrary axis-aligned solids on a non-uniform grid; only the
    boundary faces of filled cells are emitted, split along the grid, so the
    mesh is watertight and has no T-junctions;
  * extrude(): a 2D polygon (with holes) swept along z.
"""
import numpy as np
import trimesh
import shapely
import shapely.geometry as sg


def _quad(a, b, c, d):
    return [(a, b, c), (a, c, d)]


def voxel(xs, ys, zs, filled):
    """filled(i, j, k) -> bool for the cell [xs[i],xs[i+1]]x..."""
    nx, ny, nz = len(xs) - 1, len(ys) - 1, len(zs) - 1
    ids = {}
    verts = []
    faces = []

    def vid(i, j, k):
        if (i, j, k) not in ids:
            ids[i, j, k] = len(verts)
            verts.append((xs[i], ys[j], zs[k]))
        return ids[i, j, k]

    def f(i, j, k):
        return (0 <= i < nx and 0 <= j < ny and 0 <= k < nz
                and bool(filled(i, j, k)))

    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                if not f(i, j, k):
                    continue
                c = {(a, b, d): (i + a, j + b, k + d)
                     for a in (0, 1) for b in (0, 1) for d in (0, 1)}
                sides = [
                    ((-1, 0, 0), [(0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0)]),
                    ((1, 0, 0), [(1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 0, 1)]),
                    ((0, -1, 0), [(0, 0, 0), (1, 0, 0), (1, 0, 1), (0, 0, 1)]),
                    ((0, 1, 0), [(0, 1, 0), (0, 1, 1), (1, 1, 1), (1, 1, 0)]),
                    ((0, 0, -1), [(0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0)]),
                    ((0, 0, 1), [(0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]),
                ]
                for (di, dj, dk), corners in sides:
                    if f(i + di, j + dj, k + dk):
                        continue
                    q = [vid(*c[x]) for x in corners]
                    faces.extend(_quad(*q))
    m = trimesh.Trimesh(vertices=np.array(verts, float),
                        faces=np.array(faces), process=True)
    assert m.is_watertight and m.volume > 0
    return m


def extrude(polygon, z0, z1):
    """Sweep a shapely polygon from z0 to z1."""
    polygon = sg.polygon.orient(polygon, 1)
    tris = shapely.constrained_delaunay_triangles(polygon).geoms
    ids = {}
    verts = []
    faces = []

    def vid(p, z):
        key = (p[0], p[1], z)
        if key not in ids:
            ids[key] = len(verts)
            verts.append(key)
        return ids[key]

    for t in tris:
        t = sg.polygon.orient(t, 1)
        a, b, c = list(t.exterior.coords)[:3]
        faces.append((vid(a, z1), vid(b, z1), vid(c, z1)))
        faces.append((vid(a, z0), vid(c, z0), vid(b, z0)))
    for ring in [polygon.exterior] + list(polygon.interiors):
        pts = list(ring.coords)
        for p, q in zip(pts[:-1], pts[1:]):
            faces.extend(_quad(vid(p, z0), vid(q, z0), vid(q, z1),
                               vid(p, z1)))
    m = trimesh.Trimesh(vertices=np.array(verts, float),
                        faces=np.array(faces), process=True)
    assert m.is_watertight and m.volume > 0
    return m


def flip_edges(mesh, rng, share=.5):
    """Same surface, another triangulation: flip diagonals of planar convex
    quads."""
    V = np.asarray(mesh.vertices)
    F = [list(map(int, f)) for f in mesh.faces]
    used = set()
    flipped = 0
    adj = list(zip(mesh.face_adjacency, mesh.face_adjacency_edges,
                   mesh.face_adjacency_angles))
    rng.shuffle(adj)
    for (f, g), e, ang in adj:
        if ang > 1e-9 or f in used or g in used or rng.random() > share:
            continue
        a, b = (int(x) for x in e)
        c = next(x for x in F[f] if x not in (a, b))
        d = next(x for x in F[g] if x not in (a, b))
        # orientation of face f: ... a, b, c in cyclic order?
        i = F[f].index(a)
        if F[f][(i + 1) % 3] != b:
            a, b = b, a
        n = np.cross(V[b] - V[a], V[c] - V[a])

        def turn(p, q, r):
            return np.cross(V[q] - V[p], V[r] - V[q]) @ n
        # quad a, d, b, c must be strictly convex
        q = [a, d, b, c]
        s = n @ n
        if min(turn(q[k], q[(k + 1) % 4], q[(k + 2) % 4])
               for k in range(4)) < 1e-3 * s:
            continue
        F[f] = [a, d, c]
        F[g] = [d, b, c]
        used |= {f, g}
        flipped += 1
    res = trimesh.Trimesh(vertices=V, faces=np.array(F), process=False)
    assert res.is_watertight and abs(res.volume - mesh.volume) < \
        1e-6 * mesh.volume + 1e-9
    return res, flipped


# ------------------------------------------------------------------ models

class Model:
    """A mesh plus what it was made from.

    plates: list of dicts(normal, offset, thickness) -- the material sheets,
        `normal . p == offset` on one side and `offset - thickness` on the
        other;
    solid: p -> bool, membership in the solid by construction (not on faces);
    """

    def __init__(self, name, mesh, plates, solid, right_angled, thickness,
                 info=None):
        self.name = name
        self.mesh = mesh
        self.plates = plates
        self.solid = solid
        self.right_angled = right_angled
        self.thickness = thickness
        self.info = info or {}
        self.many = None
        self.coarse = False     # coordinates rounded to 32 bit floats

    def inside(self, pts):
        """Vectorised `solid`."""
        pts = np.asarray(pts, float)
        if self.many is None:
            return np.array([bool(self.solid(p)) for p in pts], bool)
        return self.many(pts)

    def _like(self, other):
        self.many = other.many
        self.coarse = other.coarse
        return self

    def moved(self, R=None, t=(0, 0, 0)):
        R = np.eye(3) if R is None else np.asarray(R, float)
        t = np.asarray(t, float)
        mesh = self.mesh.copy()
        M = np.eye(4)
        M[:3, :3] = R
        M[:3, 3] = t
        mesh.apply_transform(M)
        plates = []
        for p in self.plates:
            n = R @ np.asarray(p['normal'], float)
            plates.append(dict(p, normal=n,
                               offset=p['offset'] + float(n @ t)))
        solid = self.solid

        def moved_solid(p):
            return solid(R.T @ (np.asarray(p, float) - t))
        res = Model(self.name + '+moved', mesh, plates, moved_solid,
                    self.right_angled, self.thickness, dict(self.info))
        res.many = lambda pts: self.inside((np.asarray(pts, float) - t) @ R)
        res.coarse = self.coarse
        return res

    def remeshed(self, rng):
        """Same solid, other triangulation of the faces."""
        mesh = self.mesh
        for _ in range(3):
            mesh, n = flip_edges(mesh, rng)
        return Model(self.name + '+remeshed', mesh, self.plates, self.solid,
                     self.right_angled, self.thickness, dict(self.info))._like(self)

    def subdivided(self):
        """Same solid, every triangle cut into four."""
        mesh = self.mesh.subdivide()
        return Model(self.name + '+subdivided', mesh, self.plates,
                     self.solid, self.right_angled, self.thickness,
                     dict(self.info))._like(self)

    def permuted(self, rng):
        """Same solid, triangles and vertices in another order."""
        m = self.mesh
        f = list(range(len(m.faces)))
        v = list(range(len(m.vertices)))
        rng.shuffle(f)
        rng.shuffle(v)
        inv = np.argsort(v)
        faces = inv[np.asarray(m.faces)[f]]
        faces = np.array([np.roll(t, rng.randrange(3)) for t in faces])
        mesh = trimesh.Trimesh(vertices=np.asarray(m.vertices)[v],
                               faces=faces, process=False)
        return Model(self.name + '+permuted', mesh, self.plates, self.solid,
                     self.right_angled, self.thickness, dict(self.info))._like(self)


def boxes_model(name, boxes, windows, thickness):
    """Union of plate boxes minus window boxes.

    boxes: list of (axis, ((x0,x1),(y0,y1),(z0,z1))), thin along axis."""
    coords = [set(), set(), set()]
    for _, b in boxes:
        for a in range(3):
            coords[a] |= set(b[a])
    for b in windows:
        for a in range(3):
            coords[a] |= set(b[a])
    lo = [min(b[a][0] for _, b in boxes) for a in range(3)]
    hi = [max(b[a][1] for _, b in boxes) for a in range(3)]
    grid = [sorted(c for c in coords[a] if lo[a] <= c <= hi[a])
            for a in range(3)]

    def solid(p):
        def inb(b):
            return all(b[a][0] < p[a] < b[a][1] for a in range(3))
        return any(inb(b) for _, b in boxes) and \
            not any(inb(b) for b in windows)

    def filled(i, j, k):
        return solid([(grid[a][v] + grid[a][v + 1]) / 2
                      for a, v in enumerate((i, j, k))])

    mesh = voxel(grid[0], grid[1], grid[2], filled)
    plates = []
    for axis, b in boxes:
        n = np.zeros(3)
        n[axis] = 1
        plates.append(dict(normal=n, offset=float(b[axis][1]),
                           thickness=float(thickness), box=b, axis=axis))
    res = Model(name, mesh, plates, solid, True, thickness,
                dict(boxes=boxes, windows=windows))

    def many(pts):
        def inb(b):
            return np.all([(b[a][0] < pts[:, a]) & (pts[:, a] < b[a][1])
                           for a in range(3)], axis=0)
        r = np.zeros(len(pts), bool)
        for _, b in boxes:
            r |= inb(b)
        for b in windows:
            r &= ~inb(b)
        return r
    res.many = many
    return res


def wall_boxes(dims, T, walls):
    full = tuple((0, d) for d in dims)
    res = []
    for w in walls:
        axis = 'xyz'.index(w[0])
        b = list(full)
        b[axis] = (0, T) if w[1] == '0' else (dims[axis] - T, dims[axis])
        res.append((axis, tuple(b)))
    return res


def random_boxes(rng, nwalls=None, windows=None, divider=None, T=None,
                 scale=1):
    """Random right-angled shell: walls of a box, dividers and windows."""
    T = T or rng.choice([3, 4, 6])
    dims = tuple(rng.randint(7, 14) * T for _ in range(3))
    names = ['x0', 'x1', 'y0', 'y1', 'z0', 'z1']
    while True:
        n = nwalls or rng.choice([2, 2, 2, 3, 3, 4])
        walls = sorted(rng.sample(names, n))
        if len({w[0] for w in walls}) >= 2:
            break
    boxes = wall_boxes(dims, T, walls)
    if divider is None:
        divider = rng.random() < .25
    if divider:
        axis = rng.choice(sorted({'xyz'.index(w[0]) for w in walls}))
        c = rng.randint(2 * T + 2, dims[axis] - 3 * T - 2)
        b = [(0, d) for d in dims]
        b[axis] = (c, c + T)
        # keep the divider inside walls perpendicular to it or crossing them
        boxes.append((axis, tuple(b)))
    wins = []
    if windows is None:
        windows = rng.choice([0, 0, 0, 1])
    for _ in range(windows):
        axis, b = rng.choice(boxes)
        w = [None] * 3
        w[axis] = (b[axis][0] - 0, b[axis][1])
        for a in range(3):
            if a == axis:
                continue
            lo = rng.randint(T + 2, dims[a] - 3 * T - 2)
            hi = min(lo + rng.randint(T + 1, 3 * T), dims[a] - T - 2)
            if hi - lo == T:
                hi += 1
            w[a] = (lo, hi)
        # clear of every other plate it could cut into
        if all(ax == axis or w[ax][1] < o[ax][0] - 1 or
               w[ax][0] > o[ax][1] + 1 for ax, o in boxes):
            wins.append(tuple(w))
    return boxes_model('boxes[%s]%s%s' % (','.join(walls),
                                          '+div' if divider else '',
                                          '+win%d' % len(wins)
                                          if wins else ''),
                       boxes, wins, T)


def _swept(model, poly, depth):
    shapely.prepare(poly)
    model.many = lambda p: (p[:, 2] > 0) & (p[:, 2] < depth) & \
        shapely.contains_xy(poly, p[:, 0], p[:, 1])
    return model


def tube(n, T=6, R=40, depth=40, phase=0.0):
    """Closed regular n-gon tube: n plates, consecutive ones mitred."""
    a = np.arange(n) * 2 * np.pi / n + phase
    p = np.stack([np.cos(a), np.sin(a)], 1)
    apothem = R * np.cos(np.pi / n)
    r = R * (apothem - T) / apothem
    poly = sg.Polygon(p * R, [p * r])
    plates = []
    for i in range(n):
        m = p[i] + p[(i + 1) % n]
        m = m / np.linalg.norm(m)
        plates.append(dict(normal=np.array([m[0], m[1], 0.]),
                           offset=float(apothem), thickness=float(T)))

    def solid(q):
        return 0 < q[2] < depth and poly.contains(sg.Point(q[0], q[1]))
    return _swept(Model('tube%d' % n, extrude(poly, 0, depth), plates, solid,
                        n == 4, T), poly, depth)


def fold(angles, lengths, T=6, depth=40):
    """Open folded strip: outer polyline with turning angles (degrees),
    thickened inwards by T with mitred corners."""
    d = [0.0]
    for a in angles:
        d.append(d[-1] + np.radians(a))
    pts = [np.zeros(2)]
    for th, ln in zip(d, lengths):
        pts.append(pts[-1] + ln * np.array([np.cos(th), np.sin(th)]))
    nrm = [np.array([-np.sin(th), np.cos(th)]) for th in d]
    inner = [pts[0] + T * nrm[0]]
    for i in range(1, len(pts) - 1):
        n0, n1 = nrm[i - 1], nrm[i]
        inner.append(pts[i] + T * (n0 + n1) / (1 + n0 @ n1))
    inner.append(pts[-1] + T * nrm[-1])
    poly = sg.Polygon(pts + inner[::-1])
    assert poly.is_valid
    plates = []
    for i, n in enumerate(nrm):
        off = float(-(n @ pts[i]))
        plates.append(dict(normal=np.array([-n[0], -n[1], 0.]),
                           offset=off, thickness=float(T)))

    def solid(q):
        return 0 < q[2] < depth and poly.contains(sg.Point(q[0], q[1]))
    return _swept(Model('fold%s' % (angles,), extrude(poly, 0, depth),
                        plates, solid, all(abs(a) == 90 for a in angles), T),
                  poly, depth)


def rotation(rng):
    """Random rotation matrix."""
    v = np.array([rng.gauss(0, 1) for _ in range(4)])
    w, x, y, z = v / np.linalg.norm(v)
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def furniture(rng, small=True):
    try:
        return _furniture(rng, small)
    except ValueError:      # no room for a feature
        return None


def ribs(rng):
    """A plate with a rib on either side, close to each other but not
    opposite: there is little area visible on both sides around them."""
    T = rng.choice([3, 4, 6])
    X, Y = rng.randint(4 * T + 14, 4 * T + 24), rng.randint(16, 28)
    c = rng.randint(T + 2, X - 3 * T - 8)
    d = c + rng.choice([T, T, T + 2, T + 3])
    r = rng.choice([(0, Y), (0, Y), (0, Y - T - 2)])
    up = rng.random() < .5
    boxes = [(2, ((0, X), (0, Y), (0, T))),
             (0, ((c, c + T), r, (0, 20) if up else (-20, T))),
             (0, ((d, d + T), (0, Y), (-22, T) if up else (0, 22)))]
    return boxes_model('ribs', boxes, [], T)


def _furniture(rng, small):
    if rng.random() < .08:
        return ribs(rng)
    """A floor with one to three upright walls, whole or partial, with doors,
    notches, windows, crenels and cut out sides. None if the draw is not a
    plate model (two surfaces one thickness apart that are not the sides of
    one plate, nearly touching plates, thin remains)."""
    T = rng.choice([3, 4, 6])
    gap = T + 2
    X, Y = rng.randint(24, 38), rng.randint(24, 38)
    boxes = [(2, ((0, X), (0, Y), (0, T)))]
    walls = []
    n = rng.choice([1, 1, 1, 2, 2] if small else [1, 2, 2, 3])
    for _ in range(n):
        axis = rng.randrange(2)
        D, L = (X, Y) if axis == 0 else (Y, X)
        c = rng.choice([0, 0, D - T, D - T,
                        rng.randint(gap, max(gap, D - T - gap))])
        k = rng.random()
        if k < .37:
            r = (0, L)
        elif k < .45:   # longer than the floor
            r = (-rng.randint(gap, 12), L + rng.choice([0, 1, gap]))
        elif k < .62:
            lo = rng.randint(gap, L // 2 - gap)
            r = (lo, rng.randint(lo + 2 * gap, L - gap + 1))
        elif k < .74:
            r = (0, rng.randint(2 * gap, L - gap))
        elif k < .85:
            r = (rng.randint(gap, L - 2 * gap), L)
        else:           # set back a little from the edge of the floor
            s = rng.choice([1, 1, 2])
            r = (s, L - rng.choice([s, 0]))
        H = rng.choice([rng.randint(22, 34)] * 2 + [rng.randint(16, 24)])
        # stands on the floor, hangs below it or goes through it
        K = 0 if rng.random() < .75 else rng.randint(16, 26)
        if K and rng.random() < .5:
            H = T
        walls.append((axis, c, r, H, K))
    for i, (ax, c, r, H, lo) in enumerate(walls):
        for bx, e, q, K, lo2 in walls[:i]:
            if ax == bx:
                if abs(c - e) < T + 3 and not (
                        (H == T and lo2 == 0 or lo == 0 and K == T) and
                        abs(c - e) in (T, T + 2)):
                    return None
                continue
            # each either crosses the other's slab or stays away from it
            for lo, hi, s in ((r[0], r[1], e), (q[0], q[1], c)):
                if not (lo <= s and hi >= s + T or hi <= s - 3
                        or lo >= s + T + 3):
                    return None
    wins = []
    kinds = []
    for i, (ax, c, r, H, K) in enumerate(walls):
        b = [None, None, (-K, H)]
        b[ax] = (c, c + T)
        b[1 - ax] = r
        boxes.append((ax, tuple(b)))
        if rng.random() < .35 or H == T:
            continue
        kind = rng.choice(['door', 'door', 'notch', 'window', 'crenel',
                           'side'])
        if kind == 'side':
            w = rng.randint(gap, max(gap, (r[1] - r[0]) // 2))
            span = (r[0] - 1, r[0] + w) if rng.random() < .5 else \
                (r[1] - w, r[1] + 1)
            if r[1] - r[0] - w < gap:
                continue
        else:
            if r[1] - r[0] < 2 * gap + 4:
                continue
            lo = rng.randint(r[0] + gap, r[1] - gap - 3)
            span = (lo, rng.randint(lo + 3, r[1] - gap))
        if kind == 'door':
            z = (T, rng.randint(T + 3, H - gap))
        elif kind == 'notch':
            z = (-K - 1 if K == 0 else -3, rng.randint(T + 3, H - gap))
        elif kind == 'crenel':
            z = (rng.randint(T + gap, H - 3), H + 1)
        else:
            z = (rng.choice([T, T + gap]), 0)
            if kind == 'side' and (r[0] < 0 or r[1] > (X, Y)[1 - ax]):
                z = (T + gap, 0)    # leave no stub beside the floor
            if z[0] + 3 > H - gap:
                continue
            z = (z[0], rng.randint(z[0] + 3, H - gap))
        # clear of the slabs of the other walls
        if any(o[0] != ax and span[0] - gap < o[1] + T and
               span[1] + gap > o[1] for o in walls):
            continue
        w = [None, None, z]
        w[ax] = (c, c + T)
        w[1 - ax] = span
        wins.append(tuple(w))
        kinds.append(kind)
    if rng.random() < .3:       # a hatch in the floor
        b = [None, None, (0, T)]
        for a, D in ((0, X), (1, Y)):
            lo = rng.randint(gap, D - gap - 4)
            b[a] = (lo, rng.randint(lo + 4, min(lo + 14, D - gap)))
        if all(b[o[0]][0] - gap >= o[1] + T or b[o[0]][1] + gap <= o[1]
               for o in walls):
            wins.append(tuple(b))
            kinds.append('hatch')
    slabs = [set(), set(), set()]
    coords = [set(), set(), set()]
    for ax, b in boxes:
        slabs[ax].add(b[ax])
    for b in [b for _, b in boxes] + wins:
        for a in range(3):
            for v in b[a]:
                hi = max(o[a][1] for _, o in boxes)
                lo = min(o[a][0] for _, o in boxes)
                if lo <= v <= hi:
                    coords[a].add(v)
    for a in range(3):
        cs = sorted(coords[a])
        for i, v in enumerate(cs):
            for w in cs[i + 1:]:
                if w - v == T and (v, w) not in slabs[a]:
                    return None
                if w - v < 1:
                    return None
    m = boxes_model('furniture[%d %s]' % (len(walls), ','.join(kinds)),
                    boxes, wins, T)
    return m if m.mesh.body_count == 1 else None
