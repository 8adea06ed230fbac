"""Point location in 2D shapes is exact."""
import random
from gmpy2 import mpq

from plycutter.geometry.geom2d import Geom2D
from plycutter.geometry.impl2d import primitive2d

from vlib import gen2, geo2, run, w2

RULE = ('shapes from operation streams, rings in both orientations, rotated '
        'start vertices, redundant collinear vertices; query points at '
        'vertices, on edges, level with vertices, on edge extensions, at '
        'tiny offsets of edges and vertices, and at random; compared with an '
        'independent exact even-odd location; non-trivial: a shape with at '
        'least one interior and one exterior query')
MIN_EVALUATIONS = {'quick': 900, 'thorough': 30000}


def jobs(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed * 11 + 5)
    res = []
    for kind, n, k in (('chain', 16, 50), ('grid', 16, 20),
                       ('nested', 16, 20), ('ring', 32, 40),
                       ('shapely', 8, 25)):
        for _ in range(n if q else 24 * n):
            res.append((kind, rng.randrange(10**9), k))
    return res


def queries(rng, edges, n):
    verts = [e[0] for e in edges]
    xs = [v[0] for v in verts]
    ys = [v[1] for v in verts]
    w = max(max(xs) - min(xs), max(ys) - min(ys))
    eps = w / 10**15
    pts = set()
    for _ in range(n):
        a, b = rng.choice(edges)
        t = mpq(rng.randint(-8, 16), 8)
        p = (a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t)
        pts.add(p)                                  # on edge / extension
        pts.add((p[0] + eps * rng.choice([-1, 1]),
                 p[1] + eps * rng.choice([-1, 0, 1])))
        v = rng.choice(verts)
        pts.add(v)
        pts.add((v[0] + eps * rng.choice([-1, 0, 1]),
                 v[1] + eps * rng.choice([-1, 0, 1])))
        pts.add((rng.choice(xs), rng.choice(ys)))   # level with vertices
        pts.add((min(xs) - w / 10 + w * mpq(rng.randint(0, 120), 100),
                 rng.choice(ys)))
        pts.add((rng.choice(xs),
                 min(ys) - w / 10 + w * mpq(rng.randint(0, 120), 100)))
        pts.add((min(xs) + w * mpq(rng.randint(-10, 110), 97),
                 min(ys) + w * mpq(rng.randint(-10, 110), 89)))
    return pts


def judge(ctx, what, locate, contains, pts):
    seen = set()
    for p in pts:
        want = contains(p)
        got = locate(p)
        w = 0 if want is None else (1 if want else -1)
        seen.add(w)
        ctx.check(got == w, 'point misjudged', shape=what, point=p, got=got,
                  want=w)
        ctx.count({1: 'interior', -1: 'exterior', 0: 'boundary'}[w]
                  + ' points')
    return len(seen) > 1


def run_job(job, ctx):
    kind, seed, k = job
    rng = random.Random(seed)
    if kind == 'ring':
        for _ in range(k):
            r = gen2.polygon(rng, rng.choice([4, 8, 14]))
            if rng.random() < .3:
                r = gen2.with_collinear(rng, r)
            ctx.current = r
            pts = queries(rng, list(geo2.edges(r)), 12)
            nt = judge(ctx, r,
                       lambda p: primitive2d
                       .locate_point_polygon_winding_number(r, p),
                       lambda p: geo2.ring_contains(r, *p), pts)
            g = Geom2D.polygon(r, reorient=True)
            judge(ctx, r, g.locate, lambda p: geo2.ring_contains(r, *p),
                  sorted(pts)[::7])
            # the same outline written down differently
            i = rng.randrange(len(r))
            alt = (r[i:] + r[:i])[::rng.choice([1, -1])]
            alt = gen2.with_collinear(rng, alt)
            judge(ctx, alt, Geom2D.polygon(alt, reorient=True).locate,
                  lambda p: geo2.ring_contains(r, *p), sorted(pts)[::5])
            ctx.case(r, nt, r if len(r) < 6 else None)
        return
    if kind == 'shapely':
        import shapely.geometry as sg
        for _ in range(k):
            outer = gen2.star(rng, rng.randint(5, 9), scale=10)
            hole = gen2.star(rng, rng.randint(3, 6), scale=2)
            tri = [(x + 40, y) for x, y in gen2.star(rng, 5, scale=3)]
            f = lambda r: [(float(x) + .1, float(y) * 1.1) for x, y in r]  # noqa
            po = sg.Polygon(f(outer), [f(hole)])
            if not po.is_valid:
                po = sg.Polygon(f(outer))
            mp = sg.MultiPolygon([po, sg.Polygon(f(tri))])
            g = Geom2D.from_shapely(mp)
            ex = lambda c: [(mpq(x), mpq(y)) for x, y in list(c)[:-1]]  # noqa
            reg = [(ex(p.exterior.coords), [ex(h.coords)
                                            for h in p.interiors])
                   for p in mp.geoms]
            pts = queries(rng, list(geo2.region_edges(reg)), 12)
            nt = judge(ctx, reg, g.locate,
                       lambda p: geo2.region_contains(reg, *p), pts)
            ctx.case(reg, nt)
        return

    def visit(o, geoms, fn, bop):
        with run.limit(150):
            r = w2.execute(o, geoms, fn)
        reg = geo2.region(r)
        ctx.current = (o, reg)
        if not reg:
            ctx.check(r.locate((mpq(0), mpq(0))) == -1,
                      'empty shape contains a point')
            return r
        pts = queries(rng, list(geo2.region_edges(reg)), 8)
        nt = judge(ctx, reg, r.locate,
                   lambda p: geo2.region_contains(reg, *p), pts)
        ctx.case(reg, nt)
        return r
    w2.drive(kind, rng, k, visit)
