"""Building, transforming and projecting 2D shapes is exact."""
import random

import numpy as np
import shapely.geometry as sg
import shapely.ops
from gmpy2 import mpq, mpz

from plycutter.geometry.geom2d import Geom2D

from vlib import gen2, geo2, iv1, run, w2

RULE = ('polygon/rectangle from int, mpz and mpq vertex lists in both '
        'orientations, any start vertex, collinear vertices; floating-point '
        'polygons, multi-polygons and collections with holes from another '
        'library (any orientation, tiny/huge/denormal coordinates); affine '
        'maps incl. mirroring, shear, tiny and huge scale, on shapes with '
        'holes and several polygons; projections on arbitrary rational '
        'directions and offsets; all compared with exact regions/intervals '
        'computed from the inputs; non-trivial: shape with more than one '
        'ring, a mirroring map, or counter-clockwise input')
MIN_EVALUATIONS = {'quick': 1500, 'thorough': 50000}


def jobs(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed * 17 + 7)
    res = []
    for kind, n, k in (('build', 16, 60), ('shapely', 16, 20),
                       ('affine', 24, 20), ('project', 16, 40)):
        for _ in range(n if q else 24 * n):
            res.append((kind, rng.randrange(10**9), k))
    return res


def same(ctx, want, got, what, **kw):
    n, mis, _ = geo2.check_op([want], got, lambda a: a)
    ctx.count('cells decided', n)
    ctx.check(mis is None, what, why=mis, want=want, got=got, **kw)
    wf = geo2.well_formed(got)
    ctx.check(wf is None, what + ': malformed', why=wf, got=got, **kw)


def multi(rng):
    k = rng.random()
    if k < .3:
        return w2.rnd(rng)
    if k < .6:
        N = 4
        cs = rng.sample([(i, j) for i in range(N) for j in range(N)],
                        rng.randint(3, 13))
        return Geom2D.union([w2.sq(i, j, i + 1, j + 1) for i, j in cs])
    g = w2.rnd(rng)
    h = w2.rnd(rng)
    g = rng.choice([lambda: g | h, lambda: g - h, lambda: g ^ h])()
    if rng.random() < .4:
        b = geo2.bounds([geo2.region(g)])
        w, hh = b[2] - b[0], b[3] - b[1]
        g = w2.sq(b[0] - w / 3, b[1] - hh / 4, b[2] + w / 5,
                  b[3] + hh / 3) - g
    return g


def build(ctx, rng):
    pts = gen2.polygon(rng, rng.choice([3, 6, 12]))
    ccw = gen2.area2(pts) > 0
    inp = pts
    if all(c.denominator == 1 for p in pts for c in p):
        conv = rng.choice([int, mpz, mpq, int])
        inp = [tuple(conv(c) for c in p) for p in pts]
    form = rng.choice(['tuple', 'list', 'array', 'rows'])
    if form == 'list':
        inp = [list(p) for p in inp]
    elif form == 'array':
        inp = np.array(inp, object)
    elif form == 'rows':
        inp = [np.array(p, object) for p in inp]
    keep = repr(inp)
    g = Geom2D.polygon(inp, reorient=True)
    ctx.check(repr(inp) == keep, 'the vertex list given was changed')
    rr = geo2.region(g)
    same(ctx, [(pts, [])], rr, 'polygon() covers something else')
    ctx.check(g.area() == abs(gen2.area2(pts)) / 2, 'polygon() area',
              pts=pts, got=g.area())
    if not ccw:
        g = Geom2D.polygon(inp)
        same(ctx, [(pts, [])], geo2.region(g), 'polygon() without reorient')
    ctx.count('counter-clockwise' if ccw else 'clockwise')
    ctx.case(('poly', pts), ccw, pts)
    # rectangles, corners in any order
    mode = rng.choice(gen2.MODES)
    c = [gen2.coord(rng, mode) for _ in range(4)]
    if c[0] != c[2] and c[1] != c[3]:
        if all(v.denominator == 1 for v in c) and rng.random() < .5:
            a = [int(v) for v in c]
        else:
            a = c
        g = Geom2D.rectangle(*a)
        x0, x1 = sorted([c[0], c[2]])
        y0, y1 = sorted([c[1], c[3]])
        want = [([(x0, y0), (x0, y1), (x1, y1), (x1, y0)], [])]
        same(ctx, want, geo2.region(g), 'rectangle()', corners=c)
        ctx.check(g.area() == (x1 - x0) * (y1 - y0), 'rectangle() area')
        ctx.case(('rect', c), x0 != c[0] or y0 != c[1])


def shapely_one(rng):
    scale = rng.choice([1, 1, 1, 1e-9, 1e9, 1e-200, 123.456])
    for _ in range(50):
        n = rng.randint(3, 9)
        ring = [(float(x) * scale, float(y) * scale)
                for x, y in gen2.star(rng, n)]
        p = sg.Polygon(ring)
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            cx, cy = rng.uniform(-3, 3), rng.uniform(-3, 3)
            h = sg.Polygon([(float(x) * scale, float(y) * scale) for x, y in
                            gen2.star(rng, rng.randint(3, 6), .8, mpq(cx),
                                      mpq(cy))])
            if p.contains(h) and not h.intersects(p.exterior) and all(
                    not h.intersects(sg.Polygon(i)) for i in p.interiors):
                p = sg.Polygon(p.exterior.coords,
                               list(i.coords for i in p.interiors)
                               + [h.exterior.coords])
        ext = list(p.exterior.coords)
        ints = [list(i.coords) for i in p.interiors]
        if rng.random() < .5:
            ext = ext[::-1]
        ints = [i[::-1] if rng.random() < .5 else i for i in ints]
        p = sg.Polygon(ext, ints)
        if p.is_valid and p.area > 0:
            return p
    return sg.box(0, 0, 1, 1)


def exact_rings(p):
    f = lambda r: [(mpq(x), mpq(y)) for x, y in list(r.coords)[:-1]]  # noqa
    return (f(p.exterior), [f(i) for i in p.interiors])


def shapely_(ctx, rng):
    k = rng.choice([1, 1, 2, 3])
    ps = [shapely_one(rng) for _ in range(k)]
    if k == 1:
        sh = ps[0]
        if rng.random() < .3:
            sh = sg.MultiPolygon([sh])
    else:
        # spread out so that the pieces are disjoint
        x = 0.
        qs = []
        import shapely.affinity
        for p in ps:
            b = p.bounds
            qs.append(shapely.affinity.translate(p, x - b[0], 0))
            x = qs[-1].bounds[2] + 1 + rng.random()
        ps = [p for p in qs if p.is_valid and p.area > 0]
        sh = (sg.MultiPolygon if rng.random() < .5
              else sg.GeometryCollection)(ps)
    want = [exact_rings(p) for p in ps]
    g = Geom2D.from_shapely(sh)
    got = geo2.region(g)
    same(ctx, want, got, 'from_shapely() covers something else')
    wv = sorted(p for o, hs in want for r in [o] + hs for p in r)
    gv = sorted(p for o, hs in got for r in [o] + hs for p in r)
    ctx.check(wv == gv, 'from_shapely() changes coordinates', want=wv, got=gv)
    ctx.check(g.area() == geo2.exact_area(want), 'from_shapely() area')
    ctx.count('imported holes', sum(len(h) for o, h in want))
    ctx.case(('shapely', want), any(h for o, h in want) or len(want) > 1)


def affine(ctx, rng):
    g = multi(rng)
    reg = geo2.region(g)
    if not reg:
        return
    while True:
        k = rng.random()
        if k < .3:
            M = [[mpq(rng.choice([-1, 1])), mpq(0)],
                 [mpq(0), mpq(rng.choice([-1, 1]))]]
            if rng.random() < .5:
                M = [M[0][::-1], M[1][::-1]]
        elif k < .5:
            s = mpq(10) ** rng.choice([-12, 12, 0])
            M = [[s, mpq(0)], [mpq(0), s * rng.choice([-1, 1, 3])]]
        else:
            M = [[mpq(rng.randint(-5, 5), rng.randint(1, 4))
                  for _ in range(2)] for _ in range(2)]
        det = M[0][0] * M[1][1] - M[0][1] * M[1][0]
        if det != 0:
            break
    t = [gen2.coord(rng, rng.choice(gen2.MODES)) for _ in range(2)]

    def f(p):
        return (M[0][0] * p[0] + M[0][1] * p[1] + t[0],
                M[1][0] * p[0] + M[1][1] * p[1] + t[1])
    want = [([f(p) for p in o], [[f(p) for p in h] for h in hs])
            for o, hs in reg]
    style = rng.choice(['list', 'array', 'tuple'])

    def ring_map(r):
        pts = [f(tuple(p)) for p in r]
        if style == 'array':
            return [np.array(p, object) for p in pts]
        return pts if style == 'list' else tuple(pts)
    ctx.current = (reg, M, t)
    res = g.transformed_with(ring_map)
    got = geo2.region(res)
    same(ctx, want, got, 'affine image is wrong', map=(M, t), shape=reg)
    ctx.check(res.area() == abs(det) * g.area(), 'area of affine image',
              det=det, was=g.area(), got=res.area())
    ctx.check(geo2.region(g) == reg, 'operand changed')
    # still usable in further operations
    b = geo2.bounds([want])
    cut = w2.sq(b[0], b[1], (b[0] + b[2]) / 2, b[3])
    r2 = geo2.region(res & cut)
    n, mis, _ = geo2.check_op([want, geo2.region(cut)], r2,
                              lambda a, c: a and c)
    ctx.check(mis is None, 'operation on an affine image', why=mis,
              map=(M, t), shape=reg)
    if det < 0:
        ctx.count('mirroring maps')
    ctx.case((reg, M, t), det < 0 or len(reg) > 1 or bool(reg[0][1]))


def project(ctx, rng):
    g = multi(rng) if rng.random() < .95 else Geom2D.empty()
    if rng.random() < .4:
        parts = [g]
        for i in range(rng.randint(1, 3)):
            d = mpq(rng.randint(-60, 60), 2)
            h = multi(rng).transformed_with(
                lambda r: [(p[0] + d, p[1]) for p in r])
            if w2.nverts(h) < 30:
                parts.append(h)
        g = Geom2D.union(parts)
    reg = geo2.region(g)
    for _ in range(3):
        k = rng.random()
        if k < .3:
            vec = rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])
        elif k < .9:
            vec = (rng.randint(-9, 9), rng.randint(-9, 9))
        else:
            vec = (gen2.coord(rng, 'rat'), gen2.coord(rng, 'rat'))
        if vec[0] == 0 and vec[1] == 0:
            continue
        vec = tuple(mpq(v) for v in vec)
        off = rng.choice([mpq(0), gen2.coord(rng, 'rat'), mpq(10) ** 15])
        form = rng.choice([tuple, lambda v: np.array(v, object), list])
        got = g.project_to_1d(form(vec), off)
        iv = []
        for o, hs in reg:
            d = [p[0] * vec[0] + p[1] * vec[1] + off for p in o]
            iv.append((min(d), max(d)))
        want = iv1.norm(iv)
        ctx.check(iv1.intervals(got) == want, 'projection is wrong',
                  shape=reg, direction=vec, offset=off,
                  got=got.get_intervals(), want=want)
        ctx.case((reg, vec, off), len(want) > 1 or len(reg) > 1)
        if len(want) > 1:
            ctx.count('projections with gaps')
        if len(want) < len(reg):
            ctx.count('projections that merge pieces')


def run_job(job, ctx):
    kind, arg, k = job
    rng = random.Random(arg)
    for _ in range(k):
        dict(build=build, shapely=shapely_, affine=affine,
             project=project)[kind](ctx, rng)
