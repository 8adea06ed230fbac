"""H05: parts have material only where the model does, and all that is
visible on both sides."""
import random

import numpy as np
from gmpy2 import mpq

from vlib import build, geo2, parts, pipe, run, sp3

RULE = ('one evaluation = one finished part of one model, compared with '
        'cross-sections, faces and bands and with sample points of the '
        'solid; distinct = distinct (model, parameters, part)')
MIN_EVALUATIONS = {'quick': 40, 'thorough': 500}
ASSUMPTIONS = ['area comparisons use the set operations of the repository '
               '(decided separately by G03, G06) with tolerance 1e-6 and '
               'loose specks below 0.01; sample points closer than 2e-3 to '
               'an outline are not judged']


def jobs(tier, seed):
    n = 56 if tier == 'quick' else 260
    return [('r', seed * 100279 + i, tier) for i in range(n)]


def workload(rng, tier):
    if tier == 'thorough' and rng.random() < .35:
        spec = sp3.fresh(rng, lambda r: r.choice([
            ('rand', r.randrange(10 ** 6)),
            ('tube', r.choice([3, 4, 6]), 3, 32, 20, r.uniform(0, 1))]))
        _, kw = build.workload(rng)
        kw['support_radius'] = 16
        return spec, kw
    if rng.random() < .2:
        spec = sp3.fresh(rng, lambda r: ('fold', (r.choice([-1, 1]) *
                                                  r.choice([30, 45, 60, 75]),
                                                  ), (30, 26), 4,
                                         r.randint(18, 30)))
        _, kw = build.workload(rng)
    else:
        spec, kw = build.workload(rng, heavy=.2)
    if rng.random() < .2:
        kw['support_radius'] = rng.choice([3, 5, 7])
    return spec, kw


def run_job(job, ctx):
    rng = random.Random(job[1])
    nr = np.random.RandomState(job[1] % 2 ** 31)
    spec, kw = workload(rng, job[2])
    ctx.current = (spec, kw)
    m, p, sp, r = build.run(spec, kw)
    sr = p['support_radius']
    first = r.history[0]
    P = parts.Parts(sp, r.sheet_cuts)
    T = float(m.thickness)
    ctx.check(set(r.sheet_cuts) == set(sp.sheets), 'parts and sheets differ')
    for s, sh in sorted(sp.sheets.items()):
        g = r.sheet_cuts[s]
        ctx.case((spec, kw, s), True, (spec, kw, s))
        ctx.check(float(g.area()) > 1, 'a finished part is empty', part=s)
        f0, f1 = sh.faces
        for what, lim in (('the cross-section', sh.slices_max),
                          ('reach of side 0', f0.buffer(sr)),
                          ('reach of side 1', f1.buffer(sr))):
            d = float((g - lim).area())
            ctx.check(d < 1e-6, 'a part extends beyond ' + what, part=s,
                      area=d)
        must = f0 & f1 & sh.slices_max
        for side in sp.intersides(s):
            must = must - side.make_fingers(first.interside_ok[side.id])
        miss = (must - g)
        big = [float(q.area()) for q in miss.polygons() if q.area() > .01]
        ctx.check(not big, 'area visible on both sides is missing', part=s,
                  areas=big)
        ctx.count('parts')
        ctx.maximum('area that must be there', float(must.area()))
        # independent: points of the part
        q = P.random_in(nr, s, 4000)
        xy, _ = sp3.flat(sh, q)
        ok = np.zeros(len(q), bool)
        for z in (.1, T / 2, T - .1):
            for dx, dy in ((0, 0), (2e-3, 0), (-2e-3, 0), (0, 2e-3),
                           (0, -2e-3)):
                ok |= m.inside(sp3.lift(sh, xy + [dx, dy],
                                        np.full(len(xy), z)))
        ctx.check(ok.all(), 'a part has material where its plate has none',
                  part=s, points=q[~ok][:3])
        ctx.count('points of parts', len(q))
        import shapely
        for k, f in ((0, f0), (1, f1)):
            fs = sp3.shape(f)
            shapely.prepare(fs)
            d = shapely.distance(fs, shapely.points(xy))
            ctx.maximum('distance from visible surface / support radius',
                        d.max() / float(sr))
            ctx.check(d.max() <= float(sr) * 1.01 + 1e-6, 'a part has '
                      'material beyond the support radius', part=s,
                      distance=d.max(), radius=sr)
        # windows stay open: area enclosed by holes of the cross-section
        for out, holes in geo2.region(sh.slices_max):
            for h in holes:
                a = abs(float(geo2.ring_area2(h))) / 2
                if a > .5:
                    from plycutter.geometry.geom2d import Geom2D
                    hole = Geom2D.polygon([list(v) for v in h],
                                          reorient=True)
                    c = float((hole & g - sh.slices_max).area())
                    ctx.check(c < 1e-6, 'a window is closed', part=s, area=c)
                    ctx.count('windows')
