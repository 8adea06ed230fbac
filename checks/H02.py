"""H02: right-angled models are reproduced completely, exactly once."""
import random

import numpy as np

from vlib import build, models, parts, pipe, run, sp3

RULE = ('one evaluation = one finished right-angled model: sample points of '
        'the solid (whole volume and every joint) and of every part; '
        'distinct = distinct (model, parameters)')
MIN_EVALUATIONS = {'quick': 16, 'thorough': 150}
ASSUMPTIONS = ['uncovered slivers of at most 0.12 unit '
               'are negligible', 'points within 2e-3 of a surface are not '
               'judged']


def jobs(tier, seed):
    n = 100 if tier == 'quick' else 260
    return [('r', seed * 100207 + i, tier) for i in range(n)]


def right(rng, tier):
    def gen(r):
        k = r.random()
        if k < .5:
            s = pipe.furniture(r)
        elif k < .7:
            while True:
                s = pipe.small(r)
                if s[0] == 'walls':
                    break
        elif k < .83:
            s = pipe.corner(r)
        else:
            s = ('fold', (r.choice([-90, 90]),), (r.randint(20, 34),
                                                  r.randint(20, 34)),
                 r.choice([3, 4]), r.randint(20, 34))
        if s[0] == 'walls' and r.random() < .3:
            w, kind = sp3.with_window(r, s)
            if kind == 'window':
                s = w
        if r.random() < .2:
            s = ('moved', s, r.randrange(10 ** 6), 100, r.random() < .6)
        return s

    def deep(r):
        k = r.random()
        if k < .5:
            return gen(r)
        if k < .7:
            return ('furn', r.randrange(10 ** 6), False)
        if k < .85:
            return ('rand', r.randrange(10 ** 6))
        d = [r.randint(26, 40) for _ in range(3)]
        return ('walls', tuple(d), 4, tuple(sorted(r.sample(
            ['x0', 'x1', 'y0', 'y1', 'z0', 'z1'], r.choice([4, 5, 6])))))
    return sp3.fresh(rng, gen if tier == 'quick' else deep)


def on_one_line(pts, n=3):
    return [tuple(np.round(p, 3)) for p in pts[:n]]


def run_job(job, ctx):
    rng = random.Random(job[1])
    nr = np.random.RandomState(job[1] % 2 ** 31)
    spec = right(rng, job[2])
    _, kw = build.workload(rng)
    ctx.current = (spec, kw)
    m, p, sp, r = build.run(spec, kw)
    T = float(m.thickness)
    P = parts.Parts(sp, r.sheet_cuts)
    nj = len(sp.intersections)
    ctx.case((spec, kw), nj > 0, (spec, kw))
    area = sum(float(g.area()) for g in r.sheet_cuts.values())
    vol = float(m.mesh.volume)
    lost = (vol - area * T) / T
    ctx.maximum('area missing per joint / thickness', lost / max(1, nj) / T)
    ctx.check(-1e-3 * T < lost < .04 * T * nj + 1e-6 * vol,
              'area of the parts times thickness is not the volume',
              area=area, T=T, volume=vol, lost_area=lost, joints=nj,
              model=m.name)
    # points of the solid
    v = np.asarray(m.mesh.vertices)
    lo, hi = v.min(0), v.max(0)
    pts = [nr.uniform(lo, hi, (20000, 3))]
    for inter in sp.intersections.values():
        q, _ = parts.joint_points(nr, sp, inter, 5000, P)
        if len(q):
            pts.append(q)
    pts = np.concatenate(pts)
    inside = m.inside(pts)
    eps = 2e-3
    for k in range(6):
        d = np.zeros(3)
        d[k % 3] = eps if k < 3 else -eps
        inside &= m.inside(pts + d)
    pts = pts[inside]
    c = P.count(pts)
    ctx.count('points of the solid', len(pts))
    bad = pts[c > 1]
    ctx.check(len(bad) <= 2, 'a point of the solid is in two parts',
              examples=on_one_line(bad), of=len(pts))
    miss = pts[c == 0]
    # slivers: not wider than 0.12 along some joint direction
    real = []
    for q in miss:
        thin = False
        for inter in sp.intersections.values():
            d = np.asarray(inter.direction, float)
            line = q + np.linspace(-.3, .3, 61)[:, None] * d
            unc = (P.count(line) == 0) & m.inside(line)
            if unc.sum() * .01 < .12:
                thin = True
                break
        if not thin:
            real.append(q)
    ctx.count('sample points in slivers', len(miss) - len(real))
    ctx.maximum('uncovered share (ppm)', 1e6 * len(miss) / len(pts))
    ctx.check(not real, 'a point of the solid is in no part',
              examples=on_one_line(real), n=len(real), of=len(pts))
    # points of the parts
    for s in P.ids:
        q = P.random_in(nr, s, 3000)
        out = ~m.inside(q)
        for k in range(6):
            d = np.zeros(3)
            d[k % 3] = eps if k < 3 else -eps
            out &= ~m.inside(q + d)
        ctx.count('points of the parts', len(q))
        ctx.check(not out.any(), 'a part has material where the model has '
                  'none', part=s, examples=on_one_line(q[out]))
