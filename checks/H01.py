"""H01: no two finished parts occupy the same space."""
import random

import numpy as np

from vlib import build, parts, pipe, run, sp3

RULE = ('one evaluation = one pair of sheets of one finished model whose '
        'possible common space is sampled (stratified along the joint); '
        'distinct = distinct (model, parameters, pair) whose plates can '
        'meet')
MIN_EVALUATIONS = {'quick': 30, 'thorough': 400}
ASSUMPTIONS = ['negligible means at most 3 of 6000 stratified sample points '
               'of the space common to both plates']


def jobs(tier, seed):
    n = 56 if tier == 'quick' else 260
    js = [('r', seed * 100193 + i) for i in range(n)]
    if tier == 'thorough':
        js = [('tube', seed * 100193 + i) for i in range(30)] + js
    return js


def angled(r):
    T = r.choice([3, 4])
    k = r.random()
    if k < .6:
        return ('fold', (r.choice([-1, 1]) * r.choice(
            [20, 30, 45, 60, 75, 100, 110]),), (r.randint(24, 34),
                                                r.randint(24, 34)), T,
                r.randint(18, 30))
    return ('fold', (r.choice([45, 60, 90]), r.choice([-60, -45, 45, 60])),
            (28, 28, 28), T, 20)


def overlap(ctx, rng, sp, cuts, tag, n=6000):
    P = parts.Parts(sp, cuts)
    for iid, inter in sorted(sp.intersections.items()):
        pts, vol = parts.joint_points(rng, sp, inter, n, P)
        a, b = inter.sheets()
        if not len(pts):
            ctx.case((tag, iid), False)
            continue
        both = P.has(a, pts) & P.has(b, pts)
        either = P.has(a, pts) | P.has(b, pts)
        ctx.count('points in both slabs', len(pts))
        ctx.count('points covered', int(either.sum()))
        ctx.case((tag, iid), bool(either.any()), tag)
        v = both.mean() * vol
        ctx.maximum('overlap volume', v)
        ctx.check(both.sum() <= 3,
                  'two finished parts overlap', parts=(a, b), volume=v,
                  joint_volume=vol, example=pts[both][:3], model=tag)


def run_job(job, ctx):
    rng = random.Random(job[1])
    if job[0] == 'tube':
        T = rng.choice([3, 4])
        n = rng.choice([3, 4, 5, 6])
        spec = ('tube', n, T, 30 if n > 4 else 34, 20, rng.uniform(0, 1))
        kw = dict(random_seed=rng.randrange(99))
        kw['support_radius'] = 16
    elif rng.random() < .45:
        spec = sp3.fresh(rng, angled)
        _, kw = build.workload(rng)
    else:
        spec, kw = build.workload(rng, heavy=.25)
    ctx.current = (spec, kw)
    m, p, sp, r = build.run(spec, kw)
    overlap(ctx, np.random.RandomState(job[1] % 2 ** 31), sp, r.sheet_cuts,
            (spec, kw))
