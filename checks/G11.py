"""Fractional angles and segment/area primitives are exact."""
import random

import numpy as np
from gmpy2 import mpq

from plycutter.geometry.impl2d import frangle2d, primitive2d

from vlib import gen2, run

RULE = ('directions (all small integer ones, random rational, huge, nearly '
        'parallel, on the diagonals and axes) compared pairwise with the '
        'exact clockwise order from (1,0); length independence, quarter '
        'turns, round trips of angles and directions; polygon areas, line '
        'crossings and point fractions of random rational inputs against '
        'direct exact formulas; non-trivial: every case')
MIN_EVALUATIONS = {'quick': 8000, 'thorough': 200000}


def jobs(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed * 31 + 11)
    res = [('grid', 5 if q else 12, 0)]
    for kind, n, k in (('angle', 16, 2500), ('prim', 16, 2500)):
        for _ in range(n if q else 24 * n):
            res.append((kind, rng.randrange(10**9), k))
    return res


def half(v):
    """0 for the lower (clockwise first) half turn, 1 for the other."""
    return 0 if (v[1] < 0 or (v[1] == 0 and v[0] > 0)) else 1


def before(a, b):
    """Exactly: -1/0/1 as a comes before/with/after b clockwise from +x."""
    ha, hb = half(a), half(b)
    if ha != hb:
        return -1 if ha < hb else 1
    c = a[0] * b[1] - a[1] * b[0]
    return -1 if c < 0 else (1 if c > 0 else 0)


def fr(ctx, v):
    f = frangle2d.vector_frangle(v)
    ctx.check(isinstance(f, (int, type(mpq(1)))) and 0 <= f < 8,
              'angle is not an exact number of the turn', vec=v, got=f)
    return f


def pair(ctx, a, b):
    fa, fb = fr(ctx, a), fr(ctx, b)
    w = before(a, b)
    g = (fa > fb) - (fa < fb)
    ctx.check(g == w, 'angles are not in clockwise order', a=a, b=b, fa=fa,
              fb=fb, want=w)


def single(ctx, v, s):
    f = fr(ctx, v)
    ctx.check(fr(ctx, (v[0] * s, v[1] * s)) == f,
              'angle depends on the vector length', vec=v, factor=s)
    ctx.check(fr(ctx, np.array(v, object)) == f, 'angle depends on the '
              'container', vec=v)
    w = v
    for k in range(1, 5):
        w = (w[1], -w[0])               # a quarter turn clockwise
        ctx.check(fr(ctx, w) == (f + 2 * k) % 8, 'quarter turn is not an '
                  'exact step', vec=v, turns=k, got=fr(ctx, w), was=f)
    for f2 in (f, f + 8, f - 16):
        u = frangle2d.frangle_unit_square_vector(f2)
        ctx.check(max(abs(u[0]), abs(u[1])) == 1, 'not on the unit square',
                  angle=f2, got=u)
        ctx.check(before(u, v) == 0, 'direction of an angle is wrong',
                  angle=f2, vec=v, got=u)


def angle(ctx, rng):
    r = rng.random()
    if r < .3:
        P = lambda: (mpq(rng.randint(-6, 6)), mpq(rng.randint(-6, 6)))  # noqa
    else:
        mode = rng.choice(gen2.MODES)
        P = lambda: (gen2.coord(rng, mode), gen2.coord(rng, mode))  # noqa
    a, b = P(), P()
    if rng.random() < .3:
        e = mpq(1, 10**rng.choice([1, 9, 30]))
        b = (a[0] + e * rng.randint(-1, 1), a[1] + e * rng.randint(-1, 1))
    if a == (0, 0) or b == (0, 0):
        return
    ctx.current = (a, b)
    pair(ctx, a, b)
    single(ctx, a, mpq(rng.randint(1, 10**6), rng.randint(1, 10**6)))
    f = mpq(rng.randint(-4000, 4000), rng.choice([1, 2, 7, 100, 999]))
    u = frangle2d.frangle_unit_square_vector(f)
    uq = (mpq(u[0]), mpq(u[1]))
    ctx.check(fr(ctx, uq) == f % 8, 'angle to direction and back',
              angle=f, direction=u, got=fr(ctx, uq))
    ctx.case((a, b, f), True, (a, b, f))


def prim(ctx, rng):
    mode = rng.choice(gen2.MODES)
    P = lambda: (gen2.coord(rng, mode), gen2.coord(rng, mode))  # noqa
    form = rng.choice([tuple, list, lambda p: np.array(p, object)])
    # area, clockwise positive
    pts = [P() for _ in range(rng.randint(3, 8))]
    k = rng.randrange(len(pts))
    for q in (pts, pts[k:] + pts[:k]):
        got = primitive2d.simple_polygon_area([form(p) for p in q])
        ctx.check(got == -gen2.area2(pts) / 2, 'signed area is wrong',
                  pts=q, got=got, want=-gen2.area2(pts) / 2)
    ctx.check(primitive2d.simple_polygon_area(pts[::-1])
              == gen2.area2(pts) / 2, 'area of reversed ring', pts=pts)
    ctx.check(list(primitive2d.edges_iter(pts)) == [
        (pts[i], pts[(i + 1) % len(pts)]) for i in range(len(pts))],
        'edge list', pts=pts)
    # two lines
    a, b, c, d = (P() for _ in range(4))
    if rng.random() < .3:
        t = mpq(rng.randint(-2, 4), 2)
        c = (a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t)
    den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
    if den != 0:
        t = ((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0])
             ) / den
        u = ((c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0])
             ) / den
        p = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
        got = primitive2d.segment_segment_general_intersection(
            (form(a), form(b)), (form(c), form(d)))
        ctx.check(tuple(got[0]) == p and got[1] == t and got[2] == u,
                  'line crossing is wrong', lines=(a, b, c, d), got=got,
                  want=(p, t, u))
        ctx.count('line crossings')
    # fraction along a segment
    if a != b:
        t = mpq(rng.randint(-40, 40), rng.randint(1, 17))
        p = (a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t)
        got = primitive2d.line_segment_point_fraction(
            (form(a), form(b)), form(p))
        ctx.check(got is not None and got == t, 'fraction along a segment',
                  segment=(a, b), point=p, got=got, want=t)
        n = (-(b[1] - a[1]), b[0] - a[0])
        e = mpq(rng.choice([-1, 1]), 10**rng.choice([0, 3, 20]))
        off = (p[0] + n[0] * e, p[1] + n[1] * e)
        got = primitive2d.line_segment_point_fraction(
            (form(a), form(b)), form(off))
        ctx.check(got is None, 'point off the line is given a fraction',
                  segment=(a, b), point=off, got=got)
        ctx.count('fractions')
    ctx.case(pts, True)


def run_job(job, ctx):
    kind, arg, k = job
    if kind == 'grid':
        vs = [(mpq(x), mpq(y)) for x in range(-arg, arg + 1)
              for y in range(-arg, arg + 1) if x or y]
        for v in vs:
            single(ctx, v, mpq(3, 7))
            for w in vs:
                pair(ctx, v, w)
            ctx.case(v)
        ctx.count('exhaustive small direction pairs', len(vs) ** 2)
        return
    rng = random.Random(arg)
    for _ in range(k):
        dict(angle=angle, prim=prim)[kind](ctx, rng)
