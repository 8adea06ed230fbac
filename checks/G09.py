"""All crossings of a set of segments are found, exactly once and exactly."""
import random
from gmpy2 import mpq

from plycutter.geometry.impl2d import scan2d

from vlib import gen2, geo2, pipe, run, w2

RULE = ('segment sets (random, axis-parallel grids, bundles through one '
        'point, collinear chains and overlaps, near-parallel pairs 1e-15 '
        'apart, T-contacts, boundaries of 2D shapes, and the segment sets of '
        'a real pipeline run) in random order and direction; the sweep '
        'output compared with all pairwise exact intersections; non-trivial: '
        'at least one meeting point')
MIN_EVALUATIONS = {'quick': 2000, 'thorough': 60000}
ASSUMPTIONS = ['segments are distinct and have positive length']


def jobs(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed * 23 + 9)
    res = [('pipe', m, seed) for m in pipe.op_sources(tier)[:2 if q else 5]]
    for kind, n, k in (('random', 24, 120), ('lattice', 12, 40),
                       ('bundle', 12, 40), ('collinear', 12, 60),
                       ('nearly', 12, 40), ('shapes', 12, 25),
                       ('large', 8, 4)):
        for _ in range(n if q else 24 * n):
            res.append((kind, rng.randrange(10**9), k))
    return res


def brute(segs):
    pts = set()
    n = len(segs)
    bb = [(min(a[0], b[0]), max(a[0], b[0]), min(a[1], b[1]),
           max(a[1], b[1])) for a, b in segs]
    order = sorted(range(n), key=lambda i: bb[i][0])
    for x in range(n):
        i = order[x]
        a, (l, h, lo, hi) = segs[i], bb[i]
        ax, ay = a[0]
        adx, ady = a[1][0] - ax, a[1][1] - ay
        for y in range(x + 1, n):
            j = order[y]
            e = bb[j]
            if e[0] > h:
                break
            if e[2] > hi or e[3] < lo:
                continue
            b = segs[j]
            bdx, bdy = b[1][0] - b[0][0], b[1][1] - b[0][1]
            ex, ey = b[0][0] - ax, b[0][1] - ay
            d = adx * bdy - ady * bdx
            if d != 0:
                t = (ex * bdy - ey * bdx) / d
                u = (ex * ady - ey * adx) / d
                if 0 <= t <= 1 and 0 <= u <= 1:
                    pts.add((ax + t * adx, ay + t * ady))
            elif ex * ady == ey * adx:
                for p in a:
                    if gen2._on(b[0], b[1], p):
                        pts.add(p)
                for p in b:
                    if gen2._on(a[0], a[1], p):
                        pts.add(p)
    return {p: sorted(s for s, e in zip(segs, bb)
                      if e[0] <= p[0] <= e[1] and e[2] <= p[1] <= e[3]
                      and gen2._on(s[0], s[1], p)) for p in pts}


def judge(ctx, segs):
    ctx.current = segs
    got = {}
    for p, ss in scan2d.all_segment_intersections(list(segs)):
        p = tuple(p)
        for c in p:
            ctx.check(type(c) is type(mpq(1)), 'inexact meeting point',
                      point=p, segments=segs)
        ctx.check(p not in got, 'meeting point reported twice', point=p,
                  segments=segs)
        got[p] = sorted((tuple(a), tuple(b)) for a, b in ss)
        ctx.check(len(set(got[p])) == len(got[p]),
                  'segment listed twice at a point', point=p, segments=segs)
    want = brute(segs)
    if got != want:
        miss = [(p, want[p]) for p in want if p not in got]
        extra = [(p, got[p]) for p in got if p not in want]
        diff = [(p, got[p], want[p]) for p in got
                if p in want and want[p] != got[p]]
        ctx.fail('meeting points differ from all pairwise intersections',
                 missing=miss[:3], invented=extra[:3], wrong_set=diff[:3],
                 segments=segs)
    ctx.count('meeting points', len(want))
    ctx.count('points with 3+ segments',
              sum(1 for s in want.values() if len(s) > 2))
    ctx.maximum('segments', len(segs))
    ctx.maximum('segments through one point',
                max([len(s) for s in want.values()], default=0))
    ctx.case(sorted(segs), bool(want), segs if len(segs) < 5 else None)


def mix(rng, segs):
    out = {}
    for a, b in segs:
        if a == b:
            continue
        k = (min(a, b), max(a, b))
        out[k] = (a, b) if rng.random() < .5 else (b, a)
    res = sorted(out.values())
    rng.shuffle(res)
    if res and rng.random() < .05:
        a, b = rng.choice(res)
        res.append((b, a))         # the same stretch, reversed
    return res


def make(kind, rng):
    c = lambda: mpq(rng.randint(-4, 4))  # noqa
    if kind == 'random' or kind == 'large':
        mode = rng.choice(gen2.MODES)
        k = rng.randint(0, 14) if kind == 'random' else rng.randint(40, 110)
        segs = []
        for _ in range(k):
            a = (gen2.coord(rng, mode), gen2.coord(rng, mode))
            b = (gen2.coord(rng, mode), gen2.coord(rng, mode))
            r = rng.random()
            if r < .15:
                b = (b[0], a[1])
            elif r < .3:
                b = (a[0], b[1])
            elif r < .55 and segs:
                s = rng.choice(segs)
                t, u = mpq(rng.randint(-3, 6), 3), mpq(rng.randint(-3, 6), 3)
                f = lambda t: (s[0][0] + (s[1][0] - s[0][0]) * t,  # noqa
                               s[0][1] + (s[1][1] - s[0][1]) * t)
                a = f(t)
                if rng.random() < .6:
                    b = f(u)
            segs.append((a, b))
        return segs
    if kind == 'lattice':
        n = rng.randint(1, 5)
        segs = []
        for i in range(n):
            for j in range(rng.randint(1, n)):
                x0, x1 = c(), c()
                segs.append(((x0, mpq(i)), (x1, mpq(i))))
                segs.append(((mpq(j), x0), (mpq(j), x1)))
                if rng.random() < .4:
                    segs.append(((mpq(i), mpq(j)),
                                 (mpq(i) + x0, mpq(j) + x0)))
        return segs
    if kind == 'bundle':
        p = (gen2.coord(rng, 'rat'), gen2.coord(rng, 'rat'))
        segs = []
        for _ in range(rng.randint(2, 12)):
            d = (mpq(rng.randint(-5, 5)), mpq(rng.randint(-5, 5)))
            t, u = mpq(rng.randint(-4, 4), 3), mpq(rng.randint(-4, 4), 3)
            segs.append(((p[0] + d[0] * t, p[1] + d[1] * t),
                         (p[0] + d[0] * u, p[1] + d[1] * u)))
        for _ in range(rng.randint(0, 4)):
            segs.append(((p[0] + c(), p[1] + c()), (p[0] + c(), p[1] + c())))
        return segs
    if kind == 'collinear':
        segs = []
        for _ in range(rng.randint(1, 3)):
            d = rng.choice([(1, 0), (0, 1), (1, 1), (2, -1), (1, 10**6),
                            (-3, 1)])
            o = (c(), c())
            for _ in range(rng.randint(2, 6)):
                t, u = c(), c()
                segs.append(((o[0] + d[0] * t, o[1] + d[1] * t),
                             (o[0] + d[0] * u, o[1] + d[1] * u)))
        return segs
    if kind == 'nearly':
        e = mpq(1, 10**rng.choice([3, 9, 15, 30]))
        segs = []
        for _ in range(rng.randint(2, 5)):
            a, b = (c(), c()), (c(), c())
            segs.append((a, b))
            for _ in range(rng.randint(1, 3)):
                j = lambda p: (p[0] + e * rng.randint(-2, 2),  # noqa
                               p[1] + e * rng.randint(-2, 2))
                segs.append((j(a), j(b)))
        return segs
    if kind == 'shapes':
        segs = []
        for _ in range(rng.randint(1, 3)):
            g = w2.rnd(rng, 8)
            if rng.random() < .3:
                h = w2.rnd(rng, 6)
                g = rng.choice([lambda: g | h, lambda: g - h])()
            if rng.random() < .3:
                b = geo2.bounds([geo2.region(g)])
                if w2.nverts(g) < 15:
                    g = g.buffer((b[2] - b[0]) / rng.choice([7, -9]))
            segs += [(tuple(a), tuple(b)) for a, b in g.all_segments()]
        return segs


def run_job(job, ctx):
    kind, arg = job[:2]
    if kind == 'pipe':
        orig = scan2d.all_segment_intersections
        sets = []

        def wrapped(segments):
            segments = list(segments)
            ctx.count('pipeline sweeps seen')
            if len(segments) < 150 and ctx.counts['pipeline sweeps seen'] % 7 \
                    == job[2] % 7:
                sets.append(segments)
            return orig(segments)
        scan2d.all_segment_intersections = wrapped
        try:
            pipe.process(arg, random_seed=job[2])
        finally:
            scan2d.all_segment_intersections = orig
        for s in sets:
            s = sorted({(tuple(a), tuple(b)) for a, b in s})
            judge(ctx, s)
            ctx.count('pipeline segment sets')
        return
    rng = random.Random(arg)
    for _ in range(job[2]):
        judge(ctx, mix(rng, make(kind, rng)))
        ctx.count('workload ' + kind)
