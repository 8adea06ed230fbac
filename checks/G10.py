"""Spatial indexes never miss or invent a hit."""
import collections
import random

import numpy as np
from gmpy2 import mpq

from plycutter.geometry.aabb import AABB
from plycutter.geometry.impl2d import pmr_quadtree, segment_tree

from vlib import gen2, pipe, run

RULE = ('1D: interval lists (nested, duplicate, zero-length, shared ends, '
        'chains, up to 300) stabbed at every end point, between and around '
        'them, against a linear scan; quadtree: segment sets (thresholds 1 to '
        '10, items added at construction or later) queried with stored and '
        'new segments, against exact pairwise contact; bounding boxes: '
        'points added in any order, box-box and box-segment tests against '
        'exact clipping, with touching corners, degenerate boxes and '
        'segments; indexes of a real pipeline run stabbed through their '
        'normal use; non-trivial: query with at least one hit')
MIN_EVALUATIONS = {'quick': 4000, 'thorough': 100000}
ASSUMPTIONS = ['exact rational coordinates',
               'quadtree items lie in the box given to the tree']


def jobs(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed * 29 + 10)
    res = [('pipe', m, seed) for m in pipe.op_sources(tier)[:1 if q else 5]]
    for kind, n, k in (('tree', 16, 80), ('quad', 16, 12), ('box', 16, 200)):
        for _ in range(n if q else 24 * n):
            res.append((kind, rng.randrange(10**9), k))
    return res


def tree(ctx, rng):
    mode = rng.choice(['int', 'int', 'rat', 'huge'])
    n = rng.choice([0, 1, 2, 3, 5, 8, 15, 40, 120 if rng.random() < .2
                    else 20])
    segs = []
    for i in range(n):
        a, b = sorted([gen2.coord(rng, mode), gen2.coord(rng, mode)])
        r = rng.random()
        if r < .15:
            b = a
        elif r < .35 and segs:
            s = rng.choice(segs)
            a, b = rng.choice([(s[0], s[1]), (s[1], max(s[1], b)),
                               (min(a, s[0]), s[0]), (s[0], max(s[0], b))])
        elif r < .5 and segs:          # strictly inside another
            s = rng.choice(segs)
            w = s[1] - s[0]
            a, b = s[0] + w / 4, s[0] + w / 2
        segs.append((a, b, rng.choice(['id%d' % i, i, (i, i),
                                       'id%d' % (i // 2)])))
    ctx.current = segs
    keep = list(segs)
    t = segment_tree.SegmentTree1D(segs)
    ctx.check(segs == keep, 'the interval list was changed', segs=keep)
    ends = sorted({v for s in segs for v in s[:2]})
    qs = list(ends) + [(a + b) / 2 for a, b in zip(ends[:-1], ends[1:])]
    if ends:
        qs += [ends[0] - 1, ends[-1] + 1, ends[0] - mpq(1, 10**20),
               ends[-1] + mpq(1, 10**20)]
    qs += [mpq(0), gen2.coord(rng, mode)]
    for _ in range(2):
        rng.shuffle(qs)
        for v in qs:
            got = collections.Counter(tuple(h) for h in t.stab(v))
            want = collections.Counter(s for s in segs if s[0] <= v <= s[1])
            if got != want:
                ctx.fail('interval index answers wrong', position=v,
                         missing=list((want - got).elements()),
                         invented=list((got - want).elements()),
                         intervals=segs)
            ctx.count('stabs')
            ctx.count('hits', sum(want.values()))
    ctx.case(segs, n > 0, segs if n < 4 else None)


def on(a, b, p):
    return gen2._on(a, b, p)


def quad(ctx, rng):
    mode = rng.choice(['int', 'int', 'half', 'rat', 'float'])
    n = rng.choice([1, 2, 3, 5, 9, 14, 25])

    def seg(near=None):
        while True:
            a = (gen2.coord(rng, mode), gen2.coord(rng, mode))
            b = (gen2.coord(rng, mode), gen2.coord(rng, mode))
            if rng.random() < .3:
                b = (a[0] + (b[0] - a[0]) / 20, a[1] + (b[1] - a[1]) / 20)
            if rng.random() < .15:
                b = (b[0], a[1])
            if near and rng.random() < .5:
                s = rng.choice(near)
                t = mpq(rng.randint(0, 8), 8)
                a = (s[0][0] + (s[1][0] - s[0][0]) * t,
                     s[0][1] + (s[1][1] - s[0][1]) * t)
                if rng.random() < .3:
                    b = s[rng.randrange(2)]
            if a != b:
                return (a, b)
    items = []
    for _ in range(n):
        items.append(seg(items))
    if rng.random() < .1:
        items = [((a[0], mpq(1)), (b[0], mpq(1))) for a, b in items
                 if a[0] != b[0]] or items
    items = list(dict.fromkeys(items))
    thr = rng.choice([1, 2, 3, 4, 4, 10] if n < 4 else [3, 4, 4, 4, 10])
    ctx.current = (items, thr)
    how = rng.random()
    if how < .4:
        t = pmr_quadtree.SegmentPMRQuadTree(items=items, threshold=thr)
    else:
        box = AABB()
        for s in items:
            box.include_point(s[0])
            box.include_point(s[1])
        if how < .7:
            t = pmr_quadtree.SegmentPMRQuadTree(box, items, thr)
        else:
            t = pmr_quadtree.SegmentPMRQuadTree(box, [], thr)
            for s in items:
                t.pmr.add(s)
    for _ in range(1):
        for s in rng.sample(items, min(5, n, len(items))) + [
                seg(items) for _ in range(7)]:
            got = t.find(s)
            lg = list(got)
            ctx.check(len(set(lg)) == len(lg) and set(lg) <= set(items),
                      'planar index invents or repeats segments', got=lg,
                      items=items)
            want = [i for i in items if gen2.segs_touch(s[0], s[1], i[0],
                                                        i[1])]
            for w in want:
                ctx.check(w in got, 'planar index misses a touching segment',
                          query=s, missed=w, items=items, threshold=thr)
            ctx.count('planar queries')
            ctx.count('planar hits', len(want))
            ctx.count('planar candidates', len(lg))
    ctx.case(items, True)


def clip(lo, hi, a, b):
    """Exact: does the closed segment meet the closed box (slab clipping)?"""
    t0, t1 = mpq(0), mpq(1)
    for i in range(2):
        d = b[i] - a[i]
        if d == 0:
            if a[i] < lo[i] or a[i] > hi[i]:
                return False
            continue
        u, v = (lo[i] - a[i]) / d, (hi[i] - a[i]) / d
        if u > v:
            u, v = v, u
        t0, t1 = max(t0, u), min(t1, v)
        if t0 > t1:
            return False
    return True


def box(ctx, rng):
    mode = rng.choice(['int', 'int', 'half', 'rat', 'huge', 'float'])
    P = lambda: (gen2.coord(rng, mode), gen2.coord(rng, mode))  # noqa
    pts = [P() for _ in range(rng.choice([1, 1, 2, 2, 3, 6]))]
    form = rng.choice([tuple, list, lambda p: np.array(p, object)])
    b = AABB()
    ctx.check(not b.contains(P()), 'an empty box contains a point')
    ctx.check(not b.intersects_segment((P(), P())),
              'an empty box meets a segment')
    lo = hi = None
    for p in pts:
        fp = form(p)
        b.include_point(fp)
        lo = p if lo is None else (min(lo[0], p[0]), min(lo[1], p[1]))
        hi = p if hi is None else (max(hi[0], p[0]), max(hi[1], p[1]))
        ctx.check(tuple(b.lower) == lo and tuple(b.upper) == hi,
                  'box is not the exact extent of its points', points=pts,
                  lower=tuple(b.lower), upper=tuple(b.upper))
        ctx.check(tuple(fp) == p, 'point changed')
    if rng.random() < .5:
        c = AABB(lo, hi)
        keep = (lo, hi)
        c.include_point(lo)
        ctx.check((tuple(c.lower), tuple(c.upper)) == keep, 'box changed by '
                  'a point it contains')
        b = c
    ctx.current = (lo, hi)
    e = mpq(1, 10**12)
    for _ in range(6):
        p = rng.choice([P(), (rng.choice([lo[0], hi[0]]),
                              rng.choice([lo[1], hi[1]])),
                        (hi[0] + rng.choice([-e, 0, e]),
                         (lo[1] + hi[1]) / 2)])
        want = lo[0] <= p[0] <= hi[0] and lo[1] <= p[1] <= hi[1]
        ctx.check(bool(b.contains(p)) == want, 'contains() is wrong',
                  box=(lo, hi), point=p)
        qs = [P(), P()]
        if rng.random() < .5:
            qs[0] = p
        l2 = tuple(min(v[i] for v in qs) for i in range(2))
        h2 = tuple(max(v[i] for v in qs) for i in range(2))
        o = AABB(l2, h2)
        want = all(l2[i] <= hi[i] and lo[i] <= h2[i] for i in range(2))
        ctx.check(bool(b.intersects_aabb(o)) == want
                  and bool(o.intersects_aabb(b)) == want,
                  'box-box test is wrong', a=(lo, hi), b=(l2, h2), want=want)
        ctx.count('box-box ' + ('hit' if want else 'miss'))
        # segments: random, grazing a corner, degenerate
        a, c = P(), P()
        r = rng.random()
        if r < .5:
            k = (rng.choice([lo[0], hi[0]]), rng.choice([lo[1], hi[1]]))
            k = (k[0] + rng.choice([0, 0, e, -e]), k[1])
            t = mpq(rng.randint(0, 6), 3)
            c = (a[0] + (k[0] - a[0]) * t, a[1] + (k[1] - a[1]) * t)
            if rng.random() < .5:
                c = (2 * k[0] - a[0], 2 * k[1] - a[1])
        elif r < .6:
            c = a
        elif r < .7:
            c = (c[0], a[1])
        want = clip(lo, hi, a, c)
        for s in ((a, c), (c, a), (np.array(a, object),
                                   np.array(c, object))):
            ctx.check(bool(b.intersects_segment(s)) == want,
                      'box-segment test is wrong', box=(lo, hi),
                      segment=(a, c), want=want)
        ctx.count('box-segment ' + ('hit' if want else 'miss'))
        ctx.case((lo, hi, a, c), want)


def run_job(job, ctx):
    kind, arg = job[:2]
    if kind == 'pipe':
        cls = segment_tree.SegmentTree1D
        oi, os_ = cls.__init__, cls.stab
        made = {}

        def init(self, segments):
            segments = list(segments)
            made[id(self)] = (self, segments)
            oi(self, segments)

        def stab(self, v):
            got = list(os_(self, v))
            ctx.count('pipeline stabs seen')
            if ctx.counts['pipeline stabs seen'] % 11 == job[2] % 11:
                want = [s for s in made[id(self)][1] if s[0] <= v <= s[1]]
                key = lambda s: (s[0], s[1], s[2])  # noqa
                ctx.check(sorted(got, key=key) == sorted(want, key=key),
                          'interval index answers wrong (pipeline)',
                          position=v, got=got, want=want)
                ctx.case((v, len(want)), bool(want))
                ctx.count('pipeline stabs judged')
            return iter(got)
        cls.__init__, cls.stab = init, stab
        try:
            pipe.process(arg, random_seed=job[2])
        finally:
            cls.__init__, cls.stab = oi, os_
        return
    rng = random.Random(arg)
    for _ in range(job[2]):
        dict(tree=tree, quad=quad, box=box)[kind](ctx, rng)
