"""1D sets: growth, measure, location, pieces and filtering."""
import math
import random
from gmpy2 import mpq

from plycutter.geometry.geom1d import Geom1D

from vlib import iv1

RULE = ('random interval sets (grid, rational, huge, tiny gaps, infinite '
        'ends) x random signed amounts chosen around the gap and interval '
        'lengths, query points at, next to and between ends; each result '
        'compared with an independent model; non-trivial: the set is '
        'non-empty')
MIN_EVALUATIONS = {'quick': 15000, 'thorough': 250000}


def jobs(tier, seed):
    n, k = (16, 1500) if tier == 'quick' else (64, 12000)
    return [(seed * 1000 + 17 * i, k) for i in range(n)]


def agree(ctx, g, model, what):
    got = iv1.intervals(g)
    ctx.check(got == model, 'wrong set', what=what, got=g.get_intervals(),
              want=model)


def run_job(job, ctx):
    seed, k = job
    rng = random.Random(seed)
    for c in range(k):
        mode = rng.choice(iv1.MODES)
        ivs = iv1.raw(rng, mode)
        ctx.current = ivs
        g = Geom1D(ivs)
        m = iv1.norm(ivs)
        agree(ctx, g, m, 'construct')
        # growth: amounts that just close gaps / just kill intervals
        gaps = [(y[0] - x[1]) for x, y in zip(m[:-1], m[1:])]
        lens = [b - a for a, b in m]
        cand = [mpq(0), iv1.coord(rng, mode), mpq(rng.randint(-9, 9), 4), 1,
                -1, 2]
        for d in gaps + lens:
            if d != math.inf:
                cand += [d / 2, -d / 2, d / 2 + mpq(1, 1000),
                         -d / 2 + mpq(1, 1000), d / 2 - mpq(1, 1000),
                         -d / 2 - mpq(1, 1000)]
        for amount in rng.sample(cand, min(len(cand), 4)):
            want = iv1.norm([(a - amount, b + amount) for a, b in m
                             if a - amount < b + amount])
            agree(ctx, g.buffer(amount), want, ('buffer', m, amount))
            ctx.count('growths' if amount > 0 else 'shrinks')
        agree(ctx, g, m, 'operand after buffer')
        # measure / boundedness / emptiness
        ms = g.measure1d()
        ctx.check(ms == iv1.measure(m), 'measure wrong', m=m, got=ms)
        ctx.check(bool(g.is_bounded()) == (iv1.measure(m) != math.inf),
                  'is_bounded wrong', m=m, got=g.is_bounded())
        ctx.check(bool(g.is_empty()) == (not m), 'is_empty wrong', m=m)
        ctx.count('measures', 3)
        # location
        pts = {iv1.coord(rng, mode) for _ in range(3)}
        for a, b in m:
            for v in (a, b):
                if abs(v) != math.inf:
                    pts |= {v, v + mpq(1, 10**6), v - mpq(1, 10**6)}
            if abs(a) != math.inf and abs(b) != math.inf:
                pts.add((a + b) / 2)
        for x, y in zip(m[:-1], m[1:]):
            pts.add((x[1] + y[0]) / 2)
        for p in pts:
            inside = any(a < p < b for a, b in m)
            end = any(p == a or p == b for a, b in m)
            loc = g.locate(p)
            ctx.check(loc == (1 if inside else 0 if end else -1),
                      'locate wrong', m=m, p=p, got=loc)
            ctx.count('located points')
        # pieces
        ps = g.disjoint_pieces()
        ctx.check([iv1.intervals(p) for p in ps] == [[iv] for iv in m],
                  'disjoint_pieces wrong', m=m, got=ps and
                  [p.get_intervals() for p in ps])
        back = Geom1D.empty()
        for p in ps:
            back = back | p
        agree(ctx, back, m, 'union of pieces')
        # filter
        calls = []
        thr = iv1.coord(rng, mode)

        def keep(a, b):
            calls.append((a, b))
            return (b - a > abs(thr)) != (a > thr)
        f = g.filter(keep)
        ctx.check(sorted(calls) == m, 'filter did not see every interval '
                  'exactly once', m=m, seen=calls)
        agree(ctx, f, [iv for iv in m
                       if (iv[1] - iv[0] > abs(thr)) != (iv[0] > thr)],
              ('filter', m, thr))
        agree(ctx, g.filter(lambda a, b: True), m, 'filter all')
        agree(ctx, g.filter(lambda a, b: False), [], 'filter none')
        agree(ctx, g, m, 'operand at the end')
        str(g)
        repr(g)
        ctx.case((mode, tuple(m)), bool(m), m if c == 0 else None)
    for bad in (0.5, 1.0, float('inf')):
        try:
            Geom1D([[0, 1]]).buffer(bad)
        except Exception:
            ctx.count('inexact amount refused')
            continue
        ctx.fail('inexact amount accepted', amount=bad)
