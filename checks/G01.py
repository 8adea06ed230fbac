"""1D interval sets: exact set algebra in canonical form."""
import math
import random
from fractions import Fraction as PF
from gmpy2 import mpq, mpz

from plycutter.geometry.geom1d import Geom1D

from vlib import iv1

RULE = ('random expression trees over random interval lists (integer grid, '
        'rationals, huge, infinite ends; overlapping, nested, touching, '
        'zero-length, unsorted, duplicated); each node compared with an '
        'independent event-sweep set model and checked for canonical form; '
        'non-trivial: at least two operands with intervals')
MIN_EVALUATIONS = {'quick': 20000, 'thorough': 300000}


def jobs(tier, seed):
    n, k = (16, 1500) if tier == 'quick' else (64, 12000)
    return [(seed * 1000 + i, k) for i in range(n)]


OPS = [('|', lambda a, b: a | b, lambda a, b: a or b),
       ('&', lambda a, b: a & b, lambda a, b: a and b),
       ('-', lambda a, b: a - b, lambda a, b: a and not b),
       ('^', lambda a, b: a ^ b, lambda a, b: a != b)]


def agree(ctx, g, model, what):
    got = iv1.intervals(g)
    if got is None:
        ctx.fail('interval list is not canonical', what=what,
                 got=list(g.get_intervals()))
    ctx.check(got == model, 'wrong set', what=what, got=got, want=model)
    ctx.check(g.is_empty() == (not model), 'is_empty wrong', what=what,
              got=got)


def run_job(job, ctx):
    seed, k = job
    rng = random.Random(seed)
    for c in range(k):
        mode = rng.choice(iv1.MODES)
        pool = []
        raw = []
        for _ in range(rng.randint(2, 4)):
            ivs = iv1.raw(rng, mode)
            raw.append(ivs)
            ctx.current = raw
            src = [list(v) for v in ivs]
            if rng.random() < .3:
                src = [tuple(v) for v in src]
            if rng.random() < .2:
                src = iter(src)
            g = Geom1D(src)
            m = iv1.norm(ivs)
            agree(ctx, g, m, ('construct', ivs))
            ctx.count('constructions')
            pool.append((g, m))
        if rng.random() < .1:
            pool.append((Geom1D.empty(), []))
            agree(ctx, *pool[-1], 'empty()')
        if rng.random() < .1:
            pool.append((Geom1D.full(), [(-math.inf, math.inf)]))
            agree(ctx, *pool[-1], 'full()')
        for _ in range(rng.randint(1, 6)):
            if rng.random() < .2:
                g, m = rng.choice(pool)
                r = ~g
                mm = iv1.combine([m], lambda a: not a)
                agree(ctx, r, mm, ('~', m))
                ctx.count('op ~')
            else:
                (g1, m1), (g2, m2) = rng.choice(pool), rng.choice(pool)
                name, fg, fm = rng.choice(OPS)
                r = fg(g1, g2)
                mm = iv1.combine([m1, m2], fm)
                agree(ctx, r, mm, (name, m1, m2))
                ctx.count('op ' + name)
            pool.append((r, mm))
        # operands unchanged by everything that happened
        for g, m in pool:
            agree(ctx, g, m, ('operand after use', m))
        ctx.case((mode, raw), sum(1 for r in raw if iv1.norm(r)) >= 2,
                 dict(mode=mode, raw=raw) if c == 0 else None)
    # equal sets have equal lists whatever the way they were written
    for _ in range(k // 4):
        mode = rng.choice(iv1.MODES)
        ivs = iv1.raw(rng, mode)
        m = iv1.norm(ivs)
        alt = []
        for a, b in m:
            if math.inf in (abs(a), abs(b)):
                alt.append((a, b))
                continue
            cut = a + (b - a) * mpq(rng.randint(1, 6), 7)
            alt += [(a, cut), (cut, b)]
        rng.shuffle(alt)
        alt += rng.sample(m, min(len(m), 1))
        a, b = Geom1D(ivs), Geom1D(alt)
        ctx.check(list(map(tuple, a.get_intervals()))
                  == list(map(tuple, b.get_intervals())),
                  'same set, different lists', a=ivs, b=alt)
        ctx.case(('same', ivs), bool(m))
    # inexact ends refused, exact ones of every class accepted
    for bad in (0.5, 1.0, 0.1, float('nan')):
        for iv in ([[bad, mpq(3)]], [[mpq(-1), bad]], [[bad, bad]],
                   [[mpq(0), mpq(1)], [bad, mpq(7)]]):
            try:
                Geom1D(iv)
            except Exception:
                ctx.count('inexact end refused')
                continue
            ctx.fail('inexact end point accepted', iv=iv)
    for a, b in ((0, 1), (mpz(0), mpz(1)), (PF(0), PF(1)), (mpq(0), 1)):
        agree(ctx, Geom1D([[a, b]]), [(mpq(0), mpq(1))], 'exact classes')
    try:
        Geom1D([[mpq(2), mpq(1)]])
    except Exception:
        ctx.count('reversed interval refused')
    else:
        ctx.fail('reversed interval accepted')
