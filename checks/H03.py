"""H03: finger widths, alternation, completeness."""
import functools
import math
import random

import numpy as np
from gmpy2 import mpq

from plycutter import canned, heuristics, sheetbuild
from plycutter.geometry.geom1d import Geom1D

from vlib import build, iv1, pipe, run, sp3

RULE = ('one evaluation = one stretch free for both sheets, before and after '
        'fingers are placed (in complete runs and on states with prepared '
        'stretches), or one random partition of a length; distinct = '
        'distinct (stretch length, finger limits, seed)')
MIN_EVALUATIONS = {'quick': 1000, 'thorough': 30000}
ASSUMPTIONS = ['width tolerance 1e-6',
               'with exactly one possible number of fingers, giving the '
               'stretch to one sheet whole is accepted (the number must also '
               'match the neighbours at both ends)']
TOL = 1e-6


def jobs(tier, seed):
    q = tier == 'quick'
    return [('run', seed * 100213 + i) for i in range(10 if q else 160)] + \
        [('prep', seed * 100223 + i, 16 if q else 150)
         for i in range(16 if q else 120)] + \
        [('part', seed * 100237 + i, 400 if q else 4000)
         for i in range(8 if q else 32)]


def total(sets):
    return sum((b - a for a, b in sets), mpq(0))


def free(sb):
    res = {}
    for iid, inter in sb.sheetplex.intersections.items():
        a, b = (s.id for s in inter.sides)
        f = (sb.interside_ok[a] & sb.interside_ok[b]) - \
            sb.interside_chosen[a] - sb.interside_chosen[b]
        res[iid] = iv1.intervals(f)
    return res


def check_stretch(ctx, before, after, inter, lo, hi, mn, mx, tag):
    w = hi - lo
    seg = Geom1D([(lo, hi)])
    sets = [iv1.intervals(after.interside_chosen[s.id] & seg)
            for s in inter.sides]
    ps = sorted([(a, b, k) for k in (0, 1) for a, b in sets[k]
                 if b - a > TOL])
    ctx.check(ps, 'a free stretch is left undecided', stretch=(lo, hi),
              case=tag)
    pos = lo
    for a, b, k in ps:
        ctx.check(abs(a - pos) < TOL, 'fingers leave a gap or overlap',
                  stretch=(float(lo), float(hi)), fingers=ps, case=tag)
        pos = b
    ctx.check(abs(pos - hi) < TOL, 'fingers do not fill the stretch',
              stretch=(float(lo), float(hi)), fingers=ps, case=tag)
    for x, y in zip(ps, ps[1:]):
        ctx.check(x[2] != y[2], 'neighbouring fingers belong to the same '
                  'sheet', fingers=ps, case=tag)
    ctx.count('fingers', len(ps))
    ctx.maximum('fingers in a stretch', len(ps))
    if len(ps) == 1 and not (mn - TOL <= w <= mx + TOL):
        n_lo = math.ceil(w / mx - 1e-12)
        n_hi = math.floor(w / mn + 1e-12)
        ctx.check(n_hi - max(n_lo, 1) < 1, 'a stretch that fingers could '
                  'fill is given to one sheet whole', width=float(w),
                  limits=(mn, mx), numbers=(n_lo, n_hi), case=tag)
        ctx.count('stretches given whole')
        return
    for a, b, k in ps:
        ctx.check(mn - TOL <= b - a <= mx + TOL, 'finger width outside the '
                  'limits', width=float(b - a), limits=(float(mn), float(mx)),
                  stretch=float(w), fingers=[float(y - x) for x, y, _ in ps],
                  case=tag)
        ctx.maximum('narrowest / minimum', -float((b - a) / mn))
        ctx.maximum('widest / maximum', float((b - a) / mx))


def full(job, ctx):
    rng = random.Random(job[1])
    spec, kw = build.workload(rng, heavy=.1)
    ctx.current = (spec, kw)
    m, p, sp, r = build.run(spec, kw)
    h = list(r.history) + [r.sheetbuild]
    for a, b in zip(h, h[1:]):
        fa = free(a)
        ta = sum(total(x) for x in fa.values())
        if ta == 0:
            continue
        tb = sum(total(x) for x in free(b).values())
        if tb > 1e-6:
            continue
        # this is the step that placed the fingers
        for iid, iv in fa.items():
            for lo, hi in iv:
                if hi - lo < 1e-3:
                    continue
                check_stretch(ctx, a, b, sp.intersections[iid], lo, hi,
                              p['min_finger_width'], p['max_finger_width'],
                              (spec, kw, iid))
                ctx.case((float(hi - lo), repr(kw)), True, (spec, iid))
                ctx.count('stretches in complete runs')
        break


@functools.lru_cache(maxsize=8)
def start(spec):
    m = pipe.model(spec)
    p = pipe.params(m.thickness)
    return sheetbuild.create_sheetbuild(pipe.sheetplex(m, p), p)


def stretch_lengths(rng, mn, mx, room):
    k = rng.random()
    n = rng.randint(1, 9)
    if k < .2:
        w = n * mn
    elif k < .4:
        w = n * mx
    elif k < .5:
        w = n * mx + rng.choice([-1, 1]) * mpq(1, 10 ** rng.choice([3, 9]))
    elif k < .6:
        w = n * mn + rng.choice([-1, 1]) * mpq(1, 10 ** rng.choice([3, 9]))
    else:
        w = mpq(rng.randint(1, 1000), 1000) * room
    return min(max(w, mpq(1, 2)), room)


def prep(job, ctx):
    rng = random.Random(job[1])
    T = 3
    spec = rng.choice([
        ('walls', (60, 30, 30), T, ('y0', 'z0')),
        ('walls', (24, 90, 24), T, ('x0', 'z1')),
        ('walls', (24, 24, 130), T, ('x1', 'y0')),
        ('fold', (60,), (24, 24), T, 70),
        ('walls', (40, 36, 50), T, ('x0', 'x1', 'y1'))])
    base = start(spec)
    sp = base.sheetplex
    f = getattr(heuristics, 'single_fingers_random', None)
    if f is None:
        raise run.HarnessProblem('no single_fingers_random')
    for _ in range(job[2]):
        mn = mpq(rng.choice([1, 2, 3, 3, mpq(5, 2), mpq(31, 10)]))
        mx = mn * rng.choice([1, 1, mpq(3, 2), mpq(5, 3), 2, 4,
                              mpq(101, 100)])
        seed = rng.randrange(10 ** 4)
        sb = base
        plan = []
        for iid, inter in sorted(sp.intersections.items()):
            a, b = (s.id for s in inter.sides)
            ok = iv1.intervals(base.interside_ok[a])
            if not ok:
                continue
            lo, hi = max(ok, key=lambda i: i[1] - i[0])
            room = hi - lo
            w = stretch_lengths(rng, mn, mx, room)
            off = (room - w) * mpq(rng.randint(0, 6), 6)
            keep = [(lo + off, lo + off + w)]
            if rng.random() < .3 and off > mn + 3:
                # another stretch before it
                w2 = stretch_lengths(rng, mn, mx, off - 2)
                keep.append((lo, lo + w2))
            drop = base.interside_ok[a] - Geom1D(keep)
            # what is not free goes to one side, to the other, or to nobody
            for x, y in iv1.intervals(drop):
                g = Geom1D([(x, y)])
                k = rng.random()
                if k < .35:
                    sb = sb.choose_interside(a, g, tentative=True)
                elif k < .7:
                    sb = sb.choose_interside(b, g, tentative=True)
                else:
                    sb = sb.unchoose_intersides({a: g, b: g})
            plan.append((iid, keep))
        p = pipe.params(T, min_finger_width=mn, max_finger_width=mx,
                        random_seed=seed)
        tag = (spec, [(i, [(str(x), str(y)) for x, y in k])
                      for i, k in plan], str(mn), str(mx), seed)
        ctx.current = tag
        after = f(sb, p)
        left = sum(total(x) for x in free(after).values())
        ctx.check(left < TOL, 'free positions are left undecided',
                  length=float(left), case=tag)
        for iid, keep in plan:
            for lo, hi in keep:
                check_stretch(ctx, sb, after, sp.intersections[iid], lo, hi,
                              mn, mx, tag)
                ctx.case((float(hi - lo), float(mn), float(mx), seed), True,
                         tag)
                ctx.count('prepared stretches')


def partition(job, ctx):
    f = getattr(heuristics, 'random_min_max', None)
    if f is None:
        ctx.count('random_min_max not there')
        for i in range(job[2]):
            ctx.case(('absent', job[1], i))
        return
    rng = random.Random(job[1])
    for i in range(job[2]):
        mn = mpq(rng.choice([1, 2, 3, mpq(5, 2), mpq(31, 10),
                             mpq(rng.randint(1, 500), 97)]))
        mx = mn * rng.choice([1, 1, mpq(3, 2), 2, 7, mpq(1001, 1000)])
        n = rng.choice([1, 1, 2, 3, 5, 10, 40, 150])
        k = rng.choice([0, 1, mpq(1, 10 ** 12), 1 - mpq(1, 10 ** 12),
                        mpq(rng.randint(0, 1000), 1000)])
        tot = n * mn + (n * mx - n * mn) * k
        s = rng.randrange(10 ** 6)
        ctx.current = (n, mn, mx, tot, s)
        if rng.random() < .3:
            mn, mx, tot = float(mn), float(mx), float(tot)
            tot = min(max(tot, mn * n), mx * n)
        spans = [(float(a), float(b)) for a, b in
                 f(n, mn, mx, tot, np.random.RandomState(s))]
        ctx.case((n, float(mn), float(mx), float(tot)), n > 1)
        ctx.check(len(spans) == n, 'wrong number of parts', n=n, got=spans)
        ctx.check(abs(spans[0][0]) < 1e-9 and
                  abs(spans[-1][1] - float(tot)) < 1e-6,
                  'parts do not fill the length', got=spans, total=float(tot))
        for a, b in zip(spans, spans[1:]):
            ctx.check(abs(a[1] - b[0]) < 1e-9, 'parts are not adjacent',
                      got=spans)
        for a, b in spans:
            ctx.check(float(mn) - TOL <= b - a <= float(mx) + TOL,
                      'part outside the limits', got=b - a, mn=mn, mx=mx,
                      n=n, total=tot)
        ctx.count('partitions')


def run_job(job, ctx):
    {'run': full, 'prep': prep, 'part': partition}[job[0]](job, ctx)
