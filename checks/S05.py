"""S05: placement and mesh order do not change plates, joints, parts."""
import itertools
import random

import numpy as np
from gmpy2 import mpq

from plycutter import canned, sheetbuild

from vlib import iv1, models, pipe, run, sp3

RULE = ('one evaluation = one model compared with a moved, turned, '
        'renumbered or retriangulated copy: plates matched in space, areas '
        'of faces and cross-sections, joints and available joint lengths; '
        'complete runs also compare the finished cover; distinct = distinct '
        '(model specification, variant)')
MIN_EVALUATIONS = {'quick': 30, 'thorough': 300}
ASSUMPTIONS = ['relative tolerance 1e-8 on areas and lengths, 0.2 % on the '
               'initial areas (the octagonal reach does not turn with the '
               'part) and on the finished cover']


def jobs(tier, seed):
    if tier == 'quick':
        return [('full', seed * 100069 + i) for i in range(8)] + \
            [('ext', seed * 100071 + i, 2) for i in range(18)]
    return [('full', seed * 100069 + i) for i in range(80)] + \
        [('ext', seed * 100071 + i, 3) for i in range(200)]


def variants(rng, s, k):
    v = []
    for _ in range(k):
        kind = rng.choice(['near', 'far', 'turn', 'turn', 'turnfar', 'axis',
                           'perm', 'remesh'])
        n = rng.randrange(10 ** 6)
        if kind == 'near':
            v.append(('moved', s, n, 30, False))
        elif kind == 'far':
            v.append(('moved', s, n, rng.choice([1500, 8000, 2 * 10 ** 5]), False))
        elif kind == 'turn':
            v.append(('moved', s, n, rng.choice([0, 20]), True))
        elif kind == 'turnfar':
            v.append(('moved', s, n, rng.choice([1500, 8000, 2 * 10 ** 5]), True))
        elif kind == 'axis':
            v.append(('axis', s, n, rng.choice([0, 100])))
        else:
            v.append((kind, s, n))
    return v


def placement(spec):
    """(R, t) from the base model to the variant."""
    if spec[0] == 'moved':
        rng = random.Random(spec[2])
        R = models.rotation(rng) if spec[4] else np.eye(3)
        t = np.array([rng.uniform(-1, 1) * spec[3] for _ in range(3)])
        return R, t
    if spec[0] == 'axis':
        return pipe.axis_placement(spec)
    return np.eye(3), np.zeros(3)


def match(ctx, R, t, a, b, tol):
    """sheet id of a -> sheet id of b, flipped?"""
    res = {}
    left = dict(b.sheets)
    for sid, sh in a.sheets.items():
        n = R @ np.asarray(sh.normal(0))
        h0 = sh.offset(0) + n @ t
        h1 = -sh.offset(1) + n @ t
        hit = []
        for x, o in left.items():
            c = n @ np.asarray(o.normal(0))
            if c > 1 - 1e-6 and abs(o.offset(0) - h0) < tol and \
                    abs(-o.offset(1) - h1) < tol:
                hit.append((x, False))
            if c < -1 + 1e-6 and abs(o.offset(0) + h1) < tol and \
                    abs(o.offset(1) - h0) < tol:
                hit.append((x, True))
        ctx.check(len(hit) == 1, 'moving the model lost or duplicated a '
                  'plate', sheet=sid, hits=hit)
        res[sid] = hit[0]
        del left[hit[0][0]]
    ctx.check(not left, 'moving the model invented a plate', left=list(left))
    return res


def close(x, y, rel=1e-8):
    return abs(x - y) <= rel * (1 + abs(x) + abs(y))


def lengths(sb, sp, inter):
    res = []
    for side in inter.sides:
        iv = iv1.intervals(sb.interside_ok[side.id])
        iv = [(float(x), float(y)) for x, y in iv]
        m = []
        for lo, hi in iv:
            if m and lo - m[-1][1] < 1e-5:
                m[-1] = (m[-1][0], hi)
            else:
                m.append((lo, hi))
        res.append([(lo, hi) for lo, hi in m if hi - lo > 1e-5])
    return res


def compare(ctx, spec, vspec, full):
    ma, mb = pipe.model(spec), pipe.model(vspec)
    R, t = placement(vspec)
    # where the octagonal support reach ends depends on the orientation; it
    # must not be what limits the joints compared here
    pa = pipe.params(ma.thickness, **(
        dict(support_radius=mpq(70)) if spec[0] in ('furn', 'fold') else {}))
    ext = sp3.scale_of(mb)
    tol = sp3.tol(mb)
    a, b = pipe.sheetplex(ma, pa), pipe.sheetplex(mb, pa)
    m = match(ctx, R, t, a, b, tol)
    for x, (y, flip) in m.items():
        A, B = a.sheets[x], b.sheets[y]
        fb = list(B.faces)[::-1] if flip else list(B.faces)
        pairs = dict(face0=(A.faces[0], fb[0]), face1=(A.faces[1], fb[1]),
                     both=(A.both_faces, B.both_faces),
                     largest=(A.slices_max, B.slices_max),
                     smallest=(A.slices_min, B.slices_min))
        for k, (g, h) in pairs.items():
            # 'both' compares only areas: it is in sheet coordinates
            ctx.check(close(float(g.area()), float(h.area())), 'area '
                      'changes with the placement', which=k, sheet=x,
                      before=float(g.area()), after=float(h.area()))
            ctx.count('areas compared')
    ka = {frozenset(m[s][0] for s in i.sheets()): i
          for i in a.intersections.values()}
    kb = {frozenset(i.sheets()): i for i in b.intersections.values()}
    ctx.check(set(ka) == set(kb), 'joints change with the placement',
              before=sorted(map(sorted, ka)), after=sorted(map(sorted, kb)))
    sa = sheetbuild.create_sheetbuild(a, pa)
    sb = sheetbuild.create_sheetbuild(b, pa)
    for k in ka:
        la, lb = lengths(sa, a, ka[k]), lengths(sb, b, kb[k])
        ctx.check(len(la[0]) == len(lb[0]), 'available stretches change with '
                  'the placement', joint=ka[k].id, before=la, after=lb)
        ta = sum(hi - lo for lo, hi in la[0])
        tb = sum(hi - lo for lo, hi in lb[0])
        ctx.check(close(ta, tb), 'available length changes with the '
                  'placement', joint=ka[k].id, before=la, after=lb)
        # in space: direction may be reversed
        da = R @ np.asarray(ka[k].direction)
        db = np.asarray(kb[k].direction)
        s = np.sign(da @ db)
        ctx.check(abs(abs(da @ db) - 1) < 1e-6, 'joint direction turned')
        shift = t @ da
        pa_ = sorted((lo + shift, hi + shift) for lo, hi in la[0])
        pb_ = sorted((lo * s, hi * s) if s > 0 else (hi * s, lo * s)
                     for lo, hi in lb[0])
        tl = 1e-7 + 1e-9 * ext
        ctx.check(all(abs(x[0] - y[0]) < tl and abs(x[1] - y[1]) < tl
                      for x, y in zip(pa_, pb_)),
                  'available stretches moved relative to the model',
                  joint=ka[k].id, before=pa_, after=pb_)
        ctx.count('joints compared')
        ctx.maximum('available joint length', ta)
    for x, (y, _) in m.items():
        for k, d0, d1 in (('allowed', sa.sheet_ok, sb.sheet_ok),
                          ('decided', sa.sheet_chosen, sb.sheet_chosen)):
            g, h = float(d0[x].area()), float(d1[y].area())
            # the reach octagon does not turn with the sheet
            ctx.check(close(g, h, 2e-3), 'initial %s area changes with the '
                      'placement' % k, sheet=x, before=g, after=h)
    if full:
        cov = []
        for sp in (a, b):
            r = canned.canned_1(sp, pa)
            tot = sum(float(g.area())
                      for g in r.sheetbuild.sheet_chosen.values())
            cov.append(tot * float(ma.thickness) / float(ma.mesh.volume))
            ctx.check(all(float(g.area()) > 1 for g in
                          r.sheetbuild.sheet_chosen.values()),
                      'a part vanished', placement=vspec)
        ctx.check(abs(cov[0] - cov[1]) < 2e-3, 'the finished parts cover '
                  'the model differently', cover=cov, model=spec,
                  placement=vspec)
        ctx.maximum('difference of cover (ppm)', 1e6 * abs(cov[0] - cov[1]))
        ctx.count('complete runs compared')


def run_job(job, ctx):
    rng = random.Random(job[1])
    if job[0] == 'full':
        spec = sp3.fresh(rng, rng.choice(
            [pipe.small] * 5 + [pipe.furniture] * 2 + [pipe.corner]))
        v = variants(rng, spec, 1)[0]
        ctx.current = (spec, v)
        compare(ctx, spec, v, True)
        ctx.case((spec, v), True, (spec, v))
        return
    for _ in range(job[2]):
        spec = sp3.fresh(rng, sp3.base)
        for v in variants(rng, spec, 1):
            ctx.current = (spec, v)
            compare(ctx, spec, v, False)
            ctx.case((spec, v), True, (spec, v))
