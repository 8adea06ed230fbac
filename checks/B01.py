"""B01: the initial build state against model and parameters."""
import random

import numpy as np
from gmpy2 import mpq

from plycutter import sheetbuild
from plycutter.geometry.geom1d import Geom1D
from plycutter.geometry.geom2d import Geom2D

from vlib import build, geo2, iv1, pipe, run, sp3

RULE = ('one evaluation = one sheet or one joint side of an initial state, '
        'recomputed from faces, cross-sections and bands; distinct = '
        'distinct (model, parameters, sheet or side) with something allowed')
MIN_EVALUATIONS = {'quick': 250, 'thorough': 3000}
ASSUMPTIONS = ['growth and set operations of the repository are used as the '
               'reference (decided separately by G03, G06); areas compared '
               'to 1e-9, loose specks below 0.01 square units may be '
               'dropped from the decided area; "near" surface visible on both sides means within '
               '1 unit']


def jobs(tier, seed):
    n = 60 if tier == 'quick' else 900
    return [('m', seed * 100183 + i) for i in range(n)]


def project(side, region):
    """Union of the ranges of the pieces of a region along the joint."""
    d = [mpq(x) for x in side.direction]
    o = mpq(side.origin_offset)
    iv = []
    for out, _ in region:
        c = [x * d[0] + y * d[1] - o for x, y in out]
        iv.append((min(c), max(c)))
    return iv1.norm(iv)


def inter(a, b):
    return iv1.combine([a, b], lambda x, y: x and y)


def near_equal(a, b):
    """Canonical interval lists equal up to 1e-9."""
    a = [i for i in a if i[1] - i[0] > 1e-9]
    b = [i for i in b if i[1] - i[0] > 1e-9]
    return len(a) == len(b) and all(
        abs(x[0] - y[0]) < 1e-9 and abs(x[1] - y[1]) < 1e-9
        for x, y in zip(a, b))


def run_job(job, ctx):
    rng = random.Random(job[1])
    spec = sp3.fresh(rng, lambda r: sp3.variant(r, sp3.base(r)) if
                     r.random() < .4 else r.choice(
                         [pipe.small, pipe.corner, sp3.base,
                          lambda q: ('ribs', q.randrange(10 ** 6))])(r))
    m = pipe.model(spec)
    p = pipe.params(m.thickness, support_radius=mpq(rng.choice(
        [12, 12, 5, mpq(1, 2), 30, mpq(33, 4), 2])))
    ctx.current = (spec, p['support_radius'])
    sp = pipe.sheetplex(m, p)
    sb = sheetbuild.create_sheetbuild(sp, p)
    r = p['support_radius']
    ctx.check(set(sb.sheet_ok) == set(sb.sheet_chosen) == set(sp.sheets),
              'state without all sheets')
    sides = {s.id: s for s in sp.intersides()}
    ctx.check(set(sb.interside_ok) == set(sb.interside_chosen) ==
              set(sides), 'state without all joint sides')
    for s, sh in sp.sheets.items():
        f0, f1 = sh.faces
        want = f0.buffer(r) & f1.buffer(r) & sh.slices_max
        d = float((want ^ sb.sheet_ok[s]).area())
        ctx.check(d < 1e-9, 'allowed area is not the material within the '
                  'support radius of both faces', sheet=s, difference=d,
                  missing=float((want - sb.sheet_ok[s]).area()), radius=r)
        ctx.count('sheets')
        ctx.case((spec, str(r), s), not want.is_empty(), spec)
    avail = {}
    for k, side in sides.items():
        ext = int(4 * sp3.scale_of(m)) + 100
        band = side.make_fingers(Geom1D([(mpq(-ext), mpq(ext))]))
        avail[k] = project(side, geo2.region(
            sb.sheet_ok[side.sheet] & band))
        ctx.check(sb.interside_chosen[k].is_empty(), 'a joint position is '
                  'decided at the start', side=k)
    for k, side in sides.items():
        opp = side.opposite(sp)
        want = inter(avail[k], avail[opp.id])
        got = iv1.intervals(sb.interside_ok[k])
        ctx.check(near_equal(got, want), 'available joint positions are not '
                  'those where both sheets may have material in the band',
                  side=k, got=got, want=want, own=avail[k],
                  other=avail[opp.id])
        ctx.check(got == iv1.intervals(sb.interside_ok[opp.id]),
                  'the two sides of a joint start with different available '
                  'positions', side=k)
        ctx.count('joint sides')
        ctx.count('available stretches', len(got))
        ctx.case((spec, str(r), k), bool(got), spec)
    for s, sh in sp.sheets.items():
        want = (sh.faces[0] & sh.faces[1]).buffer(1) & sh.slices_max
        for side in sp.intersides(s):
            want = want - side.make_fingers(sb.interside_ok[side.id])
        extra = float((sb.sheet_chosen[s] - want).area())
        missing = want - sb.sheet_chosen[s]
        ctx.check(extra < 1e-9 and all(
            q.area() < .01 for q in missing.polygons()),
            'decided area is not the area near both faces minus the '
            'available joint areas', sheet=s, extra=extra,
            missing=float(missing.area()))
        ctx.maximum('initially decided area',
                    float(sb.sheet_chosen[s].area()))
