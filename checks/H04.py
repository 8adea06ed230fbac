"""H04: every finished part is one connected piece."""
import random

import numpy as np
from gmpy2 import mpq

from vlib import build, geo2, models, parts, pipe, run, sp3

RULE = ('one evaluation = one finished part of one connected model, after '
        'kerf compensation; distinct = distinct (model, parameters, part)')
MIN_EVALUATIONS = {'quick': 40, 'thorough': 500}
ASSUMPTIONS = ['pieces of less than 1e-4 square units are numerical specks']


def jobs(tier, seed):
    n = 56 if tier == 'quick' else 260
    return [('r', seed * 100267 + i, tier) for i in range(n)]


def pieces(g):
    return [p for p in geo2.region(g)
            if abs(geo2.exact_area([p])) > mpq(1, 10 ** 4)]


def sh_band(first, side):
    return side.make_fingers(first.interside_ok[side.id]) & \
        first.sheet_ok[side.sheet]


def run_job(job, ctx):
    rng = random.Random(job[1])
    if job[2] == 'thorough' and rng.random() < .4:
        spec = sp3.fresh(rng, lambda r: r.choice([
            ('rand', r.randrange(10 ** 6)),
            ('tube', r.choice([3, 4, 5]), 3, 30, 20, r.uniform(0, 1))]))
        _, kw = build.workload(rng)
        kw['support_radius'] = 16
    else:
        spec, kw = build.workload(rng, heavy=.35)
    dil = rng.choice([mpq(1, 20), mpq(1, 20), mpq(1, 8), mpq(1, 50)])
    ctx.current = (spec, kw, dil)
    m, p, sp, r = build.run(spec, kw)
    for s in sorted(sp.sheets):
        g = r.sheet_cuts[s].buffer(dil)
        ps = pieces(g)
        ctx.case((spec, kw, s), True, (spec, kw, s))
        ctx.count('parts')
        if len(ps) > 1:
            # a plate that passes through another is held together only by
            # its fingers: a crossing too short for fingers is excepted
            h = r.sheet_cuts[s]
            for side in sp.intersides(s):
                if r.sheetbuild.interside_chosen[side.id].is_empty():
                    h = h | sh_band(r.history[0], side)
            if len(pieces(h.buffer(dil))) == 1:
                ctx.count('parts split at a crossing without fingers')
                continue
        ctx.check(len(ps) == 1, 'a finished part has %d pieces' % len(ps),
                  part=s, areas=[float(geo2.exact_area([q])) for q in ps],
                  model=m.name, spec=spec, params=kw)
        ctx.maximum('vertices of a part', sum(len(o) + sum(map(len, h))
                                              for o, h in ps))
        sh = sp.sheets[s]
        both = sh.faces[0] & sh.faces[1]
        for poly in r.sheet_cuts[s].buffer(dil).polygons():
            if poly.area() > mpq(1, 10 ** 4):
                ctx.check((poly & both).area() > 0, 'material that is not '
                          'connected to area visible on both sides', part=s)
