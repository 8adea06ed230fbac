"""2D results are clean polygons with holes with exact area."""
import random
from gmpy2 import mpq

from plycutter.geometry.geom2d import Geom2D

from vlib import geo2, pipe, run, w2

RULE = ('results of the same operation streams as G03 (and of growing and '
        'shrinking); ring structure, orientation, hole placement, disjoint '
        'interiors, no shared boundary stretch, exact area, emptiness and '
        'split-into-pieces checked on each; non-trivial: result non-empty')
MIN_EVALUATIONS = {'quick': 2500, 'thorough': 50000}


def jobs(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed * 7 + 4)
    res = [('pipe', m, seed, 60 if q else 1200)
           for m in pipe.op_sources(tier)]
    res += [('many', rng.randrange(10**9), [k])
            for k in ([2, 17, 64, 65, 66, 130] if q else w2.SIZES * 6)]
    for kind, n, k in (('chain', 32, 60), ('grid', 24, 25),
                       ('nested', 24, 25), ('buffered', 8, 25)):
        for _ in range(n if q else 16 * n):
            res.append((kind, rng.randrange(10**9), k))
    return res


def structure(ctx, what, rr):
    w = geo2.well_formed(rr, True)
    if w is not None:
        ctx.fail('malformed result', op=what, why=w, result=rr)
    ctx.count('rings checked', sum(1 + len(h) for _, h in rr))


def run_job(job, ctx):
    kind, arg, k = job[0], job[1], job[2]
    if kind == 'pipe':
        for o, regs, rr in pipe.recorded_ops(arg, job[2], job[3], ctx):
            if o in ('shapely', 'polygon') or rr in regs:
                continue
            structure(ctx, (o, regs), rr)
            ctx.case((o, rr), bool(rr))
            ctx.count('pipeline results ' + o)
        return
    rng = random.Random(arg)

    def result(what, g, want_area=None):
        rr = geo2.region(g)
        structure(ctx, what, rr)
        a = g.area()
        if isinstance(a, float):
            ctx.fail('area is a float', op=what)
        true = geo2.exact_area(rr)
        ctx.check(a == true, 'area is not the exact covered area', op=what,
                  result=rr, got=a, want=true)
        if want_area is not None:
            ctx.check(a == want_area, 'area is not that of the set '
                      'operation', op=what, got=a, want=want_area)
        ctx.check(bool(g.is_empty()) == (true == 0),
                  'emptiness wrong', op=what, result=rr)
        # pieces
        ps = g.polygons()
        ps = list(ps)
        s = mpq(0)
        again = []
        for p in ps:
            s += p.area()
            sub = list(p.polygons())
            ctx.check(len(sub) == 1, 'a piece is not one polygon', op=what)
            again += geo2.region(p)
        ctx.check(s == a, 'areas of the pieces do not add up', op=what)
        ctx.check(again == rr, 'pieces differ from the shape', op=what)
        segs = sorted(tuple(sorted((tuple(u), tuple(v))))
                      for u, v in g.all_segments())
        want = sorted(tuple(sorted(e)) for e in geo2.region_edges(rr))
        ctx.check(segs == want, 'boundary segments differ from outlines',
                  op=what)
        ctx.count('areas', 1)
        ctx.case((kind, rr), bool(rr),
                 (what[0], rr) if len(str(rr)) < 600 else None)
        return rr

    def visit(o, geoms, fn, bop):
        regs = [geo2.region(g) for g in geoms]
        ctx.current = (o, regs)
        with run.limit(150):
            r = w2.execute(o, geoms, fn)
        if any(g is r for g in geoms):
            return r
        n, mis, st = geo2.check_op(regs, geo2.region(r), bop)
        # membership is decided by G03; here the area of the operands' set
        result((o, regs), r, None if mis else st['area'])
        if kind == 'buffered':
            b = geo2.bounds([geo2.region(r)])
            for f in (mpq(1, 20), mpq(-1, 20)):
                if w2.nverts(r) < 25:
                    result(('buffer', f), r.buffer((b[2] - b[0]) * f))
        return r
    w2.drive(kind, rng, k, visit)
    e = Geom2D.empty()
    ctx.check(e.is_empty() and e.area() == 0 and not list(e.polygons()),
              'empty() is not empty')
