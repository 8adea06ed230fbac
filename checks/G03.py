"""2D boolean operations are exact and never fail."""
import random

from vlib import geo2, pipe, run, w2

RULE = ('operation streams (random expression trees, coincident grid shapes, '
        'nested rings, list unions around the batch size, octagonal grown '
        'shapes, and the operations recorded from real pipeline runs); each '
        'result compared with the boolean combination of its operands on '
        'every cell of the exact trapezoid decomposition of all boundaries; '
        'non-trivial: at least two distinct operand memberships occur')
MIN_EVALUATIONS = {'quick': 2500, 'thorough': 50000}
ASSUMPTIONS = ['points exactly on boundary lines are not judged',
               'operands are valid (simple) polygons with holes']


def jobs(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed)
    res = [('pipe', m, seed, 90 if q else 1200)
           for m in pipe.op_sources(tier)]
    res += [('many', rng.randrange(10**9), [k])
            for k in (w2.SIZES if q else w2.SIZES * 6)][::-1]
    for kind, n, k in (('chain', 40, 60), ('grid', 20, 25),
                       ('nested', 16, 25), ('buffered', 8, 25)):
        for _ in range(n if q else 16 * n):
            res.append((kind, rng.randrange(10**9), k))
    return res


def judge(ctx, o, regs, rr, bop):
    n, mis, st = geo2.check_op(regs, rr, bop)
    ctx.count('cells decided', n)
    if mis:
        ctx.fail('result differs from the set operation', op=o, why=mis,
                 operands=regs, result=rr)
    return st


def run_job(job, ctx):
    kind, arg, k = job[0], job[1], job[2]
    if kind == 'pipe':
        for o, regs, rr in pipe.recorded_ops(arg, job[2], job[3], ctx):
            if o in w2.BOOL:
                st = judge(ctx, o, regs, rr, w2.BOOL[o])
                ctx.case((o, regs), len(st.get('combos', ())) > 1)
                ctx.count('pipeline ops ' + o)
        return
    rng = random.Random(arg)

    def visit(o, geoms, fn, bop):
        regs = [geo2.region(g) for g in geoms]
        ctx.current = (o, regs)
        with run.limit(150):
            r = w2.execute(o, geoms, fn)
        rr = geo2.region(r)
        st = judge(ctx, o, regs, rr, bop)
        ctx.case((o, regs), len(st.get('combos', ())) > 1,
                 (o, regs) if len(str(regs)) < 500 else None)
        ctx.count('ops ' + o)
        ctx.count('workload ' + kind)
        ctx.maximum('result vertices', sum(len(p[0]) for p in rr))
        ctx.maximum('polygons in a result', len(rr))
        ctx.maximum('holes in a polygon',
                    max([len(p[1]) for p in rr], default=0))
        return r
    w2.drive(kind, rng, k, visit)
