"""W02: kerf compensation of the written parts."""
import argparse
import contextlib
import os
import random

import numpy as np
import shapely
import shapely.geometry as sg
from gmpy2 import mpq

from plycutter import canned, command_line, create_sheetplex
from plycutter.geometry.geom2d import Geom2D

from checks import W01
from vlib import build, cli, geo2, pipe, run, sp3, w2

RULE = ('one evaluation = one drawing written by the command for one '
        'dilation, compared with the finished parts (real or put in place of '
        'the processing result); distinct = distinct (parts, dilation)')
MIN_EVALUATIONS = {'quick': 200, 'thorough': 3000}
ASSUMPTIONS = ['distances of drawn outlines from the finished parts lie '
               'between 0.92 and 1.003 of the dilation (octagon)',
               'the exact grown shape is that of Geom2D.buffer (G06)']


def jobs(tier, seed):
    q = tier == 'quick'
    return [('full', seed * 100343 + i) for i in range(8 if q else 100)] + \
        [('model', seed * 100357 + i, 6 if q else 10)
         for i in range(8 if q else 100)] + \
        [('syn', seed * 100361 + i, 10 if q else 30)
         for i in range(16 if q else 100)]


def dilation(rng, real=False):
    k = rng.random()
    if k < .12:
        return mpq(0)
    if real:
        v = rng.choice([mpq(5, 100), mpq(1, 10), mpq(1, 8), mpq(1, 3),
                        mpq(7, 1000), mpq(1, 1), mpq(rng.randint(1, 200),
                                                     997)])
    else:
        v = rng.choice([mpq(5, 100), mpq(1, 10), mpq(1, 3), mpq(1, 2),
                        mpq(rng.randint(1, 800), 997), mpq(3)])
    return -v if rng.random() < .4 else v


@contextlib.contextmanager
def instead(make):
    """The processing result replaced by make(sheetplex, params)."""
    old = canned.canned_1
    seen = []

    def stub(sheetplex, params, *a, **k):
        seen.append(params)
        return make(sheetplex, params)
    places = [(m, n) for m in (canned, command_line)
              for n in list(vars(m)) if vars(m)[n] is old]
    for m, n in places:
        setattr(m, n, stub)
    try:
        yield seen
    finally:
        for m, n in places:
            setattr(m, n, old)


def command(args):
    try:
        command_line.main(args)
    except SystemExit as e:
        if e.code not in (0, None):
            raise run.HarnessProblem('options refused: %r' % (args,))


def judge(ctx, path, cuts, d, tag):
    try:
        loops = cli.read_loops(path)
    except ValueError as e:
        ctx.fail('the drawing is not as it should be: %s' % e, case=tag)
    want = {}
    for k in sorted(cuts):
        g = cuts[k].buffer(d) if d else cuts[k]
        if not g.is_empty():
            want[k] = cli.rings(g)
    ctx.check(len(loops) == sum(len(v) for v in want.values()),
              'wrong number of outlines', got=len(loops),
              want={k: len(v) for k, v in want.items()}, dilation=d,
              case=tag)
    left = sorted(((min(x for x, _ in r), r) for r in loops),
                  key=lambda t: t[0])
    todo = dict(want)
    while todo:
        for k in list(todo):
            got = W01.take(ctx, left, todo[k])
            if got is not None:
                break
        else:
            ctx.fail('an outline is not that of a part grown by the '
                     'requested amount', dilation=d, outline=left[0][1][:8],
                     case=tag)
        b, g = cli.bbox(todo[k]), cli.bbox([r for _, r in got])
        distances(ctx, cuts[k], [r for _, r in got], g[0] - b[0],
                  g[1] - b[1], float(d), tag, len([
                      1 for c in cuts if want.get(c) == want[k]]) > 1)
        for r in got:
            left.remove(r)
        del todo[k]
        ctx.count('parts')
    ctx.case((tag, d), len(want) > 0, (tag, d))
    ctx.count('outlines', len(loops))
    ctx.count('parts that vanished', len(cuts) - len(want))
    ctx.count('dilation %s' % ('zero' if d == 0 else 'positive' if d > 0
                               else 'negative'))


def distances(ctx, cut, loops, dx, dy, d, tag, twin):
    g = sp3.shape(cut)
    edge = shapely.boundary(g)
    pts = []
    for r in loops:
        a = np.array(r) - (dx, dy)
        b = np.roll(a, -1, 0)
        for t in (0, .31, .5, .83):
            pts.append(a + (b - a) * t)
    pts = np.concatenate(pts)
    P = shapely.points(pts)
    dist = shapely.distance(edge, P)
    eps = 1e-9 * max(1, np.abs(pts).max())
    lo, hi = (.92 * abs(d), 1.003 * abs(d))
    ctx.check((dist >= lo - eps).all() and (dist <= hi + eps).all(),
              'outline at the wrong distance from the part', dilation=d,
              nearest=dist.min(), furthest=dist.max(), case=tag)
    if d:
        ins = shapely.contains_xy(g, pts[:, 0], pts[:, 1])
        ctx.check(ins.all() if d < 0 else not ins.any(),
                  'outline on the wrong side of the part', dilation=d,
                  case=tag)
        ctx.maximum('nearest / dilation', -dist.min() / abs(d))
        ctx.maximum('furthest / dilation', dist.max() / abs(d))
    ctx.count('outline points measured', len(pts))


def synthetic(rng):
    """Parts with coordinates of ordinary size."""
    while True:
        g = W01.shape(rng)
        reg = geo2.region(g)
        if not reg:
            if rng.random() < .3:
                return g
            continue
        b = geo2.bounds([reg])
        size = max(b[2] - b[0], b[3] - b[1])
        if max(abs(v) for v in b) < 10 ** 5 and w2.nverts(g) < 60 and \
                size > mpq(1, 2):
            return g


def run_job(job, ctx):
    rng = random.Random(job[1])
    kind = job[0]
    with cli.Scratch() as s:
        out = s.path('out.dxf')
        if kind == 'full':
            spec, kw = build.workload(rng, heavy=0, furn=.1)
            while spec[0] == 'stl':
                spec, kw = build.workload(rng, heavy=0, furn=.1)
            m = pipe.model(spec)
            p = pipe.params(m.thickness, **kw)
            p['final_dilation'] = d = dilation(rng, True)
            ctx.current = (spec, kw, d)
            path = s.model(spec)
            import trimesh
            cuts = canned.canned_1(create_sheetplex.create_sheetplex(
                trimesh.load(path), p), p).sheet_cuts
            command(cli.option_args(p) + ['-o', out, path])
            judge(ctx, out, cuts, d, (spec, kw))
            ctx.count('complete runs of the command')
            return
        spec = ('fold', (90,), (24, 24), 4, 20)
        if kind == 'model':
            spec, kw = build.workload(rng, heavy=.1)
            m, p, sp, r = build.run(spec, kw)
        path = s.model(('fold', (90,), (24, 24), 4, 20))
        for i in range(job[2]):
            if kind == 'syn':
                n = rng.choice([1, 2, 3, 5])
                cuts = {'sheet_%d' % k: synthetic(rng) for k in range(n)}
                result = argparse.Namespace(
                    ok=True, sheet_cuts=cuts, history=[], params={},
                    sheetbuild=argparse.Namespace(sheet_chosen=cuts))
                tag = sorted((k, repr(geo2.region(v)))
                             for k, v in cuts.items())
            else:
                cuts, result, tag = r.sheet_cuts, r, (spec, kw)
            d = dilation(rng, kind == 'model')
            ctx.current = (tag, d)
            before = {k: geo2.region(v) for k, v in cuts.items()}
            with instead(lambda *a: result) as seen:
                command(['--thickness=4', '--final_dilation=%s' % d, '-o',
                         out, path])
            if not seen:
                # the command gets at the processing in another way: it
                # ran completely
                ctx.count('processing not replaceable')
                import trimesh
                p = pipe.params(4, final_dilation=d)
                cuts = canned.canned_1(create_sheetplex.create_sheetplex(
                    trimesh.load(path), p), p).sheet_cuts
                judge(ctx, out, cuts, d, (i, d))
                continue
            judge(ctx, out, cuts, d, tag)
            for k, v in cuts.items():
                ctx.check(geo2.region(v) == before[k], 'a part was changed')
