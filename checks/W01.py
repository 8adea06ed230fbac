"""W01: the drawing holds exactly the parts, to scale, side by side."""
import itertools
import random

from gmpy2 import mpq

import ezdxf

from plycutter import writer
from plycutter.geometry.geom2d import Geom2D

from vlib import build, cli, geo2, pipe, run, sp3, w2

RULE = ('one evaluation = one written file, parsed by two independent '
        'readers and matched outline by outline with the shapes given; '
        'distinct = distinct lists of shapes')
MIN_EVALUATIONS = {'quick': 700, 'thorough': 15000}
ASSUMPTIONS = ['coordinates compared to 1e-9 of their size']


def jobs(tier, seed):
    q = tier == 'quick'
    return [('syn', seed * 100313 + i, 40 if q else 120)
            for i in range(24 if q else 160)] + \
        [('real', seed * 100333 + i) for i in range(6 if q else 60)]


def shape(rng):
    k = rng.random()
    if k < .08:
        return Geom2D.empty()
    if k < .3:
        g = w2.rnd(rng, rng.choice([5, 8, 14]))
    elif k < .45:       # several pieces, islands in holes
        W = rng.randint(10, 20)
        g = w2.sq(0, 0, W, W) - w2.sq(1, 1, W - 1, W - 1) | \
            w2.sq(3, 3, 5, 6) | w2.sq(W + 2, 1, W + 3, rng.randint(2, 9))
    elif k < .6:        # many holes
        n = rng.randint(1, 6)
        g = w2.sq(0, 0, 3 * n + 1, 7)
        for i in range(n):
            g = g - w2.sq(3 * i + 1, 1, 3 * i + 2, 3)
            if rng.random() < .5:
                g = g - w2.poly([(mpq(3 * i + 1), mpq(4)),
                                 (mpq(3 * i + 2), mpq(4)),
                                 (mpq(3 * i + 2), mpq(6))])
    elif k < .75:
        N = rng.choice([3, 4, 6])
        cs = rng.sample([(i, j) for i in range(N) for j in range(N)],
                        rng.randint(1, N * N - 1))
        g = Geom2D.union([w2.sq(i, j, i + 1, j + 1) for i, j in cs])
    elif k < .85:       # many vertices
        n = rng.randint(40, 160)
        pts = [(mpq(i), mpq(5 if i % 2 else rng.randint(6, 9)))
               for i in range(n)]
        g = w2.poly(pts + [(mpq(n), mpq(0)), (mpq(0), mpq(0))])
    elif k < .93:
        g = w2.rnd(rng, 6).buffer(mpq(1, 20))
    else:               # thin
        g = w2.sq(0, 0, mpq(1, 1000), rng.randint(1, 500))
    if rng.random() < .5:
        s = rng.choice([mpq(1, 7), mpq(25, 3), mpq(1), mpq(1000)])
        dx, dy = (rng.choice([0, -1, 1]) * mpq(rng.randint(0, 10 ** 6),
                                               rng.choice([1, 3, 1000]))
                  for _ in range(2))
        g = g.transformed_with(
            lambda r: [(p[0] * s + dx, p[1] * s + dy) for p in r])
    if not g.is_empty() and max(abs(v) for v in geo2.bounds(
            [geo2.region(g)])) > 10 ** 7:
        # beyond what the coordinates of a drawing resolve
        return shape(rng)
    return g


def run_job(job, ctx):
    rng = random.Random(job[1])
    with cli.Scratch() as s:
        if job[0] == 'real':
            spec, kw = build.workload(rng, heavy=0, furn=.1)
            m, p, sp, r = build.run(spec, kw)
            d = rng.choice([mpq(1, 20), mpq(0), mpq(-1, 10), mpq(1, 3)])
            one(ctx, s, {k: v.buffer(d) for k, v in r.sheet_cuts.items()},
                (spec, kw))
            ctx.count('files of real parts')
            return
        pool = [shape(rng) for _ in range(12)]
        for i in range(job[2]):
            if rng.random() < .5:
                pool[rng.randrange(12)] = shape(rng)
            n = rng.choice([0, 1, 1, 2, 3, 4, 6, 10])
            if rng.random() < .03:
                n = 40
            gs = [rng.choice(pool) for _ in range(n)]
            names = rng.sample(['S%d' % j for j in range(60)] +
                               ['b', 'a-1', 'Ünïcode', '', ' '], n)
            one(ctx, s, dict(zip(names, gs)), i)


def one(ctx, s, geoms, tag):
    path = s.path('out.dxf')
    regs = {k: geo2.region(g) for k, g in geoms.items()}
    ctx.current = regs
    writer.write_dxf(path, geoms)
    for k, g in geoms.items():
        ctx.check(geo2.region(g) == regs[k], 'writing changes a shape')
    try:
        loops = cli.read_loops(path)
    except (ValueError, IndexError) as e:
        ctx.fail('the drawing is not as it should be: %s' % e, shapes=regs)
    # the library's own reader agrees
    doc = ezdxf.readfile(path)
    ctx.check(not doc.audit().has_errors, 'damaged file')
    ents = list(doc.modelspace())
    ctx.check(len(ents) == len(loops) and all(
        e.dxftype() == 'LWPOLYLINE' for e in ents),
        'readers disagree about the drawing')
    want = {}
    for k, reg in regs.items():
        rs = [[(float(x), float(y)) for x, y in r]
              for o, hs in reg for r in [o] + list(hs)]
        if rs:
            want[k] = rs
    ctx.check(len(loops) == sum(len(v) for v in want.values()),
              'wrong number of outlines', got=len(loops),
              want={k: len(v) for k, v in want.items()}, shapes=regs)
    # split the drawing into parts: left to right, the boxes are disjoint,
    # so every part is a consecutive group of outlines
    left = [(min(x for x, _ in r), r) for r in loops]
    todo = dict(want)
    left.sort(key=lambda t: t[0])
    boxes = []
    # which part is next?  the order is not prescribed: try the given one
    # first, else any that matches
    while todo:
        for k in list(todo):
            got = take(ctx, left, todo[k])
            if got is not None:
                break
        else:
            ctx.fail('the outlines at the left of what remains are not those '
                     'of any part', remaining=len(left), outline=left[0][1][:8],
                     shapes=regs)
        for r in got:
            left.remove(r)
        boxes.append(cli.bbox([r for _, r in got]))
        del todo[k]
    ctx.check(not left, 'something extra is drawn')
    for a, b in zip(boxes, boxes[1:]):
        ctx.check(b[0] - a[2] > .5, 'parts overlap or have no gap',
                  boxes=(a, b), shapes=regs)
        ctx.count('gaps seen')
    # every pair, in case of strange orders
    for a, b in itertools.combinations(boxes, 2):
        ctx.check(a[2] < b[0] or b[2] < a[0], 'parts overlap',
                  boxes=(a, b))
    ctx.case(tuple(sorted((k, repr(v)) for k, v in want.items())),
             len(want) > 1)
    ctx.count('outlines', len(loops))
    ctx.count('files')
    ctx.count('empty parts', len(regs) - len(want))
    ctx.maximum('parts in a file', len(want))
    ctx.maximum('vertices of an outline', max(
        (len(r) for v in want.values() for r in v), default=0))


def take(ctx, left, rings):
    """The group of drawn outlines that is this part, at the very left."""
    b = cli.bbox(rings)
    size = max(abs(v) for v in b)
    size = max(size, max(abs(v) for v in cli.bbox(
        [r for _, r in left[:1] + left[-1:]])))
    eps = 1e-9 * max(1.0, size)
    group = left[:len(rings)]
    g = cli.bbox([r for _, r in group])
    dx, dy = g[0] - b[0], g[1] - b[1]
    if abs(g[2] - b[2] - dx) > eps or abs(g[3] - b[3] - dy) > eps:
        return None
    rest = [ring_key(r, -dx, -dy) for _, r in group]
    for r in rings:
        k = ring_key(r, 0, 0)
        for i, c in enumerate(rest):
            if len(c) == len(k) and same(c, k, eps):
                del rest[i]
                break
        else:
            return None
    return group


def ring_key(r, dx, dy):
    return [(x + dx, y + dy) for x, y in r]


def same(a, b, eps):
    """Equal as closed outlines (any start, any direction)."""
    n = len(a)
    x0, y0 = a[0]
    for d in (1, -1):
        for s in range(n):
            x, y = b[s]
            if abs(x - x0) > eps or abs(y - y0) > eps:
                continue
            if all(abs(a[i][0] - b[(s + d * i) % n][0]) <= eps and
                   abs(a[i][1] - b[(s + d * i) % n][1]) <= eps
                   for i in range(n)):
                return True
    return False
