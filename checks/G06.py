"""Growing and shrinking a 2D shape is an exact Minkowski operation."""
import random
from gmpy2 import mpq

from plycutter.geometry.geom2d import Geom2D

from vlib import gen2, geo2, pipe, run, w2

RULE = ('random shapes (reflex corners, combs, holes, several pieces, results '
        'of operations, pipeline shapes) x signed amounts from 1/1000 of to '
        'larger than the shape; the structuring octagon is measured from the '
        'growth of a square and checked (symmetric, support within '
        '[0.92,1.002] of the amount); membership of sampled points (around '
        'all result and shape boundaries, cell centres, random) compared with '
        'exact dilation/erosion by it; non-trivial: both members and '
        'non-members among the points')
MIN_EVALUATIONS = {'quick': 350, 'thorough': 8000}
ASSUMPTIONS = ['away from boundary lines', 'the octagon may differ from the '
               'ideal circle radius by 0.2 percent, as in the code']


def jobs(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed * 13 + 6)
    res = [('pipe', m, seed, 50 if q else 600)
           for m in pipe.op_sources(tier)]
    for kind, n, k in (('rand', 48, 6), ('ops', 24, 4), ('grid', 12, 5),
                       ('multi', 8, 4)):
        for _ in range(n if q else 24 * n):
            res.append((kind, rng.randrange(10**9), k))
    return res


_memo = {}


def octagon(ctx, r):
    """Half planes nx*x+ny*y <= h of the structuring element for radius r,
    measured on the real operation."""
    if r in _memo:
        return _memo[r]
    s = r * 7
    res = geo2.region(w2.sq(-s, -s, s, s).buffer(r))
    ctx.check(len(res) == 1 and not res[0][1],
              'growing a square does not give one simple polygon', r=r,
              got=res)
    ring = res[0][0]
    if geo2.ring_area2(ring) < 0:
        ring = ring[::-1]
    H = []
    for a, b in geo2.edges(ring):
        nx, ny = b[1] - a[1], -(b[0] - a[0])        # outward, ccw ring
        big = nx * a[0] + ny * a[1]
        h = big - s * (abs(nx) + abs(ny))           # minus support of square
        ln2 = nx * nx + ny * ny
        ctx.check(h > 0 and (mpq(92, 100) * r) ** 2 * ln2 <= h * h
                  <= (mpq(1002, 1000) * r) ** 2 * ln2,
                  'growth distance is not the requested amount', r=r,
                  direction=(float(nx), float(ny)),
                  ratio=float(h) / float(r) / float(ln2) ** .5)
        H.append((nx, ny, h))
    for nx, ny, h in H:
        ctx.check(any(mx * ny == my * nx and mx * nx + my * ny < 0
                      and g * g * (nx * nx + ny * ny)
                      == h * h * (mx * mx + my * my)
                      for mx, my, g in H),
                  'growth is not the same in opposite directions', r=r,
                  direction=(float(nx), float(ny)))
    # the corners of the element reach the requested distance
    far = mpq(0)
    n = len(H)
    for i in range(n):
        for j in range(i):
            a, b = H[i], H[j]
            d = a[0] * b[1] - a[1] * b[0]
            if d == 0:
                continue
            x = (a[2] * b[1] - b[2] * a[1]) / d
            y = (a[0] * b[2] - b[0] * a[2]) / d
            if all(c[0] * x + c[1] * y <= c[2] for c in H):
                far = max(far, x * x + y * y)
    ctx.check((mpq(998, 1000) * r) ** 2 <= far <= (mpq(1003, 1000) * r) ** 2,
              'reach of the growth is not the requested amount', r=r,
              reach=float(far) ** .5 / float(r))
    if len(_memo) > 200:
        _memo.clear()
    _memo[r] = H
    return H


def near(seg, p, H):
    """2: the open element centred at p meets the segment, 1: it only touches
    it with its boundary, 0: not even that."""
    res = 0
    for closed in (False, True):
        lo, hi = mpq(0), mpq(1)
        (x0, y0), (x1, y1) = seg
        for nx, ny, h in H:
            f0 = nx * (x0 - p[0]) + ny * (y0 - p[1])
            f1 = nx * (x1 - p[0]) + ny * (y1 - p[1])
            d = f1 - f0
            if d == 0:
                if f0 > h or (f0 == h and not closed):
                    break
            else:
                t = (h - f0) / d
                if d < 0:
                    lo = max(lo, t)
                else:
                    hi = min(hi, t)
                if lo > hi or (lo == hi and not closed):
                    break
        else:
            return 1 if closed else 2
    return res


def judge(ctx, rng, reg, r, rr):
    es = list(geo2.region_edges(reg))
    A = abs(r)
    H = octagon(ctx, A)
    b = geo2.bounds([reg])
    pts = []
    R = lambda: mpq(rng.randint(0, 10**6), 10**6)  # noqa
    for _ in range(20):
        pts.append((b[0] - A + (b[2] - b[0] + 2 * A) * R(),
                    b[1] - A + (b[3] - b[1] + 2 * A) * R()))
    for s0, s1 in (es if len(es) < 60 else rng.sample(es, 60)):
        for _ in range(2):
            t = R()
            pts.append((s0[0] + (s1[0] - s0[0]) * t + A * (R() * 22 - 11) / 10,
                        s0[1] + (s1[1] - s0[1]) * t + A * (R() * 22 - 11) / 10
                        ))
    eps = A / 10**9
    re = list(geo2.region_edges(rr))
    for s0, s1 in (re if len(re) < 60 else rng.sample(re, 60)):
        t = R()
        m = (s0[0] + (s1[0] - s0[0]) * t, s0[1] + (s1[1] - s0[1]) * t)
        for dx in (-1, 1):
            pts.append((m[0] + dx * eps, m[1] + rng.choice([-1, 1]) * eps))
            pts.append((s0[0] + dx * eps, s0[1] + rng.choice([-1, 1]) * eps))
    cs = [c[0] for c in geo2.cells([reg, rr])] if len(es) + len(re) < 80 \
        else []
    pts += cs if len(cs) < 60 else rng.sample(cs, 60)
    seen = set()
    for p in pts:
        ins = geo2.region_contains(reg, *p)
        got = geo2.region_contains(rr, *p)
        if ins is None or got is None:
            continue
        nr = max((near(s, p, H) for s in es), default=0)
        if nr == 1:
            # exactly in touching distance: no area around decides
            ctx.count('touching, undecided')
            continue
        want = (ins or nr) if r > 0 else (ins and not nr)
        seen.add(want)
        ctx.check(got == bool(want), 'wrong point in grown/shrunk shape',
                  amount=r, shape=reg, point=p, got=got, want=want,
                  inside=ins)
    ctx.count('points decided', len(pts))
    ctx.count('grown' if r > 0 else 'shrunk')
    if not rr:
        ctx.count('vanished')
    if len(rr) > len(reg):
        ctx.count('split')
    if len(rr) < len(reg):
        ctx.count('merged or lost pieces')
    return len(seen) > 1


def run_job(job, ctx):
    kind, arg, k = job[:3]
    if kind == 'pipe':
        rng = random.Random(job[2])
        n = 0
        for op, regs, rr, extra in pipe.recorded(arg, job[2], job[3], ctx,
                                                 every=5):
            if op != 'buffer':
                continue
            if extra == 0:
                continue
            nt = judge(ctx, rng, regs[0], mpq(extra), rr)
            ctx.case((regs, extra), nt)
            ctx.count('pipeline growths')
        return
    rng = random.Random(arg)
    for c in range(k):
        if kind == 'rand':
            g = w2.rnd(rng, rng.choice([5, 8, 12]))
        elif kind == 'ops':
            g = w2.rnd(rng)
            for _ in range(rng.randint(1, 2)):
                h = w2.rnd(rng)
                g = rng.choice([lambda: g | h, lambda: g - h,
                                lambda: g ^ h])()
            if rng.random() < .4:
                b = geo2.bounds([geo2.region(g)])
                w, hh = b[2] - b[0], b[3] - b[1]
                g = w2.sq(b[0] - w / 3, b[1] - hh / 4, b[2] + w / 5,
                          b[3] + hh / 3) - g
        elif kind == 'grid':
            N = 4
            cs = rng.sample([(i, j) for i in range(N) for j in range(N)],
                            rng.randint(4, 12))
            g = Geom2D.union([w2.sq(i, j, i + 1, j + 1) for i, j in cs])
        else:
            g = Geom2D.union([w2.sq(5 * i, rng.randint(0, 2), 5 * i + 4, 6)
                              for i in range(4)])
            g = g - w2.sq(1, 3, 18, 4)
        reg = geo2.region(g)
        if not reg or w2.nverts(g) > 40:
            continue
        b = geo2.bounds([reg])
        w = max(b[2] - b[0], b[3] - b[1])
        for r in (w * mpq(rng.randint(1, 30), 100),
                  rng.choice([w / 1000, w / 2, w * 3, mpq(1, 2), mpq(1),
                              mpq(1, 8), mpq(1, 100)])):
            if rng.random() < .5:
                r = -r
            if rng.random() < .1 and r.denominator == 1:
                amount = int(r)
            else:
                amount = r
            ctx.current = (reg, r)
            with run.limit(200):
                res = g.buffer(amount)
            rr = geo2.region(res)
            wf = geo2.well_formed(rr, True)
            ctx.check(wf is None, 'malformed result', shape=reg, amount=r,
                      why=wf)
            nt = judge(ctx, rng, reg, r, rr)
            ctx.check(geo2.region(g) == reg, 'operand changed', shape=reg)
            ctx.case((reg, r), nt, (reg, r) if len(reg[0][0]) < 6 else None)
        if c == 0:
            z = g.buffer(0)
            ctx.check(geo2.region(z) == reg or geo2.check_op(
                [reg], geo2.region(z), lambda a: a)[1] is None,
                'zero growth changes the shape', shape=reg)
            e = Geom2D.empty().buffer(mpq(1))
            ctx.check(e.is_empty(), 'growing nothing gives something')
            for bad in (0.5, 1.0, -0.25):
                try:
                    g.buffer(bad)
                except Exception:
                    continue
                ctx.fail('inexact amount accepted', amount=bad)
            # proportionality
            a, b2 = octagon(ctx, mpq(1)), octagon(ctx, mpq(7, 3))
            ctx.check(len(a) == len(b2) and all(
                abs(q[2] * mpq(3, 7) / p[2] - 1) < mpq(1, 200) for p, q in
                zip(sorted((x[0] / (abs(x[0]) + abs(x[1])),
                            x[1] / (abs(x[0]) + abs(x[1])),
                            x[2] / (abs(x[0]) + abs(x[1]))) for x in a),
                    sorted((x[0] / (abs(x[0]) + abs(x[1])),
                            x[1] / (abs(x[0]) + abs(x[1])),
                            x[2] / (abs(x[0]) + abs(x[1]))) for x in b2))),
                'growth is not proportional to the amount')
