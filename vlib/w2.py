"""Workloads of 2D operations, as streams of (name, operands, fn, op)."""
import operator
import random
from gmpy2 import mpq

from . import gen2, geo2

from plycutter.geometry.geom2d import Geom2D

BOOL = {'|': lambda *a: any(a), '&': lambda a, b: a and b,
        '-': lambda a, b: a and not b, '^': lambda a, b: a != b,
        'union': lambda *a: any(a)}
FN = {'|': operator.or_, '&': operator.and_, '-': operator.sub,
      '^': operator.xor}


def poly(pts):
    return Geom2D.polygon(pts, reorient=True)


def nverts(g):
    return sum(len(r) for p in g.polygons()
               for r in [list(p.exterior())] + [list(h) for h in p.holes()])


def rnd(rng, size=8):
    return poly(gen2.polygon(rng, size))


def jittered(rng, g, eps):
    """The same shape displaced by a tiny amount."""
    dx, dy = (eps * rng.choice([-1, 0, 1]) for _ in range(2))
    return g.transformed_with(
        lambda r: [(p[0] + dx, p[1] + dy) for p in r])


def chain(rng, n, size=8):
    """Random expression trees."""
    made = 0
    while made < n:
        kind = rng.random()
        if kind < .55:
            pool = [rnd(rng, size) for _ in range(4)]
        elif kind < .8:
            pool = [poly(gen2.rect(rng, rng.choice(['int', 'half'])))
                    for _ in range(6)]
        else:
            a = rnd(rng, size)
            pool = [a, jittered(rng, a, mpq(1, 10**12)),
                    jittered(rng, a, mpq(1, 3)), rnd(rng, size)]
        pool.append(Geom2D.empty())
        for _ in range(8):
            a, b = rng.choice(pool), rng.choice(pool)
            if rng.random() < .05:
                b = a
            o = rng.choice('|||&&---^')
            made += 1
            r = yield o, [a, b], FN[o], BOOL[o]
            if r is not None and nverts(r) < 45:
                pool.append(r)


def sq(x0, y0, x1, y1):
    return Geom2D.rectangle(*(mpq(v) for v in (x0, y0, x1, y1)))


def grid(rng, n):
    """Many coincidences: cell unions on a small grid, point contacts,
    rings, islands, all combined with each other."""
    made = 0
    while made < n:
        N = rng.choice([3, 4, 5])
        pool = []
        for _ in range(3):
            k = rng.randint(1, N * N - 1)
            cs = rng.sample([(i, j) for i in range(N) for j in range(N)], k)
            geoms = [sq(i, j, i + 1, j + 1) for i, j in cs]
            made += 1
            r = yield 'union', geoms, None, BOOL['union']
            if r is not None:
                pool.append(r)
        if len(pool) < 2:
            continue
        for _ in range(5):
            a, b = rng.choice(pool), rng.choice(pool)
            if rng.random() < .3:
                h = mpq(rng.choice([1, 2, 3]), rng.choice([2, 3, 4]))
                b = b.transformed_with(
                    lambda r: [(p[0] + h, p[1] + h * rng.choice([1]))
                               for p in r])
            if rng.random() < .2:
                b = b.transformed_with(
                    lambda r: [(p[0] + p[1], p[1] - p[0]) for p in r])
            o = rng.choice('|&-^')
            made += 1
            r = yield o, [a, b], FN[o], BOOL[o]
            if r is not None and nverts(r) < 60:
                pool.append(r)


def nested(rng, n):
    """Rings within rings within rings, side by side, touching or not."""
    made = 0
    while made < n:
        depth = rng.randint(2, 5)
        cur = None
        for lvl in range(depth):
            m = lvl * 2
            W = 4 * depth
            shape = sq(m, m, W - m, W - m)
            if rng.random() < .3 and m < W - m - 2:
                c = mpq(W, 2)
                r = c - m
                shape = poly([(c - r, c), (c, c + r), (c + r, c),
                              (c, c - r)])
            if cur is None:
                cur = shape
                continue
            o = rng.choice('-^-|')
            made += 1
            res = yield o, [cur, shape], FN[o], BOOL[o]
            if res is not None:
                cur = res
        k = rng.randint(1, 3)
        parts = [cur]
        for i in range(1, k):
            d = mpq(4 * depth * i) + rng.choice([0, 0, 1, -1])
            parts.append(cur.transformed_with(
                lambda r: [(p[0] + d, p[1] + rng.choice([0])) for p in r]))
        made += 1
        allp = yield 'union', parts, None, BOOL['union']
        if allp is None:
            continue
        cut = rnd(rng, 6).transformed_with(
            lambda r: [(p[0] % 17 if False else p[0], p[1]) for p in r])
        bar = sq(-1, depth, 40, depth + 1)
        for b in (cut, bar):
            o = rng.choice('|&-^')
            made += 1
            yield o, [allp, b], FN[o], BOOL[o]


SIZES = [0, 1, 2, 3, 5, 8, 17, 33, 63, 64, 65, 66, 67, 96, 127, 128, 129,
         130, 192, 193, 200]


def many(rng, sizes):
    """Unions of lists around and beyond the batch sizes."""
    for k in sizes:
        kind = rng.choice(['scatter', 'row', 'heap'])
        geoms = []
        for i in range(k):
            if kind == 'scatter':
                x, y = rng.randint(0, 40), rng.randint(0, 40)
                geoms.append(sq(x, y, x + rng.randint(1, 2),
                                y + rng.randint(1, 2)))
            elif kind == 'row':
                geoms.append(sq(i, 0, i + 1, rng.randint(1, 3)))
            else:
                x, y = rng.randint(0, 12), rng.randint(0, 12)
                geoms.append(poly([(mpq(x), mpq(y)), (mpq(x), mpq(y + 1)),
                                   (mpq(x + 1), mpq(y))]))
        if k and rng.random() < .3:
            geoms.insert(rng.randrange(k), Geom2D.empty())
        rng.shuffle(geoms)
        yield 'union', geoms, None, BOOL['union']


def buffered(rng, n):
    """Booleans of grown / shrunk shapes (octagonal corners)."""
    made = 0
    while made < n:
        a = rnd(rng, 5)
        b = geo2.bounds([geo2.region(a)])
        w = max(b[2] - b[0], b[3] - b[1])
        r = w * mpq(rng.randint(1, 20), 100)
        g = a.buffer(r if rng.random() < .7 else -r / 4)
        if nverts(g) > 45:
            continue
        for other in (a, rnd(rng, 5)):
            o = rng.choice('|&-^')
            made += 1
            yield o, [g, other], FN[o], BOOL[o]


def stream(kind, rng, n):
    return dict(chain=chain, grid=grid, nested=nested, many=many,
                buffered=buffered)[kind](rng, n)


def execute(o, geoms, fn):
    if fn is None:
        return Geom2D.union(list(geoms))
    return fn(*geoms)


def drive(kind, rng, n, visit):
    """Run the workload, calling visit(op, geoms, result, bool_op)."""
    st = stream(kind, rng, n)
    r = None
    started = False
    try:
        while True:
            o, geoms, fn, bop = st.send(r) if started else next(st)
            started = True
            r = visit(o, geoms, fn, bop)
    except StopIteration:
        pass
