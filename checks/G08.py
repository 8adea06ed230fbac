"""Shapes are values: no operation changes an operand or loses exactness."""
import decimal
import fractions
import math
import random

import numpy as np
from gmpy2 import mpq, mpz

from plycutter import plytypes
from plycutter.geometry.geom1d import Geom1D
from plycutter.geometry.geom2d import Geom2D

from vlib import gen2, geo2, iv1, pipe, run, w2

RULE = ('pools of 2D and 1D shapes on which random operations are applied '
        'repeatedly (booleans, list union, growth, transforms, projection, '
        'location, splitting, area, drawing, iteration); after every '
        'operation all operands, and at the end of the history every shape '
        'ever made, are compared with a deep snapshot taken when it was '
        'made; every coordinate of every result must be an exact rational; '
        'operations repeated later must cover the same set; plus refusals of '
        'inexact coordinates/amounts, and every shape of a real pipeline run '
        'rechecked at its end; non-trivial: shape used at least twice')
MIN_EVALUATIONS = {'quick': 800, 'thorough': 20000}

Q = type(mpq(1))


def jobs(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed * 19 + 8)
    res = [('pipe', m, seed, 0) for m in pipe.op_sources(tier)[:3 if q else 5]]
    for kind, n, k in (('hist2', 32, 30), ('hist1', 8, 300),
                       ('life', 24, 3), ('refuse', 8, 30)):
        for _ in range(n if q else 24 * n):
            res.append((kind, rng.randrange(10**9), k, 0))
    return res


def snap2(g):
    """Everything observable of a shape, deeply copied."""
    return (geo2.region(g), [tuple((tuple(p), tuple(r)) for p, r in
                                   g.all_segments())], g.area())


def exact2(ctx, g, what):
    for s in g.all_segments():
        for p in s:
            for c in p:
                if type(c) is not Q:
                    ctx.fail('result coordinate is not an exact rational',
                             what=what, coordinate=(type(c), c))
    for p in g.polygons():
        for r in [p.exterior()] + list(p.holes()):
            for v in r:
                for c in v:
                    if type(c) is not Q:
                        ctx.fail('result coordinate is not an exact rational',
                                 what=what, coordinate=(type(c), c))
    a = g.area()
    ctx.check(type(a) is Q or a == 0, 'area is not exact', what=what, got=a)


def hist2(ctx, rng, k):
    for _ in range(k // 10):
        pool = []

        def add(g, what):
            exact2(ctx, g, what)
            pool.append([g, snap2(g), 0])
            return len(pool) - 1

        for _ in range(3):
            add(w2.rnd(rng, 6), 'polygon')
        add(Geom2D.empty(), 'empty')
        add(w2.sq(0, 0, 4, 4) - w2.sq(1, 1, 2, 2), 'ring')
        log = []
        for step in range(16):
            i, j = rng.randrange(len(pool)), rng.randrange(len(pool))
            a, b = pool[i][0], pool[j][0]
            pool[i][2] += 1
            pool[j][2] += 1
            o = rng.choice(['|', '&', '-', '^', '|', '&', '-', '^', 'union',
                            'buffer', 'map', 'project', 'locate', 'split',
                            'mpatch'])
            log.append((o, i, j))
            ctx.current = log
            used = [i, j]
            if o in w2.FN:
                if w2.nverts(a) + w2.nverts(b) > 60:
                    continue
                r = w2.FN[o](a, b)
                n = add(r, o)
                r2 = w2.FN[o](a, b)
                if geo2.region(r2) != geo2.region(r):
                    bad = geo2.check_op([geo2.region(r)], geo2.region(r2),
                                        lambda x: x)[1]
                    ctx.check(bad is None, 'repeating an operation gives '
                              'another set', log=log, why=bad)
                ctx.count('repeated operations')
            elif o == 'union':
                used = [rng.randrange(len(pool)) for _ in range(4)]
                lst = [pool[u][0] for u in used]
                if sum(map(w2.nverts, lst)) > 60:
                    continue
                keep = list(lst)
                add(Geom2D.union(lst), o)
                ctx.check(len(lst) == len(keep) and all(
                    x is y for x, y in zip(lst, keep)),
                    'union changed the list it was given', log=log)
            elif o == 'buffer':
                if w2.nverts(a) > 25:
                    continue
                bb = geo2.bounds([geo2.region(a)])
                w = bb[2] - bb[0]
                add(a.buffer(w * mpq(rng.choice([-1, 1, 3]), 20)), o)
                add(a.buffer(rng.choice([1, mpz(2), mpq(1, 3), 0, -1]))
                    if w > mpq(1, 10**3) and w < 10**6 else a, o)
            elif o == 'map':
                d = gen2.coord(rng, 'rat')
                add(a.transformed_with(
                    lambda r: [np.array((d - p[0], p[1] + d), object)
                               for p in r]), o)
            elif o == 'project':
                v = (mpq(rng.randint(-5, 5)), mpq(rng.randint(1, 5)))
                g1 = a.project_to_1d(v, mpq(1, 7))
                ctx.check(iv1.intervals(g1) is not None,
                          'projection not exact', got=g1.get_intervals())
            elif o == 'locate':
                a.locate((mpq(rng.randint(-5, 5)), mpq(1, 3)))
            elif o == 'split':
                for p in a.polygons():
                    add(p, o)
            elif o == 'mpatch':
                a.to_mpatch()
            for u in used:
                if snap2(pool[u][0]) != pool[u][1]:
                    ctx.fail('an operand was changed by an operation',
                             operation=o, log=log, before=pool[u][1][0],
                             after=geo2.region(pool[u][0]))
            ctx.count('2D operations')
        for n, (g, s, uses) in enumerate(pool):
            if snap2(g) != s:
                ctx.fail('a shape changed after it was made', number=n,
                         log=log, before=s[0], after=geo2.region(g))
            ctx.case((n, s[0]), uses > 1)


def hist1(ctx, rng, k):
    for _ in range(k // 10):
        mode = rng.choice(iv1.MODES)
        pool = []

        def add(g, what):
            iv = iv1.intervals(g)
            ctx.check(iv is not None, 'inexact or non-canonical 1D result',
                      what=what, got=g.get_intervals())
            pool.append((g, iv, repr(g)))
        log = []
        for _ in range(3):
            raw = [list(v) for v in iv1.raw(rng, mode)]
            keep = repr(raw)
            add(Geom1D(raw), 'construct')
            ctx.check(repr(raw) == keep, 'constructor changed its argument',
                      before=keep, after=raw)
            for r in raw:          # the shape does not share our lists
                r[:] = [mpq(77), mpq(78)]
        for step in range(12):
            i, j = rng.randrange(len(pool)), rng.randrange(len(pool))
            a, b = pool[i][0], pool[j][0]
            o = rng.choice('|&-^~bpfml')
            log.append((o, i, j))
            ctx.current = log
            if o in w2.FN:
                add(w2.FN[o](a, b), o)
                r2 = w2.FN[o](a, b)
                ctx.check(iv1.intervals(r2) == pool[-1][1],
                          'repeating an operation gives another set', log=log)
            elif o == '~':
                add(~a, o)
            elif o == 'b':
                add(a.buffer(rng.choice([1, mpq(-1, 3), mpq(5, 2), mpz(-1),
                                         0])), o)
            elif o == 'p':
                for p in a.disjoint_pieces():
                    add(p, o)
            elif o == 'f':
                add(a.filter(lambda x, y: y - x > 1), o)
            elif o == 'm':
                m = a.measure1d()
                ctx.check(type(m) is Q or m == 0 or m == math.inf,
                          'length is not exact', got=m)
                a.is_bounded()
            else:
                a.locate(mpq(1))
            ctx.count('1D operations')
            for n, (g, iv, rp) in enumerate(pool):
                ctx.check(iv1.intervals(g) == iv and repr(g) == rp,
                          'a 1D shape changed', log=log, number=n, before=iv,
                          after=g.get_intervals())
        for g, iv, rp in pool[:3]:
            ctx.case(('1d', iv), bool(iv))


def equal_sets(r1, r2):
    return r1 == r2 or geo2.check_op([r1], r2, lambda x: x)[1] is None


def life(ctx, rng, k):
    """Results depend on the values of the operands only: not on which
    object holds them, on what was computed before, or on shapes that no
    longer exist. Everything is computed on long-lived shapes first, then
    again on short-lived rebuilt ones, in other orders."""
    for _ in range(k):
        pts = [gen2.polygon(rng, 6) for _ in range(6)]
        box = gen2.rect(rng, 'int')
        pts += [[(x + d, y) for x, y in box] for d in (0, 3, mpq(1, 3))]
        mode = rng.choice(iv1.MODES)
        rings = [(w2.sq(0, 0, 8, 8), w2.sq(i, 1, i + 1, 3)) for i in (1, 4)]
        ivs = [iv1.raw(rng, mode) for _ in range(6)]
        amounts = [mpq(1, 3), mpq(-1, 20), mpq(1)]
        n2 = len(pts) + len(rings)
        rings = [[geo2.region(x) for x in ab] for ab in rings]

        def make2(i):
            if i < len(pts):
                return w2.poly(pts[i])
            a, b = rings[i - len(pts)]
            return w2.poly(a[0][0]) - w2.poly(b[0][0])

        def make1(i):
            return Geom1D([list(v) for v in ivs[i]])
        todo = []
        for _ in range(40):
            o = rng.choice(['|', '&', '-', '^', 'union', 'buffer', 'buffer',
                            'buffer', 'project', 'area', 'locate', 'move',
                            '1|', '1&', '1-', '1b', '1b', '1~'])
            m = len(ivs) if o[0] == '1' else n2
            todo.append((o, rng.randrange(m), rng.randrange(m),
                         rng.choice(amounts)))

        def do(t, mk1=make1, mk2=make2):
            o, i, j, d = t
            if o[0] == '1':
                a, b = mk1(i), mk1(j)
                if o[1] in w2.FN:
                    return iv1.intervals(w2.FN[o[1]](a, b))
                return iv1.intervals(~a if o[1] == '~' else a.buffer(d))
            a = mk2(i)
            if o in w2.FN:
                return geo2.region(w2.FN[o](a, mk2(j)))
            if o == 'union':
                return geo2.region(Geom2D.union([a, mk2(j)]))
            if o == 'buffer':
                bb = geo2.bounds([geo2.region(a)])
                return geo2.region(a.buffer(d * (bb[2] - bb[0]) / 10))
            if o == 'project':
                return iv1.intervals(a.project_to_1d((d, mpq(1)), mpq(j)))
            if o == 'area':
                return a.area()
            if o == 'locate':
                return a.locate((d, mpq(j)))
            return geo2.region(a.transformed_with(
                lambda r: [(p[0] + d, p[1]) for p in r]))
        alive1 = [make1(i) for i in range(len(ivs))]
        alive2 = [make2(i) for i in range(n2)]
        want = [do(t, alive1.__getitem__, alive2.__getitem__) for t in todo]
        del alive1, alive2
        for rep in range(2):
            order = list(range(len(todo)))
            rng.shuffle(order)
            for i in order:
                ctx.current = (todo[i], pts, ivs)
                got = do(todo[i])
                o = todo[i][0]
                same = got == want[i]
                if not same and o[0] != '1' and o not in (
                        'project', 'area', 'locate'):
                    same = equal_sets(want[i], got)
                ctx.check(same, 'an operation on equal shapes gives another '
                          'result', operation=todo[i], want=want[i], got=got)
                ctx.count('operations on rebuilt shapes')
                ctx.case((todo[i], pts[todo[i][1] % len(pts)], rep), rep)


BAD = [0.5, 0.1, np.float64(0.3), decimal.Decimal('0.1'), float('nan'),
       '0.5', 1e-300]


def refused(ctx, what, f, v):
    try:
        r = f()
    except Exception:
        ctx.count('refused')
        return
    ctx.fail('inexact value accepted', where=what, value=repr(v), result=r)


def refuse(ctx, rng, k):
    """Inexact values are never silently taken."""
    for _ in range(k // 10):
        g = w2.rnd(rng, 5)
        s = geo2.region(g)
        pts = [list(p) for p in gen2.rect(rng, 'int')]
        if gen2.area2(pts) > 0:
            pts.reverse()
        for bad in BAD + [rng.random() + 1e-3]:
            i, c = rng.randrange(len(pts)), rng.randrange(2)
            p2 = [list(p) for p in pts]
            p2[i][c] = bad
            for ro in (False, True):
                refused(ctx, 'polygon', lambda: Geom2D.polygon(
                    p2, reorient=ro), bad)
            xy = [mpq(0), mpq(0), mpq(5), mpq(7)]
            xy[rng.randrange(4)] = bad
            refused(ctx, 'rectangle', lambda: Geom2D.rectangle(*xy), bad)
            for v in (bad, -bad if not isinstance(bad, str) else bad):
                refused(ctx, 'buffer 2D', lambda: g.buffer(v), v)
                refused(ctx, 'buffer 1D',
                        lambda: Geom1D([[0, 9]]).buffer(v), v)
            refused(ctx, 'Geom1D', lambda: Geom1D([[bad, mpq(9)]]), bad)
            refused(ctx, 'Geom1D', lambda: Geom1D([[mpq(-9), bad]]), bad)
            refused(ctx, 'FractionFromExact',
                    lambda: plytypes.FractionFromExact(bad), bad)
            refused(ctx, 'FractionFromExactOrInf',
                    lambda: plytypes.FractionFromExactOrInf(bad), bad)
            if isinstance(bad, float) and not math.isnan(bad):
                refused(ctx, 'project', lambda: g.project_to_1d(
                    (mpq(1), mpq(0)), bad), bad)
                refused(ctx, 'project', lambda: g.project_to_1d(
                    (bad, mpq(0)), mpq(0)), bad)
        for v in (1.0, math.inf):
            refused(ctx, 'buffer 2D', lambda: g.buffer(v), v)
            refused(ctx, 'buffer 1D', lambda: Geom1D([[0, 9]]).buffer(v), v)
        ctx.check(geo2.region(g) == s, 'operand changed')
        # exact values of every class are taken
        for one in (1, mpz(1), mpq(1), fractions.Fraction(1)):
            exact2(ctx, w2.sq(0, 0, 3, 3).buffer(one), 'buffer by one')
            ctx.check(iv1.intervals(Geom1D([[0, 9]]).buffer(one))
                      == [(mpq(-1), mpq(10))], 'buffer by one')
        for one in (1, mpz(1), mpq(1)):
            exact2(ctx, Geom2D.rectangle(0, 0, one, one), 'rectangle')
        ctx.case(('refuse', s))


class Tracker:
    """Remembers a snapshot of every 2D shape made, to compare later."""

    def __init__(self, every):
        self.every = every
        self.n = 0
        self.kept = []
        self.busy = False

    def __enter__(self):
        self.orig = Geom2D.__init__
        t = self

        def init(g, *a, **k):
            t.orig(g, *a, **k)
            if t.busy:
                return
            t.busy = True
            if t.kept and t.kept[-1][1] is None:
                # taken at the next creation, when it is surely complete
                h = t.kept[-1][0]
                t.kept[-1] = (h, snap2(h), geo2.region(h))
            t.n += 1
            if t.n % t.every == 0:
                t.kept.append((g, None, None))
            t.busy = False
        Geom2D.__init__ = init
        return self

    def __exit__(self, *a):
        Geom2D.__init__ = self.orig


def run_job(job, ctx):
    kind, arg, k = job[:3]
    if kind == 'pipe':
        with Tracker(23) as t:
            m, p, sp, r = pipe.process(arg, random_seed=k)
        for g, s, reg in t.kept:
            if s is None:
                continue
            exact2(ctx, g, 'pipeline')
            ctx.check(snap2(g) == s, 'a shape of the pipeline was changed '
                      'after it was made', before=reg, after=geo2.region(g))
            ctx.case(('pipe', reg), bool(reg))
            ctx.count('pipeline shapes rechecked')
        ctx.count('pipeline shapes made', t.n)
        for obj in [x.faces for x in sp.sheets.values()]:
            for f in obj:
                exact2(ctx, f, 'face')
        for h in [r.sheetbuild] + list(r.history):
            for d in (h.sheet_chosen, h.sheet_ok):
                for sid in list(sp.sheets):
                    exact2(ctx, d[sid], 'state')
            for d in (h.interside_chosen, h.interside_ok):
                for iid in list(d):
                    ctx.check(iv1.intervals(d[iid]) is not None,
                              'inexact joint range in a state')
        return
    rng = random.Random(arg)
    dict(hist2=hist2, hist1=hist1, life=life,
         refuse=refuse)[kind](ctx, rng, k)
