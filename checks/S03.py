"""S03: joint coordinate systems and bands against the planes in space."""
import itertools
import random

import numpy as np
from gmpy2 import mpq

from plycutter.geometry.geom1d import Geom1D
from plycutter.geometry.geom2d import Geom2D

from vlib import geo2, gen2, iv1, pipe, run, sp3

RULE = ('one evaluation = one joint of one model: coordinate agreement of '
        'both sides in space, band edges, finger areas of random range sets '
        'and fractions, projections of random shapes; distinct = distinct '
        '(model specification, joint)')
MIN_EVALUATIONS = {'quick': 100, 'thorough': 2000}
ASSUMPTIONS = ['band and line positions recomputed in floating point from '
               'the plate planes (tolerance 1e-6 of the extent); areas '
               'between ranges and fractions are compared exactly']


def jobs(tier, seed):
    n = 44 if tier == 'quick' else 1200
    return [('m', seed * 100043 + i, 2) for i in range(n)]


def F(x):
    return mpq(x)


def ranges(rng, lo, hi):
    """Disjoint exact ranges along the joint, sometimes touching ends."""
    n = rng.choice([1, 1, 2, 3, 5])
    cuts = sorted({mpq(k, 4000) * F(hi - lo) + F(lo)
                   for k in rng.sample(range(4001), 2 * n)})
    if len(cuts) % 2:
        cuts = cuts[:-1]
    return [(cuts[i], cuts[i + 1]) for i in range(0, len(cuts), 2)]


def xy(reg):
    return np.array([[float(x), float(y)] for out, holes in reg
                     for x, y in out])


def check_side(ctx, rng, m, sp, inter, side, lo, hi, tol):
    sheet = sp.sheets[side.sheet]
    other = sp.sheets[[s for s in inter.sheets() if s != side.sheet][0]]
    d = np.asarray(inter.direction, float)
    e, b0, b1 = sp3.band(sheet, other, d)
    u, v, n, h0, h1 = sp3.frame(sheet)
    T = float(m.thickness)
    rs = ranges(rng, lo, hi)
    g = side.make_fingers(Geom1D(rs))
    reg = geo2.region(g)
    ctx.check(len(reg) == len(rs) and all(len(o) == 4 and not h
                                          for o, h in reg),
              'fingers of disjoint ranges are not one rectangle each',
              ranges=rs, got=reg)
    byrange = []
    total = mpq(0)
    for r in rs:
        one = side.make_fingers(Geom1D([r]))
        rr = geo2.region(one)
        ctx.check(len(rr) == 1 and len(rr[0][0]) == 4, 'finger is not a '
                  'rectangle', got=rr)
        p2 = xy(rr)
        p3 = sp3.lift(sheet, p2, np.zeros(4))
        al = p3 @ d
        ac = p3 @ e
        byrange.append((r, al))
        for got, want, what in ((ac.min(), b0, 'lower band edge'),
                                (ac.max(), b1, 'upper band edge')):
            ctx.check(abs(got - want) < tol, 'finger does not cover the band '
                      'exactly: ' + what, got=got, want=want, joint=inter.id,
                      sheet=sheet.id)
        ctx.check(sum(abs(al - al.min()) < tol) == 2 and
                  sum(abs(ac - ac.min()) < tol) == 2,
                  'finger is not a rectangle over the range', al=al, ac=ac)
        ctx.check(abs((al.max() - al.min()) - float(r[1] - r[0])) < tol,
                  'finger length is not the range length', range=r,
                  got=al.max() - al.min())
        ctx.maximum('band width / thickness', (b1 - b0) / T)
        a = geo2.exact_area(rr)
        total += a
        # exact fractions of the band
        k = sorted(rng.sample(range(0, 9), 2))
        f0, f1 = mpq(k[0], 8), mpq(k[1], 8)
        part = side.make_fingers(Geom1D([r]), f0, f1)
        pr = geo2.region(part)
        ctx.check(geo2.exact_area(pr) == (f1 - f0) * a, 'fraction of the '
                  'band has the wrong area', fractions=(f0, f1))
        pac = sp3.lift(sheet, xy(pr), np.zeros(len(xy(pr)))) @ e
        pal = sp3.lift(sheet, xy(pr), np.zeros(len(xy(pr)))) @ d
        # the band coordinate may run either way, alike for all fractions
        w = b1 - b0
        s0 = (b0 + float(f0) * w, b0 + float(f1) * w)
        s1 = (b1 - float(f1) * w, b1 - float(f0) * w)
        up = abs(pac.min() - s0[0]) < tol and abs(pac.max() - s0[1]) < tol
        dn = abs(pac.min() - s1[0]) < tol and abs(pac.max() - s1[1]) < tol
        ctx.check((up or dn) and abs(pal.min() - al.min()) < tol and
                  abs(pal.max() - al.max()) < tol,
                  'fraction selects another part of the band',
                  fractions=(f0, f1), got=(pac.min(), pac.max()),
                  band=(b0, b1))
        rest = [side.make_fingers(Geom1D([r]), a0, a1)
                for a0, a1 in ((mpq(0), f0), (f0, f1), (f1, mpq(1)))
                if a0 < a1]
        whole = Geom2D.union(rest)
        ctx.check(geo2.exact_area(geo2.region(whole)) == a and
                  geo2.exact_area(geo2.region(whole - one)) == 0,
                  'fractions do not tile the band', fractions=(f0, f1))
        ctx.count('fingers')
    ctx.check(geo2.exact_area(reg) == total, 'fingers of disjoint ranges '
              'overlap or are incomplete', ranges=rs)
    # touching ranges
    a, c = rs[0][0], rs[-1][1]
    mid = (a + c) / 2
    f1 = side.make_fingers(Geom1D([(a, mid)]))
    f2 = side.make_fingers(Geom1D([(mid, c)]))
    f3 = side.make_fingers(Geom1D([(a, c)]))
    ctx.check(geo2.exact_area(geo2.region(f1 & f2)) == 0 and
              geo2.exact_area(geo2.region((f1 | f2) ^ f3)) == 0,
              'fingers of touching ranges do not abut')
    e1 = side.make_fingers(Geom1D.empty())
    ctx.check(e1.is_empty(), 'fingers of no range')
    # projections
    k = float(hi - lo)
    cx, cy = p2.mean(0)
    while True:
        shape = gen2.region(rng, rng.choice([1, 2, 3]), size=5)
        if all(abs(c) < 1000 for r in shape for p in r for c in p):
            break
    pts = []
    for out in shape:
        pts.append([(F(x) * F(k) / 20 + F(cx), F(y) * F(k) / 20 + F(cy))
                    for x, y in out])
    g2 = Geom2D.union([Geom2D.polygon([list(p) for p in ring], reorient=True)
                       for ring in pts])
    got = side.project_to_1d(g2)
    want = []
    ext = max([1] + [abs(float(c)) for r in pts for p in r for c in p])
    tol = tol + 1e-9 * ext
    for out, _ in geo2.region(g2):
        o = np.array([[float(x), float(y)] for x, y in out])
        c = sp3.lift(sheet, o, np.zeros(len(o))) @ d
        want.append((c.min(), c.max()))
    want.sort()
    merged = []
    for lo_, hi_ in want:
        if merged and lo_ <= merged[-1][1] + tol:
            merged[-1] = (merged[-1][0], max(hi_, merged[-1][1]))
        else:
            merged.append((lo_, hi_))
    gi = [(float(x), float(y)) for x, y in iv1.intervals(got)]
    # the common origin of the joint
    back = [(float(x), float(y)) for x, y in
            iv1.intervals(side.project_to_1d(g))]
    ctx.check(len(back) == len(rs) and all(
        abs(x - float(r[0])) < tol and abs(y - float(r[1])) < tol
        for (x, y), r in zip(back, rs)), 'projecting the fingers does not '
        'give the ranges back', ranges=rs, got=back)
    o = byrange[0][1].min() - float(byrange[0][0][0])
    gaps = [b[0] - a[1] for a, b in zip(merged, merged[1:])]
    if all(x > 10 * tol for x in gaps):
        ctx.check(len(gi) == len(merged) and all(
            abs(x[0] + o - y[0]) < tol and abs(x[1] + o - y[1]) < tol
            for x, y in zip(gi, merged)), 'projection does not measure true '
            'positions along the joint', got=gi, want=merged, origin=o)
        ctx.count('projections')
    return o, {r: (al.min(), al.max()) for r, al in byrange}


def check_inter(ctx, rng, m, sp, inter):
    tol = sp3.tol(m)
    a, b = (sp.sheets[s] for s in inter.sheets())
    d = np.asarray(inter.direction, float)
    ctx.check(abs(np.linalg.norm(d) - 1) < 1e-9, 'joint direction is not a '
              'unit vector', d=d)
    for s in (a, b):
        ctx.check(abs(d @ s.normal(0)) < 1e-6, 'joint direction is not in '
                  'the sheet', d=d, sheet=s.id)
    v = np.asarray(m.mesh.vertices) @ d
    lo, hi = v.min() - 3, v.max() + 3
    origins = [check_side(ctx, rng, m, sp, inter, s, mpq(lo), mpq(hi), tol)[0]
               for s in inter.sides]
    ctx.check(abs(origins[0] - origins[1]) < tol, 'the two sides of a joint '
              'have different origins', origins=origins, joint=inter.id)
    ctx.maximum('extent', sp3.scale_of(m))


def run_job(job, ctx):
    _, seed, n = job
    rng = random.Random(seed)
    for i in range(n):
        spec = sp3.fresh(rng)
        m = pipe.model(spec)
        ctx.current = spec
        sp = pipe.sheetplex(m, pipe.params(m.thickness))
        ids = sorted(sp.sheets)
        have = {}
        for inter in sp.intersections.values():
            key = frozenset(inter.sheets())
            ctx.check(key not in have, 'two joints between the same sheets',
                      sheets=key)
            have[key] = inter
        for x, y in itertools.combinations(ids, 2):
            c = np.linalg.norm(np.cross(sp.sheets[x].normal(0),
                                        sp.sheets[y].normal(0)))
            key = frozenset((x, y))
            if c > 1e-3:
                ctx.check(key in have, 'non-parallel sheets without a joint',
                          sheets=(x, y))
            elif c < 1e-6:
                ctx.check(key not in have, 'parallel sheets with a joint',
                          sheets=(x, y))
                ctx.count('parallel pairs')
        todo = sorted(have, key=sorted)
        rng.shuffle(todo)
        for key in todo[:4]:
            ctx.current = (spec, sorted(key))
            check_inter(ctx, rng, m, sp, have[key])
            ctx.case((spec, sorted(key)), True, spec)
