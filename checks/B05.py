"""B05: decisions have exactly their specified effect, on a copy."""
import random

from gmpy2 import mpq

from plycutter import sheetbuild
from plycutter.geometry.geom1d import Geom1D
from plycutter.geometry.geom2d import Geom2D

from vlib import build, geo2, gen2, iv1, pipe, run, sp3, w2

RULE = ('one evaluation = one decision applied to a recorded or derived '
        'state, whose complete result is compared with the specified one, '
        'or one replayed processing step; distinct = distinct (model, '
        'state, operation, ranges)')
MIN_EVALUATIONS = {'quick': 250, 'thorough': 4000}
ASSUMPTIONS = ['set operations of the repository are used to build the '
               'specified result (decided separately by G01, G03, G04); '
               'comparison is exact']


def jobs(tier, seed):
    n = 30 if tier == 'quick' else 240
    k = 10 if tier == 'quick' else 25
    return [('run', seed * 100151 + i, k) for i in range(n // 2)] + \
        [('init', seed * 100153 + i, 2 * k) for i in range(n)]


def pieces(rng, g, n):
    """Random disjoint exact sub-ranges of a 1D set."""
    res = []
    for a, b in iv1.intervals(g):
        cuts = sorted({a + (b - a) * mpq(rng.randint(0, 24), 24)
                       for _ in range(rng.randint(2, 5))})
        if rng.random() < .2:
            cuts = [a, b]
        res += [(x, y) for x, y in zip(cuts, cuts[1:])]
    rng.shuffle(res)
    return res[:n]


def legal(sb, side, v):
    """v reduced to what may be decided for the side without conflict."""
    sp = sb.sheetplex
    opp = side.opposite(sp)
    v = v & sb.interside_ok[side.id]
    hit = opp.make_fingers(v) & sb.sheet_chosen[opp.sheet]
    if hit.area() > 0:
        v = v - opp.project_to_1d(hit).buffer(mpq(1, 1000))
    return v


def expect_same(ctx, got, want, what, **detail):
    for name in ('sheet_chosen', 'sheet_ok', 'interside_chosen',
                 'interside_ok'):
        x, y = getattr(got, name), want[name]
        ctx.check(set(x) == set(y), what + ': entries of %s differ' % name,
                  **detail)
        for k in y:
            if x[k] is y[k]:
                continue
            if name.startswith('sheet'):
                d = (x[k] ^ y[k]).area()
                ctx.check(d < 1e-6, what + ': %s is not as specified' % name,
                          place=k, area=float(d), missing=float(
                              (y[k] - x[k]).area()), **detail)
            else:
                ctx.check(iv1.intervals(x[k]) == iv1.intervals(y[k]) or
                          build.m1(x[k] ^ y[k]) < 1e-9,
                          what + ': %s is not as specified' % name,
                          place=k, got=x[k], want=y[k], **detail)
            ctx.count('changed entries compared')
    ctx.check(build.same_sheetplex(got.sheetplex, detail['_sp']),
              what + ': refers to another model')


def maps(sb):
    return {n: dict(getattr(sb, n)) for n in (
        'sheet_chosen', 'sheet_ok', 'interside_chosen', 'interside_ok')}


def model_choose(want, sp, side, v, tentative):
    opp = side.opposite(sp)
    if not tentative:
        want['sheet_chosen'][side.sheet] = \
            want['sheet_chosen'][side.sheet] | (
                side.make_fingers(v) & want['sheet_ok'][side.sheet])
    want['sheet_ok'][opp.sheet] = want['sheet_ok'][opp.sheet] - \
        opp.make_fingers(v)
    want['interside_chosen'][side.id] = \
        want['interside_chosen'][side.id] | v
    want['interside_ok'][opp.id] = want['interside_ok'][opp.id] - v


def one_op(ctx, rng, sb, tag):
    """Apply one random decision; returns the new state (or sb)."""
    sp = sb.sheetplex
    sides = list(sp.intersides())
    want = maps(sb)
    snap = build.snapshot(sb)
    k = rng.random()
    if k < .45:
        side = rng.choice(sides)
        v = legal(sb, side, Geom1D(pieces(rng, sb.interside_ok[side.id],
                                          rng.choice([0, 1, 1, 2, 3]))))
        tent = rng.random() < .3
        got = sb.choose_interside(side.id, v, tentative=tent) if tent else \
            sb.choose_interside(side.id, v)
        model_choose(want, sp, side, v, tent)
        what = 'tentative decision' if tent else 'decision'
        key = (side.id, repr(iv1.intervals(v)), tent)
        nontriv = not v.is_empty()
    elif k < .65:
        side = rng.choice(sides)
        v = Geom1D(pieces(rng, sb.interside_ok[side.id],
                          rng.choice([0, 1, 2])))
        v = v - sb.interside_chosen[side.id]
        if rng.random() < .4:       # also beyond what is allowed
            v = v | Geom1D([(-10 ** 6, -10 ** 6 + 1)])
        one = rng.random() < .6
        got = sb.unchoose_interside(side.id, v) if one else \
            sb.unchoose_intersides({side.id: v})
        want['interside_ok'][side.id] = want['interside_ok'][side.id] - v
        what = 'ruling out a range'
        key = (side.id, repr(iv1.intervals(v)))
        nontriv = not v.is_empty()
    elif k < .82:
        s = rng.choice(sorted(sb.sheet_ok))
        x0, y0, x1, y1 = geo2.bounds([geo2.region(sb.sheet_ok[s])] or
                                     [[]]) or (0, 0, 1, 1)
        dx = (x1 - x0) * mpq(rng.randint(0, 10), 10)
        dy = (y1 - y0) * mpq(rng.randint(0, 10), 10)
        area = w2.sq(x0 + dx, y0 + dy, x0 + dx + (x1 - x0) / 3,
                     y0 + dy + (y1 - y0) / 4)
        area = area - sb.sheet_chosen[s]
        got = sb.unchoose_sheet_area(s, area)
        want['sheet_ok'][s] = want['sheet_ok'][s] - area
        what = 'ruling out an area'
        key = (s, float(dx), float(dy))
        nontriv = not area.is_empty()
    else:
        # several at once, in another order and one after another
        rng.shuffle(sides)
        choices = {}
        used = {s: Geom2D.empty() for s in sb.sheet_ok}
        for side in sides[:4]:
            opp = side.opposite(sp)
            if any(c in choices for c in (side.id, opp.id)):
                continue
            v = legal(sb, side, Geom1D(pieces(
                rng, sb.interside_ok[side.id], rng.choice([1, 2]))))
            a, b = side.make_fingers(v), opp.make_fingers(v)
            if (a & used[side.sheet]).area() or (b & used[opp.sheet]).area():
                continue
            used[side.sheet] = used[side.sheet] | a
            used[opp.sheet] = used[opp.sheet] | b
            choices[side.id] = v
        tent = rng.random() < .25
        got = sb.choose_intersides(choices, tentative=tent)
        order = list(choices)
        rng.shuffle(order)
        for x in order:
            model_choose(want, sp, sp.interside(x), choices[x], tent)
        seq = sb
        for x in order:
            seq = seq.choose_interside(x, choices[x], tentative=tent)
        d = build.states_equal(got, seq)
        ctx.check(d is None, 'deciding several ranges differs from deciding '
                  'them one after another', difference=d, state=tag,
                  choices=choices, order=order)
        what = 'several decisions'
        key = (repr(sorted((k, repr(iv1.intervals(v)))
                           for k, v in choices.items())), tent)
        nontriv = len(choices) > 1
        ctx.maximum('decisions at once', len(choices))
    expect_same(ctx, got, want, what, state=tag, operation=key,
                _sp=sb.sheetplex)
    ctx.check(build.snapshot(sb) == snap, what + ' changed the state it was '
              'applied to', state=tag, operation=key)
    ctx.count(what)
    ctx.case((tag, what, key), nontriv, (tag, what, key))
    return got


def run_job(job, ctx):
    kind, seed, n = job
    rng = random.Random(seed)
    if kind == 'init':
        spec = sp3.fresh(rng, rng.choice([pipe.small, pipe.corner,
                                          sp3.base]))
        m = pipe.model(spec)
        p = pipe.params(m.thickness)
        sb = sheetbuild.create_sheetbuild(pipe.sheetplex(m, p), p)
        if not list(sb.sheetplex.intersides()):
            return
        cur = sb
        for i in range(n):
            ctx.current = (spec, i)
            cur = one_op(ctx, rng, cur, (spec, i))
            if i % 7 == 6:
                cur = sb
        return
    spec, kw = build.workload(rng)
    ctx.current = (spec, kw)
    m, p, sp, r = build.run(spec, kw)
    h = list(r.history)
    pairs = list(enumerate(zip(h, h[1:])))
    rng.shuffle(pairs)
    for i, (a, b) in pairs[:3]:
        op = getattr(a, 'dbg', None)
        if not callable(op):
            continue
        snap = build.snapshot(a)
        c = op(a, p)
        d = build.states_equal(b, c)
        ctx.check(d is None, 'replaying a step from a recorded state gives '
                  'another outcome', step=getattr(op, '__name__', '?'),
                  difference=d)
        ctx.check(build.snapshot(a) == snap, 'a processing step changed the '
                  'state it was given', step=getattr(op, '__name__', '?'))
        ctx.count('steps replayed')
        ctx.case((spec, i, 'replay'))
    for _ in range(n):
        i = rng.randrange(len(h))
        ctx.current = (spec, kw, i)
        one_op(ctx, rng, h[i], (spec, 'h', i))
