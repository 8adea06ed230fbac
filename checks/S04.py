"""S04: lookups, listings and sub-models of a sheetplex."""
import collections
import itertools
import random

from vlib import pipe, run, sp3

RULE = ('one evaluation = all lookups of one model or one restriction to a '
        'random subset of its sheets; distinct = distinct (model, subset)')
MIN_EVALUATIONS = {'quick': 300, 'thorough': 3000}
ASSUMPTIONS = ['sheet and joint records compare by value']


def jobs(tier, seed):
    js = [('many', seed * 100069 + i)
          for i in range(10 if tier == 'quick' else 150)]
    n = 30 if tier == 'quick' else 600
    return js + [('m', seed * 100057 + i, 2) for i in range(n)]


def snap(sp):
    return (dict(sp.sheets), dict(sp.intersections))


def same(a, b):
    """Records unchanged (identity, or equality of the plain fields)."""
    return a is b or (type(a) is type(b) and all(
        repr(a[k]) == repr(b[k]) for k in a))


def lookups(ctx, sp):
    all_sides = list(sp.intersides())
    ids = [s.id for s in all_sides]
    ctx.check(len(set(ids)) == len(ids), 'a joint side is listed twice',
              ids=ids)
    ctx.check(len(ids) == 2 * len(sp.intersections), 'listing all joint '
              'sides does not give every joint twice', sides=len(ids),
              joints=len(sp.intersections))
    per = collections.Counter(s.intersection for s in all_sides)
    ctx.check(set(per) == set(sp.intersections) and
              set(per.values()) <= {2}, 'joints listed wrongly', per=per)
    for iid, inter in sp.intersections.items():
        ctx.check(inter.id == iid, 'joint filed under another id', id=iid)
        sh = list(inter.sheets())
        ctx.check(len(sh) == 2 and sh[0] != sh[1] and
                  all(x in sp.sheets for x in sh), 'a joint must name two '
                  'sheets of the model', sheets=sh)
        ctx.check(len(inter.sides) == 2, 'joint without two sides')
        for k, side in enumerate(inter.sides):
            ctx.check(side.idx == k and side.intersection == iid and
                      side.sheet == sh[k] and side.id == (iid, sh[k]),
                      'joint side does not match its joint', side=side.id,
                      idx=side.idx)
            opp = side.opposite(sp)
            ctx.check(same(opp, inter.sides[1 - k]), 'opposite is not the '
                      'other side', side=side.id, opposite=opp.id)
            ctx.check(same(opp.opposite(sp), side), 'opposite of the '
                      'opposite', side=side.id)
            ctx.check(same(sp.interside(side.id), side), 'lookup by id gives '
                      'another side', side=side.id)
            ctx.check(same(inter.side_by_sheet(side.sheet), side), 'lookup '
                      'by sheet gives another side', side=side.id)
            ctx.count('sides looked up')
        for x in sp.sheets:
            if x not in sh:
                ctx.check(inter.side_by_sheet(x) is None, 'side of a sheet '
                          'that is not in the joint', sheet=x, joint=iid)
    for x in list(sp.sheets) + ['nosuch']:
        got = [s.id for s in sp.intersides(x)]
        want = [(i, x) for i, inter in sp.intersections.items()
                if x in inter.sheets()]
        ctx.check(sorted(got) == sorted(want), 'listing the joint sides of a '
                  'sheet', sheet=x, got=got, want=want)
        ctx.check([s.id for s in all_sides if s.sheet == x] == got or
                  sorted(s.id for s in all_sides if s.sheet == x) ==
                  sorted(got), 'lists differ')
    key = [frozenset(i.sheets()) for i in sp.intersections.values()]
    ctx.check(len(set(key)) == len(key), 'two joints of the same sheets')


def restrict(ctx, rng, sp):
    before = snap(sp)
    ids = sorted(sp.sheets)
    k = rng.randint(0, len(ids))
    sub = rng.sample(ids, k)
    arg = sub + (['nosuch'] if rng.random() < .2 else [])
    arg = rng.choice([list, tuple, set, iter])(arg)
    lim = sp.limit(arg)
    ctx.check(set(lim.sheets) == set(sub), 'restriction keeps other sheets',
              want=sub, got=sorted(lim.sheets))
    want = {i for i, inter in before[1].items()
            if set(inter.sheets()) <= set(sub)}
    ctx.check(set(lim.intersections) == want, 'restriction keeps other '
              'joints', want=sorted(want), got=sorted(lim.intersections))
    for x in lim.sheets:
        ctx.check(same(lim.sheets[x], before[0][x]), 'restriction changed a '
                  'sheet', sheet=x)
    for x in lim.intersections:
        ctx.check(same(lim.intersections[x], before[1][x]), 'restriction '
                  'changed a joint', joint=x)
    after = snap(sp)
    ctx.check(set(after[0]) == set(before[0]) and set(after[1]) == set(
        before[1]) and all(after[0][x] is before[0][x] for x in before[0])
        and all(after[1][x] is before[1][x] for x in before[1]),
        'restriction changed the original model')
    lookups(ctx, lim)
    ctx.count('restrictions')
    ctx.maximum('joints kept', len(want))
    return tuple(sorted(sub)), lim


def run_job(job, ctx):
    kind = job[0]
    if kind == 'many':      # more than ten sheets, any numbering
        rng = random.Random(job[1])
        a = rng.randint(2, 6)
        specs = [('perm', rng.choice([
            ('comb', rng.randint(11, 13), 3, 6),
            ('grid', a, rng.randint(12, 13) - a, 3, 7)]),
            rng.randrange(10 ** 6))]
    else:
        rng = random.Random(job[1])
        specs = [sp3.fresh(rng) for _ in range(job[2])]
    for spec in specs:
        ctx.current = spec
        m = pipe.model(spec)
        sp = pipe.sheetplex(m, pipe.params(m.thickness))
        lookups(ctx, sp)
        ctx.maximum('sheets', len(sp.sheets))
        ctx.case((spec, 'all'), True, spec)
        for _ in range(8 if kind == 'm' else 60):
            sub, lim = restrict(ctx, rng, sp)
            ctx.case((spec, sub))
            if rng.random() < .3:
                sub2, _ = restrict(ctx, rng, lim)
                ctx.case((spec, sub, sub2))
