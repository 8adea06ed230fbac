"""B02: decisions only grow, permissions only shrink, history is complete."""
import random

from plycutter import sheetbuild

from vlib import build, pipe, run

RULE = ('one evaluation = one pair of successive recorded states of a real '
        'run, compared on every sheet and joint side; distinct = distinct '
        '(model, parameters, step)')
MIN_EVALUATIONS = {'quick': 150, 'thorough': 2000}
ASSUMPTIONS = ['set operations of the repository are used to compare states '
               '(decided separately by G01, G03, G04); area tolerance 1e-6, '
               'joint positions exact']


def jobs(tier, seed):
    n = 44 if tier == 'quick' else 320
    return [('r', seed * 100103 + i) for i in range(n)]


def step(ctx, prev, cur, name):
    for s in cur.sheet_chosen:
        ctx.check(set(cur.sheet_chosen) == set(prev.sheet_chosen) and
                  set(cur.sheet_ok) == set(prev.sheet_ok),
                  'sheets appear or vanish', step=name)
        if prev.sheet_chosen[s] is not cur.sheet_chosen[s]:
            d = (prev.sheet_chosen[s] - cur.sheet_chosen[s]).area()
            ctx.check(d < 1e-6, 'decided area was revoked', sheet=s,
                      area=float(d), step=name)
            ctx.count('sheet decisions changed')
        if prev.sheet_ok[s] is not cur.sheet_ok[s]:
            d = (cur.sheet_ok[s] - prev.sheet_ok[s]).area()
            ctx.check(d < 1e-6, 'ruled out area came back', sheet=s,
                      area=float(d), step=name)
            ctx.count('sheet permissions changed')
    ctx.check(set(cur.interside_ok) == set(prev.interside_ok) ==
              set(prev.interside_chosen) == set(cur.interside_chosen),
              'joint sides appear or vanish', step=name)
    for k in cur.interside_ok:
        if prev.interside_chosen[k] is not cur.interside_chosen[k]:
            d = build.m1(prev.interside_chosen[k] - cur.interside_chosen[k])
            ctx.check(d < 1e-9, 'a decided joint position was revoked',
                      side=k, length=float(d), step=name)
            ctx.count('joint decisions changed')
        if prev.interside_ok[k] is not cur.interside_ok[k]:
            d = build.m1(cur.interside_ok[k] - prev.interside_ok[k])
            ctx.check(d < 1e-9, 'a ruled out joint position came back',
                      side=k, length=float(d), step=name)
            ctx.count('joint permissions changed')


def state(ctx, sb, name):
    for s in sb.sheet_chosen:
        d = (sb.sheet_chosen[s] - sb.sheet_ok[s]).area()
        ctx.check(d < 1e-6, 'decided area is not allowed', sheet=s,
                  area=float(d), step=name)
    for k in sb.interside_ok:
        d = build.m1(sb.interside_chosen[k] - sb.interside_ok[k])
        ctx.check(d < 1e-7, 'a decided joint position is not allowed',
                  side=k, length=float(d), step=name)


def run_job(job, ctx):
    rng = random.Random(job[1])
    spec, kw = build.workload(rng)
    ctx.current = (spec, kw)
    m, p, sp, r = build.run(spec, kw)
    h = list(r.history)
    ctx.check(r.ok and len(h) >= 2, 'history is missing', length=len(h))
    first = sheetbuild.create_sheetbuild(sp, p)
    d = build.states_equal(first, h[0])
    ctx.check(d is None, 'history does not start with the initial state',
              difference=d)
    d = build.states_equal(r.sheetbuild, h[-1])
    ctx.check(d is None, 'history does not end with the finished state',
              difference=d)
    prev = None
    changed = 0
    for i, sb in enumerate(h):
        name = '%d: before %s' % (i, getattr(getattr(sb, 'dbg', None),
                                             '__name__', '-'))
        if prev is None or build.states_equal(prev, sb):
            state(ctx, sb, name)
            changed += 1
        if prev is not None:
            step(ctx, prev, sb, name)
            ctx.case((spec, kw, i), True, (spec, kw, name))
        prev = sb
    # every processing step shows in the history: replaying the recorded
    # step functions must lead from each state to the next one
    replayed = 0
    replay = rng.random() < .4
    for a, b in zip(h, h[1:]):
        op = getattr(a, 'dbg', None)
        if replay and callable(op):
            d = build.states_equal(op(a, p), b)
            ctx.check(d is None, 'the history does not show the state after '
                      'a step', step=getattr(op, '__name__', op),
                      difference=d)
            replayed += 1
    ctx.count('steps replayed', replayed)
    ctx.count('different states', changed)
    last = r.sheetbuild
    ctx.check(set(r.sheet_cuts) == set(sp.sheets) and all(
        (r.sheet_cuts[s] ^ last.sheet_chosen[s]).area() < 1e-6
        for s in sp.sheets), 'the cuts are not the decided areas of the '
        'final state')
    for k in last.interside_ok:
        d = build.m1(last.interside_ok[k] - last.interside_chosen[k])
        ctx.check(d < 1e-6, 'an allowed joint position is left undecided',
                  side=k, length=float(d))
        ctx.maximum('undecided length left', d)
        ctx.maximum('decided length of a side',
                    build.m1(last.interside_chosen[k]))
