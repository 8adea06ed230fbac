"""B03: no joint position is ever given to both sheets."""
import random

from gmpy2 import mpq

from plycutter.geometry.geom1d import Geom1D

from vlib import build, pipe, run

RULE = ('one evaluation = one joint side in one recorded state of a real '
        'run; distinct = distinct (model, parameters, state, side) with '
        'something decided or allowed')
MIN_EVALUATIONS = {'quick': 400, 'thorough': 5000}
ASSUMPTIONS = ['set operations of the repository are used to compare areas '
               '(decided separately by G03, G04); area tolerance 1e-3 as in '
               'the documented consistency check']


def jobs(tier, seed):
    n = 44 if tier == 'quick' else 400
    return [('r', seed * 100109 + i) for i in range(n)]


def free_stretches(sp, sb):
    """Per joint: initially available positions away from every place where
    another joint's band crosses this one on either sheet."""
    res = {}
    for iid, inter in sp.intersections.items():
        s = sb.interside_ok[inter.sides[0].id]
        for side in inter.sides:
            mine = side.make_fingers(sb.interside_ok[side.id])
            for other in sp.intersides(side.sheet):
                if other.intersection == iid:
                    continue
                cross = mine & other.make_fingers(
                    sb.interside_ok[other.id]).buffer(mpq(1, 10))
                if not cross.is_empty():
                    s = s - side.project_to_1d(cross).buffer(mpq(1, 10))
        res[iid] = s
    return res


def run_job(job, ctx):
    rng = random.Random(job[1])
    spec, kw = build.workload(rng, heavy=.2)
    ctx.current = (spec, kw)
    m, p, sp, r = build.run(spec, kw)
    prev = None
    for i, sb in enumerate(r.history):
        if prev is not None and build.states_equal(prev, sb) is None:
            prev = sb
            continue
        name = '%d: before %s' % (i, getattr(getattr(sb, 'dbg', None),
                                             '__name__', '-'))
        prev = sb
        ctx.count('states')
        for side in sp.intersides():
            opp = side.opposite(sp)
            mine, other = sb.interside_chosen[side.id], \
                sb.interside_ok[opp.id]
            ctx.check(build.m1(mine & other) < 1e-9, 'a position is decided '
                      'for one side and allowed to the other', side=side.id,
                      state=name, common=mine & other)
            ctx.check(build.m1(mine & sb.interside_chosen[opp.id]) < 1e-9,
                      'a position is decided for both sides', side=side.id,
                      state=name)
            if build.m1(other):
                a = float((sb.sheet_chosen[side.sheet] &
                           side.make_fingers(other)).area())
                ctx.check(a < 1e-3, 'decided area lies where the other sheet '
                          'may still take the joint', side=side.id,
                          state=name, area=a)
                ctx.maximum('decided area in a foreign band', a)
            if not mine.is_empty():
                a = float((sb.sheet_chosen[opp.sheet] &
                           opp.make_fingers(mine)).area())
                ctx.check(a < 1e-3, 'material of one sheet lies in a joint '
                          'position decided for the other', side=side.id,
                          state=name, area=a)
                ctx.count('decided positions tested')
            ctx.case((spec, kw, i, side.id),
                     not (mine.is_empty() and other.is_empty()), spec)
    first, last = r.history[0], r.sheetbuild
    free = free_stretches(sp, first)
    for iid, s in free.items():
        inter = sp.intersections[iid]
        got = last.interside_chosen[inter.sides[0].id] | \
            last.interside_chosen[inter.sides[1].id]
        ctx.count('free joint stretches', len(s.get_intervals()))
        miss = float(build.m1(s - got))
        n = len(s.get_intervals())
        ctx.maximum('unassigned length per free stretch', miss / max(1, n))
        ctx.check(miss <= .1 * n, 'a joint position where two plates meet is '
                  'given to neither', joint=iid, free=s, decided=got)
        for side in inter.sides:
            c = last.interside_chosen[side.id] & s
            want = side.make_fingers(c) & first.sheet_ok[side.sheet]
            lost = float((want - last.sheet_chosen[side.sheet]).area())
            ctx.maximum('material missing on the deciding side', lost)
            ctx.check(lost <= .05 + .02 * float(want.area()), 'the sheet '
                      'that got a position does not have the material',
                      side=side.id, missing=lost, of=float(want.area()))
