"""H06: same input, parameters and seed give the same cuts."""
import random

from gmpy2 import mpq

import trimesh

from plycutter import canned, create_sheetplex
from vlib import build, cli, iv1, pipe, run, sp3

RULE = ('one evaluation = one drawing compared with that of another run of '
        'the same input, or one pair of seeds compared state by state; '
        'distinct = distinct (model, parameters, circumstances)')
MIN_EVALUATIONS = {'quick': 48, 'thorough': 1000}
ASSUMPTIONS = ['order of outlines, start vertices and directions within a '
               'drawing are not part of the result']


def jobs(tier, seed):
    q = tier == 'quick'
    return [('proc', seed * 100291 + i, tier) for i in range(8 if q else 140)
            ] + [('seed', seed * 100297 + i, tier)
                 for i in range(8 if q else 140)]


def workload(rng, tier):
    spec, kw = build.workload(rng, heavy=.1 if tier == 'quick' else .3)
    if rng.random() < .15:
        # many sheets at angles, multi-sheet intersections
        spec = sp3.fresh(rng, lambda r: ('walls', (
            r.randint(22, 28), r.randint(22, 28), r.randint(22, 28)), 4,
            ('x0', 'y0', 'z' + r.choice('01'))))
    if spec[0] == 'stl':
        spec = spec[1]
    return spec, kw


def proc(job, ctx):
    rng = random.Random(job[1])
    spec, kw = workload(rng, job[2])
    other = pipe.small(rng)
    ctx.current = (spec, kw)
    m = pipe.model(spec)
    p = pipe.params(m.thickness, **kw)
    p['final_dilation'] = rng.choice([mpq(5, 100), mpq(0), mpq(1, 5)])
    opts = cli.option_args(p)
    with cli.Scratch() as s:
        a = s.model(spec)
        b = s.model(spec, 'other place/copy.STL' if rng.random() < .5
                    else 'sub/renamed.stl')
        o = s.model(other, 'other.stl')
        mo = pipe.model(other)
        out = [s.path('o%d.dxf' % i) for i in range(6)]
        h = rng.randrange(2 ** 32)
        r1 = cli.child([dict(argv=opts + ['-o', out[0], a])], hashseed=0)
        r2 = cli.child([
            dict(argv=['--thickness=%s' % mpq(mo.thickness), '-o', out[5],
                       o], pollute=h % 1000),
            dict(argv=opts + ['-o', out[1], b], pollute=h % 77),
            dict(argv=opts + ['-o', out[2], a], pollute=h % 99)], hashseed=h)
        r3 = cli.child([dict(argv=opts + ['-o', out[3], a])],
                       env={'PYTHONHASHSEED': 'random', 'LC_ALL': 'C',
                            'TZ': 'Asia/Tokyo'})
        for r in r1 + r2 + r3:
            ctx.check(r['outcome'] == 'ok', 'the command failed', case=(
                spec, kw), outcome=r)
        base = cli.read_loops(out[0])
        for i, what in ((1, 'other process, hash seed, file name and history'
                         ), (2, 'repeated in one process'),
                        (3, 'random hash seed, other locale')):
            why = cli.similar(base, cli.read_loops(out[i]))
            ctx.check(why is None, 'same input, different drawing: ' + what,
                      why=why, spec=spec, kw=kw, hashseed=h)
            ctx.case((spec, kw, what), len(base) > 1, (spec, kw, what))
            ctx.count('drawings compared')
            if cli.read_loops(out[i]) == base:
                ctx.count('drawings identical to the last bit')
        # the library, in this process
        mesh = trimesh.load(a)
        r = canned.canned_1(create_sheetplex.create_sheetplex(mesh, p), p)
        mine = [ring for g in r.sheet_cuts.values() for ring in
                cli.rings(g.buffer(p['final_dilation']))]
        why = cli.congruent(mine, base)
        ctx.check(why is None, 'the library gives other parts than the '
                  'command', spec=spec, kw=kw, why=why)
        ctx.case((spec, kw, 'library'))
        ctx.count('outlines', len(base))


def seeds(job, ctx):
    rng = random.Random(job[1])
    spec, kw = workload(rng, job[2])
    m = pipe.model(spec)
    ss = rng.sample(range(10 ** 6), 3)
    ctx.current = (spec, kw, ss)
    runs = []
    sp = pipe.sheetplex(m, pipe.params(m.thickness, **kw))
    for i, sd in enumerate(ss + ss[:1]):
        kw['random_seed'] = sd
        p = pipe.params(m.thickness, **kw)
        before = dict(p)
        x = sp if i != 1 else pipe.sheetplex(m, p)
        r = canned.canned_1(x, p)
        ctx.check(p == before, 'the parameters were changed')
        runs.append((x, r, list(r.history) + [r.sheetbuild]))
    # same seed again, with other runs in between, on the same sheets
    h0, h3 = runs[0][2], runs[3][2]
    ctx.check(len(h0) == len(h3), 'repetition has other steps')
    for a, b in zip(h0, h3):
        d = build.states_equal(a, b)
        ctx.check(d is None, 'repeating a run gives another state', what=d,
                  spec=spec, kw=kw, seeds=ss)
    ctx.case((spec, kw, ss[0], 'again'), True)
    for k in (1, 2):
        x, r, h = runs[k]
        ctx.check(set(x.sheets) == set(sp.sheets) and
                  set(x.intersections) == set(sp.intersections),
                  'sheets or joints depend on the seed')
        ctx.check(len(h) == len(h0), 'steps depend on the seed')
        last = 0
        while last < len(h) and build.states_equal(h0[last], h[last]) is None:
            last += 1
        ctx.case((spec, kw, ss[0], ss[k]), last < len(h), (spec, kw, ss))
        used = False
        if last == len(h):
            ctx.count('seed pairs with equal results')
            sb = h0[-1]
        else:
            ctx.count('seed pairs with different results')
            sb = h0[last - 1] if last else None
            ctx.check(sb is not None, 'the seed changes the initial state',
                      spec=spec, kw=kw)
        # only inside the stretches still free for both at that point
        free = {}
        for iid, inter in sp.intersections.items():
            a, b = (s.id for s in inter.sides)
            free[iid] = (sb.interside_ok[a] & sb.interside_ok[b]) - \
                sb.interside_chosen[a] - sb.interside_chosen[b]
            for sd in inter.sides:
                for what in ('interside_chosen', 'interside_ok'):
                    u = getattr(h0[-1], what)[sd.id]
                    v = getattr(h[-1], what)[sd.id]
                    out = (u ^ v) - free[iid].buffer(mpq(1, 10 ** 6))
                    ctx.check(build.m1(out) < 1e-6, 'the seed changes joint '
                              'positions that were not free', joint=iid,
                              where=out, spec=spec, kw=kw, seeds=ss)
                    ctx.count('joint ranges compared')
        for sid in sorted(sp.sheets):
            d = runs[0][1].sheet_cuts[sid] ^ r.sheet_cuts[sid]
            ctx.maximum('area moved by another seed', float(d.area()))
            for side in sp.intersides(sid):
                d = d - side.make_fingers(
                    free[side.intersection].buffer(mpq(1, 10 ** 6)))
            ctx.check(d.area() < 1e-6, 'the seed changes a part off its '
                      'free joints', part=sid, area=float(d.area()),
                      spec=spec, kw=kw, seeds=ss)
            ctx.count('parts compared across seeds')
        # a stretch where chance had a say must react to the seed
        mn, mx = (float(p[n]) for n in ('min_finger_width',
                                        'max_finger_width'))
        for iid, f in free.items():
            for lo, hi in iv1.intervals(f):
                w = [float(b - a) for s in sp.intersections[iid].sides
                     for a, b in iv1.intervals(
                         h0[-1].interside_chosen[s.id])
                     if a > lo + 1e-6 and b < hi - 1e-6]
                if sum(mn + .05 < x < mx - .05 for x in w) > 1:
                    used = True
        if used:
            ctx.count('seed pairs that must differ')
            ctx.check(last < len(h), 'another seed gives the same fingers',
                      spec=spec, kw=kw, seeds=ss)


def run_job(job, ctx):
    dict(proc=proc, seed=seeds)[job[0]](job, ctx)
