"""S01: sheets found == plates by construction."""
import random

import numpy as np

from vlib import pipe, run, sp3

RULE = ('one evaluation = one model whose extracted sheets are matched one to '
        'one with the plate planes it was built from, or one wrong-thickness '
        'run; distinct = distinct model specification (shape, placement, '
        'triangulation, order) and thickness')
MIN_EVALUATIONS = {'quick': 120, 'thorough': 2000}
ASSUMPTIONS = ['plate planes of synthetic models are known by construction',
               'matching tolerance 1e-6 relative to the model extent']


def jobs(tier, seed):
    n = 75 if tier == 'quick' else 1600
    return [('m', seed * 100003 + i, 2) for i in range(n)]


def pair_distances(m):
    """Distances between antiparallel facets with the outside facing away:
    every thickness that could be meant."""
    mesh = m.mesh
    n = np.asarray(mesh.face_normals)
    o = np.einsum('ij,ij->i', n, np.asarray(mesh.triangles)[:, 0])
    res = []
    key = {}
    for a, b in zip(n, o):
        key[tuple(np.round(a, 4)) + (round(b, 4),)] = (a, b)
    fs = list(key.values())
    for i, (a, b) in enumerate(fs):
        for c, d in fs[i + 1:]:
            if a @ c < -1 + 1e-4:
                res.append(b + d)
    return res


def check_sheets(ctx, m, sp):
    tol = sp3.tol(m)
    want = sp3.planes(m)
    left = dict(sp.sheets)
    for sid, sh in sp.sheets.items():
        ctx.check(sh.id == sid, 'sheet filed under another id', id=sid)
        s = np.asarray(sh.sides, float)
        ctx.check(s.shape == (2, 4), 'sides are not two planes')
        for k in (0, 1):
            ctx.check(abs(np.linalg.norm(sh.normal(k)) - 1) < 1e-6,
                      'normal is not a unit vector', sides=s)
        ctx.check(np.abs(np.asarray(sh.normal(0)) +
                         np.asarray(sh.normal(1))).max() < 1e-6,
                  'side normals are not opposite', sides=s)
        ctx.check(abs(sh.offset(0) + sh.offset(1) - m.thickness) < tol,
                  'sides are not one thickness apart', sides=s,
                  T=m.thickness)
        mid = np.asarray(sh.midplane(), float)
        ctx.check(np.abs(mid[:3] - np.asarray(sh.normal(0))).max() < 1e-6
                  and abs(mid[3] - (sh.offset(0) - m.thickness / 2)) < tol,
                  'midplane is not half way', mid=mid, sides=s)
        ctx.count('sheets')
    for n, hi, lo in want:
        hit = []
        for sid, sh in left.items():
            c = float(n @ np.asarray(sh.normal(0)))
            if abs(c) < 1 - sp3.tol_dir(m) ** 1.5 - 1e-9:
                continue
            a, b = (hi, lo) if c > 0 else (-lo, -hi)
            if abs(sh.offset(0) - a) < tol and \
                    abs(-sh.offset(1) - b) < tol:
                hit.append(sid)
        ctx.check(len(hit) == 1, 'plate plane found %d times' % len(hit),
                  plane=(n, hi, lo), model=m.name,
                  sheets={k: v.sides.tolist() for k, v in sp.sheets.items()})
        del left[hit[0]]
        ctx.count('plates matched')
    ctx.check(not left, 'a sheet that is no plate', left={
        k: v.sides.tolist() for k, v in left.items()}, plates=want)


def run_job(job, ctx):
    _, seed, n = job
    rng = random.Random(seed)
    for i in range(n):
        spec = sp3.fresh(rng)
        m = pipe.model(spec)
        wrong = rng.random() < .2
        ctx.current = (spec, wrong)
        if not wrong:
            sp = pipe.sheetplex(m, pipe.params(m.thickness))
            ctx.case(spec, True, spec)
            check_sheets(ctx, m, sp)
            ctx.maximum('sheets in a model', len(sp.sheets))
            continue
        d = pair_distances(m)
        for _ in range(20):
            T = rng.choice([m.thickness + rng.choice([-1, 1]) * rng.uniform(
                .3, 2), m.thickness * 2, rng.uniform(.5, 30)])
            if T > .4 and all(abs(T - x) > .25 for x in d):
                break
        else:
            continue
        try:
            sp = pipe.sheetplex(m, pipe.params(str(round(T, 3))))
        except Exception:
            ctx.count('wrong thickness refused')
            ctx.case((spec, T))
            continue
        ctx.case((spec, T))
        ctx.count('wrong thickness without sheets')
        ctx.check(len(sp.sheets) == 0, 'invented sheets for a thickness no '
                  'plate has', thickness=T, spec=spec,
                  sheets={k: v.sides.tolist() for k, v in sp.sheets.items()})
