"""S02: faces and cross-sections against the solid, point for point."""
import random

import numpy as np
import shapely
import shapely.geometry as sg

from vlib import pipe, run, sp3

RULE = ('one evaluation = one sheet of one model: sample points (random and '
        'near every vertex of the extracted shapes) decided by the '
        'constructive solid, plus face area against the mesh triangles of '
        'that plane; distinct = distinct (model specification, sheet)')
MIN_EVALUATIONS = {'quick': 150, 'thorough': 2500}
ASSUMPTIONS = ['membership in the synthetic solid is known by construction',
               'points closer than 2e-3 to an outline are not judged',
               'cross-sections are judged at 0.1 below each face and at '
               'half depth']

EPS = 1e-3


def jobs(tier, seed):
    n = 60 if tier == 'quick' else 1500
    return [('m', seed * 100019 + i, 2,
             150 if tier == 'quick' else 500) for i in range(n)]


def truth(m, pts):
    return m.inside(pts)


def near_vertices(rng, shp):
    """Points a short way off every vertex."""
    xy = shapely.get_coordinates(shp)
    if len(xy) > 60:
        xy = xy[rng.sample(range(len(xy)), 60)]
    res = []
    for x, y in xy:
        for _ in range(3):
            r = rng.choice([.01, .05, .3])
            a = rng.uniform(0, 6.283)
            res.append((x + r * np.cos(a), y + r * np.sin(a)))
    return res


def plane_area(m, n, h):
    mesh = m.mesh
    tol = 1e-5 * sp3.scale_of(m)
    sel = (np.asarray(mesh.face_normals) @ n > 1 - 1e-6)
    o = np.asarray(mesh.triangles)[:, 0] @ n
    sel &= np.abs(o - h) < tol
    return float(np.asarray(mesh.area_faces)[sel].sum())


def check_sheet(ctx, rng, m, sh, n):
    T = float(m.thickness)
    u, v, nn, h0, h1 = sp3.frame(sh)
    R = np.asarray(sh.slice_rotation, float)
    ctx.check(np.abs(R[:3, :3] @ R[:3, :3].T - np.eye(3)).max() < 1e-9,
              'sheet coordinates are distorted', R=R)
    ctx.check(np.linalg.det(R[:3, :3]) > 0, 'sheet coordinates are mirrored',
              R=R)
    ctx.check(np.abs(np.cross(u, v) - nn).max() < 1e-6,
              'sheet plane is not orthogonal to its normal', R=R, normal=nn)
    Ri = np.asarray(sh.inverse_slice_rotation, float)
    ctx.check(np.abs(Ri - R.T).max() < 1e-9, 'inverse rotation is not the '
              'inverse')
    shapes = dict(f0=sp3.shape(sh.faces[0]), f1=sp3.shape(sh.faces[1]),
                  smax=sp3.shape(sh.slices_max),
                  smin=sp3.shape(sh.slices_min),
                  both=sp3.shape(sh.both_faces))
    both = [s.bounds for s in (shapes['f0'], shapes['f1'], shapes['smax'])
            if not s.is_empty]
    # the model itself bounds what could be there
    xy3, _ = sp3.flat(sh, np.asarray(m.mesh.vertices))
    x0, y0 = xy3.min(0) - 1
    x1, y1 = xy3.max(0) + 1
    pts = list(sp3.sample(rng, (x0, y0, x1, y1), n))
    for b in both[:1]:
        pts += list(sp3.sample(rng, b, n // 2))
    pts += near_vertices(rng, shapes['smax'])
    pts += near_vertices(rng, shapes['f0'])
    pts += near_vertices(rng, shapes['f1'])
    # near every vertex of the solid that projects here
    for x, y in xy3[rng.sample(range(len(xy3)), min(20, len(xy3)))]:
        for _ in range(2):
            a = rng.uniform(0, 6.283)
            pts.append((x + .1 * np.cos(a), y + .1 * np.sin(a)))
    pts = np.array(pts)

    eps = 1e-4
    d = [h0 * 0 - eps, eps]

    def solid_at(depth):
        return truth(m, sp3.lift(sh, pts, np.full(len(pts), depth)))
    # which solid boundary lines are near: judge only points whose answer
    # is the same at small displacements
    vis0 = solid_at(eps) & ~solid_at(-eps)
    vis1 = solid_at(T - eps) & ~solid_at(T + eps)
    depths = [.1, T / 2, T - .1]
    mats = [solid_at(z) for z in depths]
    want = dict(f0=vis0, f1=vis1, smax=mats[0] | mats[1] | mats[2],
                smin=mats[0] & mats[1] & mats[2], both=vis0 & vis1)
    # unstable points: truth changes within EPS
    stable = np.ones(len(pts), bool)
    for a in range(4):
        dx = np.array([np.cos(a * np.pi / 2 + .3),
                       np.sin(a * np.pi / 2 + .3)]) * EPS

        def at(depth):
            return truth(m, sp3.lift(sh, pts + dx,
                                     np.full(len(pts), depth)))
        stable &= (at(eps) & ~at(-eps)) == vis0
        stable &= (at(T - eps) & ~at(T + eps)) == vis1
        for z, mm in zip(depths, mats):
            stable &= at(z) == mm
    for k, s in shapes.items():
        got = sp3.contains(s, pts)
        far = sp3.edge_distance(s, pts) > 2 * EPS
        bad = np.nonzero((got != want[k]) & far & stable)[0]
        ctx.count('points decided', int((far & stable).sum()))
        ctx.count('points inside ' + k, int((got & far & stable).sum()))
        if len(bad):
            i = bad[0]
            ctx.fail('extracted shape %s %s a point' % (
                k, 'invents' if got[i] else 'misses'), point=pts[i],
                sheet=sh.id, wrong='%d of %d' % (len(bad), len(pts)),
                shape=s.wkt)
    for k, (nrm, h) in dict(f0=(nn, h0), f1=(-nn, -h1)).items():
        g = sh.faces[0 if k == 'f0' else 1]
        a = float(g.area())
        w = plane_area(m, nrm, h)
        ctx.check(abs(a - w) < 1e-6 * (1 + w), 'face area differs from the '
                  'mesh area of that plane', face=k, got=a, want=w,
                  sheet=sh.id)
    # homogeneous projection
    p3 = sp3.lift(sh, pts[:5], np.full(5, T / 2))
    for xy, p in zip(pts[:5], p3):
        w = rng.choice([1., 1., 2., -4.])
        g = np.asarray(sh.project_point4(np.append(p * w, w)), float)
        ctx.check(np.abs(g - xy).max() < 1e-9 * sp3.scale_of(m),
                  'project_point4 of a point', got=g, want=xy)
    g = np.asarray(sh.project_point4(np.append(3 * u - 2 * v + nn, 0.)),
                   float)
    ctx.check(np.abs(g - [3, -2]).max() < 1e-9, 'project_point4 of a '
              'direction', got=g)


def run_job(job, ctx):
    _, seed, n, k = job
    rng = random.Random(seed)
    for i in range(n):
        spec = sp3.fresh(rng)
        m = pipe.model(spec)
        ctx.current = spec
        sp = pipe.sheetplex(m, pipe.params(m.thickness))
        for sid in sorted(sp.sheets):
            ctx.current = (spec, sid)
            check_sheet(ctx, rng, m, sp.sheets[sid], k)
            ctx.case((spec, sid), True, spec)
