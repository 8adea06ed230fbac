"""Run the real pipeline on generated models and record what happens."""
import functools
import itertools
import random

import numpy as np

from plycutter import canned, create_sheetplex, sheetbuild
from plycutter.geometry.geom1d import Geom1D
from plycutter.geometry.geom2d import Geom2D
from plycutter.plytypes import F

from . import geo2, models, run


def params(T, **kw):
    p = dict(thickness=F(T), min_finger_width=F(3), max_finger_width=F(5),
             support_radius=F(12), final_dilation=F(5, 100), random_seed=42,
             only_sheets=None, return_on_failure=False)
    for k, v in kw.items():
        if k not in p:
            raise KeyError(k)
        p[k] = v
    return p


def axis_placement(spec):
    """Proper rotation by right angles and an integer shift."""
    rng = random.Random(spec[2])
    while True:
        perm = [0, 1, 2]
        rng.shuffle(perm)
        R = np.zeros((3, 3))
        for i, j in enumerate(perm):
            R[i, j] = rng.choice([-1, 1])
        if np.linalg.det(R) > 0:
            break
    return R, np.array([float(rng.randint(-spec[3], spec[3]))
                        for _ in range(3)])


# ------------------------------------------------------------- model specs

@functools.lru_cache(maxsize=64)
def model(spec):
    k = spec[0]
    if k == 'walls':              # ('walls', dims, T, walls[, dividers])
        _, dims, T, walls = spec[:4]
        boxes = models.wall_boxes(dims, T, walls)
        for axis, c in (spec[4] if len(spec) > 4 else ()):
            b = [(0, d) for d in dims]
            b[axis] = (c, c + T)
            boxes.append((axis, tuple(b)))
        wins = list(spec[5]) if len(spec) > 5 else []
        return models.boxes_model('walls%s' % (','.join(walls)), boxes, wins,
                                  T)
    if k == 'rand':
        return models.random_boxes(random.Random(spec[1]), **dict(
            spec[2] if len(spec) > 2 else ()))
    if k == 'furn':
        m = models.furniture(random.Random(spec[1]), *spec[2:])
        assert m is not None
        return m
    if k == 'ribs':
        return models.ribs(random.Random(spec[1]))
    if k == 'tube':
        _, n, T, R, depth, phase = spec
        return models.tube(n, T=T, R=R, depth=depth, phase=phase)
    if k == 'fold':
        _, angles, lengths, T, depth = spec
        return models.fold(list(angles), list(lengths), T=T, depth=depth)
    if k == 'moved':              # ('moved', spec, seed, distance, rotate)
        m = model(spec[1])
        rng = random.Random(spec[2])
        R = models.rotation(rng) if spec[4] else None
        t = [rng.uniform(-1, 1) * spec[3] for _ in range(3)]
        if len(spec) > 5:
            t = spec[5]
        return m.moved(R, t)
    if k == 'axis':               # ('axis', spec, seed, distance)
        return model(spec[1]).moved(*axis_placement(spec))
    if k == 'stl':                # coordinates as a binary STL keeps them
        m = model(spec[1])
        m = m.moved(np.eye(3), (0, 0, 0))
        m.mesh.vertices = np.asarray(m.mesh.vertices, np.float32).astype(
            float)
        m.coarse = True
        return m
    if k == 'perm':
        return model(spec[1]).permuted(random.Random(spec[2]))
    if k == 'remesh':
        return model(spec[1]).remeshed(random.Random(spec[2]))
    if k == 'subdiv':
        return model(spec[1]).subdivided()
    if k == 'comb':               # a base with n dividers
        _, n, T, gap = spec
        dims = (n * (T + gap) + gap, 30, 24)
        return model(('walls', dims, T, ('z0',), tuple(
            (0, gap + i * (T + gap)) for i in range(n))))
    if k == 'grid':               # crossing dividers, no floor
        _, nx, ny, T, gap = spec
        X, Y = (n * (T + gap) + gap for n in (nx, ny))
        boxes = [(0, ((gap + i * (T + gap), (i + 1) * (T + gap)),
                      (0, Y), (0, 20))) for i in range(nx)]
        boxes += [(1, ((0, X), (gap + i * (T + gap), (i + 1) * (T + gap)),
                       (0, 20))) for i in range(ny)]
        return models.boxes_model('grid%dx%d' % (nx, ny), boxes, [], T)
    raise KeyError(k)


def small(rng):
    """Spec of a small cheap model (about a second of processing)."""
    T = rng.choice([3, 4, 6])
    k = rng.random()
    d = lambda: rng.randint(20, 34)  # noqa
    if k < .45:
        a, b = rng.sample('xyz', 2)
        walls = (a + rng.choice('01'), b + rng.choice('01'))
        return ('walls', (d(), d(), d()), T, tuple(sorted(walls)))
    if k < .65:
        return ('fold', (rng.choice([-1, 1]) * rng.choice(
            [30, 45, 60, 75, 90, 100]),), (d(), d()), T, d())
    if k < .8:          # U
        a, b = rng.sample('xyz', 2)
        return ('walls', (d() + 6, d() + 6, d()), T,
                (a + '0', a + '1', b + rng.choice('01')))
    if k < .9:          # T joint: a divider on a wall
        dims = (40, d(), d())
        return ('walls', dims, T, ('y0',),
                ((0, rng.randint(2 * T + 2, 40 - 3 * T - 2)),))
    return ('fold', (60, rng.choice([45, -45, 90])), (24, 26, 24), T, d())


def furniture(rng):
    """A floor with whole or partial walls, doors and other openings."""
    return ('furn', rng.randrange(10 ** 6))


def corner(rng):
    """A corner of three plates."""
    T = rng.choice([3, 4, 6])
    d = lambda: rng.randint(24, 36)  # noqa
    return ('walls', (d(), d(), d()), T,
            tuple(a + rng.choice('01') for a in 'xyz'))


def sheetplex(m, p):
    return create_sheetplex.create_sheetplex(m.mesh, p)


def process(spec, **kw):
    """(model, params, sheetplex, result) of a complete run."""
    m = model(spec)
    p = params(m.thickness, **kw)
    sp = sheetplex(m, p)
    r = canned.canned_1(sp, p)
    return m, p, sp, r


# --------------------------------------------------------- recorded 2D ops

def op_sources(tier):
    base = [('walls', (24, 26, 30), 6, ('x0', 'y0')),
            ('fold', (60,), (24, 26), 4, 24),
            ('walls', (26, 26, 26), 4, ('x0', 'y0', 'z1'))]
    if tier == 'thorough':
        base += [('moved', base[0], 5, 300, True),
                 ('tube', 3, 4, 30, 24, .3),
                 ('moved', ('rand', 4), 9, 50, True), ('rand', 5),
                 ('tube', 6, 6, 30, 30, .1),
                 ('fold', (45, 60), (30, 30, 30), 4, 30)]
    return base


class OpRecorder:
    """Wraps the public 2D operations of the running process."""

    NAMES = {'__or__': '|', '__and__': '&', '__sub__': '-'}

    def __init__(self, every, limit, offset=0, max_edges=160):
        self.every = every
        self.limit = limit
        self.n = offset
        self.total = 0
        self.records = []
        self.max_edges = max_edges
        self.depth = 0

    def want(self):
        self.n += 1
        self.total += 1
        return len(self.records) < self.limit and self.n % self.every == 0

    def keep(self, op, operands, result, extra=None):
        ne = sum(1 for g in list(operands) + [result]
                 for _ in g.all_segments())
        if ne > self.max_edges:
            self.n -= 1         # take the next one instead
            return
        self.records.append((op, [geo2.region(g) for g in operands],
                             geo2.region(result), extra))

    def __enter__(self):
        self.saved = {}
        rec = self

        def wrap(name, sym):
            orig = getattr(Geom2D, name)
            self.saved[name] = Geom2D.__dict__.get(name)

            def w(a, b):
                take = rec.want()
                r = orig(a, b)
                if take:
                    rec.keep(sym, [a, b], r)
                return r
            setattr(Geom2D, name, w)
        for name, sym in self.NAMES.items():
            wrap(name, sym)
        orig_union = Geom2D.__dict__['union']
        self.saved['union'] = orig_union

        def union(cls, geoms):
            geoms = list(geoms)
            take = rec.want()
            r = orig_union.__func__(cls, geoms)
            if take:
                rec.keep('union', geoms, r)
            return r
        Geom2D.union = classmethod(union)
        orig_buffer = Geom2D.buffer
        self.saved['buffer'] = Geom2D.__dict__.get('buffer')

        def buffer(a, amount):
            take = rec.want()
            r = orig_buffer(a, amount)
            if take:
                rec.keep('buffer', [a], r, amount)
            return r
        Geom2D.buffer = buffer
        return self

    def __exit__(self, *a):
        for name, v in self.saved.items():
            if v is None:
                delattr(Geom2D, name)
            else:
                setattr(Geom2D, name, v)


def recorded(spec, seed, limit, ctx, max_edges=160, every=None):
    m = model(spec)
    p = params(m.thickness, random_seed=seed)
    every = every or max(1, 900 // limit)
    with OpRecorder(every, limit, seed % every, max_edges) as rec:
        sp = sheetplex(m, p)
        canned.canned_1(sp, p)
    ctx.count('pipeline operations seen', rec.total)
    return rec.records


def recorded_ops(spec, seed, limit, ctx):
    for op, regs, rr, extra in recorded(spec, seed, limit, ctx):
        yield op, regs, rr
