"""Helpers to watch build states."""
import random

from gmpy2 import mpq

from plycutter import canned, sheetbuild
from plycutter.geometry.geom1d import Geom1D
from plycutter.geometry.geom2d import Geom2D

from . import iv1, pipe, sp3

FINGERS = [(3, 5), (2, 4), (4, 4), (5, 9), (mpq(7, 2), mpq(11, 2)), (1, 30),
           (mpq(5, 2), 8), (12, 20), (20, 30)]


def workload(rng, heavy=.15, furn=.45):
    """(spec, parameter overrides) of a complete run, cheap ones mostly."""
    def small(r):
        return pipe.furniture(r) if r.random() < furn else pipe.small(r)
    k = rng.random()
    if k < heavy:
        spec = sp3.fresh(rng, pipe.corner)
    elif k < heavy + .12:
        s = sp3.fresh(rng, small)
        if rng.random() < .5:
            spec = ('stl', ('moved', s, rng.randrange(10 ** 6), 100, True))
        else:
            spec = ('moved', s, rng.randrange(10 ** 6),
                    rng.choice([10, 900]), True)
    elif k < heavy + .2:
        s = sp3.fresh(rng, small)
        spec = rng.choice([('perm', s, rng.randrange(10 ** 6)),
                           ('axis', s, rng.randrange(10 ** 6), 50)])
    elif k < heavy + .3:
        def windowed(r):
            while True:
                s = pipe.small(r)
                if s[0] == 'walls':
                    s, kind = sp3.with_window(r, s)
                    if kind == 'window':
                        return s
        spec = sp3.fresh(rng, windowed)
    else:
        spec = sp3.fresh(rng, small)
    mn, mx = rng.choice(FINGERS)
    kw = dict(min_finger_width=mpq(mn), max_finger_width=mpq(mx),
              random_seed=rng.randrange(1000),
              support_radius=rng.choice([12, 12, 12, 15, mpq(21, 2), 20]))
    return spec, kw


def run(spec, kw):
    kw = dict(kw)
    kw['support_radius'] = mpq(kw.get('support_radius', 12))
    return pipe.process(spec, **kw)


def m1(g):
    """Exact length of a bounded 1D set."""
    return sum((b - a for a, b in iv1.intervals(g)), mpq(0))


def a2(g):
    return g.area()


def states_equal(a, b):
    """None, or what differs between two states."""
    if a is b:
        return None
    for name in ('sheet_chosen', 'sheet_ok'):
        x, y = getattr(a, name), getattr(b, name)
        if set(x) != set(y):
            return '%s: other sheets' % name
        for k in x:
            if x[k] is not y[k] and a2(x[k] ^ y[k]) > 1e-9:
                return '%s of %s' % (name, k)
    for name in ('interside_chosen', 'interside_ok'):
        x, y = getattr(a, name), getattr(b, name)
        if set(x) != set(y):
            return '%s: other joint sides' % name
        for k in x:
            if x[k] is not y[k] and \
                    iv1.intervals(x[k]) != iv1.intervals(y[k]):
                return '%s of %s' % (name, k)
    return None


def same_sheetplex(a, b):
    return a is b or (set(a.sheets) == set(b.sheets) and
                      set(a.intersections) == set(b.intersections))


def snapshot(sb):
    """Exact plain copy of a state, to see later whether it was changed."""
    from . import geo2
    return (
        {k: geo2.region(v) for k, v in sb.sheet_chosen.items()},
        {k: geo2.region(v) for k, v in sb.sheet_ok.items()},
        {k: iv1.intervals(v) for k, v in sb.interside_chosen.items()},
        {k: iv1.intervals(v) for k, v in sb.interside_ok.items()})
