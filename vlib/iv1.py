"""Independent model of 1D interval sets (sorted disjoint lists)."""
import math
from gmpy2 import mpq

MODES = ['grid', 'grid', 'rat', 'huge', 'tiny']


def coord(rng, mode):
    if mode == 'grid':
        return mpq(rng.randint(-5, 5))
    if mode == 'rat':
        return mpq(rng.randint(-500, 500), rng.randint(1, 60))
    if mode == 'huge':
        return mpq(rng.choice([-1, 1]) * rng.randint(1, 9)
                   * 10 ** rng.choice([0, 3, 20, 150, 305, 320]),
                   rng.choice([1, 3]))
    if mode == 'tiny':
        return 1 + mpq(rng.randint(-5, 5), 10 ** rng.choice([12, 40]))
    raise ValueError


def raw(rng, mode):
    res = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6])):
        a, b = sorted([coord(rng, mode), coord(rng, mode)])
        k = rng.random()
        if k < .06:
            a = -math.inf
        elif k < .12:
            b = math.inf
        elif k < .14:
            a, b = -math.inf, math.inf
        elif k < .2:
            b = a
        res.append((a, b))
        if rng.random() < .1:
            res.append((a, b))
        if rng.random() < .25 and not math.isinf(_f(b)):
            # touching neighbour
            c = coord(rng, mode)
            if c >= b:
                res.append((b, c))
    rng.shuffle(res)
    return res


def _f(x):
    return x if isinstance(x, float) else 0.0


def norm(ivs):
    """Event sweep: canonical list of the union."""
    ev = sorted({p for a, b in ivs for p in (a, b)})
    cov = []
    for i in range(len(ev) - 1):
        lo, hi = ev[i], ev[i + 1]
        if any(a <= lo and hi <= b for a, b in ivs):
            cov.append((lo, hi))
    res = []
    for a, b in cov:
        if res and res[-1][1] == a:
            res[-1] = (res[-1][0], b)
        else:
            res.append((a, b))
    return res


def combine(models, f):
    """Elementary-interval evaluation of a boolean function of sets."""
    ev = sorted({p for m in models for iv in m for p in iv}
                | {-math.inf, math.inf})
    res = []
    for lo, hi in zip(ev[:-1], ev[1:]):
        ins = [any(a <= lo and hi <= b for a, b in m) for m in models]
        if f(*ins):
            if res and res[-1][1] == lo:
                res[-1] = (res[-1][0], hi)
            else:
                res.append((lo, hi))
    return res


def measure(m):
    return sum((b - a for a, b in m), mpq(0))


def intervals(g):
    """Interval list of a Geom1D, None if not canonical/exact."""
    res = []
    for iv in g.get_intervals():
        if len(iv) != 2:
            return None
        a, b = iv
        for v in (a, b):
            if type(v) is not type(mpq(1)) and abs(v) != math.inf:
                return None
        if not a < b:
            return None
        if res and not res[-1][1] < a:
            return None
        res.append((a, b))
    return res
