"""Generators of 2D polygon inputs (plain exact vertex lists)."""
import math
from gmpy2 import mpq


def coord(rng, mode):
    if mode == 'int':
        return mpq(rng.randint(-6, 6))
    if mode == 'half':
        return mpq(rng.randint(-12, 12), 2)
    if mode == 'rat':
        return mpq(rng.randint(-600, 600), rng.randint(1, 97))
    if mode == 'float':
        return mpq(rng.uniform(-10, 10))
    if mode == 'huge':
        return mpq(rng.randint(-10**12, 10**12), rng.choice([1, 3, 10**9]))
    raise ValueError(mode)


MODES = ['int', 'int', 'half', 'rat', 'float', 'huge']


def area2(r):
    return sum(r[i][0] * r[(i + 1) % len(r)][1]
               - r[(i + 1) % len(r)][0] * r[i][1] for i in range(len(r)))


def _orient(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)


def _on(a, b, p):
    return (_orient(a, b, p) == 0
            and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def segs_touch(a, b, c, d):
    if (_orient(a, b, c) * _orient(a, b, d) < 0
            and _orient(c, d, a) * _orient(c, d, b) < 0):
        return True
    return _on(a, b, c) or _on(a, b, d) or _on(c, d, a) or _on(c, d, b)


def is_simple(r):
    n = len(r)
    if n < 3 or len(set(r)) != n:
        return False
    for i in range(n):
        a, b, c = r[i], r[(i + 1) % n], r[(i + 2) % n]
        # spikes: the next edge may not fold back
        if _orient(a, b, c) == 0 and ((b[0] - a[0]) * (c[0] - b[0])
                                      + (b[1] - a[1]) * (c[1] - b[1])) < 0:
            return False
        for j in range(i + 2, n):
            if i == 0 and j == n - 1:
                continue
            if segs_touch(a, b, r[j], r[(j + 1) % n]):
                return False
    return area2(r) != 0


def triangle(rng, mode):
    while True:
        r = [(coord(rng, mode), coord(rng, mode)) for _ in range(3)]
        if area2(r) != 0:
            return r


def rect(rng, mode):
    while True:
        x = sorted([coord(rng, mode), coord(rng, mode)])
        y = sorted([coord(rng, mode), coord(rng, mode)])
        if x[0] < x[1] and y[0] < y[1]:
            return [(x[0], y[0]), (x[0], y[1]), (x[1], y[1]), (x[1], y[0])]


def two_opt(rng, mode, n):
    """Random simple polygon by uncrossing a random tour."""
    for _ in range(30):
        pts = list({(coord(rng, mode), coord(rng, mode)) for _ in range(n)})
        if len(pts) < 3:
            continue
        rng.shuffle(pts)
        m = len(pts)
        for _ in range(200):
            ch = False
            for i in range(m):
                for j in range(i + 2, m):
                    if i == 0 and j == m - 1:
                        continue
                    if segs_touch(pts[i], pts[i + 1], pts[j],
                                  pts[(j + 1) % m]):
                        pts[i + 1:j + 1] = reversed(pts[i + 1:j + 1])
                        ch = True
            if not ch:
                break
        if is_simple(pts):
            return pts
    return triangle(rng, mode)


def star(rng, n, scale=6, cx=0, cy=0, rational=True):
    """Star-shaped simple polygon with n vertices."""
    a0 = rng.uniform(0, 6.3)
    r = []
    for i in range(n):
        a = a0 - (i + rng.uniform(-.3, .3)) * 2 * math.pi / n
        d = rng.uniform(.3, 1) * scale
        r.append((mpq(cx) + mpq(round(d * math.cos(a) * 64), 64),
                  mpq(cy) + mpq(round(d * math.sin(a) * 64), 64)))
    return r if is_simple(r) else star(rng, n, scale, cx, cy)


def convex(rng, n, scale=6, cx=0, cy=0):
    while True:
        a = sorted((rng.uniform(0, 2 * math.pi) for _ in range(n)),
                   reverse=True)
        r = [(mpq(cx) + mpq(round(scale * math.cos(t) * 64), 64),
              mpq(cy) + mpq(round(scale * math.sin(t) * 64), 64)) for t in a]
        if is_simple(r) and all(
                _orient(r[i - 2], r[i - 1], r[i]) < 0 for i in range(n)):
            return r


def comb(rng, teeth):
    """Finger-joint like orthogonal polygon (with optional jitter)."""
    x = mpq(0)
    r = [(mpq(0), mpq(0))]
    for i in range(teeth):
        w = mpq(rng.randint(1, 6), rng.choice([1, 2, 3]))
        h = mpq(rng.randint(3, 6))
        d = mpq(rng.randint(0, 2))
        r.append((x, h))
        r.append((x + w, h))
        x += w
        if i < teeth - 1:
            g = mpq(rng.randint(1, 4), rng.choice([1, 2]))
            r.append((x, mpq(1) + d / 2))
            r.append((x + g, mpq(1) + d / 2))
            x += g
    r.append((x, mpq(0)))
    r = [p for i, p in enumerate(r) if p != r[i - 1]]
    return r if is_simple(r) else rect(rng, 'int')


def with_collinear(rng, r):
    """Insert redundant collinear vertices."""
    res = []
    for i, p in enumerate(r):
        res.append(p)
        n = r[(i + 1) % len(r)]
        if rng.random() < .4:
            t = mpq(rng.randint(1, 5), 6)
            res.append((p[0] + (n[0] - p[0]) * t, p[1] + (n[1] - p[1]) * t))
    return res


def polygon(rng, size=8):
    k = rng.random()
    mode = rng.choice(MODES)
    if k < .15:
        r = triangle(rng, mode)
    elif k < .35:
        r = rect(rng, mode)
    elif k < .65:
        r = two_opt(rng, mode, rng.randint(3, size))
    elif k < .75:
        r = star(rng, rng.randint(3, size))
    elif k < .85:
        r = convex(rng, rng.randint(3, size))
    else:
        r = comb(rng, rng.randint(1, max(2, size // 4)))
    if rng.random() < .25:
        r = with_collinear(rng, r)
    if rng.random() < .5:
        r = list(reversed(r))
    k = rng.randrange(len(r))
    return r[k:] + r[:k]


def clockwise(r):
    return r if area2(r) < 0 else list(reversed(r))


def region(rng, n, size=6, grid=False):
    """A few polygons, maybe overlapping or touching."""
    if grid:
        return [clockwise(rect(rng, 'int')) for _ in range(n)]
    return [clockwise(polygon(rng, size)) for _ in range(n)]
