"""Exact 2D oracle, independent of the repository's geometry code.

A "region" is a list of polygons (outer, [holes]); each ring a list of
(mpq, mpq).  Membership of a polygon is even-odd in the outer ring and in no
hole ring; membership of a region is membership of any polygon.

The main tool is the vertical slab decomposition of the plane induced by a set
of segments: between two consecutive critical abscissae (end points and
crossing points) the segments spanning the slab are totally ordered, so every
trapezoid between neighbours is homogeneous for every region whose boundary is
among the segments.  Checking one point per trapezoid is therefore exhaustive
and its area is exact.
"""
import bisect
from gmpy2 import mpq


class Malformed(Exception):
    """A geometry object is not what the public API promises."""


def q(v):
    if isinstance(v, float):
        raise Malformed('float coordinate %r' % (v,))
    return mpq(v)


def ring_of(verts, exact=True):
    """List of exact points out of any vertex container."""
    res = []
    for p in verts:
        p = tuple(p)
        if len(p) != 2:
            raise Malformed('vertex %r' % (p,))
        res.append((q(p[0]), q(p[1])))
    return res


def region(geom):
    """Read a Geom2D through its public interface only."""
    res = []
    for poly in geom.polygons():
        res.append((ring_of(poly.exterior()),
                    [ring_of(h) for h in poly.holes()]))
    return res


def ring_area2(ring):
    """Twice the signed area, counter-clockwise positive (y up)."""
    s = mpq(0)
    n = len(ring)
    for i in range(n):
        x0, y0 = ring[i]
        x1, y1 = ring[(i + 1) % n]
        s += x0 * y1 - x1 * y0
    return s


def edges(ring):
    n = len(ring)
    for i in range(n):
        yield ring[i], ring[(i + 1) % n]


def region_edges(reg):
    for outer, holes in reg:
        yield from edges(outer)
        for h in holes:
            yield from edges(h)


def ring_contains(ring, x, y):
    """True / False / None (on the boundary): even-odd."""
    inside = False
    n = len(ring)
    x0, y0 = ring[n - 1]
    for x1, y1 in ring:
        if (y0 > y) != (y1 > y):
            t = (x1 - x0) * (y - y0) - (x - x0) * (y1 - y0)
            if t == 0:
                return None
            # crossing to the right of the point?
            if (t > 0) == (y1 > y0):
                inside = not inside
        elif y0 == y or y1 == y:
            if y0 == y1 == y:
                if min(x0, x1) <= x <= max(x0, x1):
                    return None
            elif (y0 == y and x0 == x) or (y1 == y and x1 == x):
                return None
        if (x1 == x and y1 == y):
            return None
        x0, y0 = x1, y1
    return inside


def poly_contains(poly, x, y):
    outer, holes = poly
    r = ring_contains(outer, x, y)
    if r is None or r is False:
        return r
    for h in holes:
        s = ring_contains(h, x, y)
        if s is None:
            return None
        if s:
            return False
    return True


def region_contains(reg, x, y):
    """True / False / None = on the boundary of a polygon and inside none."""
    edge = False
    for p in reg:
        r = poly_contains(p, x, y)
        if r:
            return True
        if r is None:
            edge = True
    return None if edge else False


def _crit_x(segs):
    """All abscissae of end points and proper crossings."""
    xs = set()
    for (x0, y0), (x1, y1) in segs:
        xs.add(x0)
        xs.add(x1)
    n = len(segs)
    dat = []
    for (x0, y0), (x1, y1) in segs:
        dat.append((min(x0, x1), max(x0, x1), min(y0, y1), max(y0, y1),
                    x0, y0, x1 - x0, y1 - y0))
    order = sorted(range(n), key=lambda i: dat[i][0])
    for a in range(n):
        i = order[a]
        lx, hx, ly, hy, ax, ay, adx, ady = dat[i]
        if adx == 0:
            continue
        for b in range(a + 1, n):
            j = order[b]
            e = dat[j]
            if e[0] > hx:
                break
            if e[2] > hy or e[3] < ly or e[6] == 0:
                continue
            den = adx * e[7] - ady * e[6]
            if den == 0:
                continue
            t = ((e[4] - ax) * e[7] - (e[5] - ay) * e[6]) / den
            if t < 0 or t > 1:
                continue
            u = ((e[4] - ax) * ady - (e[5] - ay) * adx) / den
            if u < 0 or u > 1:
                continue
            xs.add(ax + t * adx)
    return sorted(xs)


def cells(regions, extra_segs=()):
    """Yield (point, area, below_seg, above_seg) per bounded trapezoid."""
    segs = set()
    for reg in regions:
        for a, b in region_edges(reg):
            if a != b:
                segs.add((a, b) if a < b else (b, a))
    for a, b in extra_segs:
        if a != b:
            segs.add((a, b) if a < b else (b, a))
    segs = sorted(segs)
    xs = _crit_x(segs)
    if len(xs) < 2:
        return
    slabs = [[] for _ in range(len(xs) - 1)]
    for s in segs:
        (x0, y0), (x1, y1) = s
        if x0 == x1:
            continue
        i0 = bisect.bisect_left(xs, x0)
        i1 = bisect.bisect_left(xs, x1)
        m = (y1 - y0) / (x1 - x0)
        for i in range(i0, i1):
            xm = (xs[i] + xs[i + 1]) / 2
            slabs[i].append(y0 + m * (xm - x0))
    for i, ys in enumerate(slabs):
        ys = sorted(set(ys))
        xm = (xs[i] + xs[i + 1]) / 2
        w = xs[i + 1] - xs[i]
        for y0, y1 in zip(ys[:-1], ys[1:]):
            yield (xm, (y0 + y1) / 2), (y1 - y0) * w


def bounds(regions):
    xs = [p[0] for reg in regions for e in region_edges(reg) for p in e]
    ys = [p[1] for reg in regions for e in region_edges(reg) for p in e]
    if not xs:
        return (mpq(0), mpq(0), mpq(1), mpq(1))
    return min(xs), min(ys), max(xs), max(ys)


def _spanning(reg):
    return reg


class Sorted:
    """Per-slab crossing-parity lookup: fast membership for cell points.

    For a cell point of a slab, parity of the number of ring edges strictly
    below decides membership; no edge passes through a cell point.
    """

    def __init__(self, reg):
        self.polys = []
        for outer, holes in reg:
            self.polys.append(([e for e in edges(outer)],
                               [[e for e in edges(h)] for h in holes]))

    @staticmethod
    def _par(es, x, y):
        par = False
        for (x0, y0), (x1, y1) in es:
            if (x0 > x) != (x1 > x):
                if y0 + (y1 - y0) * (x - x0) / (x1 - x0) < y:
                    par = not par
        return par

    def count(self, x, y):
        """Number of polygons of the region containing the point."""
        c = 0
        for outer, holes in self.polys:
            if self._par(outer, x, y):
                if not any(self._par(h, x, y) for h in holes):
                    c += 1
        return c


def check_op(inputs, result, op):
    """Exhaustive comparison of result with op(inputs) over all cells.

    Returns (n_cells, mismatch or None, stats)."""
    allr = list(inputs) + [result]
    loc = [Sorted(r) for r in allr]
    n = 0
    n_in = 0
    area = mpq(0)
    combos = set()
    for (x, y), a in cells(allr):
        n += 1
        ins = tuple(s.count(x, y) > 0 for s in loc[:-1])
        combos.add(ins)
        want = bool(op(*ins))
        got = loc[-1].count(x, y)
        if got > 1:
            return n, ('overlapping polygons in result', (x, y), ins, got), {}
        if bool(got) != want:
            return n, ('wrong membership', (x, y), ins, got), {}
        if want:
            n_in += 1
            area += a
    return n, None, dict(inside=n_in, area=area, combos=combos)


def well_formed(reg, merged=False):
    """None, or a description of what is malformed.

    Rings have >= 3 vertices, no repeated consecutive vertex, outer rings
    clockwise (the library's documented orientation), non-zero area, holes
    inside the outer ring, ring self-winding in {0, 1}, polygons pairwise
    interior disjoint.  merged: no boundary piece is shared by two polygons.
    """
    for outer, holes in reg:
        for r in [outer] + holes:
            if len(r) < 3:
                return ('ring with fewer than 3 vertices', r)
            for a, b in edges(r):
                if a == b:
                    return ('repeated consecutive vertex', a)
            if ring_area2(r) == 0:
                return ('ring of zero area', r)
        if ring_area2(outer) > 0:
            return ('outer ring is not clockwise', outer)
        s = {ring_area2(h) > 0 for h in holes}
        if len(s) > 1:
            return ('holes of mixed orientation', holes)
    per = []
    for outer, holes in reg:
        per.append((list(edges(outer)), [list(edges(h)) for h in holes]))
    for (x, y), a in cells([reg]):
        tot = 0
        for outer, holes in per:
            w = _wind(outer, x, y)
            if w not in (0, -1):
                return ('outer ring winds %d times around' % w, (x, y))
            hs = [_wind(h, x, y) for h in holes]
            if any(abs(h) > 1 for h in hs):
                return ('hole winds more than once', (x, y))
            nh = sum(abs(h) for h in hs)
            if nh > 1:
                return ('overlapping holes', (x, y))
            if nh and not w:
                return ('hole outside its polygon', (x, y))
            if w and not nh:
                tot += 1
        if tot > 1:
            return ('overlapping polygons', (x, y))
    if merged:
        seen = {}
        for k, (a, b) in enumerate(region_edges(reg)):
            key = (a, b) if a < b else (b, a)
            seen.setdefault(key, 0)
            seen[key] += 1
        bad = shared_boundary(reg)
        if bad is not None:
            return ('two-sided boundary piece', bad)
    return None


def _wind(es, x, y):
    w = 0
    for (x0, y0), (x1, y1) in es:
        if (x0 > x) != (x1 > x):
            if y0 + (y1 - y0) * (x - x0) / (x1 - x0) < y:
                w += 1 if x1 > x0 else -1
    return w


def shared_boundary(reg):
    """A pair of overlapping collinear edges (an edge with the region on both
    sides, i.e. not really boundary), or None."""
    lines = {}
    for a, b in region_edges(reg):
        if a > b:
            a, b = b, a
        dx, dy = b[0] - a[0], b[1] - a[1]
        if dx == 0:
            key = (None, a[0])
            iv = (a[1], b[1])
        else:
            m = dy / dx
            key = (m, a[1] - m * a[0])
            iv = (a[0], b[0])
        lines.setdefault(key, []).append(iv)
    for key, ivs in lines.items():
        if len(ivs) < 2:
            continue
        ivs.sort()
        for p, r in zip(ivs[:-1], ivs[1:]):
            if r[0] < p[1]:
                return (key, p, r)
    return None


def exact_area(reg):
    loc = Sorted(reg)
    return sum((a for (x, y), a in cells([reg]) if loc.count(x, y)), mpq(0))
