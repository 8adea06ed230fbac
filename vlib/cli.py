"""Running the command in scratch directories and reading its drawings."""
import json
import math
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import shapely
import shapely.geometry as sg
from gmpy2 import mpq

from . import geo2, pipe, run

CHILD = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                     'clichild.py')


class Scratch:
    """A directory that is removed at the end."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-cli-')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *name):
        p = os.path.join(self.dir, *name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def model(self, spec, name='model.stl', ascii_=False):
        p = self.path(name)
        m = pipe.model(spec)
        kind = os.path.splitext(name)[1].lower()[1:]
        if kind == 'stl':
            kind = 'stl_ascii' if ascii_ else 'stl'
        data = m.mesh.export(file_type=kind)
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return p

    def listing(self):
        res = {}
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                with open(os.path.join(d, f), 'rb') as h:
                    res[os.path.relpath(os.path.join(d, f), self.dir)] = \
                        h.read()
        return res


def child(actions, hashseed=None, env=None, timeout=400):
    """Run actions in one fresh process; list of outcomes."""
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    if hashseed is not None:
        e['PYTHONHASHSEED'] = str(hashseed)
    e.update(env or {})
    with tempfile.TemporaryDirectory(prefix='verif-cli-') as d:
        out = os.path.join(d, 'out.json')
        try:
            p = subprocess.run([sys.executable, CHILD, out], text=True,
                               input=json.dumps(actions), env=e, cwd=d,
                               stdout=subprocess.PIPE, timeout=timeout,
                               stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            raise run.HarnessProblem('child timed out')
        if not os.path.exists(out):
            raise run.HarnessProblem('child failed: %s' % p.stdout[-2000:])
        with open(out) as f:
            return json.load(f)


# ------------------------------------------------------------------ drawings

def read_loops(path):
    """All drawn outlines, by a reader of our own: list of vertex lists.

    Raises ValueError on anything that is not a closed light-weight polyline.
    """
    with open(path, encoding='utf-8', errors='replace') as f:
        lines = f.read().split('\n')
    pairs = []
    for i in range(0, len(lines) - 1, 2):
        pairs.append((int(lines[i]), lines[i + 1].strip()))
    sec = None
    loops = []
    cur = None
    done = False
    i = 0
    while i < len(pairs):
        c, v = pairs[i]
        if c == 0 and v == 'SECTION':
            sec = pairs[i + 1][1]
            i += 2
            continue
        if c == 0 and v == 'ENDSEC':
            sec = None
        if c == 0 and v == 'EOF':
            done = True
        if sec == 'ENTITIES':
            if c == 0:
                if v == 'LWPOLYLINE':
                    cur = dict(n=None, closed=False, pts=[])
                    loops.append(cur)
                elif v != 'ENDSEC':
                    raise ValueError('unexpected entity %s' % v)
                else:
                    cur = None
            elif cur is not None:
                if c == 90:
                    cur['n'] = int(v)
                elif c == 70:
                    cur['closed'] = bool(int(v) & 1)
                elif c == 10:
                    cur['pts'].append([float(v), None])
                elif c == 20:
                    cur['pts'][-1][1] = float(v)
                elif c == 42 and float(v) != 0:
                    raise ValueError('curved outline')
        i += 1
    if not done:
        raise ValueError('drawing is truncated')
    res = []
    for c in loops:
        pts = [tuple(p) for p in c['pts']]
        if c['n'] is not None and c['n'] != len(pts):
            raise ValueError('vertex count is wrong')
        if any(p[1] is None or not (math.isfinite(p[0]) and math.isfinite(
                p[1])) for p in pts):
            raise ValueError('coordinates are not finite: %r' % (pts[:5],))
        if len(pts) > 1 and pts[0] == pts[-1]:
            pts = pts[:-1]
        elif not c['closed']:
            raise ValueError('outline is not closed')
        if len(pts) < 3:
            raise ValueError('outline with %d vertices' % len(pts))
        res.append(pts)
    return res


def canon(loops):
    """Order, start and direction independent form."""
    res = []
    for pts in loops:
        a = sum(p[0] * q[1] - q[0] * p[1]
                for p, q in zip(pts, pts[1:] + pts[:1]))
        if a < 0:
            pts = pts[::-1]
        k = pts.index(min(pts))
        res.append(tuple(pts[k:] + pts[:k]))
    return sorted(res)


def similar(a, b, eps=1e-7):
    """None or why two lists of outlines are not the same drawing."""
    a, b = canon(a), canon(b)
    if a == b:
        return None
    if len(a) != len(b):
        return '%d and %d outlines' % (len(a), len(b))
    left = [(np.array(x), x) for x in b]
    for x in a:
        ax = np.array(x)
        for k, (bx, y) in enumerate(left):
            if np.abs(ax.min(0) - bx.min(0)).max() < eps and \
                    np.abs(ax.max(0) - bx.max(0)).max() < eps and \
                    same_ring(x, y, eps):
                del left[k]
                break
        else:
            return 'outline %r is not in the other' % (x[:6],)
    return None


def same_ring(x, y, eps):
    rx, ry = sg.LinearRing(x), sg.LinearRing(y)
    return shapely.hausdorff_distance(rx, ry) < eps


def rings(geom):
    """Float outlines of a Geom2D."""
    res = []
    for out, holes in geo2.region(geom):
        for r in [out] + list(holes):
            res.append([(float(x), float(y)) for x, y in r])
    return res


def moved(loops, dx, dy):
    return [[(x + dx, y + dy) for x, y in r] for r in loops]


def bbox(loops):
    xs = [p[0] for r in loops for p in r]
    ys = [p[1] for r in loops for p in r]
    return min(xs), min(ys), max(xs), max(ys)


def option_args(p):
    """Command line options of a parameter dictionary."""
    res = []
    for k in ('thickness', 'min_finger_width', 'max_finger_width',
              'support_radius', 'final_dilation', 'random_seed'):
        if k in p:
            v = p[k]
            res.append('--%s=%s' % (k, mpq(v) if not isinstance(v, str)
                                    else v))
    return res


def features(r):
    """Numbers of an outline that do not depend on where it is drawn."""
    b = bbox([r])
    n = list(zip(r, r[1:] + r[:1]))
    return (b[2] - b[0], b[3] - b[1],
            abs(sum((p[0] - r[0][0]) * (q[1] - r[0][1]) -
                    (q[0] - r[0][0]) * (p[1] - r[0][1])
                    for p, q in n)) / 2,
            sum(math.hypot(p[0] - q[0], p[1] - q[1]) for p, q in n))


def congruent(a, b, eps=1e-6):
    """None or why the outlines are not the same up to where each one is
    drawn (sizes, areas and lengths compared)."""
    if len(a) != len(b):
        return '%d and %d outlines' % (len(a), len(b))
    left = [features(r) for r in b]
    for r in a:
        f = features(r)
        for i, g in enumerate(left):
            if all(abs(x - y) < eps * max(1, x) for x, y in zip(f, g)):
                del left[i]
                break
        else:
            return 'no outline like %r: %r' % (f, left[:8])
    return None
