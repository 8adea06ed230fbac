"""Small right-angled models for the demonstrations."""
import contextlib
import io
import logging
import sys
import types
import warnings

import numpy as np
import trimesh

logging.disable(logging.CRITICAL)
warnings.filterwarnings('ignore')


def solid(boxes, windows=(), perm=(0, 1, 2)):
    """Watertight mesh of a union of boxes minus windows."""
    grid = [sorted({c for b in list(boxes) + list(windows) for c in b[a]})
            for a in range(3)]

    def inside(p):
        def inb(b):
            return all(b[a][0] < p[a] < b[a][1] for a in range(3))
        return any(map(inb, boxes)) and not any(map(inb, windows))

    n = [len(g) - 1 for g in grid]
    cells = np.zeros([k + 2 for k in n], bool)
    for i in range(n[0]):
        for j in range(n[1]):
            for k in range(n[2]):
                cells[i + 1, j + 1, k + 1] = inside(
                    [(grid[a][v] + grid[a][v + 1]) / 2
                     for a, v in enumerate((i, j, k))])
    verts, faces, ids = [], [], {}

    def vid(p):
        if p not in ids:
            ids[p] = len(verts)
            verts.append([grid[a][p[a]] for a in range(3)])
        return ids[p]

    for c in np.argwhere(cells):
        for a in range(3):
            for s in (0, 1):
                o = c.copy()
                o[a] += 1 if s else -1
                if cells[tuple(o)]:
                    continue
                b, d = (a + 1) % 3, (a + 2) % 3
                q = []
                for u, w in ((0, 0), (1, 0), (1, 1), (0, 1)):
                    p = list(c - 1)
                    p[a] += s
                    p[b] += u
                    p[d] += w
                    q.append(vid(tuple(int(x) for x in p)))
                if not s:
                    q.reverse()
                faces += [(q[0], q[1], q[2]), (q[0], q[2], q[3])]
    m = trimesh.Trimesh(np.array(verts, float)[:, list(perm)], faces)
    if m.volume < 0:
        m.invert()
    assert m.is_watertight
    return m


def params(**k):
    from plycutter.plytypes import F
    p = dict(thickness=F(6), min_finger_width=F(3), max_finger_width=F(5),
             support_radius=F(12), final_dilation=F(5, 100), random_seed=42,
             only_sheets=None, debug=False)
    p.update(k)
    return p


def plex(mesh, **k):
    from plycutter.create_sheetplex import create_sheetplex
    return create_sheetplex(mesh, params(**k))


def run(mesh, **k):
    from plycutter import canned
    sp = plex(mesh, **k)
    with contextlib.redirect_stdout(io.StringIO()):
        return sp, canned.canned_1(sp, params(**k))


def cuts(res):
    return {k: v for k, v in res.sheet_cuts.items()}
