"""W04: drawings show exactly the shape; showing changes nothing."""
import random
import sys
import types

import matplotlib
matplotlib.use('Agg')
import matplotlib.colors as mc  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from gmpy2 import mpq  # noqa: E402
from matplotlib.path import Path  # noqa: E402

from plycutter import canned, sheetbuild  # noqa: E402
from plycutter.geometry.geom1d import Geom1D  # noqa: E402
from plycutter.geometry.geom2d import Geom2D  # noqa: E402

from checks import W01  # noqa: E402
from vlib import build, geo2, iv1, pipe, run, sp3, w2  # noqa: E402

RULE = ('one evaluation = one drawing path judged at sample points of every '
        'face of the shape (non-zero winding), one rendered picture judged '
        'pixel by pixel away from outlines, one displayed sheet, or one pair '
        'of runs with and without display; distinct = distinct shapes/states')
MIN_EVALUATIONS = {'quick': 400, 'thorough': 6000}
ASSUMPTIONS = ['the renderer fills by the non-zero rule (Agg)',
               'IPython.display is replaced by a recorder']


def jobs(tier, seed):
    q = tier == 'quick'
    return [('path', seed * 100417 + i, 30 if q else 120)
            for i in range(14 if q else 80)] + \
        [('pixels', seed * 100447 + i, 8 if q else 25)
         for i in range(6 if q else 40)] + \
        [('sheet', seed * 100459 + i) for i in range(8 if q else 60)] + \
        [('show', seed * 100469 + i) for i in range(5 if q else 40)]


COLORS = ['red', 'blue', '#12ab9f', (.1, .2, .3), (.5, .25, .75, .5), 'k']


def subpaths(path):
    """Closed vertex loops of a path, as a renderer reads them."""
    res = []
    codes = path.codes
    for v, c in zip(path.vertices, codes if codes is not None else
                    [Path.MOVETO] + [Path.LINETO] * len(path.vertices)):
        if c == Path.MOVETO:
            res.append([v])
        elif c == Path.LINETO:
            res[-1].append(v)
        elif c in (Path.CLOSEPOLY, Path.STOP):
            pass
        else:
            raise ValueError('curve in the path')
    return [np.asarray(r, float) for r in res]


def winding(loops, xy):
    """Winding numbers of points (float; points are off the outlines)."""
    xy = np.asarray(xy, float)
    w = np.zeros(len(xy), int)
    x, y = xy[:, 0:1], xy[:, 1:2]
    for r in loops:
        a, b = r, np.roll(r, -1, 0)
        up = (a[:, 1] <= y) & (b[:, 1] > y)
        dn = (a[:, 1] > y) & (b[:, 1] <= y)
        s = (b[:, 0] - a[:, 0]) * (y - a[:, 1]) - \
            (x - a[:, 0]) * (b[:, 1] - a[:, 1])
        w += (up & (s > 0)).sum(1) - (dn & (s < 0)).sum(1)
    return w


def points(rng, reg):
    """Sample points well away from all outlines, with membership."""
    b = geo2.bounds([reg])
    w, h = b[2] - b[0], b[3] - b[1]
    size = max(w, h)
    pts = [c[0] for c in geo2.cells([reg])] if sum(
        1 for _ in geo2.region_edges(reg)) < 70 else []
    pts = rng.sample(pts, min(len(pts), 60))
    R = lambda: mpq(rng.randint(0, 10 ** 6), 10 ** 6)  # noqa
    for _ in range(60):
        pts.append((b[0] - w / 5 + w * 7 / 5 * R(),
                    b[1] - h / 5 + h * 7 / 5 * R()))
    es = list(geo2.region_edges(reg))
    ea = np.array([[float(v) for p in e for v in p] for e in es])
    keep, want = [], []
    for p in pts:
        x, y = float(p[0]), float(p[1])
        d = seg_dist(ea, x, y)
        if d < 1e-6 * float(size):
            continue
        keep.append((x, y))
        want.append(bool(geo2.region_contains(reg, *p)))
    return np.array(keep).reshape(-1, 2), np.array(want, bool)


def seg_dist(ea, x, y):
    ax, ay, bx, by = ea.T
    dx, dy = bx - ax, by - ay
    n = dx * dx + dy * dy
    t = ((x - ax) * dx + (y - ay) * dy) / np.where(n > 0, n, 1)
    t = np.clip(t, 0, 1)
    return np.hypot(ax + t * dx - x, ay + t * dy - y).min()


def judge_path(ctx, rng, path, g, what, **detail):
    reg = geo2.region(g)
    loops = subpaths(path)
    pts, want = points(rng, reg)
    got = winding(loops, pts) != 0
    bad = got != want
    ctx.check(not bad.any(), what + ' fills other points than the shape',
              point=pts[bad][:3], filled=got[bad][:3], shape=reg, **detail)
    ctx.count('points judged', len(pts))
    ctx.count('points filled', int(want.sum()))
    ctx.check(len(loops) == sum(1 + len(h) for _, h in reg),
              what + ' has other outlines than the shape', shape=reg,
              got=len(loops), **detail)
    return len(set(want)) > 1


def shape(rng):
    while True:
        g = W01.shape(rng)
        reg = geo2.region(g)
        if not reg:
            return g
        b = geo2.bounds([reg])
        if max(abs(v) for v in b) < 10 ** 6 * max(b[2] - b[0], b[3] - b[1]) \
                and max(abs(v) for v in b) < 10 ** 9:
            return g


def path_job(job, ctx):
    rng = random.Random(job[1])
    fig, axes = plt.subplots(1, 2)
    for i in range(job[2]):
        g = shape(rng)
        reg = geo2.region(g)
        ctx.current = reg
        color = rng.choice(COLORS)
        alpha = rng.choice([1.0, .3, .5, 0.0])
        label = rng.choice([None, 'part'])
        lw = rng.choice([0, 1, 2.5])
        k = rng.random()
        ax = axes[rng.randrange(2)]
        n = len(ax.patches)
        if k < .5:
            patch = g.to_mpatch(color=color, alpha=alpha, label=label,
                                linewidth=lw)
            ctx.check(len(ax.patches) == n, 'drawn without being asked')
        elif k < .75:
            patch = g.to_mpatch(color=color, alpha=alpha, label=label,
                                linewidth=lw, ax=ax)
            ctx.check(len(ax.patches) == n + bool(reg), 'patch not drawn')
        else:
            g.show2d(ax, color, alpha=alpha, label=label, linewidth=lw)
            ctx.check(len(ax.patches) == n + bool(reg), 'shape not drawn',
                      shape=reg)
            patch = ax.patches[-1] if reg else None
            ctx.count('shown')
        ctx.check(geo2.region(g) == reg, 'drawing changed the shape')
        if not reg:
            ctx.check(patch is None or len(patch.get_path().vertices) == 0,
                      'an empty shape draws something')
            ctx.case(('empty', color), False)
            ctx.count('empty shapes')
            continue
        nt = judge_path(ctx, rng, patch.get_path(), g, 'the path')
        ctx.case(reg, nt, reg if len(reg[0][0]) < 8 else None)
        want = mc.to_rgba(color, alpha)
        got = patch.get_facecolor()
        ctx.check(np.allclose(got, want) and patch.get_fill(),
                  'wrong colour or transparency', got=got, want=want)
        ctx.check(patch.get_linewidth() == lw, 'wrong line width')
        if label:
            ctx.check(patch.get_label() == label, 'wrong label')
        if k >= .5:
            # visible: within the limits of the axes
            b = geo2.bounds([reg])
            x0, x1 = ax.get_xlim()
            y0, y1 = ax.get_ylim()
            e = 1e-9 * max(abs(v) for v in (x0, x1, y0, y1))
            ctx.check(x0 - e <= b[0] and b[2] <= x1 + e and y0 - e <= b[1]
                      and b[3] <= y1 + e, 'the shape is outside the picture',
                      bounds=b, limits=(x0, x1, y0, y1))
            ax.clear()
    plt.close('all')


def pixels(job, ctx):
    rng = random.Random(job[1])
    for i in range(job[2]):
        g = shape(rng)
        reg = geo2.region(g)
        if not reg:
            continue
        b = [float(v) for v in geo2.bounds([reg])]
        if min(b[2] - b[0], b[3] - b[1]) < .02 * max(b[2] - b[0],
                                                    b[3] - b[1]):
            continue
        fig = plt.figure(figsize=(3, 3), dpi=100)
        ax = fig.add_axes([0, 0, 1, 1])
        g.show2d(ax, 'blue')
        fig.canvas.draw()
        img = np.asarray(fig.canvas.buffer_rgba())
        inv = ax.transData.inverted()
        H, W = img.shape[:2]
        c0, c1 = inv.transform([(.5, .5), (1.5, 1.5)])
        px = max(abs(c1 - c0))
        ea = np.array([[float(v) for p in e for v in p]
                       for e in geo2.region_edges(reg)])
        n = 0
        for _ in range(700):
            col, row = rng.randrange(W), rng.randrange(H)
            x, y = inv.transform((col + .5, H - row - .5))
            if seg_dist(ea, x, y) < 2.5 * px:
                continue
            # axes decorations at the border
            fx, fy = ax.transAxes.inverted().transform((col + .5,
                                                        H - row - .5))
            if not (.03 < fx < .97 and .03 < fy < .97):
                continue
            rgb = img[row, col, :3]
            got = tuple(int(v) for v in rgb) == (0, 0, 255)
            want = bool(geo2.region_contains(reg, mpq(x), mpq(y)))
            ctx.check(got == want, 'a pixel shows something else than the '
                      'shape', shape=reg, point=(x, y), color=rgb, want=want)
            n += 1
            ctx.count('pixels filled' if want else 'pixels blank')
        plt.close(fig)
        ctx.case(('pixels', reg), n > 20)
        ctx.count('pictures')


def expected_patches(sp, sb, sid):
    """What a picture of a sheet has to show: list of (what, area test)."""
    res = [('allowed', sb.sheet_ok[sid], None),
           ('decided', sb.sheet_chosen[sid], None)]
    for side in sp.intersides(sid):
        for what, s in (('decided range', sb.interside_chosen[side.id]),
                        ('allowed range', sb.interside_ok[side.id])):
            res.append((what + ' of %s' % (side.id,), s, side))
    return [(w, s, d) for w, s, d in res if not s.is_empty()]


def judge_sheet(ctx, rng, ax, sb, sid, tag):
    sp = sb.sheetplex
    patches = list(ax.patches)
    want = expected_patches(sp, sb, sid)
    ctx.check(len(patches) == len(want), 'wrong number of areas on the '
              'picture of a sheet', got=len(patches),
              want=[w for w, _, _ in want], sheet=sid, case=tag)
    left = list(patches)
    for what, s, side in want:
        for p in left:
            loops = subpaths(p.get_path())
            v = np.concatenate(loops)
            if side is None:
                b = [float(x) for x in geo2.bounds([geo2.region(s)])]
                if np.abs(v.min(0) - b[:2]).max() > 1e-6 or \
                        np.abs(v.max(0) - b[2:]).max() > 1e-6:
                    continue
                reg = geo2.region(s)
                pts, inside = points(rng, reg)
                if ((winding(loops, pts) != 0) == inside).all() and len(
                        loops) == sum(1 + len(h) for _, h in reg):
                    break
            else:
                # positions along the joint that the picture marks
                full = side.make_fingers(s)
                if full.is_empty():
                    continue
                iv = iv1.intervals(s)
                # every drawn loop covers one range, across the middle of
                # the band, and is itself a part of the band
                sf = sp3.shape(full)
                import shapely
                # (ranges of rounding size do not show)
                seen = [(proj(side, r), r) for r in loops]
                seen = [(x, r) for x, r in seen if x[1] - x[0] > 1e-6]
                if not all(shapely.distance(sf, shapely.points(q)) < 1e-6
                           for _, r in seen for q in r):
                    continue
                got = sorted(x for x, _ in seen)
                mine = sorted((float(a), float(b)) for a, b in iv
                              if b - a > 1e-6)
                if len(got) == len(mine) and all(
                        abs(x[0] - y[0]) < 2e-6 and abs(x[1] - y[1]) < 2e-6
                        for x, y in zip(got, mine)):
                    break
        else:
            ctx.fail('the picture of a sheet does not show: ' + what,
                     sheet=sid, case=tag)
        left.remove(p)
        ctx.count('areas on pictures')


def proj(side, loop):
    """Range along the joint of a loop, by the projection of the side."""
    x, y = np.asarray(loop).T
    if abs(np.dot(x - x[0], np.roll(y, 1)) -
           np.dot(np.roll(x, 1) - x[0], y)) < 1e-6:
        return 0., 0.
    g = Geom2D.polygon([[mpq(float(x)), mpq(float(y))] for x, y in loop[:-1]],
                       reorient=True)
    a = iv1.intervals(side.project_to_1d(g))
    return float(a[0][0]), float(a[-1][1])


def sheet(job, ctx):
    rng = random.Random(job[1])
    spec, kw = build.workload(rng, heavy=0, furn=.1)
    if rng.random() < .3:
        spec = sp3.fresh(rng, lambda r: ('comb', r.randint(3, 6), 4, 14))
    ctx.current = spec
    m = pipe.model(spec)
    kw['support_radius'] = mpq(kw['support_radius'])
    p = pipe.params(m.thickness, **kw)
    sp = pipe.sheetplex(m, p)
    if spec[0] == 'comb':
        states = [sheetbuild.create_sheetbuild(sp, p)]
    else:
        r = canned.canned_1(sp, p)
        states = rng.sample(list(r.history) + [r.sheetbuild], 3)
    for sb in states:
        before = build.snapshot(sb)
        for sid in sorted(sp.sheets):
            fig, ax = plt.subplots()
            sheetbuild.show_sheet(ax, sp, sb, sid)
            judge_sheet(ctx, rng, ax, sb, sid, (spec, kw))
            fig.canvas.draw()
            plt.close(fig)
            ctx.case((spec, kw, sid, repr(sb.get('dbg'))[:40]), True,
                     (spec, sid))
            ctx.count('pictures of sheets')
        ctx.check(build.snapshot(sb) == before, 'showing changed the state')


class Recorder:
    """Stands in for IPython."""

    def __init__(self):
        self.figs = []

    def __enter__(self):
        mod = types.ModuleType('IPython')
        dis = types.ModuleType('IPython.display')
        dis.display = lambda *a, **k: self.figs.extend(a)
        mod.display = dis
        self.old = {n: sys.modules.get(n) for n in ('IPython',
                                                    'IPython.display')}
        sys.modules['IPython'] = mod
        sys.modules['IPython.display'] = dis
        return self

    def __exit__(self, *a):
        for n, m in self.old.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m


def titles(figs):
    res = []
    for f in figs:
        for ax in f.axes:
            if ax.get_title():
                res.append((ax.get_title(), ax))
    return res


def show(job, ctx):
    rng = random.Random(job[1])
    if rng.random() < .4:
        # more sheets than fit in one row
        spec = sp3.fresh(rng, lambda r: ('comb', r.choice([3, 4, 7]), 4, 12))
        m = pipe.model(spec)
        p = pipe.params(m.thickness)
        sp = pipe.sheetplex(m, p)
        sb = sheetbuild.create_sheetbuild(sp, p)
        before = build.snapshot(sb)
        with Recorder() as rec:
            canned.do_show('stage', sb)
        one_show(ctx, rng, rec.figs, sb, spec)
        ctx.check(build.snapshot(sb) == before, 'showing changed the state')
        ctx.case(('rows', spec), True)
        plt.close('all')
        return
    spec, kw = build.workload(rng, heavy=0, furn=.1)
    kw['support_radius'] = mpq(kw['support_radius'])
    ctx.current = (spec, kw)
    m = pipe.model(spec)
    p = pipe.params(m.thickness, **kw)
    sp = pipe.sheetplex(m, p)
    plain = canned.canned_1(sp, p)
    with Recorder() as rec:
        shown = canned.canned_1(sp, p, show=True)
    ctx.check(shown.ok is True, 'the run with display fails')
    ctx.check(len(plain.history) == len(shown.history),
              'display changes the steps')
    for a, b in zip(list(plain.history) + [plain.sheetbuild],
                    list(shown.history) + [shown.sheetbuild]):
        d = build.states_equal(a, b)
        ctx.check(d is None, 'display changes the result', what=d, spec=spec,
                  kw=kw)
    for s in plain.sheet_cuts:
        ctx.check((plain.sheet_cuts[s] ^ shown.sheet_cuts[s]).area() == 0,
                  'display changes a part', part=s)
    per = -(-len(sp.sheets) // 4)
    n = len(rec.figs) // per
    ctx.check(len(rec.figs) % per == 0 and n >= len(plain.history) - 1,
              'not every stage was displayed', figures=len(rec.figs),
              stages=len(plain.history), sheets=len(sp.sheets))
    # the last display shows the final state
    one_show(ctx, rng, rec.figs[-per:], shown.sheetbuild, (spec, kw))
    one_show(ctx, rng, rec.figs[:per], shown.history[0], (spec, kw))
    ctx.case(('show', spec, kw), True, (spec, kw))
    ctx.count('runs with display')
    ctx.count('figures displayed', len(rec.figs))
    plt.close('all')


def one_show(ctx, rng, figs, sb, tag):
    ts = titles(figs)
    ctx.check(sorted(t for t, _ in ts) == sorted(
        str(s) for s in sb.sheetplex.sheets), 'not every sheet is displayed '
        'once', got=[t for t, _ in ts], case=tag)
    for t, ax in ts:
        sid = next(s for s in sb.sheetplex.sheets if str(s) == t)
        judge_sheet(ctx, rng, ax, sb, sid, tag)


def run_job(job, ctx):
    dict(path=path_job, pixels=pixels, sheet=sheet, show=show)[job[0]](
        job, ctx)
