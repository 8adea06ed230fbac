"""Merging planar cells conserves area and forgets no cell."""
import random
from gmpy2 import mpq

from plycutter.geometry.impl2d import cell_merger

from vlib import gen2, run

RULE = ('cells of planar subdivisions (grids, triangulated grids, polyomino '
        'partitions, nested rings with bridges, several components, with or '
        'without the outer face of a component) as directed vertex loops in '
        'random start and insertion order, the same set in several orders; '
        'outline edges and per-component attribution compared with direct '
        'half-edge cancellation; non-trivial: at least one cancelled edge')
MIN_EVALUATIONS = {'quick': 1200, 'thorough': 30000}
ASSUMPTIONS = ['each directed edge belongs to at most one cell']


def jobs(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed * 37 + 12)
    return [(k, rng.randrange(10**9), 250)
            for k in ('grid', 'tri', 'poly', 'parts')
            for _ in range(12 if q else 24 * 12)]


def half_edges(cell):
    n = len(cell)
    return [(cell[i], cell[(i + 1) % n]) for i in range(n)]


def trace(edges):
    """Loops out of a set of directed edges, turning so as to stay simple."""
    nxt = {}
    for a, b in edges:
        nxt.setdefault(a, []).append(b)
    loops = []
    while nxt:
        a = min(nxt)
        loop = [a]
        prev, v = None, a
        while True:
            outs = nxt[v]
            if prev is None or len(outs) == 1:
                w = outs[0]
            else:
                # sharpest clockwise-side continuation keeps faces apart
                d = (v[0] - prev[0], v[1] - prev[1])

                def turn(o):
                    e = (o[0] - v[0], o[1] - v[1])
                    c = d[0] * e[1] - d[1] * e[0]
                    return (c < 0, c > 0) and c
                w = min(outs, key=turn)
            outs.remove(w)
            if not outs:
                del nxt[v]
            prev, v = v, w
            if v == a:
                break
            loop.append(v)
        loops.append(tuple(loop))
    return loops


def cancel(cells):
    es = set()
    for c in cells:
        es |= set(half_edges(c))
    return {e for e in es if (e[1], e[0]) not in es}


def rect(i, j):
    q = lambda a, b: (mpq(a), mpq(b))  # noqa
    return (q(i, j), q(i, j + 1), q(i + 1, j + 1), q(i + 1, j))


def subdivision(kind, rng):
    """(cells, groups of cells forming one full component)."""
    W, H = rng.randint(1, 5), rng.randint(1, 5)
    base = [(i, j) for i in range(W) for j in range(H)]
    if kind == 'grid':
        cells = [rect(i, j) for i, j in base]
    elif kind == 'tri':
        cells = []
        for i, j in base:
            a, b, c, d = rect(i, j)
            if rng.random() < .5:
                cells += [(a, b, c), (a, c, d)]
            else:
                cells += [(a, b, d), (b, c, d)]
    elif kind == 'poly':
        # random partition of the grid in edge-connected simple pieces
        lab = {}
        for k, p in enumerate(base):
            lab[p] = k
            nb = [lab[n] for n in ((p[0] - 1, p[1]), (p[0], p[1] - 1))
                  if n in lab]
            if nb and rng.random() < .6:
                lab[p] = rng.choice(nb)
        cells = []
        for k in sorted(set(lab.values())):
            es = cancel([rect(*p) for p in base if lab[p] == k])
            loops = trace(es)
            if len(loops) == 1 and len(set(loops[0])) == len(loops[0]):
                cells.append(loops[0])
            else:
                cells += [rect(*p) for p in base if lab[p] == k]
    else:
        # several islands at distance, each with its outer face available
        cells = []
        outs = []
        for k in range(rng.randint(1, 3)):
            w, h = rng.randint(1, 3), rng.randint(1, 3)
            part = [rect(10 * k + i, j) for i in range(w) for j in range(h)]
            cells += part
            outs += trace(cancel(part))
        neg = [tuple(reversed(o)) for o in outs]
        return cells, neg
    neg = [tuple(reversed(o)) for o in trace(cancel(cells))]
    return cells, neg


def components(cells):
    own = {}
    for c in cells:
        for e in half_edges(c):
            own[e] = c
    comp = {c: c for c in cells}

    def find(c):
        while comp[c] != c:
            comp[c] = comp[comp[c]]
            c = comp[c]
        return c
    for (a, b), c in own.items():
        o = own.get((b, a))
        if o is not None:
            comp[find(c)] = find(o)
    return own, {c: find(c) for c in cells}


def run_job(job, ctx):
    kind, arg, n = job
    rng = random.Random(arg)
    for _ in range(n):
        cells, neg = subdivision(kind, rng)
        chosen = [c for c in cells if rng.random() < rng.choice([.5, .8, 1])]
        if rng.random() < .4:
            # outer faces only together with all cells around them
            for ng in neg:
                if rng.random() < .7:
                    chosen = list(dict.fromkeys(
                        chosen + [c for c in cells]))
                    chosen.append(ng)
                    ctx.count('with outer face')
        chosen = [c[k:] + c[:k] for c in chosen
                  for k in [rng.randrange(len(c))]]
        want = cancel(chosen)
        own, comp = components(chosen)
        total = sum((gen2.area2(c) for c in chosen), mpq(0))
        for _ in range(3):
            order = list(chosen)
            rng.shuffle(order)
            ctx.current = order
            m = cell_merger.CellMergerSlow()
            for c in order:
                m.add_cell(c)
            co = m.get_cells_originals()
            loops = list(m.get_cells())
            ctx.check(sorted(loops) == sorted(co), 'outline lists differ',
                      cells=order)
            got = [e for lp in loops for e in half_edges(lp)]
            ctx.check(len(got) == len(set(got)), 'edge in two outlines',
                      cells=order, got=loops)
            ctx.check(set(got) == want, 'outline edges are not the '
                      'uncancelled ones', cells=order,
                      missing=sorted(want - set(got)),
                      extra=sorted(set(got) - want))
            ctx.check(sum((gen2.area2(lp) for lp in loops), mpq(0)) == total,
                      'area not conserved', cells=order, got=loops)
            attributed = set()
            for lp, origs in co.items():
                origs = set(origs)
                attributed |= origs
                ctx.check(origs <= set(chosen), 'unknown original',
                          cells=order, outline=lp)
                owners = {own[e] for e in half_edges(lp)}
                ctx.check(owners <= origs, 'outline not attributed to the '
                          'cells its edges come from', cells=order,
                          outline=lp, missing=sorted(owners - origs))
                ctx.check(len({comp[o] for o in origs}) == 1,
                          'outline attributed to unconnected cells',
                          cells=order, outline=lp, got=sorted(origs))
            gone = set(chosen) - attributed
            ann = getattr(m, 'annihilated_original_cells', None)
            if ann is not None:
                ctx.check(set(ann) == gone, 'cells neither attributed nor '
                          'reported annihilated', cells=order,
                          annihilated=sorted(ann), gone=sorted(gone))
            alive = {comp[own[e]] for e in want}
            for c in gone:
                ctx.check(comp[c] not in alive, 'a cell of a component that '
                          'has an outline is forgotten', cells=order, cell=c)
            for c in attributed:
                ctx.check(comp[c] in alive, 'cell attributed although its '
                          'component vanished', cells=order, cell=c)
            ctx.count('orders')
            ctx.count('outlines', len(loops))
            ctx.count('annihilated cells', len(gone))
        ne = sum(len(c) for c in chosen)
        ctx.case(sorted(chosen), len(want) < ne)
        ctx.maximum('cells', len(chosen))
