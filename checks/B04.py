"""B04: the consistency check and the guards of decisions reject what is
inconsistent, and accept everything the processing produces."""
import random

from gmpy2 import mpq

from plycutter.geometry.geom1d import Geom1D
from plycutter.geometry.geom2d import Geom2D

from vlib import build, geo2, iv1, pipe, run, w2

RULE = ('one evaluation = one recorded state accepted, one corrupted state '
        'rejected, or one illegal decision refused; distinct = distinct '
        '(model, state, kind of corruption, place)')
MIN_EVALUATIONS = {'quick': 350, 'thorough': 8000}
ASSUMPTIONS = ['corruptions are at least 10 times larger than the documented '
               'tolerances (1e-7 area and length, 1e-6 and 1e-5 for '
               'decisions, 0.001 area in a foreign band)']

KINDS = ['area', 'area-ok', 'joint', 'joint-ok', 'both', 'both-ok', 'band']


def jobs(tier, seed):
    n = 24 if tier == 'quick' else 300
    return [('r', seed * 100129 + i, 2 if tier == 'quick' else 9)
            for i in range(n)]


def inside_bit(rng, g, size):
    """Square of about `size` area inside g, or None."""
    reg = geo2.region(g)
    rng.shuffle(reg)
    for out, holes in reg:
        xs = [x for x, _ in out]
        ys = [y for _, y in out]
        if max(xs) - min(xs) < mpq(1, 1000) or \
                max(ys) - min(ys) < mpq(1, 1000):
            continue
        for _ in range(60):
            x = min(xs) + (max(xs) - min(xs)) * mpq(rng.randint(1, 999), 1000)
            y = min(ys) + (max(ys) - min(ys)) * mpq(rng.randint(1, 999), 1000)
            if geo2.poly_contains((out, holes), x, y) is not True:
                continue
            d = mpq(round(float(size) ** .5 * 1000), 1000)
            b = w2.sq(x - d / 2, y - d / 2, x + d / 2, y + d / 2) & g
            if b.area() > size / 3:
                return b
    return None


def part(rng, g, length):
    """Sub-interval of the given length of a 1D set, or None."""
    iv = [i for i in iv1.intervals(g) if i[1] - i[0] > length * 2]
    if not iv:
        return None
    a, b = rng.choice(iv)
    lo = a + (b - a - length) * mpq(rng.randint(0, 8), 8)
    return Geom1D([(lo, lo + length)])


def refused(f):
    try:
        f()
    except Exception as e:
        # a refusal, not a crash of the harness or an unrelated slip
        if isinstance(e, (AttributeError, TypeError, NameError)):
            raise
        return True
    return False


def accepted(ctx, sb, **detail):
    try:
        sb.check(force=True)
    except AssertionError as e:
        ctx.fail('a state produced by the processing is rejected',
                 error=str(e)[:300], **detail)


def corrupt(rng, sb, kind, where):
    """Corrupted copy of sb, or None if impossible here."""
    sp = sb.sheetplex
    if kind == 'area':
        s = where
        xs = [x for o, _ in geo2.region(sb.sheet_ok[s]) for x, _ in o]
        if not xs:
            return None
        size = rng.choice([mpq(1, 100), mpq(1, 1), mpq(1, 1000)])
        bits = [w2.sq(max(xs) + 3, 0, max(xs) + 3 + size, 1)]
        gap = sp.sheets[s].slices_max - sb.sheet_ok[s]
        b = inside_bit(rng, gap, size)
        if b is not None:
            bits.append(b)
        bit = rng.choice(bits)
        return sb.transform(['sheet_chosen', s], lambda g: g | bit)
    if kind == 'area-ok':
        s = where
        b = inside_bit(rng, sb.sheet_chosen[s], rng.choice(
            [mpq(1, 100), mpq(4), mpq(1, 1000)]))
        if b is None:
            return None
        return sb.transform(['sheet_ok', s], lambda g: g - b)
    k = where
    side = sp.interside(k)
    opp = side.opposite(sp).id
    ln = rng.choice([mpq(1, 100), mpq(1), mpq(1, 10000)])
    if kind == 'joint':
        # somewhere that is allowed to nobody
        busy = sb.interside_ok[k] | sb.interside_ok[opp]
        lo = max([b for _, b in iv1.intervals(busy)] + [0]) + ln
        v = Geom1D([(lo, lo + ln)])
        return sb.transform(['interside_chosen', k], lambda g: g | v)
    if kind == 'joint-ok':
        v = part(rng, sb.interside_chosen[k], ln)
        if v is None:
            return None
        return sb.transform(['interside_ok', k], lambda g: g - v)
    if kind == 'both':
        v = part(rng, sb.interside_ok[k] & sb.interside_ok[opp], ln)
        if v is None:
            return None
        return sb.transform(['interside_chosen', k], lambda g: g | v)
    if kind == 'both-ok':
        v = part(rng, sb.interside_chosen[k], ln)
        if v is None:
            return None
        return sb.transform(['interside_ok', opp], lambda g: g | v)
    if kind == 'band':
        area = side.make_fingers(sb.interside_ok[opp]) & \
            sb.sheet_ok[side.sheet]
        b = inside_bit(rng, area, rng.choice([mpq(1, 20), mpq(2)]))
        if b is None:
            return None
        return sb.transform(['sheet_chosen', side.sheet], lambda g: g | b)
    raise KeyError(kind)


def check_state(ctx, rng, sb, tag):
    sp = sb.sheetplex
    accepted(ctx, sb, state=tag)
    ctx.count('states accepted')
    ctx.case(tag + ('accept',))
    places = []
    for kind in KINDS:
        if kind.startswith('area'):
            w = list(sb.sheet_ok)
        else:
            w = [s.id for s in sp.intersides()]
        places += [(kind, x) for x in w]
    rng.shuffle(places)
    for kind, x in places[:12]:
        bad = corrupt(rng, sb, kind, x)
        if bad is None:
            continue
        ctx.count('corrupted: ' + kind)
        ctx.case(tag + (kind, x), True, (tag, kind, x))
        ctx.check(refused(lambda: bad.check(force=True)),
                  'the consistency check accepts an inconsistent state',
                  corruption=kind, place=x, state=tag)


def illegal(ctx, rng, sb, tag):
    sp = sb.sheetplex
    snap = build.snapshot(sb)
    sides = list(sp.intersides())
    rng.shuffle(sides)
    for side in sides[:2]:
        k = side.id
        opp = side.opposite(sp)
        ln = rng.choice([mpq(1, 100), mpq(1), mpq(1, 1000)])
        tent = rng.random() < .3
        # a position that is not allowed
        ok = iv1.intervals(sb.interside_ok[k])
        a, b = rng.choice(ok) if ok else (mpq(0), mpq(0))
        outs = [Geom1D([(b + ln, b + 2 * ln)]) if len(ok) < 2 else
                Geom1D([(ok[-1][1], ok[-1][1] + ln)])]
        if ok:
            outs.append(Geom1D([(ok[0][0] - ln, ok[0][0] + ln)]))
        gap = part(rng, sb.interside_ok[opp.id] - sb.interside_ok[k], ln)
        if gap is not None:
            outs.append(gap)
        for v in outs:
            one = rng.random() < .5
            f = (lambda: sb.choose_interside(k, v, tentative=tent)) if one \
                else (lambda: sb.choose_intersides({k: v}, tentative=tent))
            ctx.check(refused(f), 'deciding a position that is not allowed '
                      'is accepted', side=k, range=v, state=tag,
                      tentative=tent)
            ctx.count('illegal: not allowed')
            ctx.case(tag + ('notok', k, ln, one))
        # a position that conflicts with decided material of the other sheet
        v = part(rng, sb.interside_ok[k], mpq(1))
        if v is not None:
            bit = inside_bit(rng, opp.make_fingers(v), rng.choice(
                [mpq(1, 100), mpq(1, 2)]))
            if bit is not None:
                bad = sb.transform(['sheet_chosen', opp.sheet],
                                   lambda g: g | bit)
                ctx.check(refused(lambda: bad.choose_interside(
                    k, v, tentative=tent)), 'deciding a position where the '
                    'opposite sheet has decided material is accepted',
                    side=k, range=v, state=tag, tentative=tent)
                ctx.count('illegal: conflicting material')
                ctx.case(tag + ('conflict', k))
        # ruling out what is decided
        v = part(rng, sb.interside_chosen[k], ln)
        if v is not None:
            one = rng.random() < .5
            f = (lambda: sb.unchoose_interside(k, v)) if one else \
                (lambda: sb.unchoose_intersides({k: v}))
            ctx.check(refused(f), 'ruling out a decided position is '
                      'accepted', side=k, range=v, state=tag)
            ctx.count('illegal: ruling out a decided position')
            ctx.case(tag + ('unchoose', k, ln, one))
    for s in sb.sheet_chosen:
        size = rng.choice([mpq(1, 1000), mpq(1, 10), mpq(3)])
        b = inside_bit(rng, sb.sheet_chosen[s], size)
        if b is not None and b.area() > mpq(1, 5000):
            ctx.check(refused(lambda: sb.unchoose_sheet_area(s, b)),
                      'ruling out decided sheet area is accepted', sheet=s,
                      area=float(b.area()), state=tag)
            ctx.count('illegal: ruling out decided area')
            ctx.case(tag + ('unarea', s, size))
    ctx.check(build.snapshot(sb) == snap, 'a refused decision changed the '
              'state', state=tag)


def run_job(job, ctx):
    rng = random.Random(job[1])
    spec, kw = build.workload(rng)
    m, p, sp, r = build.run(spec, kw)
    hist = []
    for i, sb in enumerate(r.history):
        if not hist or build.states_equal(hist[-1][1], sb):
            hist.append((i, sb))
    if len(hist) > job[2]:
        hist = rng.sample(hist, job[2])
    hist.append((len(r.history), r.sheetbuild))
    for i, sb in hist:
        ctx.current = (spec, kw, i)
        check_state(ctx, rng, sb, (spec, i))
        illegal(ctx, rng, sb, (spec, i))
