"""Exact-number conversion and printing are faithful and total."""
import decimal
import fractions
import math
import random

import numpy as np
from gmpy2 import mpq, mpz

from plycutter import plytypes
from plycutter.geometry.geom1d import Geom1D

from vlib import run

RULE = ('numbers of every exact class and size (to thousands of digits, tiny, '
        'negative, infinities) converted and compared; inexact classes '
        'refused; nested lists/tuples/sets/dicts/arrays of numbers printed '
        'exactly and approximately and the text parsed back by an '
        'independent reader; nested data turned into tuples and compared '
        'element by element with class; non-trivial: nested or non-integer')
MIN_EVALUATIONS = {'quick': 4000, 'thorough': 100000}

Q = type(mpq(1))
Z = type(mpz(1))


def jobs(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed * 41 + 13)
    return [(k, rng.randrange(10**9), n)
            for k, n in (('conv', 200), ('print', 250), ('tuple', 250))
            for _ in range(8 if q else 24 * 8)]


def integer(rng):
    r = rng.random()
    if r < .4:
        return rng.randint(-9, 9)
    if r < .7:
        return rng.choice([-1, 1]) * (2 ** rng.choice(
            [31, 32, 53, 62, 63, 64, 65, 100, 1023, 1024]) +
            rng.randint(-1, 1))
    return rng.choice([-1, 1]) * rng.randint(1, 9) * 10 ** rng.choice(
        [5, 17, 100, 308, 309, 400, 3000])


def rational(rng):
    r = rng.random()
    if r < .25:
        return mpq(integer(rng))
    if r < .35:
        return mpq(rng.uniform(-10, 10))
    if r < .45:
        return mpq(rng.uniform(-1, 1)) * mpq(10) ** rng.choice(
            [-300, -320, -330, 300, 308])
    return mpq(integer(rng), abs(integer(rng)) or 1)


def refuses(ctx, f, v, what):
    try:
        got = f(v)
    except Exception:
        ctx.count('refused')
        return
    ctx.fail('inexact value accepted', where=what, value=repr(v), got=got)


def conv(ctx, rng):
    n = integer(rng)
    q = rational(rng)
    for f in (plytypes.FractionFromExact, plytypes.FractionFromExactOrInf):
        for v in (n, mpz(n), mpq(n), fractions.Fraction(n), q,
                  fractions.Fraction(int(q.numerator), int(q.denominator))):
            got = f(v)
            ctx.check(type(got) is Q, 'conversion does not give a rational',
                      value=v, got=type(got))
            want = v if not isinstance(v, fractions.Fraction) else mpq(
                v.numerator, v.denominator)
            ctx.check(got == want and got.numerator == mpq(want).numerator
                      and got.denominator == mpq(want).denominator,
                      'conversion changed the value', value=v, got=got)
    for v in (rng.uniform(-9, 9), float(rng.randint(-9, 9)), math.nan,
              np.float64(rng.uniform(-9, 9)), decimal.Decimal('0.1'), '1/2',
              np.float32(.5), None, 1j):
        for f, w in ((plytypes.FractionFromExact, 'exact'),
                     (plytypes.FractionFromExactOrInf, 'exact or inf')):
            refuses(ctx, f, v, w)
    for v in (math.inf, -math.inf, np.inf):
        got = plytypes.FractionFromExactOrInf(v)
        ctx.check(got == v, 'infinity changed', value=v, got=got)
        refuses(ctx, plytypes.FractionFromExact, v, 'exact')
    ctx.case((n, q), True, (n, q) if abs(n) < 10**20 else None)


# ------------------------------------------------------------------ printing

class Reader:
    """Independent reader of the printed form."""

    def __init__(self, s):
        self.s = s
        self.i = 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ''

    def take(self, c):
        if self.s[self.i:self.i + len(c)] != c:
            raise ValueError('expected %r at %d' % (c, self.i))
        self.i += len(c)

    def value(self):
        c = self.peek()
        if c in '([':
            end = {'(': ')', '[': ']'}[c]
            self.take(c)
            items = self.items(end, self.value)
            return (c, items)
        if c == '{':
            self.take(c)
            return (c, self.items('}', self.entry))
        j = self.i
        while self.peek() and self.peek() not in ',:)]}':
            self.i += 1
        return self.s[j:self.i]

    def entry(self):
        k = self.value()
        if self.peek() == ':':
            self.take(': ')
            return (k, self.value())
        return k

    def items(self, end, f):
        res = []
        while self.peek() != end:
            if res:
                self.take(', ')
            res.append(f())
        self.take(end)
        return res


def nested(rng, depth):
    r = rng.random()
    if depth == 0 or r < .35:
        k = rng.random()
        if k < .7:
            return rational(rng)
        if k < .85:
            return integer(rng)
        return rng.choice(['abc', 'x y', None, 0.5, True])
    n = rng.randint(0, 4)
    if r < .5:
        return [nested(rng, depth - 1) for _ in range(n)]
    if r < .65:
        return tuple(nested(rng, depth - 1) for _ in range(n))
    if r < .75:
        return {rational(rng) for _ in range(n)}
    if r < .9:
        return {rng.choice(['k%d' % i, mpq(i, 3), (mpq(i, 7), i)]):
                nested(rng, depth - 1) for i in range(n)}
    if rng.random() < .5:
        return np.array([[rational(rng) for _ in range(2)]
                         for _ in range(n)], object)
    return np.array([rng.randint(-5, 5) for _ in range(n)])


def agree(ctx, o, r, approx, whole):
    """r is what was read for object o."""
    def bad(why):
        ctx.fail('printed form does not say the value: ' + why, value=o,
                 read=r, whole=whole, approx=approx)
    if isinstance(o, np.ndarray):
        o = o.tolist()
    if isinstance(o, (tuple, list)):
        if not isinstance(r, tuple) or r[0] != (
                '(' if isinstance(o, tuple) else '[') or len(r[1]) != len(o):
            bad('structure')
        for a, b in zip(o, r[1]):
            agree(ctx, a, b, approx, whole)
    elif isinstance(o, set):
        if not isinstance(r, tuple) or r[0] != '{' or len(r[1]) != len(o):
            bad('structure')
        if not approx and {mpq(x) for x in r[1]} != o:
            bad('set members')
    elif isinstance(o, dict):
        if not isinstance(r, tuple) or r[0] != '{' or len(r[1]) != len(o):
            bad('structure')
        for (k, v), e in zip(o.items(), r[1]):
            agree(ctx, k, e[0], approx, whole)
            agree(ctx, v, e[1], approx, whole)
    elif isinstance(o, Q):
        if not isinstance(r, str):
            bad('number')
        if not approx:
            num, _, den = r.partition('/')
            if (o.denominator == 1) != (den == ''):
                bad('integers as integers, fractions as fractions')
            if mpq(int(num), int(den or 1)) != o:
                bad('value')
            return
        if '/' in r:
            bad('a fraction')
        try:
            f = float(o)
        except OverflowError:
            if abs(int(r) - o) >= 1:
                bad('value')
            return
        if abs(mpq(decimal.Decimal(r).as_integer_ratio()[0],
                   decimal.Decimal(r).as_integer_ratio()[1]) - o) > \
                abs(o) / 2**52 + mpq(1, 2**1074):
            bad('value')
        if float(r) != f:
            bad('not the nearest decimal')
    else:
        if r != str(o):
            bad('leaf')


def printing(ctx, rng):
    objs = [nested(rng, rng.choice([0, 1, 2, 3]))
            for _ in range(rng.choice([1, 1, 2, 3]))]
    ctx.current = objs
    keep = repr(objs)
    for approx in (False, True):
        text = (plytypes.fastr(*objs) if approx and rng.random() < .5
                else plytypes.fstr(*objs, approx=approx))
        ctx.check(text.startswith('FS/') and text.endswith('/'), 'form',
                  text=text)
        rd = Reader(text[3:-1])
        got = [rd.value()]
        while rd.peek() == ',':
            rd.take(',')
            got.append(rd.value())
        ctx.check(rd.i == len(rd.s) and len(got) == len(objs),
                  'printed form does not show the arguments', text=text,
                  objs=objs)
        for o, r in zip(objs, got):
            agree(ctx, o, r, approx, text)
        ctx.count('approximate' if approx else 'exact')
    ctx.check(repr(objs) == keep, 'printing changed the data')
    g = Geom1D([[rational(rng), math.inf]])
    repr(g)
    ctx.check(plytypes.fstr([g]) == 'FS/[%s]/' % g.__fstr__(approx=False)
              and 'inf' in repr(g), 'printing a 1D set')
    ctx.case(keep, True)


def tup(ctx, rng):
    def make(depth, shape):
        if not shape:
            k = rng.random()
            return (rational(rng) if k < .6 else integer(rng) if k < .9
                    else rng.choice([0.5, -1.25]))
        xs = [make(depth + 1, shape[1:]) for _ in range(shape[0])]
        return rng.choice([list, tuple])(xs)

    def want(v):
        if isinstance(v, (list, tuple)):
            return tuple(want(x) for x in v)
        return v

    def same(a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return (isinstance(a, tuple) and isinstance(b, tuple)
                    and len(a) == len(b)
                    and all(same(x, y) for x, y in zip(a, b)))
        return type(a) is type(b) and a == b
    shape = [rng.randint(0 if i == 2 else 1, 3)
             for i in range(rng.randint(0, 3))]
    v = make(0, shape)
    ctx.current = v
    w = want(v)
    got = plytypes.totuple(v)
    ctx.check(same(got, w), 'tuple form differs from the data', data=v,
              got=got)
    got = plytypes.totuple(np.array(v, object))
    ctx.check(same(got, w), 'tuple form differs from the array', data=v,
              got=got)
    hash(got)
    if shape:
        rows = [np.array(r, object) for r in v]
        ctx.check(same(plytypes.totuple(rows), w), 'tuple form of a list of '
                  'arrays differs', data=v)
    a = np.array([[rng.randint(-9, 9), rng.randint(-9, 9)]
                  for _ in range(3)])
    ctx.check(plytypes.totuple(a) == tuple(
        tuple(int(x) for x in r) for r in a), 'integer array', data=a)
    ctx.case(repr(v), len(shape) > 1)


def run_job(job, ctx):
    kind, arg, k = job
    rng = random.Random(arg)
    import sys
    sys.set_int_max_str_digits(0)
    for _ in range(k):
        dict(conv=conv, print=printing, tuple=tup)[kind](ctx, rng)
