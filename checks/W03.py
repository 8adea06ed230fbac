"""W03: options, output naming, failures."""
import os
import random
import subprocess
import sys

from gmpy2 import mpq

import trimesh

from plycutter import canned, create_sheetplex

from vlib import build, cli, clichild, geo2, pipe, run, sp3

RULE = ('one evaluation = one run of the command (or of the library routine) '
        'with given options, file names, or with one call of the code under '
        'test made to fail; distinct = distinct (kind, model, options or '
        'failing function)')
MIN_EVALUATIONS = {'quick': 150, 'thorough': 2500}
ASSUMPTIONS = ['failures of the final write to disk itself (disk full) are '
               'not claimed', 'a failure that is absorbed and leads to the '
               'normal result is no failure']


def jobs(tier, seed):
    q = tier == 'quick'
    return [('options', seed * 100379 + i) for i in range(8 if q else 100)] + \
        [('names', seed * 100391 + i) for i in range(4 if q else 40)] + \
        [('bad', seed * 100393 + i) for i in range(3 if q else 24)] + \
        [('fault', seed * 100403 + i, 6 if q else 20)
         for i in range(10 if q else 80)] + \
        [('lib', seed * 100411 + i, 7 if q else 25)
         for i in range(8 if q else 60)]


DEFAULTS = dict(thickness=mpq(6), min_finger_width=mpq(3),
                max_finger_width=mpq(5), support_radius=mpq(12),
                final_dilation=mpq(1, 20), random_seed=42)


def tiny(rng, T=None):
    """A cheap model."""
    T = T or rng.choice([3, 4, mpq(9, 2), 6])
    d = lambda: rng.randint(20, 27)  # noqa
    if rng.random() < .5:
        a, b = rng.sample('xyz', 2)
        return ('walls', (d(), d(), d()), T if T == int(T) else 4,
                tuple(sorted((a + rng.choice('01'), b + rng.choice('01')))))
    return ('fold', (rng.choice([-90, 90, 60]),), (d(), d()), float(T), d())


def spell(rng, v):
    """A number as a user may write it."""
    v = mpq(v)
    r = ['%s' % v]
    if v.denominator == 1:
        r += ['%d.0' % v, '%d/2' % (2 * v)]
    else:
        k = 1
        while k < 10 ** 6 and (v * k).denominator != 1:
            k *= 10
        if (v * k).denominator == 1:
            n = len(str(k)) - 1
            i = abs(v * k)
            q_, r_ = divmod(int(i), k)
            r += [('-' if v < 0 else '') + '%d.%0*d' % (q_, n, r_)] * 3
    return rng.choice(r)


def expect(path, p):
    """Drawing of the library for these parameters: outlines per part."""
    sp = create_sheetplex.create_sheetplex(trimesh.load(path), p)
    r = canned.canned_1(sp, p)
    return {k: v.buffer(p['final_dilation'])
            for k, v in sorted(r.sheet_cuts.items())}


def matches(ctx, out, parts, what, **detail):
    try:
        loops = cli.read_loops(out)
    except (ValueError, OSError) as e:
        ctx.fail('no complete drawing: ' + what, error=repr(e), **detail)
    want = [r for g in parts.values() for r in cli.rings(g)]
    why = cli.congruent(want, loops)
    ctx.check(why is None, 'the drawing is not that of the given options: ' +
              what, why=why, **detail)


def options(job, ctx):
    rng = random.Random(job[1])
    acts, want = [], []
    with cli.Scratch() as s:
        for i in range(4):
            spec = tiny(rng)
            T = mpq(pipe.model(spec).thickness)
            p = dict(DEFAULTS)
            given = {}
            if T != 6 or rng.random() < .5:
                given['thickness'] = T
            mn, mx = rng.choice([(3, 5), (2, 4), (mpq(5, 2), 6),
                                 (mpq(1, 3) * 7, mpq(37, 10)), (1, 9),
                                 (mpq('4.1'), mpq('4.7'))])
            if rng.random() < .7:
                given['min_finger_width'] = mpq(mn)
                given['max_finger_width'] = mpq(max(mx, mn))
            if rng.random() < .6:
                given['support_radius'] = mpq(rng.choice(
                    [6, 10, mpq('7.3'), mpq(40, 3), 20]))
            if rng.random() < .6:
                given['final_dilation'] = mpq(rng.choice(
                    [0, mpq('0.1'), mpq('-0.07'), mpq(1, 3), mpq('0.0125')]))
            if rng.random() < .6:
                given['random_seed'] = rng.randrange(10 ** 5)
            p.update(given)
            name = 'm%d.%s' % (i, rng.choice(['stl', 'STL', 'stl', 'off',
                                              'ply']))
            path = s.model(spec, name, rng.random() < .3)
            out = s.path('out%d.dxf' % i)
            args = []
            for k, v in given.items():
                t = str(v) if k == 'random_seed' else spell(rng, v)
                if rng.random() < .5 and not t.startswith('-'):
                    args += [['--' + k, t]]
                else:
                    args += [['--%s=%s' % (k, t)]]
            if rng.random() < .15:
                args.append(['--debug'])
            args.append([rng.choice(['-o', '--output_file']), out])
            args.append([path])
            rng.shuffle(args)
            args = [x for a in args for x in a]
            acts.append(dict(argv=args, hook=True, target=out))
            want.append((spec, path, p, out))
        ctx.current = acts
        before = s.listing()
        # the first one as the console script does it
        acts[0]['default'] = True
        res = cli.child(acts)
        for a, r, (spec, path, p, out) in zip(acts, res, want):
            ctx.check(r['outcome'] == 'ok', 'the command fails', options=a,
                      outcome=r)
            for name in ('create_sheetplex', 'canned_1'):
                for got in r['hooked'].get(name, []):
                    if not got:
                        continue
                    for k, v in p.items():
                        if k not in got:
                            continue
                        t, _, x = got[k].partition(':')
                        ctx.check(t in ('mpq', 'int', 'mpz', 'Fraction'),
                                  'an option is not an exact number',
                                  option=k, value=got[k], options=a)
                        ctx.check(mpq(x) == v, 'an option does not reach the '
                                  'processing as given', option=k,
                                  value=got[k], want=v, options=a)
                        ctx.count('option values seen in the processing')
            q = dict(p)
            q.update(only_sheets=None)
            matches(ctx, out, expect(path, q), 'options', options=a)
            ctx.case(('options', a['argv'][:-1], spec), True, a)
            ctx.count('runs with options')
        after = s.listing()
        for f in before:
            ctx.check(after.get(f) == before[f], 'the input was modified',
                      file=f)
        extra = set(after) - set(before) - {
            os.path.basename(w[3]) for w in want}
        ctx.check(not extra, 'other files were written', files=extra)


def names(job, ctx):
    rng = random.Random(job[1])
    spec = tiny(rng)
    T = mpq(pipe.model(spec).thickness)
    opt = ['--thickness=%s' % T]
    with cli.Scratch() as s:
        data = s.model(spec, 'keep/m.stl')
        parts = expect(data, pipe.params(T))
        cases = [('a.stl', 'a.dxf'), ('b.c.stl', 'b.c.dxf'),
                 ('dir.x/m.STL', 'dir.x/m.dxf'), ('sp ace.stl', 'sp ace.dxf'),
                 ('dxf.stl', 'dxf.dxf'), ('x.dxf.stl', 'x.dxf.dxf')]
        acts, targets = [], []
        for i, (name, res) in enumerate(rng.sample(cases, 3)):
            d = 'n%d/' % i
            s.model(spec, d + name)
            old = rng.random() < .5
            if old:
                with open(s.path(d + res), 'w') as f:
                    f.write('previous content\n' * 100000)
            if rng.random() < .5:
                acts.append(dict(argv=opt + [name], cwd=s.path(d)))
            else:
                acts.append(dict(argv=opt + [s.path(d + name)]))
            targets.append((d + res, None))
        # explicit: relative, absolute, unusual suffix, existing file
        for i, o in enumerate(rng.sample(['plain', 'x.txt', 'y.dxf',
                                          'deep/z.dxf', 'ü.dxf'], 3)):
            d = 'e%d/' % i
            s.model(spec, d + 'in.stl')
            s.path(d + o)
            if rng.random() < .5:
                with open(s.path(d + 'in.dxf'), 'w') as f:
                    f.write('unrelated')
            if rng.random() < .5:
                with open(s.path(d + o), 'w') as f:
                    f.write('old')
            rel = rng.random() < .5
            acts.append(dict(argv=opt + ['-o', o if rel else s.path(d + o),
                                         'in.stl' if rel else s.path(
                                             d + 'in.stl')],
                             cwd=s.path(d)))
            targets.append((d + o, d + 'in.dxf'))
        ctx.current = acts
        before = s.listing()
        res = cli.child(acts)
        after = s.listing()
        for a, r, (t, other) in zip(acts, res, targets):
            ctx.check(r['outcome'] == 'ok', 'the command fails', options=a,
                      outcome=r)
            ctx.check(t in after, 'the output is not where it should be',
                      options=a, want=t, files=sorted(after))
            matches(ctx, s.path(t), parts, 'names', options=a)
            if other:
                ctx.check(after.get(other) == before.get(other), 'another '
                          'file was written', file=other, options=a)
            ctx.case(('names', t, other in before, spec), True, a)
            ctx.count('output names')
        for f in before:
            if f not in [t for t, _ in targets]:
                ctx.check(after.get(f) == before[f], 'a file was modified',
                          file=f)
        extra = set(after) - set(before) - {t for t, _ in targets}
        ctx.check(not extra, 'other files were written', files=extra)


def bad(job, ctx):
    rng = random.Random(job[1])
    spec = tiny(rng)
    m = pipe.model(spec)
    T = mpq(m.thickness)
    with cli.Scratch() as s:
        path = s.model(spec, 'm.stl')
        with open(s.path('broken.stl'), 'wb') as f:
            f.write(open(path, 'rb').read()[:200])
        with open(s.path('empty.stl'), 'wb') as f:
            pass
        with open(s.path('other.stl'), 'w') as f:
            f.write('this is not a model')
        cube = s.path('cube.stl')
        trimesh.creation.box((50, 60, 70)).export(cube)
        good = ['--thickness=%s' % T]
        out = 'out.dxf'
        cases = [
            ['--thickness=%s' % (T + 2), 'm.stl'],
            ['--thickness=%s' % (T / 3), 'm.stl'],
            ['--thickness=6', 'cube.stl'],
            good + ['missing.stl'], good + ['broken.stl'],
            good + ['empty.stl'], good + ['other.stl'],
            good + ['--random_seed=x', 'm.stl'],
            ['--thickness=', 'm.stl'], ['--thickness=abc', 'm.stl'],
            good + ['--no_such_option=1', 'm.stl'], good,
            good + ['--random_seed=-5', 'm.stl'],
            good + ['m.stl', 'm.stl']]
        acts = []
        for i, c in enumerate(cases):
            d = s.path('d%d/x' % i)[:-2]
            o = rng.choice([out, None])
            for f in ('m.stl', 'broken.stl', 'empty.stl', 'other.stl',
                      'cube.stl'):
                os.link(s.path(f), os.path.join(d, f))
            if rng.random() < .6:
                for f in (out, 'm.dxf', 'broken.dxf', 'cube.dxf',
                          'missing.dxf', 'empty.dxf', 'other.dxf'):
                    with open(os.path.join(d, f), 'w') as h:
                        h.write('precious')
            acts.append(dict(argv=c + (['-o', o] if o else []), cwd=d))
        d = s.path('dd/x')[:-2]
        acts.append(dict(argv=good + ['-o', 'no/such/dir/o.dxf', path],
                         cwd=d))
        ctx.current = acts
        before = s.listing()
        res = cli.child(acts)
        ctx.check(s.listing() == before, 'a failing command creates or '
                  'changes files', changed=[
                      k for k, v in s.listing().items()
                      if before.get(k) != v], cases=acts)
        for a, r in zip(acts, res):
            ctx.check(r['outcome'] in ('raised', 'exit') and
                      r.get('error') not in ('0', 'None'),
                      'the command does not fail', options=a, outcome=r)
            ctx.case(('bad', a['argv'], spec), True, a)
            ctx.count('refused commands')
            ctx.count('refusal: %s' % (r.get('type') or 'exit'))
        # and as a process
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        for args, want in ((cases[0], False),
                           (good + ['-o', 'fine.dxf', path], True)):
            p = subprocess.run(
                [sys.executable, '-c', 'import sys; sys.path.insert(0, %r); '
                 'from plycutter.command_line import main; sys.exit(main())'
                 % run.REPO] + args, cwd=acts[0]['cwd'], env=env,
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            ctx.check((p.returncode == 0) == want, 'exit status %d'
                      % p.returncode, options=args)
            ctx.case(('exit', args, spec))


def fault(job, ctx):
    rng = random.Random(job[1])
    spec = tiny(rng)
    T = mpq(pipe.model(spec).thickness)
    with cli.Scratch() as s:
        path = s.model(spec, 'm.stl')
        out = s.path('m.dxf')
        explicit = rng.random() < .5
        if explicit:
            out = s.path('chosen.dxf')
        args = ['--thickness=%s' % T] + (['-o', out] if explicit else []) + \
            [path]
        base = cli.child([dict(argv=args, count=True, target=out)],
                         hashseed=1)[0]
        ctx.check(base['outcome'] == 'ok', 'the command fails', options=args,
                  outcome=base)
        normal = cli.read_loops(out)
        fs = base['functions']
        acts = []
        for i in range(job[2]):
            f = rng.choice(sorted(fs))
            lo, hi = fs[f]
            k = rng.random()
            n = lo if k < .35 else hi if k < .7 else rng.randint(
                1, base['calls'])
            acts.append(dict(argv=args, fault=n, target=out))
        old = None
        if rng.random() < .5:
            old = b'previous content'
            with open(out, 'wb') as f:
                f.write(old)
        else:
            os.unlink(out)
        ctx.current = (spec, args, acts)
        inp = open(path, 'rb').read()
        import hashlib
        keep = hashlib.sha256(old).hexdigest() if old else None
        for a in acts:
            r = cli.child([a], hashseed=1)[0]
            if r['where'] is None:
                ctx.count('fault not reached')
                ctx.check(r['outcome'] == 'ok', 'the command fails',
                          outcome=r)
            elif r['outcome'] == 'ok':
                # absorbed: must be the normal result
                why = cli.similar(normal, cli.read_loops(out))
                ctx.check(why is None, 'a failure is hidden and the result '
                          'is another one', failed=r['where'], why=why,
                          case=a)
                ctx.count('faults absorbed')
            else:
                # within the geometry library a later error may be on top
                ctx.check(r.get('type') == 'InjectedFault' or r['leaf'] and
                          'InjectedFault' in r['chain'], 'the original '
                          'error is lost', failed=r['where'], outcome=r,
                          case=a)
                if r['digest'] != keep:
                    full = None
                    try:
                        full = cli.similar(normal, cli.read_loops(out))
                    except (ValueError, OSError, IndexError) as e:
                        full = repr(e)
                    ctx.check(full is None and r['calls_at_open'] is not None,
                              'a failing command changed the output file',
                              failed=r['where'], at=a['fault'],
                              calls=base['calls'], case=a, why=full)
                    ctx.count('faults after the output was complete')
                ctx.count('faults reported')
            ctx.check(open(path, 'rb').read() == inp, 'the input was '
                      'modified')
            if explicit:
                ctx.check(not os.path.exists(s.path('m.dxf')),
                          'another output file was created', case=a)
            ctx.case(('fault', r['where'], spec, a['fault']),
                     r['where'] is not None, (r['where'], a['fault']))
            # start over
            if old:
                with open(out, 'wb') as f:
                    f.write(old)
            elif os.path.exists(out):
                os.unlink(out)


def lib(job, ctx):
    rng = random.Random(job[1])
    spec = tiny(rng)
    m = pipe.model(spec)
    p = pipe.params(m.thickness)
    sp = pipe.sheetplex(m, p)
    F = clichild.Faults()
    F.count()
    try:
        good = canned.canned_1(sp, p)
    finally:
        F.stop()
    fs, total = dict(F.seen), F.n
    ctx.check(good.ok is True, 'a complete result is not marked as ok')
    fs.pop('canned_1', None)
    for i in range(job[2]):
        f = rng.choice(sorted(fs))
        k = rng.random()
        n = fs[f][0] if k < .35 else fs[f][1] if k < .7 else \
            rng.randint(2, total)
        mode = rng.choice(['yes', 'yes', 'no', 'absent'])
        q = dict(p)
        if mode == 'absent':
            del q['return_on_failure']
        else:
            q['return_on_failure'] = mode == 'yes'
        err = r = None
        F.count(at=n)
        try:
            r = canned.canned_1(sp, q)
        except BaseException as e:
            if not isinstance(e, Exception):
                raise
            err = e
        finally:
            F.stop()
        if F.where is None:
            ctx.count('fault not reached')
            continue
        if F.where == 'canned_1':
            continue
        ctx.current = (spec, F.where, n, mode)
        ctx.case(('lib', F.where, n, mode, spec), True, ctx.current)
        if r is not None and r.ok is True:
            for s in good.sheet_cuts:
                ctx.check((good.sheet_cuts[s] ^ r.sheet_cuts[s]).area()
                          < 1e-9, 'a failure is hidden and the result is '
                          'another one', case=ctx.current)
            ctx.count('faults absorbed')
            continue
        if mode != 'yes':
            x = err
            while F.leaf and x is not None and not isinstance(
                    x, clichild.InjectedFault):
                x = x.__cause__ or x.__context__
            ctx.check(isinstance(x, clichild.InjectedFault), 'the original '
                      'error is lost', case=ctx.current, error=repr(err))
            ctx.count('errors passed on')
            continue
        ctx.check(err is None, 'results on failure were asked for, but an '
                  'error is raised', case=ctx.current, error=repr(err))
        ctx.check(r.ok is False, 'a failed result is not marked', case=(
            ctx.current, r.ok))
        if r.sheetbuild is None:
            ctx.check(not r.sheet_cuts, 'parts without a state')
            ctx.count('failed before there was a state')
        else:
            r.sheetbuild.check(force=True)
            ctx.check(len(r.history) >= 1, 'no history')
            cuts = r.sheetbuild.sheet_chosen
            ctx.check(set(r.sheet_cuts) == set(cuts), 'partial parts differ '
                      'from the partial state')
            # the partial state is one of the states of the complete run
            h = list(good.history) + [good.sheetbuild]
            ctx.check(any(build.states_equal(r.sheetbuild, x) is None
                          for x in h), 'the partial result is not a state of '
                      'the processing', case=ctx.current)
            ctx.check(len(r.history) <= len(good.history), 'more steps than '
                      'in a complete run')
            for x, y in zip(r.history, good.history):
                ctx.check(build.states_equal(x, y) is None, 'the history of '
                          'a failed run is another one', case=ctx.current)
            ctx.count('partial states')
    again = canned.canned_1(sp, p)
    for x, y in zip(again.history, good.history):
        ctx.check(build.states_equal(x, y) is None, 'a failed run influences '
                  'later ones', spec=spec)


def run_job(job, ctx):
    dict(options=options, names=names, bad=bad, fault=fault,
         lib=lib)[job[0]](job, ctx)
