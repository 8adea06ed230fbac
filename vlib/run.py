"""Common runner of all checks: jobs, workers, verdicts, evidence, replay."""
import collections
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import pickle
import signal
import sys
import time
import traceback

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')

if os.path.isdir('/opt/venv/mplconfig'):
    os.environ.setdefault('MPLCONFIGDIR', '/opt/venv/mplconfig')

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PLYCUTTER_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)


# Never execute stale byte code of the tree under test: compile its sources
# afresh (an edit within the timestamp granularity keeps an old .pyc valid).
import importlib._bootstrap_external as _be  # noqa: E402
_cfs = _be.cache_from_source


def _no_cache(path, *a, **k):
    if str(path).startswith(os.path.realpath(REPO) + os.sep):
        raise NotImplementedError
    return _cfs(path, *a, **k)


_be.cache_from_source = _no_cache


class Violation(Exception):
    pass


class HarnessProblem(Exception):
    """The check cannot do its work (never a verdict about the property)."""


class JobTimeout(BaseException):
    pass


class CaseTimeout(Exception):
    """A single case exceeded an absurdly generous limit."""


class Ctx:
    """What a job observed."""

    def __init__(self):
        self.counts = collections.Counter()
        self.keys = set()
        self.samples = []
        self.current = None
        self.maxima = {}

    def case(self, key, nontrivial=True, sample=None):
        self.counts['evaluations'] += 1
        if nontrivial:
            h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
            self.keys.add(h)
        if sample is not None and len(self.samples) < 2:
            self.samples.append(short(sample))

    def count(self, what, n=1):
        self.counts[what] += n

    def maximum(self, what, v):
        v = float(v)
        if what not in self.maxima or v > self.maxima[what]:
            self.maxima[what] = v

    def fail(self, msg, **detail):
        raise Violation(msg + ''.join('\n    %s: %s' % (k, short(v))
                                      for k, v in detail.items()))

    def check(self, cond, msg, **detail):
        if not cond:
            self.fail(msg, **detail)


def short(v, n=1500):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


class limit:
    """Absolute time limit on one case, far above its normal duration."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.old = signal.getsignal(signal.SIGALRM)
        self.left = signal.alarm(0)

        def on_alarm(*a):
            raise CaseTimeout('case did not finish in %d s'
                              % self.seconds)
        signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(self.seconds)
        self.t = time.time()

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        if self.left:
            signal.alarm(max(1, self.left - int(time.time() - self.t)))


_mod = None


def _quiet():
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.filterwarnings('ignore')


def _worker(arg):
    idx, job, seconds, verbose = arg

    def on_alarm(*a):
        raise JobTimeout()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(seconds)
    ctx = Ctx()
    res = dict(idx=idx, job=job, violation=None, problem=None)
    t = time.time()
    out = sys.stdout
    try:
        if not verbose:
            sys.stdout = open(os.devnull, 'w')
        _mod.run_job(job, ctx)
    except Violation as e:
        res['violation'] = str(e)
    except (HarnessProblem, ImportError, MemoryError):
        res['problem'] = traceback.format_exc()
    except JobTimeout:
        res['problem'] = 'job exceeded %d s: %s' % (seconds, short(job, 300))
    except AttributeError as e:
        tb = traceback.format_exc()
        if str(e).startswith("module '") or str(e).startswith('type object'):
            # an internal that the harness drives is not there any more
            res['problem'] = tb
        else:
            res['violation'] = 'exception on a valid input\n' + tb[-3000:]
    except Exception:
        res['violation'] = 'exception on a valid input\n' + \
            traceback.format_exc()[-3000:]
    finally:
        signal.alarm(0)
        if not verbose:
            sys.stdout.close()
            sys.stdout = out
    res.update(counts=ctx.counts, keys=ctx.keys, samples=ctx.samples,
               maxima=ctx.maxima, current=ctx.current,
               wall=time.time() - t)
    return res


def _init(modname):
    global _mod
    _quiet()
    _mod = importlib.import_module(modname)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def main(modname, argv):
    global _mod
    prop = modname.rsplit('.', 1)[-1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    t0 = time.time()
    _quiet()
    try:
        import plycutter
        where = os.path.realpath(plycutter.__file__)
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            print('INCONCLUSIVE: plycutter imported from %s' % where)
            return 3
        _mod = importlib.import_module(modname)
    except Exception:
        traceback.print_exc()
        print('INCONCLUSIVE property=%s cannot load code under test' % prop)
        return 3
    job_limit = getattr(_mod, 'JOB_LIMIT', 500)
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            rep = json.load(f)
        job = pickle.loads(bytes.fromhex(rep['job_pickle']))
        r = _worker((0, job, 3000, True))
        print(r['violation'] or r['problem'] or 'no violation')
        return 1 if r['violation'] else (3 if r['problem'] else 0)

    jobs = _mod.jobs(tier, seed)
    procs = int(os.environ.get('VERIF_PROCS', '8'))
    deadline = t0 + (780 if tier == 'quick' else
                     int(os.environ.get('VERIF_DEADLINE', '5000')))
    if tier == 'thorough':
        job_limit = max(job_limit, 1500)
    counts = collections.Counter()
    keys = set()
    samples = []
    maxima = {}
    violations = []
    problems = []
    done = 0
    timed_out = False
    pool = multiprocessing.get_context('fork').Pool(
        procs, _init, (modname,),
        maxtasksperchild=getattr(_mod, 'TASKS_PER_CHILD', None))
    try:
        it = pool.imap_unordered(
            _worker, [(i, j, job_limit, False) for i, j in enumerate(jobs)])
        for _ in range(len(jobs)):
            left = deadline - time.time()
            if left <= 0:
                timed_out = True
                break
            try:
                r = it.next(left)
            except multiprocessing.TimeoutError:
                timed_out = True
                break
            done += 1
            counts.update(r['counts'])
            keys |= r['keys']
            for k, v in r['maxima'].items():
                maxima[k] = max(v, maxima.get(k, v))
            if len(samples) < 6:
                samples.extend(r['samples'])
            if r['problem']:
                problems.append(r['problem'])
            if r['violation']:
                violations.append(r)
                break
    finally:
        pool.terminate()
        pool.join()

    vio_out = []
    for n, r in enumerate(violations):
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s-%d-%d.json' % (
            prop, tier, seed, r['idx']))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, tier=tier, seed=seed,
                           job=short(r['job'], 5000), case=short(
                               r['current'], 5000),
                           violation=r['violation'],
                           job_pickle=pickle.dumps(r['job']).hex()), f,
                      indent=1)
        vio_out.append(dict(what=r['violation'][:2000], replay=path))

    evaluations = counts.pop('evaluations', 0)
    need = getattr(_mod, 'MIN_EVALUATIONS', {}).get(tier, 1)
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(keys),
            rule=_mod.RULE, samples=samples[:6] or ['none'],
            jobs_done=done, jobs_planned=len(jobs),
            monitors=dict(sorted(counts.items())),
            extremes={k: maxima[k] for k in sorted(maxima)},
        ),
        assumptions=getattr(_mod, 'ASSUMPTIONS', []),
        wall_s=round(wall, 1), violations=vio_out)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, '
          '%d/%d jobs, %.1f s' % (prop, tier, seed, evaluations, len(keys),
                                  done, len(jobs), wall))
    for k, v in sorted(counts.items()):
        print('  observed %-40s %d' % (k, v))
    for k in sorted(maxima):
        print('  extreme  %-40s %g' % (k, maxima[k]))
    if vio_out:
        for v in vio_out:
            print(v['what'])
            print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
        return 1
    if problems:
        print(problems[0])
        print('INCONCLUSIVE property=%s: %d harness problem(s)' % (
            prop, len(problems)))
        return 3
    if timed_out or done < len(jobs):
        print('INCONCLUSIVE property=%s: deadline reached' % prop)
        return 3
    if evaluations < need or len(keys) < max(1, need // 4):
        print('INCONCLUSIVE property=%s: too little observed' % prop)
        return 3
    return 0
