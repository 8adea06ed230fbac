"""Development aid: verify the planted bugs of /verif/seeded.

  plant.py make SPEC.py        create seeded/<id>/ from a spec (EDITS, META, DEMO, FILES)
  plant.py verify ID... [--tests] [--check C,C]   on a scratch copy of /repo
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import xml.etree.ElementTree as ET

SEEDED = '/verif/seeded'
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
# cwd: the repository. Exit 0 when the property holds, nonzero otherwise.
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def copy():
    d = tempfile.mkdtemp(prefix='plant-')
    shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns(
        '.hypothesis', '__pycache__'))
    return d + '/r'


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for p in ns['PLANTS']:
        d = '%s/%s' % (SEEDED, p['id'])
        c = copy()
        for f, old, new in p['edits']:
            s = open('%s/%s' % (c, f)).read()
            assert s.count(old) == 1, (p['id'], f, s.count(old), old)
            open('%s/%s' % (c, f), 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=c, capture_output=True,
                              text=True, check=True).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(p['demo'])
        if 'mini' in p['demo']:
            shutil.copy('/verif/tools/mini.py', d + '/mini.py')
        json.dump(dict(property=p['prop'], needs=p['needs'],
                       what_it_breaks=p['breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        shutil.rmtree(os.path.dirname(c))
        print('made', p['id'])


def tests(c):
    env = dict(os.environ, PYTHONPATH=c, PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0', CI='1', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    x = os.path.dirname(c) + '/junit.xml'
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n',
                    os.environ.get('TP', '8'),
                    '--dist=load', '--maxschedchunk=1', '--benchmark-disable',
                    '--timeout=600', '--timeout-method=thread',
                    '-o', 'junit_family=xunit2', '--junitxml=' + x],
                   cwd=c, env=env, capture_output=True)
    ok = set()
    for t in ET.parse(x).getroot().iter('testcase'):
        if not list(t.findall('failure')) + list(t.findall('error')) + \
                list(t.findall('skipped')):
            ok.add('%s::%s' % (t.get('classname'), t.get('name')))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [s for s in stable if s not in ok]


def verify(i, dotests, checks):
    d = '%s/%s' % (SEEDED, i)
    meta = json.load(open(d + '/meta.json'))
    c = copy()
    out = {}
    lay = tempfile.mkdtemp(prefix='demo-')
    shutil.copytree(d, lay + '/x')

    def demo():
        t = time.time()
        p = subprocess.run(['bash', lay + '/x/demo.sh'], cwd=c,
                           capture_output=True, text=True)
        return p.returncode, round(time.time() - t), \
            (p.stdout + p.stderr)[-400:]
    r0 = demo()
    out['clean'] = r0[:2]
    if r0[0]:
        print(i, 'DEMO FAILS ON CLEAN', r0[2])
    subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=c, check=True)
    r1 = demo()
    out['patched'] = r1[:2]
    if not r1[0]:
        print(i, 'DEMO PASSES WITH PATCH')
    else:
        out['how'] = r1[2].strip().split('\n')[-1][-160:]
    if dotests:
        out['tests_failing'] = tests(c)
    for ch in checks if checks is not None else [meta['property']]:
        t = time.time()
        env = dict(os.environ, PLYCUTTER_REPO=c, VERIF_TIER='quick')
        p = subprocess.run([PY, '/tmp/mut/verif2/checks/run.py', ch], env=env,
                           capture_output=True, text=True)
        out[ch] = (p.returncode, round(time.time() - t), '' if p.returncode == 0 else
                   p.stdout[-300:])
    shutil.rmtree(os.path.dirname(c))
    shutil.rmtree(lay)
    print(i, json.dumps(out), flush=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'make':
        for s in a[1:]:
            make(s)
    else:
        ids = [x for x in a[1:] if not x.startswith('--')]
        ch = [x[8:] for x in a if x.startswith('--check=')]
        for i in ids or sorted(os.listdir(SEEDED)):
            verify(i, '--tests' in a,
                   [x for x in ch[0].split(',') if x] if ch else None)
