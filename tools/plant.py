"""Plant one bug: python tools/plant.py SPEC.py [--no-tests] [--no-check]

SPEC.py defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO (python text),
NEEDS, BREAKS and optionally ALSO (other checks to run).  The change is made in
a scratch copy of /repo; the bug is kept in seeded/<ID>/ when the demo passes
on /repo, fails on the copy, and the stable tests pass on the copy.
"""
import json, os, runpy, shutil, subprocess, sys, textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
BASE = '9082dad'


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True)


def stable(copy):
    xml = copy + '.xml'
    env = dict(ENV, PYTHONPATH='/opt/vp/plugins')
    sh([PY, '-m', 'pytest', '-q', '-p', 'vp_seed', '-p', 'no:cacheprovider',
        '--timeout=300', '--tb=short', '--continue-on-collection-errors',
        '-o', 'junit_family=xunit2', '--junitxml=' + xml, 'tests'],
       cwd=copy, env=env)
    out = copy + '.json'
    sh(['/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + xml])
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    got = set(json.load(open(out))['passed'])
    os.remove(xml); os.remove(out)
    return [t for t in want if t not in got]


def main():
    spec = runpy.run_path(sys.argv[1])
    bid = spec['ID']
    copy = '/tmp/plant_' + bid
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree(REPO, copy, symlinks=True)
    try:
        for f, old, new in spec['EDITS']:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(bid, 'BAD: %d occurrences of %r' % (s.count(old), old))
                return 1
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], cwd=copy).stdout
        # lines removed must be original ones
        d0 = sh(['git', 'diff', '-U0'], cwd=copy).stdout
        cur = None
        for l in d0.splitlines():
            if l.startswith('--- a/'):
                cur = l[6:]
            elif l.startswith('@@'):
                a = l.split()[1][1:]
                st, _, n = a.partition(',')
                n = int(n or 1)
                if n:
                    bl = sh(['git', 'blame', '-s', '-L', '%s,+%d' % (st, n),
                             cur], cwd=REPO).stdout
                    bad = [x for x in bl.splitlines()
                           if not x.lstrip('^').startswith(BASE[:6])]
                    if bad:
                        print(bid, 'BAD: lines not original', bad)
                        return 1
        dest = os.path.join(V, 'seeded', bid)
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        open(dest + '/patch.diff', 'w').write(diff)
        open(dest + '/demo.py', 'w').write(
            'import os, sys, warnings\n'
            "warnings.simplefilter('ignore')\n"
            "os.environ.setdefault('MPLBACKEND', 'agg')\n"
            'sys.path.insert(0, os.getcwd())\n'
            'def quit_(bad):\n    sys.exit(1 if bad else 0)\n\n\n'
            + textwrap.dedent(spec['DEMO']).lstrip())
        open(dest + '/demo.sh', 'w').write(
            '#!/bin/bash\n'
            'export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n'
            'PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\n'
            'exec "$PY" "$(dirname "$0")/demo.py"\n')
        os.chmod(dest + '/demo.sh', 0o755)
        json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'],
                   'what_it_breaks': spec['BREAKS']},
                  open(dest + '/meta.json', 'w'), indent=1)
        ok = sh(['bash', dest + '/demo.sh'], cwd=REPO)
        ko = sh(['bash', dest + '/demo.sh'], cwd=copy)
        good = ok.returncode == 0 and ko.returncode != 0
        print(bid, 'demo clean rc', ok.returncode, 'patched rc', ko.returncode,
              ko.stdout.strip().splitlines()[-1:] , flush=True)
        if ok.returncode:
            print(ok.stdout[-1500:])
        miss = []
        if '--no-tests' not in sys.argv:
            miss = stable(copy)
            print(bid, 'stable missing', miss, flush=True)
        if not good or miss:
            shutil.rmtree(dest)
            print(bid, 'NOT KEPT')
            return 1
        if '--no-check' not in sys.argv:
            for pid in [spec['PROPERTY']] + list(spec.get('ALSO', ())):
                env = dict(os.environ, VERIF_REPO=copy)
                r = sh([PY, 'run_check.py', pid], cwd=V, env=env)
                v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l
                     or 'facet' in l.lower()][:3]
                print(bid, pid, 'rc', r.returncode,
                      'CAUGHT' if r.returncode == 1 else '** MISSED **',
                      ' | '.join(v)[:400], flush=True)
        return 0
    finally:
        shutil.rmtree(copy, ignore_errors=True)


sys.exit(main())
