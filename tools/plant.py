"""Turn a bug description into /verif/seeded/<id>/ after confirming it.

A description is a Python file defining PROPERTY, NEEDS, BREAKS, EDITS (list of
(file, old, new)), DEMO (source of a Python demonstration: exit status 0 when
behaviour is right).  Confirms in a scratch copy: the edits apply, the stable
tests pass, the demo passes on /repo and fails on the copy.  Then runs the
checks named on the command line (default: PROPERTY) against the copy.

  python3 tools/plant.py DESCRIPTION.py [--only-check] [--checks C01,C02]
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 120 %s -W ignore "$(dirname "$0")/demo.py"\n' % PY


def run(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode('utf-8', 'replace')


def tests(copy, tmp):
    xml = os.path.join(tmp, 'junit.xml')
    out = os.path.join(tmp, 'res.json')
    run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-o', 'python_functions=NO_TEST_FUNCTIONS',
         '-o', 'junit_family=xunit2', '--junitxml=' + xml, 'openid'], copy, dict(PYTHONPATH=copy))
    run(['python3', '/opt/vp/results.py', out, 'junit:' + xml], copy)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(base - set(json.load(open(out))['passed']))


def main():
    spec_file = sys.argv[1]
    only = '--only-check' in sys.argv
    spec = runpy.run_path(spec_file)
    bug = os.path.basename(spec_file)[:-3]
    checks = [spec['PROPERTY']]
    for i, a in enumerate(sys.argv):
        if a == '--checks':
            checks = sys.argv[i + 1].split(',')
    tmp = tempfile.mkdtemp(prefix='plant-')
    ok = True
    try:
        copy = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', copy, symlinks=True)
        for f, old, new in spec['EDITS']:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                print('%s: edit matches %d times in %s: %r' % (bug, s.count(old), f, old))
                return 1
            open(p, 'w').write(s.replace(old, new))
        if not only:
            dest = os.path.join(tmp, 'bug')
            os.mkdir(dest)
            open(os.path.join(dest, 'demo.py'), 'w').write(spec['DEMO'])
            open(os.path.join(dest, 'demo.sh'), 'w').write(DEMO_SH)
            miss = tests(copy, tmp)
            if miss:
                print('%s: tests fail: %s' % (bug, miss[:5]))
                ok = False
            a, ao = run(['bash', os.path.join(dest, 'demo.sh')], '/repo', timeout=200)
            b, bo = run(['bash', os.path.join(dest, 'demo.sh')], copy, timeout=200)
            if a != 0 or b == 0:
                print('%s: demo clean=%d planted=%d\n%s\n---\n%s' % (bug, a, b, ao[-1500:], bo[-1500:]))
                ok = False
            rc, diff = run(['git', 'diff', '--', 'openid'], copy)
            if ok:
                final = os.path.join(HERE, 'seeded', bug)
                shutil.rmtree(final, ignore_errors=True)
                os.makedirs(os.path.dirname(final), exist_ok=True)
                shutil.copytree(dest, final)
                open(os.path.join(final, 'patch.diff'), 'w').write(diff)
                json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']),
                          open(os.path.join(final, 'meta.json'), 'w'), indent=1)
        for c in checks:
            rc, out = run([PY, '-B', 'check.py', '--property', c, '--no-evidence'], HERE, dict(VERIF_REPO=copy))
            lines = [x for x in out.splitlines() if x.startswith(('run index', 'VIOLATION'))]
            msg = out.splitlines()
            k = [i for i, x in enumerate(msg) if x.startswith('run index')]
            print('%s: %s %s %s' % (bug, c, {0: 'MISSED', 1: 'caught'}.get(rc, 'exit %d' % rc),
                                    ' | '.join(msg[k[0]:k[0] + 2])[:300] if k else ('' if rc == 0 else out[-600:])))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0 if ok else 1


if __name__ == '__main__':
    sys.exit(main())
