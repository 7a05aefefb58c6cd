"""Set-up check and determinism proof of the simulator itself."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from . import runner


def _digests(pid, seed, n, tier, layout, hashseed):
    """index -> (digest, verdict) collected with `layout` worker processes."""
    base = tempfile.mkdtemp(prefix='vsim-det-', dir=runner.scratch_base())
    procs = []
    out = {}
    try:
        for w in range(layout):
            wb = os.path.join(base, 'a-longer-directory-%d' % w if hashseed != '0' else 'w%d' % w)
            os.mkdir(wb)
            cmd = [runner.PY, '-B', os.path.join(runner.HERE, 'check.py'), '--worker', '--property', pid,
                   '--seed', str(seed), '--tier', tier, '--start', str(w), '--step', str(layout), '--runs', str(n),
                   '--budget', '800', '--base', wb, '--digests', '--keep-going']
            procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                          env=runner.child_env(hashseed)))
        for p in procs:
            so, se = p.communicate()
            if p.returncode != 0:
                raise SystemExit('worker failed: %s' % se.decode('utf-8', 'replace')[-2000:])
            for line in so.decode().splitlines():
                m = json.loads(line)
                if 'digest' in m:
                    out[m['digest'][0]] = tuple(m['digest'][1:])
                if 'harness' in m:
                    raise SystemExit(m['tb'])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return out


def determinism(pid, seed, n, tier):
    """Every seed twice: other process, other worker layout, other string hash
    seed, other scratch directory.  The event digests must be identical."""
    bad = 0
    pids = [pid] if pid else sorted(f[:3].upper() for f in os.listdir(os.path.join(runner.HERE, 'sim', 'props'))
                                    if f.startswith('c') and f[1:3].isdigit())
    for one in pids:
        a = _digests(one, seed, n, tier, 4, '0')
        b = _digests(one, seed, n, tier, 3, '12345')
        diff = sorted(i for i in a if a[i] != b.get(i))
        if diff or set(a) != set(b):
            bad += 1
        print('%s: %d seeds run twice, %d distinct digests, %d differences %s' % (
            one, len(a), len(set(v[0] for v in a.values())), len(diff), diff[:8]))
        sys.stdout.flush()
    return 1 if bad else 0


def setup():
    """The machinery is plain Python: nothing to build.  Makes sure that the
    interpreter and the seams are what the checks expect."""
    from . import kernel
    kernel.install()
    import time
    import openid.consumer.consumer     # noqa
    import openid.server.server         # noqa
    if not os.path.abspath(openid.__file__).startswith(kernel.REPO):
        print('openid imported from %s' % openid.__file__)
        return 1
    base = tempfile.mkdtemp(prefix='vsim-', dir=runner.scratch_base())
    try:
        with kernel.Sim('selftest') as s:
            assert time.time() == s.now
            assert len(os.urandom(8)) == 8
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print('simulator ready, python %s, code under test %s' % (sys.version.split()[0], kernel.REPO))
    return 0
