"""Count violation classes over many runs (development aid).

  python tools/census.py C14 --runs 3000 [--seed 1]
"""
import collections
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    pid = sys.argv[1]
    opt = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    runs, seed, workers = int(opt.get('--runs', 2000)), int(opt.get('--seed', 1)), 8
    if '--part' in opt:
        part = int(opt['--part'])
        from sim import kernel, runner
        kernel.install()
        prop = runner.load_prop(pid)
        import shutil
        import tempfile
        base = tempfile.mkdtemp(prefix='census-')
        for i in range(part, runs, workers):
            plan = runner.make_plan(prop, seed, i, 'quick')
            o = runner.run_plan(prop, plan, base)
            if o.violation:
                print(i, o.violation[0])
            elif o.harness:
                print(i, 'HARNESS', o.harness.strip().splitlines()[-1])
        shutil.rmtree(base)
        return
    procs = [subprocess.Popen([sys.executable, '-B', __file__, pid, '--runs', str(runs), '--seed', str(seed), '--part', str(p)],
                              stdout=subprocess.PIPE, text=True) for p in range(workers)]
    c = collections.defaultdict(list)
    for p in procs:
        for line in p.communicate()[0].splitlines():
            i, rest = line.split(' ', 1)
            c[rest].append(int(i))
    for k, v in sorted(c.items(), key=lambda kv: -len(kv[1])):
        print(len(v), min(v), k[:300])


main()
