"""Plans, execution, minimisation, worker processes and evidence."""
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


class Outcome(object):
    def __init__(self):
        self.violation = None       # (cls, message)
        self.harness = None         # traceback text
        self.digest = ''
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.switches = []
        self.sim_time = 0.0
        self.steps = 0
        self.events = []
        self.checks = 0
        self.known = set()


class Env(object):
    """What a property's execute() gets: scratch space and a Sim factory."""

    def __init__(self, prop, plan, base, keep_events):
        self.prop = prop
        self.plan = plan
        self.base = base
        self.keep_events = keep_events
        self.sims = []
        self.root = None
        self.checks = 0
        self.known = set()

    def finding(self, cls, key, message):
        """A violation that may be a listed known finding: continue if it is
        listed (identified by class and key), otherwise report it."""
        from . import kernel
        for k in load_findings():
            if k.get('property') == self.prop.id and k.get('class') == cls and k.get('key') == key:
                self.known.add(k['text'])
                return
        raise kernel.Violation(cls, message)

    def sim(self, **kw):
        from . import kernel, disk
        kw.setdefault('seed', self.plan.get('seed', 0))
        kw.setdefault('sched', self.plan.get('sched'))
        if self.root is None:
            self.root = tempfile.mkdtemp(prefix='run', dir=self.base)
        root = self.root
        if self.sims:              # every simulation has its own machine
            root = os.path.join(self.root, 'sim%d' % len(self.sims))
            os.mkdir(root)
        s = kernel.Sim(root=root, **kw)
        s.keep_events = self.keep_events
        s.disk = disk.Disk(s, root)
        self.sims.append(s)
        return s

    def close(self):
        for s in self.sims:
            s.finished = True
        if self.root is not None:
            shutil.rmtree(self.root, ignore_errors=True)
            self.root = None


def run_plan(prop, plan, base, keep_events=False):
    from . import kernel
    out = Outcome()
    env = Env(prop, plan, base, keep_events)
    try:
        try:
            prop.execute(plan, env)
        except kernel.Violation as v:
            out.violation = (v.cls, v.message)
        except (kernel.SimCrash, kernel.SimAbort) as why:
            if str(why) == 'endless-requests':
                out.violation = ('never-ends', 'one call of the library makes requests without end')
            else:
                out.harness = 'unhandled %r\n%s' % (why, traceback.format_exc())
        except RecursionError:
            out.violation = ('unexpected-exception', 'RecursionError\n' + traceback.format_exc()[-1500:])
        except Exception as why:
            tb = traceback.format_exc()
            frames = traceback.extract_tb(why.__traceback__)
            inside = [f for f in frames if f.filename.startswith(kernel.OPENID_PREFIX)]
            if inside:
                last = inside[-1]
                out.violation = ('unexpected-exception:%s' % type(why).__name__,
                                 '%s escaped from %s (%s)\n%s' % (type(why).__name__, last.name,
                                                                  os.path.relpath(last.filename, kernel.REPO), tb[-2500:]))
            else:
                out.harness = tb
    finally:
        h = hashlib.sha256()
        for s in env.sims:
            s.log('end')
            h.update(s.digest.digest())
            for k, v in s.fault_counts.items():
                out.faults[k] = out.faults.get(k, 0) + v
            for k, v in s.probes.items():
                out.probes[k] = out.probes.get(k, 0) + v
            out.states |= s.states
            out.switches.extend(s.sched.switches)
            out.sim_time += s.now - s.t_start
            out.steps += s.steps
            out.events.extend(s.events)
        out.digest = h.hexdigest()
        out.checks = env.checks
        out.known = env.known
        env.close()
        kernel.CUR = None
        gc.enable()
    return out


def load_prop(pid):
    mod = importlib.import_module('sim.props.%s' % pid.lower())
    return mod.PROP


def make_plan(prop, seed, index, tier):
    label = '%s:%s:%s' % (prop.id, seed, index)
    rng = random.Random(label)
    plan = prop.gen(rng, tier, index)
    plan.setdefault('seed', '%s' % label)
    plan['property'] = prop.id
    return json.loads(json.dumps(plan))


# ------------------------------------------------------------------ minimise

def minimise(prop, plan, cls, base, budget=60.0):
    """Shrink while the same violation class persists."""
    from . import kernel
    t_end = kernel.REAL.perf_counter() + budget
    tried = [0]

    def fails(p):
        if kernel.REAL.perf_counter() > t_end:
            return None
        tried[0] += 1
        o = run_plan(prop, p, base)
        if o.violation and o.violation[0] == cls:
            return o
        return None

    def fails_any_sched(p):
        o = fails(p)
        if o:
            return p, o
        if p.get('sched') and p['sched'].get('mode') != 'replay' or p.get('_resched'):
            for k in range(12):
                q = copy.deepcopy(p)
                q['sched'] = {'mode': 'random', 'seed': k, 'p': 0.2 + 0.1 * (k % 5)}
                o = fails(q)
                if o:
                    return q, o
        return None

    best = copy.deepcopy(plan)
    o = run_plan(prop, best, base)
    if not o.violation or o.violation[0] != cls:
        return plan, tried[0]

    keys = getattr(prop, 'shrink_lists', ['ops'])

    def get(p, key):
        cur = p
        for k in key.split('.'):
            if isinstance(cur, list):
                cur = cur[int(k)] if int(k) < len(cur) else None
            else:
                cur = cur.get(k)
            if cur is None:
                return None
        return cur

    def put(p, key, val):
        parts = key.split('.')
        cur = p
        for k in parts[:-1]:
            cur = cur[int(k)] if isinstance(cur, list) else cur[k]
        if isinstance(cur, list):
            cur[int(parts[-1])] = val
        else:
            cur[parts[-1]] = val

    def expand(p):
        out = []

        def rec(done, rest):
            if not rest:
                out.append('.'.join(done))
                return
            if rest[0] == '*':
                lst = get(p, '.'.join(done)) or []
                for i in range(len(lst)):
                    rec(done + [str(i)], rest[1:])
            else:
                rec(done + [rest[0]], rest[1:])
        for key in keys:
            rec([], key.split('.'))
        return out

    def ddmin_list(key):
        nonlocal best
        n = 2
        while True:
            items = get(best, key)
            if not isinstance(items, list) or not items:
                return
            n = min(n, len(items))
            chunk = max(1, len(items) // n)
            reduced = False
            i = 0
            while i < len(items):
                cand = copy.deepcopy(best)
                put(cand, key, items[:i] + items[i + chunk:])
                r = fails_any_sched(cand)
                if r:
                    best = r[0]
                    items = get(best, key)
                    reduced = True
                else:
                    i += chunk
                if kernel.REAL.perf_counter() > t_end:
                    return
            if chunk == 1:
                if not reduced:
                    return
            else:
                n = n * 2

    for _ in range(3):
        before = json.dumps(best, sort_keys=True)
        for key in expand(best):
            ddmin_list(key)
        # drop faults op by op
        for key in expand(best):
            items = get(best, key)
            if not isinstance(items, list):
                continue
            for i, op in enumerate(list(items)):
                if isinstance(op, dict):
                    for fk in ('faults', 'net', 'fault'):
                        if op.get(fk):
                            vals = op[fk]
                            cands = []
                            c = copy.deepcopy(best)
                            get(c, key)[i].pop(fk)
                            cands.append(c)
                            if isinstance(vals, list) and len(vals) > 1:
                                for j in range(len(vals)):
                                    c = copy.deepcopy(best)
                                    get(c, key)[i][fk] = vals[:j] + vals[j + 1:]
                                    cands.append(c)
                            for c in cands:
                                r = fails_any_sched(c)
                                if r:
                                    best = r[0]
                                    break
        simp = getattr(prop, 'simplify', None)
        if simp:
            progress = True
            while progress and kernel.REAL.perf_counter() < t_end:
                progress = False
                for cand in simp(copy.deepcopy(best)):
                    r = fails_any_sched(cand)
                    if r:
                        best = r[0]
                        progress = True
                        break
        if json.dumps(best, sort_keys=True) == before:
            break
    # freeze and minimise the schedule
    o = run_plan(prop, best, base)
    if o.violation and o.violation[0] == cls and o.switches:
        cand = copy.deepcopy(best)
        cand['sched'] = {'mode': 'replay', 'switches': o.switches}
        if fails(cand):
            best = cand
            sw = best['sched']['switches']
            n = 2
            while sw:
                n = min(n, len(sw))
                chunk = max(1, len(sw) // n)
                reduced = False
                i = 0
                while i < len(sw):
                    c = copy.deepcopy(best)
                    c['sched']['switches'] = sw[:i] + sw[i + chunk:]
                    if fails(c):
                        best = c
                        sw = best['sched']['switches']
                        reduced = True
                    else:
                        i += chunk
                    if kernel.REAL.perf_counter() > t_end:
                        break
                if kernel.REAL.perf_counter() > t_end:
                    break
                if chunk == 1:
                    if not reduced:
                        break
                else:
                    n *= 2
    return best, tried[0]


# -------------------------------------------------------------------- worker

def worker_main(args):
    """Runs plans index, index+step, ... and reports JSON lines on stdout."""
    from . import kernel
    kernel.install()
    prop = load_prop(args.property)
    base = args.base
    out = sys.stdout
    t_end = kernel.REAL.perf_counter() + args.budget
    agg = dict(runs=0, steps=0, sim_time=0.0, checks=0, faults={}, probes={})
    states = set()
    digests = set()
    samples = []
    nontrivial = 0
    known = set()
    index = args.start

    def emit(obj):
        out.write(json.dumps(obj) + '\n')
        out.flush()

    last = kernel.REAL.perf_counter()
    while index < args.runs:
        now = kernel.REAL.perf_counter()
        if now > t_end:
            break
        if now - last > 1.0:
            emit({'hb': index})
            last = now
        plan = make_plan(prop, args.seed, index, args.tier)
        o = run_plan(prop, plan, base)
        agg['runs'] += 1
        agg['steps'] += o.steps
        agg['sim_time'] += o.sim_time
        agg['checks'] += o.checks
        known |= o.known
        for k, v in o.faults.items():
            agg['faults'][k] = agg['faults'].get(k, 0) + v
        for k, v in o.probes.items():
            agg['probes'][k] = agg['probes'].get(k, 0) + v
        new = o.states - states
        states |= o.states
        if o.checks > 0:
            if o.digest[:16] not in digests:
                digests.add(o.digest[:16])
                nontrivial += 1
        if len(samples) < 1 or (len(samples) < 2 and o.faults):
            samples.append(plan)
        if args.digests:
            emit({'digest': [index, o.digest, o.violation[0] if o.violation else None]})
        if o.harness:
            emit({'harness': index, 'tb': o.harness, 'plan': plan})
            break
        if o.violation:
            emit({'violation': index, 'cls': o.violation[0], 'msg': o.violation[1], 'plan': plan,
                  'digest': o.digest})
            if not args.keep_going:
                break
        index += args.step
        if agg['runs'] % 50 == 0:
            gc.collect()
    agg['next'] = index
    agg['known'] = sorted(known)
    agg['states'] = sorted(states)
    agg['nontrivial'] = nontrivial
    agg['samples'] = samples
    emit({'final': agg})


def minimise_main(args):
    from . import kernel
    kernel.install()
    with open(args.file) as f:
        rec = json.load(f)
    prop = load_prop(rec['property'])
    best, tried = minimise(prop, rec['plan'], rec['cls'], args.base, args.budget)
    o = run_plan(prop, best, args.base, keep_events=True)
    rec['original_plan'] = rec['plan']
    rec['plan'] = best
    rec['digest'] = o.digest
    rec['minimise_runs'] = tried
    if o.violation:
        rec['cls'], rec['msg'] = o.violation
    rec['trace'] = o.events[-400:]
    rec['reproduced'] = bool(o.violation)
    with open(args.file, 'w') as f:
        json.dump(rec, f, indent=1)


def replay_main(args):
    """Re-executes a replay file.  exit 1 + VIOLATION line if it reproduces."""
    from . import kernel
    kernel.install()
    with open(args.file) as f:
        rec = json.load(f)
    prop = load_prop(rec['property'])
    o = run_plan(prop, rec['plan'], args.base, keep_events=True)
    if args.trace:
        for e in o.events:
            print(e)
    if o.harness:
        print(o.harness)
        return 2
    if o.violation:
        print('%s: %s' % o.violation)
        print('digest %s (recorded %s)' % (o.digest, rec.get('digest')))
        print('VIOLATION property=%s replay=%s' % (rec['property'], os.path.abspath(args.file)))
        return 1
    print('no violation on this tree (digest %s)' % o.digest)
    return 0


# -------------------------------------------------------------------- parent

def child_env(hashseed='0'):
    env = dict(os.environ)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = hashseed
    env.pop('PYTHONPATH', None)
    for k in list(env):
        if k.lower().endswith('_proxy'):
            env.pop(k)
    env['TZ'] = 'UTC'
    env['LC_ALL'] = 'C.UTF-8'
    return env


_FINDINGS = None


def load_findings():
    global _FINDINGS
    if _FINDINGS is None:
        _FINDINGS = _load_findings()
    return _FINDINGS


def _load_findings():
    """KNOWN_FINDINGS.txt: lines 'known: property=<id> class=<cls> key=<where> :: <text>'
    and 'fixed: property=<id> <commit> <text>' (the latter suppress nothing)."""
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: '):
                    head, _, text = line[7:].partition(' :: ')
                    d = dict(x.split('=', 1) for x in head.split(' ') if '=' in x)
                    d['text'] = text
                    out.append(d)
    return out


def check_main(pid, tier, seed, runs=None, budget=None, workers=None, keep_evidence=True):
    import select
    t0 = time.perf_counter()
    sys.path.insert(0, HERE)
    meta = json.loads(subprocess.check_output(
        [PY, '-B', os.path.join(HERE, 'check.py'), '--meta', '--property', pid], env=child_env()).decode())
    runs = runs or meta['runs'][tier]
    budget = budget or meta['budget'][tier]
    workers = workers or int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    base = tempfile.mkdtemp(prefix='vsim-', dir=scratch_base())
    procs = []
    violation = None
    harness = None
    finals = []
    known_hits = {}
    try:
        for w in range(workers):
            wb = os.path.join(base, 'w%d' % w)
            os.mkdir(wb)
            cmd = [PY, '-B', os.path.join(HERE, 'check.py'), '--worker', '--property', pid, '--seed', str(seed),
                   '--tier', tier, '--start', str(w), '--step', str(workers), '--runs', str(runs),
                   '--budget', str(budget), '--base', wb]
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=child_env(),
                                 start_new_session=True)
            os.set_blocking(p.stdout.fileno(), False)
            os.set_blocking(p.stderr.fileno(), False)
            procs.append(dict(p=p, buf=b'', err=b'', last=time.perf_counter(), index=w, done=False, w=w))
        hang_limit = 90.0
        while not all(q['done'] for q in procs):
            fds = {}
            for q in procs:
                if not q['done']:
                    fds[q['p'].stdout] = (q, 'out')
                    fds[q['p'].stderr] = (q, 'err')
            ready, _, _ = select.select(list(fds), [], [], 1.0)
            now = time.perf_counter()
            for fd in ready:
                q, kind = fds[fd]
                data = fd.read(1 << 20)
                if kind == 'err':
                    if data:
                        q['err'] = (q['err'] + data)[-20000:]
                    continue
                if data is None:
                    continue
                if data == b'':
                    q['done'] = True
                    q['p'].wait()
                    if q['p'].returncode != 0 and violation is None and harness is None and not q.get('final'):
                        try:
                            more = q['p'].stderr.read()
                        except Exception:
                            more = b''
                        harness = 'worker %d exited %s\n%s' % (q['w'], q['p'].returncode,
                                                               (q['err'] + (more or b'')).decode('utf-8', 'replace')[-4000:])
                    continue
                q['last'] = now
                q['buf'] += data
                while b'\n' in q['buf']:
                    line, q['buf'] = q['buf'].split(b'\n', 1)
                    if not line.startswith(b'{'):
                        continue
                    msg = json.loads(line.decode())
                    if 'hb' in msg:
                        q['index'] = msg['hb']
                    elif 'violation' in msg:
                        if violation is None or msg['violation'] < violation['violation']:
                            violation = msg
                    elif 'harness' in msg:
                        harness = harness or ('run %d: %s' % (msg['harness'], msg['tb']))
                    elif 'final' in msg:
                        q['final'] = True
                        finals.append(msg['final'])
                        for text in msg['final']['known']:
                            known_hits[text] = 1
            for q in procs:
                if not q['done'] and now - q['last'] > hang_limit and violation is None:
                    # find the plan that hangs: replays from the last heartbeat
                    _kill(q['p'])
                    q['done'] = True
                    v = _find_hang(pid, seed, tier, q['index'], workers, runs, base)
                    if v is not None:
                        violation = v
            if violation is not None:
                # give the others a moment to finish a lower index, then stop
                for q in procs:
                    if not q['done']:
                        _kill(q['p'])
                        q['done'] = True
            if harness is not None and violation is None:
                for q in procs:
                    if not q['done']:
                        _kill(q['p'])
                        q['done'] = True
        rc = 0
        replay = None
        if violation is not None:
            rd = os.path.join(HERE, 'replays')
            os.makedirs(rd, exist_ok=True)
            replay = os.path.join(rd, '%s-%s.json' % (pid, hashlib.sha256(
                json.dumps(violation['plan'], sort_keys=True).encode()).hexdigest()[:12]))
            rec = dict(property=pid, tier=tier, seed=seed, index=violation['violation'], cls=violation['cls'],
                       msg=violation['msg'], plan=violation['plan'], digest=violation.get('digest'))
            with open(replay, 'w') as f:
                json.dump(rec, f, indent=1)
            if violation['cls'] != 'hang':
                mb = os.path.join(base, 'min')
                os.mkdir(mb)
                try:
                    subprocess.run([PY, '-B', os.path.join(HERE, 'check.py'), '--minimise', replay, '--base', mb,
                                    '--budget', '45'], env=child_env(), timeout=200,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    r = subprocess.run([PY, '-B', os.path.join(HERE, 'check.py'), '--replay', replay],
                                       env=child_env(), timeout=120, stdout=subprocess.PIPE)
                    with open(replay) as f:
                        rec = json.load(f)
                    same = ('digest %s (recorded %s)' % (rec['digest'], rec['digest'])).encode() in r.stdout
                    print('replay in a fresh process: exit %d, digest %s' % (r.returncode, 'identical' if same else 'DIFFERS'))
                except (subprocess.TimeoutExpired, ValueError, KeyError) as why:
                    print('minimisation incomplete: %r' % (why,))
                    with open(replay, 'w') as f:
                        json.dump(rec, f, indent=1)
            rc = 1
        elif harness is not None:
            rc = 2
        wall = time.perf_counter() - t0
        ev = build_evidence(pid, tier, seed, meta, finals, wall, workers, violation)
        if keep_evidence:
            os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
            tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % pid)
            with open(tmp, 'w') as f:
                json.dump(ev, f, indent=1)
            os.replace(tmp, os.path.join(HERE, 'evidence', '%s.json' % pid))
        c = ev['coverage']
        print('%s %s seed=%s: %d runs (%d distinct), %d oracle checks, %d states, faults %s, %.1fs' % (
            pid, tier, seed, c['evaluations'], c['distinct_nontrivial'], c['oracle_checks'], c['distinct_states'],
            sum(c['faults_injected'].values()), wall))
        for text, n in sorted(known_hits.items()):
            print('KNOWN-FINDING: property=%s %s' % (pid, text))
        if rc == 2:
            print('HARNESS ERROR\n' + harness)
        if violation is not None:
            print('run index %d, class %s' % (violation['violation'], rec['cls']))
            print(rec['msg'][:3000])
            print('minimised plan: ' + json.dumps(rec['plan'])[:3000])
            print('VIOLATION property=%s replay=%s' % (pid, replay))
        return rc
    finally:
        for q in procs:
            _kill(q['p'])
        shutil.rmtree(base, ignore_errors=True)


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (OSError, ProcessLookupError):
        pass
    try:
        p.wait(timeout=10)
    except Exception:
        pass


def _find_hang(pid, seed, tier, index, step, runs, base):
    """Re-run one plan at a time in fresh processes; a plan that does not end
    within a minute, twice, is reported."""
    for k in range(60):
        i = index + k * step
        if i >= runs:
            break
        stuck = 0
        for attempt in range(2):
            wb = tempfile.mkdtemp(prefix='hang', dir=base)
            cmd = [PY, '-B', os.path.join(HERE, 'check.py'), '--worker', '--property', pid, '--seed', str(seed),
                   '--tier', tier, '--start', str(i), '--step', '1', '--runs', str(i + 1), '--budget', '50',
                   '--base', wb]
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=child_env(),
                                 start_new_session=True)
            try:
                p.communicate(timeout=60)
                break
            except subprocess.TimeoutExpired:
                _kill(p)
                stuck += 1
        if stuck == 2:
            prog = [PY, '-B', os.path.join(HERE, 'check.py'), '--plan', str(i), '--property', pid, '--seed', str(seed),
                    '--tier', tier]
            plan = json.loads(subprocess.check_output(prog, env=child_env()).decode())
            return dict(violation=i, cls='hang', msg='the run does not terminate', plan=plan)
    return None


def build_evidence(pid, tier, seed, meta, finals, wall, workers, violation):
    runs = sum(f['runs'] for f in finals)
    steps = sum(f['steps'] for f in finals)
    st = sum(f['sim_time'] for f in finals)
    checks = sum(f['checks'] for f in finals)
    states = set()
    faults, probes = {}, {}
    samples = []
    nontrivial = 0
    for f in finals:
        states |= set(f['states'])
        nontrivial += f['nontrivial']
        for k, v in f['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in f['probes'].items():
            probes[k] = probes.get(k, 0) + v
        samples.extend(f['samples'][:1] if len(samples) < 3 else [])
    text = [s if len(json.dumps(s)) < 6000 else {'truncated': json.dumps(s)[:6000]} for s in samples[:3]]
    if not text:
        text = [violation['plan'] if violation else 'none']
    return dict(
        property=pid, tier=tier, seed=int(seed), level='exploration', wall_s=round(wall, 2),
        violations=1 if violation else 0,
        assumptions=meta['assumptions'],
        coverage=dict(
            evaluations=runs, distinct_nontrivial=nontrivial, rule=meta['rule'], samples=text,
            oracle_checks=checks, scheduling_and_fault_points=steps,
            simulated_seconds=round(st, 1), runs_per_hour=int(runs / max(wall, 0.001) * 3600),
            seeds_per_hour=int(runs / max(wall, 0.001) * 3600),
            faults_injected=dict(sorted(faults.items())), probes=dict(sorted(probes.items())),
            distinct_states=len(states), state_measure=meta['state_measure'],
            real_components=meta['real'], stub_components=meta['stub'], workers=workers))
