"""C03: nonces are accepted exactly once and only inside the window."""
from ..kernel import Node, Violation, SimCrash
from ..stores import StoreWorld, SKEW
from .. import confuse
from .base import Prop, sched_spec, STORE_REAL, STORE_STUB

URLS = ['http://op.example.com/server', 'https://op.example.com/server', 'http://op.example.com/Server',
        'http://op.example.com:8080/server?a=b', 'http://other.example.org/', '',
        'http://\u017elu\u0165.example/\u00e9?x=\u20ac', 'http://localhost/|normal', 'http://op.example.com/serve', 'http://a-b.c_d/x_20y z',
        'http://' + 'long-name.' * 22 + 'example/', 'http://' + 'long-name.' * 22 + 'example/2']
SALTS = ['', 'a', 'A', 'aaaaaa', 'AAAAAA', 'aB3xY9', 'x' * 40, '../../etc', 'sp ace', '\u00e9\u20ac', '-', '_', 'a-b', '0', 'null', '%s', "'; --"]


class C03(Prop):
    id = 'C03'
    runs = {'quick': 8000, 'thorough': 400000}
    rule = ('a run is one seeded history of nonce uses, clean-ups, clock moves, restarts and crashes by 1-4 clients of one '
            'store kind; non-trivial if at least one use was judged by the oracle; distinct by event digest')
    state_measure = 'distinct (store kind, accepted/refused/error pattern per nonce, interleaving digest) tuples'
    real = STORE_REAL
    stub = STORE_STUB
    assumptions = ['clock steps backwards, and clients with disagreeing clocks, only in runs without clean-up: a store may '
                   'forget a nonce once it is outside the window of the clock of the process that cleans up',
                   'power loss keeps directory operations in order (journalled metadata)']

    def gen(self, rng, tier, index):
        kind = ['file', 'mem', 'sqlite', 'file', 'mem', 'mysql', 'pg', 'file'][index % 8]
        concurrent = rng.random() < 0.6
        nclients = rng.choice([2, 2, 3, 4]) if concurrent else rng.choice([1, 1, 2])
        urls = rng.sample(URLS, rng.choice([1, 2, 3]))
        salts = rng.sample(SALTS, rng.choice([1, 2, 3, 4]))
        if rng.random() < 0.5:
            # values that differ in one small way only
            urls += [confuse.url(rng, rng.choice(urls)) for _ in range(rng.choice([0, 1, 2]))]
            if rng.random() < 0.5:
                salts.append(''.join(rng.choice('abcXYZ019+/=-_.') for _ in range(rng.choice([6, 13, 20, 39]))))
            salts += [confuse.text(rng, rng.choice(salts), 40) for _ in range(rng.choice([1, 2]))]
        deltas = [0, 0, 0, 1, -1, -SKEW, SKEW, -SKEW - 1, SKEW + 1, -SKEW + 1, SKEW - 1, 60, -60, 3600,
                  -100000, 100000, -SKEW - 3600, SKEW + 7200]
        picked = rng.sample(deltas, rng.choice([1, 2, 3]))
        if 0 not in picked and rng.random() < 0.7:
            picked.append(0)
        backwards = rng.random() < 0.25
        cleanup = not backwards and rng.random() < 0.8
        nphases = rng.choice([1, 2, 3, 4])
        crashes = kind != 'mem' and rng.random() < 0.35
        base = rng.choice([1500000000] * 6 + [1000000000, 2147483000 - SKEW]) + rng.choice([0, 0.25, 0.5])
        phases = []
        shift = 0.0
        stamps = []
        for ph in range(nphases):
            ops = []
            for _ in range(rng.choice([2, 3, 4, 6, 8]) if concurrent else rng.choice([3, 6, 12])):
                c = rng.randrange(nclients)
                k = rng.random()
                if cleanup and k < 0.18:
                    op = dict(c=c, op='cleanup', how=('cleanupNonces' if kind == 'mem' else rng.choice(['cleanupNonces', 'cleanupNonces', 'cleanup'])))
                elif stamps and k < 0.55:
                    u, t, s = rng.choice(stamps)
                    op = dict(c=c, op='use', url=u, ts=t, salt=s)
                else:
                    t = int(base) + int(shift) + rng.choice(picked)
                    u, s = rng.choice(urls), rng.choice(salts)
                    stamps.append((u, t, s))
                    op = dict(c=c, op='use', url=u, ts=t, salt=s)
                if crashes and rng.random() < 0.25:
                    op['faults'] = [dict(at=rng.randrange(0, 5), kind=rng.choice(['crash_before', 'crash_after']))]
                ops.append(op)
            dt = rng.choice([0, 1, 59, 3600, SKEW - 1, SKEW, SKEW + 1, SKEW * 2, 0.5])
            if backwards and rng.random() < 0.5:
                dt = -rng.choice([1, 60, 3600, SKEW])
            shift += dt
            phases.append(dict(ops=ops, dt=dt, restart=rng.random() < 0.4, power=(crashes and rng.random() < 0.3)))
        return dict(kind=kind, concurrent=concurrent, nclients=nclients, base=base, phases=phases, sched=sched_spec(rng),
                    skew=[rng.choice([0, 0, 0, 1, -1, 30]) for _ in range(nclients)] if rng.random() < 0.4 and not cleanup else [0] * nclients)

    shrink_lists = ['phases', 'phases.*.ops']

    def simplify(self, plan):
        for i, ph in enumerate(plan['phases']):
            for k in ('restart', 'power'):
                if ph.get(k):
                    c = {**plan, 'phases': [dict(p) for p in plan['phases']]}
                    c['phases'][i][k] = False
                    yield c

    def execute(self, plan, env):
        kind = plan['kind']
        with env.sim(t0=plan['base'], line_trace=(kind == 'mem' and plan['concurrent'])) as sim:
            w = StoreWorld(sim, kind)
            nodes = [Node('p%d' % i, plan['skew'][i]) for i in range(plan['nclients'])]
            stores = {}
            # every attempt ever: key -> list of records
            hist = {}
            cleaned = [None]     # latest node-time at which a clean-up ran
            rec_all = []

            def get_store(i):
                if i not in stores:
                    stores[i] = w.open(nodes[i])
                return stores[i]

            def do(op):
                i = op['c']
                ctx = sim.ctx
                ctx.begin_op(op.get('faults'), 'p%d' % i)
                st = get_store(i)
                if op['op'] == 'cleanup':
                    sim.log('call', op['how'])
                    getattr(st, op['how'])()
                    sim.probe('cleanup')
                    return
                now = sim.node_time()
                rec = dict(inv=sim.seq, ret=None, res='pending', now=now, op=op)
                hist.setdefault((op['url'], op['ts'], op['salt']), []).append(rec)
                rec_all.append(rec)
                sim.log('call use', repr(op['url']), op['ts'], repr(op['salt']))
                try:
                    r = st.useNonce(op['url'], op['ts'], op['salt'])
                except SimCrash:
                    rec['res'] = 'crash'
                    raise
                except Exception as why:
                    busy = kind in ('sqlite', 'mysql', 'pg') and 'locked' in str(why)
                    if busy:
                        rec['res'] = 'busy'
                        sim.probe('busy_error')
                        return
                    raise Violation('use-raises', 'useNonce(%r, %r, %r) raised %r in store %s' % (
                        op['url'], op['ts'], op['salt'], why, kind))
                rec['ret'] = sim.seq
                rec['res'] = bool(r)
                sim.log('ret', bool(r))
                sim.probe('accepted' if r else 'refused')

            def client(i, ops):
                def run():
                    for op in ops:
                        do(op)
                return run

            for ph in plan['phases']:
                if plan['concurrent']:
                    by = {}
                    for op in ph['ops']:
                        by.setdefault(op['c'], []).append(op)
                    specs = []
                    for i in sorted(by):
                        specs.append(('p%d' % i, nodes[i], client(i, by[i])))
                    tasks = sim.run_tasks(specs)
                    for t in tasks:
                        if t.error is not None:
                            raise t.error
                    if sim.aborting:
                        raise Violation('stuck', 'store operations did not finish: %s' % sim.aborting)
                else:
                    for op in ph['ops']:
                        nd = nodes[op['c']]
                        if not nd.alive:
                            self._restart(sim, w, nodes, stores, op['c'])
                        sim.set_node(nd)
                        try:
                            do(op)
                        except SimCrash:
                            pass
                if ph.get('power') and kind == 'file':
                    import random
                    for nd in nodes:
                        nd.alive = False
                    sim.disk.power_loss(random.Random('power%s' % plan['seed']))
                sim.set_node(sim.default_node)
                for i, nd in enumerate(nodes):
                    if not nd.alive or ph.get('restart'):
                        self._restart(sim, w, nodes, stores, i)
                        sim.probe('restart')
                sim.advance(ph['dt'])
            w.close()
            self.judge(plan, env, sim, hist, rec_all)

    def _restart(self, sim, w, nodes, stores, i):
        w.died(nodes[i])
        nodes[i].restart()
        if w.kind != 'mem':
            stores.pop(i, None)

    def judge(self, plan, env, sim, hist, rec_all):
        mx = max(plan['skew']) - min(plan['skew'])
        for key in sorted(hist):
            recs = hist[key]
            wins = [r for r in recs if r['res'] is True]
            env.checks += len(recs)
            pattern = tuple(str(r['res'])[0] for r in recs)
            sim.state(plan['kind'], pattern, len(wins), sorted(sim.fault_counts))
            desc = 'store=%s nonce=%r attempts=%s' % (plan['kind'], key, [
                (r['inv'], r['ret'], r['res'], round(key[1] - r['now'], 2)) for r in recs])
            if len(wins) > 1:
                raise Violation('nonce-accepted-twice', desc)
            for r in recs:
                off = abs(key[1] - r['now'])
                if r['res'] is True and off > SKEW + 0.001:
                    raise Violation('accepted-outside-window', desc)
            # completeness: the first attempt inside the window must win, unless another
            # attempt (concurrent with or before it) might have taken it
            maybe = [r for r in recs if r['res'] in (True, 'crash', 'busy', 'pending')]
            inside = [r for r in recs if abs(key[1] - r['now']) <= SKEW - 0.001]
            if inside and not maybe:
                raise Violation('fresh-nonce-refused', desc)
            for r in inside:
                if r['res'] is False and not any(m['inv'] < r['ret'] for m in maybe):
                    raise Violation('fresh-nonce-refused', desc)


PROP = C03()
