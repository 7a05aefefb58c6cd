"""C05: concurrent clients of one store: processes, or threads of one process."""
from ..kernel import Node, Violation, SimCrash
from ..stores import StoreWorld, assoc_tuple, modules
from .base import Prop, sched_spec, STORE_REAL, STORE_STUB
from .c04 import URLS, HANDLES

INF = 1 << 60


class C05(Prop):
    id = 'C05'
    runs = {'quick': 6000, 'thorough': 500000}
    rule = ('a run is one seeded interleaving (system-call / SQL-statement granularity) of 2-4 client processes working on '
            'one store; every return value and exception is judged against the invocation/return history; distinct by event digest')
    state_measure = 'distinct (store kind, operation, overlap pattern, outcome) tuples'
    real = STORE_REAL
    stub = STORE_STUB
    assumptions = ['a client that finds an expired association under a handle may remove a newer association stored '
                   'under the same handle at that instant (documented race; handles are not reused by providers)',
                   'SQL clients may see the database\'s own "locked" error after its busy timeout']
    shrink_lists = ['clients.*', 'setup']

    def gen(self, rng, tier, index):
        kind = ['file', 'file', 'sqlite', 'file', 'mysql', 'pg', 'mem'][index % 7]
        nclients = rng.choice([2, 2, 2, 3, 4])
        urls = rng.sample(URLS, rng.choice([1, 1, 2]))
        handles = rng.sample(HANDLES, rng.choice([1, 2, 3]))
        fixed = rng.random() < 0.5          # no expiry in this run
        serial = [0]

        def store_op():
            serial[0] += 1
            t = rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
            n = 20 if t == 'HMAC-SHA1' else 32
            return dict(op='store', url=rng.choice(urls), handle=rng.choice(handles), type=t,
                        secret=bytes(rng.getrandbits(8) for _ in range(n)).hex(),
                        issued=1500000000 + rng.choice([0, 0, 1, -1, 5, -50]),
                        lifetime=3600 if fixed else rng.choice([3600, 3600, 3600, 49, 5, 1, 60]))

        def any_op():
            k = rng.random()
            u, h = rng.choice(urls), rng.choice(handles)
            if k < 0.3:
                return store_op()
            if k < 0.5:
                return dict(op='get', url=u, handle=h)
            if k < 0.7:
                return dict(op='best', url=u)
            if k < 0.84:
                return dict(op='remove', url=u, handle=h)
            if k < 0.94:
                return dict(op='cleanup', how=rng.choice(['cleanup', 'cleanupAssociations']))
            return dict(op='tick', dt=rng.choice([0, 1]) if fixed else rng.choice([1, 5, 60]))
        setup = [store_op() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        clients = [[any_op() for _ in range(rng.choice([1, 2, 3, 4]))] for _ in range(nclients)]
        late = rng.random() < 0.2            # the processes open the store at the same time
        threads = kind == 'mem' or kind == 'file' and rng.random() < 0.15     # of one process, each with its own file store object
        return dict(kind=kind, setup=[] if late else setup, clients=clients, sched=sched_spec(rng), late=late, threads=threads)

    def execute(self, plan, env):
        kind = plan['kind']
        _, _, _, association = modules()
        with env.sim(line_trace=kind == 'mem') as sim:
            w = StoreWorld(sim, kind)
            nodes = [Node('p%d' % i) for i in range(len(plan['clients']) + 1)]
            if plan.get('threads'):
                nodes = [nodes[0]] * len(nodes)
            stores = {}
            hist = []

            def do(i, op):
                ctx = sim.ctx
                ctx.begin_op(None, 'p%d' % i)
                if i not in stores:
                    try:
                        stores[i] = w.open(nodes[i])
                    except Exception as why:
                        raise Violation('open-failed:%s' % type(why).__name__, 'opening the %s store raised %r while other processes open it' % (kind, why))
                st = stores[i]
                o = op['op']
                if o == 'tick':
                    sim.advance(op['dt'])
                    return
                rec = dict(op=op, kind=o, inv=sim.seq, ret=INF, t_inv=sim.now, t_ret=None, res=None, client=i)
                hist.append(rec)
                sim.log('inv', i, o, repr(op.get('url')), repr(op.get('handle')))
                try:
                    if o == 'store':
                        a = association.Association(op['handle'], bytes.fromhex(op['secret']), op['issued'],
                                                    op['lifetime'], op['type'])
                        st.storeAssociation(op['url'], a)
                    elif o == 'get':
                        rec['res'] = st.getAssociation(op['url'], op['handle'])
                    elif o == 'best':
                        rec['res'] = st.getAssociation(op['url'])
                    elif o == 'remove':
                        rec['res'] = bool(st.removeAssociation(op['url'], op['handle']))
                    elif o == 'cleanup':
                        getattr(st, op['how'], st.cleanupAssociations)()
                except Exception as why:
                    if kind != 'file' and 'locked' in str(why):
                        rec['res'] = 'busy'
                        rec['failed'] = True
                        sim.probe('busy_error')
                    elif kind == 'pg' and type(why).__name__ == 'IntegrityError' and o == 'store':
                        # two simultaneous inserts of one handle: the database refuses the second
                        rec['failed'] = True
                        sim.probe('pg_insert_conflict')
                    else:
                        import traceback
                        raise Violation('operation-failed:%s' % type(why).__name__, 'store=%s %s(%r, %r) raised %r while other processes '
                                        'use the store\n%s' % (kind, o, op.get('url'), op.get('handle'), why, traceback.format_exc()[-1800:]))
                rec['ret'] = sim.seq
                rec['t_ret'] = sim.now
                r = rec['res']
                sim.log('ret', i, o, getattr(r, 'handle', r))

            for i, n in enumerate(nodes):
                if plan.get('late'):
                    break
                sim.set_node(n)
                sim.ctx.begin_op(None, n.name)
                stores[i] = w.open(n)
            sim.set_node(nodes[-1])
            for op in plan['setup']:
                do(len(nodes) - 1, op)
            sim.set_node(sim.default_node)

            def client(i):
                def run():
                    for op in plan['clients'][i]:
                        do(i, op)
                return run
            tasks = sim.run_tasks([('p%d' % i, nodes[i], client(i)) for i in range(len(plan['clients'])) if plan['clients'][i]])
            for t in tasks:
                if t.error is not None:
                    raise t.error
            if sim.aborting:
                raise Violation('stuck', 'store operations did not finish: %s' % sim.aborting)
            # final quiescent reads
            sim.set_node(nodes[-1])
            keys = sorted(set((r['op']['url'], r['op']['handle']) for r in hist if r['kind'] == 'store'))
            for u, h in keys:
                do(len(nodes) - 1, dict(op='get', url=u, handle=h))
            for u in sorted(set(k[0] for k in keys)):
                do(len(nodes) - 1, dict(op='best', url=u))
            w.close()
            self.judge(plan, env, sim, hist)

    def judge(self, plan, env, sim, hist):
        kind = plan['kind']
        stores_by, removes_by = {}, {}
        for r in hist:
            if r['kind'] == 'store':
                o = r['op']
                r['val'] = (bytes.fromhex(o['secret']), o['issued'], o['lifetime'], o['type'])
                stores_by.setdefault((o['url'], o['handle']), []).append(r)
            elif r['kind'] == 'remove':
                removes_by.setdefault((r['op']['url'], r['op']['handle']), []).append(r)

        def expired(val, t):
            return val[1] + val[2] <= int(t)

        def ok_value(key, a, r):
            """value returned by r for key: stored, and not definitely superseded"""
            val = assoc_tuple(a)
            cands = [s for s in stores_by.get(key, []) if s['val'] == val and s['inv'] < r['ret']]
            if not cands:
                raise Violation('torn-or-foreign', 'store=%s: %s returned %r %r, never stored under %r' % (
                    kind, r['kind'], a.handle, val, key))
            if expired(val, r['t_inv']) and (kind, r['kind']) != ('mem', 'get'):     # see C04's known finding
                raise Violation('expired-returned', 'store=%s: %s returned %r which had expired before the call' % (kind, r['kind'], a.handle))
            for s in cands:
                dead = False
                for s2 in stores_by.get(key, []):
                    if s2 is not s and not s2.get('failed') and s2['inv'] > s['ret'] and s2['ret'] < r['inv']:
                        dead = True
                for m in removes_by.get(key, []):
                    if m['res'] is True and m['inv'] > s['ret'] and m['ret'] < r['inv']:
                        dead = True
                if not dead:
                    return
            raise Violation('stale-read', 'store=%s: %s returned %r which had been replaced or removed before the call' % (
                kind, r['kind'], key))

        def stable(key, r):
            """values that must be visible throughout r"""
            ss = stores_by.get(key, [])
            if any(expired(s['val'], r['t_ret']) for s in ss if s['inv'] < r['ret']):
                return None
            done = [s for s in ss if s['ret'] < r['inv'] and not s.get('failed')]
            if not done:
                return None
            # any store still running or failing: the value is unknown, but some value is present
            last = max(done, key=lambda s: s['ret'])
            first_inv = min(s['inv'] for s in done)
            vals = [s for s in ss if not (s['ret'] < last['inv']) and s['inv'] < r['ret']]
            for m in removes_by.get(key, []):
                if m['inv'] < r['ret'] and m['ret'] > last['inv']:
                    return None
            if any(expired(s['val'], r['t_ret']) for s in vals):
                return None
            return vals

        for r in hist:
            if r['kind'] in ('get', 'best'):
                if r.get('failed'):
                    continue
                env.checks += 1
                u = r['op']['url']
                a = r['res']
                overlap = tuple(sorted(set(x['kind'] for x in hist if x is not r and x['inv'] < r['ret'] and x['ret'] > r['inv'])))
                sim.state(kind, r['kind'], a is None, overlap)
                if r['kind'] == 'get':
                    key = (u, r['op']['handle'])
                    if a is None:
                        if stable(key, r):
                            raise Violation('lost-association', 'store=%s: get%r returned nothing although the association was '
                                            'present throughout' % (kind, key))
                    else:
                        if a.handle != key[1]:
                            raise Violation('torn-or-foreign', 'store=%s: get%r returned handle %r' % (kind, key, a.handle))
                        ok_value(key, a, r)
                else:
                    st = {}
                    for key in stores_by:
                        if key[0] == u:
                            v = stable(key, r)
                            if v:
                                st[key] = v
                    if a is None:
                        if st:
                            raise Violation('lost-association', 'store=%s: fetch by server %r returned nothing although %r '
                                            'was present throughout' % (kind, u, sorted(st)))
                    else:
                        ok_value((u, a.handle), a, r)
                        if st:
                            floor = max(min(s['val'][1] for s in v) for v in st.values())
                            if a.issued < floor:
                                raise Violation('not-most-recent', 'store=%s: fetch by server %r returned one issued at %d, %d was '
                                                'present throughout' % (kind, u, a.issued, floor))
            elif r['kind'] == 'remove' and not r.get('failed'):
                env.checks += 1
                key = (r['op']['url'], r['op']['handle'])
                others = [x for x in hist if x is not r and x['kind'] in ('remove', 'store', 'cleanup') and
                          x['inv'] < r['ret'] and x['ret'] > r['inv']]
                if r['res'] is False and not others and stable_for_remove(stores_by, removes_by, key, r, expired, kind):
                    raise Violation('remove-missed', 'store=%s: removing the present association %r reported nothing removed' % (kind, key))
        for key, rms in removes_by.items():
            yes = [m for m in rms if m['res'] is True]
            env.checks += 1
            if len(yes) > len(stores_by.get(key, [])):
                raise Violation('removed-twice', 'store=%s: %d removals of %r reported success for %d stored associations' % (
                    kind, len(yes), key, len(stores_by.get(key, []))))
            # single store, several removers: exactly-once
            for a in yes:
                for b in yes:
                    if a is not b and a['inv'] < b['inv']:
                        if not any(s['inv'] < max(a['ret'], b['ret']) and s['ret'] > a['inv'] for s in stores_by.get(key, [])):
                            raise Violation('removed-twice', 'store=%s: two removals of %r both reported success, nothing was '
                                            'stored in between' % (kind, key))


def stable_for_remove(stores_by, removes_by, key, r, expired, kind):
    ss = stores_by.get(key, [])
    if any(expired(s['val'], r['t_ret']) for s in ss if s['inv'] < r['ret']):
        return False
    done = [s for s in ss if s['ret'] < r['inv'] and not s.get('failed')]
    if not done:
        return False
    last = max(done, key=lambda s: s['ret'])
    for m in removes_by.get(key, []):
        if m is not r and m['inv'] < r['ret'] and m['ret'] > last['inv']:
            return False
    return True


PROP = C05()
