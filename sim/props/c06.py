"""C06: crash consistency and durability of the persistent stores."""
import random

from ..kernel import Node, Violation, SimCrash
from ..stores import StoreWorld, assoc_tuple, modules, SKEW
from .base import Prop, sched_spec, STORE_REAL, STORE_STUB
from .c04 import URLS, HANDLES
from . import c05

NONE = None


class C06(Prop):
    id = 'C06'
    runs = {'quick': 7000, 'thorough': 600000}
    rule = ('a run is a seeded history of store operations in which processes are killed (or the machine loses power) at chosen '
            'points inside operations, with a full audit by a freshly started process after every crash; non-trivial: at least '
            'one audit; distinct by event digest')
    state_measure = 'distinct (store kind, interrupted operation, system call interrupted, before/after/torn, outcome old/new) tuples'
    real = STORE_REAL
    stub = STORE_STUB
    assumptions = ['directory operations that completed survive power loss in order (journalled metadata); file data survives only if flushed',
                   'SQLite itself is trusted to recover its file; power loss is applied to the file store only']
    shrink_lists = ['ops', 'clients.*', 'setup']

    def gen(self, rng, tier, index):
        kind = ['file', 'file', 'sqlite', 'file', 'pg', 'file', 'mysql'][index % 7]
        if index % 4 == 3:
            plan = c05.PROP.gen(rng, tier, [0, 0, 2, 0, 5, 0, 4][index % 7])
            plan['mode'] = 'conc'
            for c in plan['clients']:
                for op in c:
                    if rng.random() < 0.3 and op['op'] != 'tick':
                        op['faults'] = [dict(at=rng.randrange(0, 9), kind=rng.choice(['crash_before', 'crash_after', 'crash_torn']),
                                             frac=rng.random())]
            return plan
        urls = rng.sample(URLS, rng.choice([1, 1, 2]))
        handles = rng.sample(HANDLES, rng.choice([1, 2, 3]))
        salts = ['s%d' % i for i in range(3)]
        ops = []
        for _ in range(rng.choice([2, 3, 4, 6, 10])):
            k = rng.random()
            u, h = rng.choice(urls), rng.choice(handles)
            if k < 0.45:
                t = rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
                n = 20 if t == 'HMAC-SHA1' else 32
                op = dict(op='store', url=u, handle=h, type=t, secret=bytes(rng.getrandbits(8) for _ in range(n)).hex(),
                          issued=1500000000 + rng.choice([0, 1, -1, 7]), lifetime=rng.choice([3600, 86400, 1209600]))
            elif k < 0.58:
                op = dict(op='remove', url=u, handle=h)
            elif k < 0.82:
                op = dict(op='nonce', url=u, ts=1500000000 + rng.choice([0, 0, 1, -100]), salt=rng.choice(salts))
            elif k < 0.92:
                op = dict(op='cleanup')
            elif k < 0.96:
                op = dict(op='get', url=u, handle=h)
            else:
                op = dict(op='reopen')
            if rng.random() < 0.45:
                op['faults'] = [dict(at=rng.randrange(0, 9), kind=rng.choice(['crash_before', 'crash_after', 'crash_torn', 'crash_after']),
                                     frac=rng.random())]
                if kind == 'file' and rng.random() < 0.5:
                    op['power'] = True
            elif kind == 'file' and rng.random() < 0.25:
                op['power'] = True         # power fails right after the call returned
            ops.append(op)
        return dict(kind=kind, mode='seq', ops=ops)

    def execute(self, plan, env):
        if plan['mode'] == 'conc':
            return self.conc(plan, env)
        kind = plan['kind']
        _, _, _, association = modules()
        with env.sim() as sim:
            w = StoreWorld(sim, kind)
            cur = {'node': None, 'store': None, 'n': 0}
            poss = {}           # key -> set of possible values (None = absent)
            nonces = {}         # key -> set of {'used','free'}
            prng = random.Random('power-%s' % plan['seed'])

            def fresh():
                cur['n'] += 1
                nd = Node('proc%d' % cur['n'])
                sim.set_node(nd)
                sim.ctx.begin_op(None, nd.name)
                cur['node'] = nd
                try:
                    cur['store'] = w.open(nd)
                except SimCrash:
                    raise
                except Exception as why:
                    raise Violation('reopen-failed', 'store=%s cannot be opened after a crash: %r' % (kind, why))

            def audit():
                env.checks += 1
                st = cur['store']
                for key in sorted(poss):
                    try:
                        a = st.getAssociation(*key)
                    except Exception as why:
                        raise Violation('unusable-after-crash', 'store=%s getAssociation%r raised %r after a crash' % (kind, key, why))
                    v = None if a is None else assoc_tuple(a)
                    if a is not None and a.handle != key[1]:
                        raise Violation('corrupt-after-crash', 'store=%s %r has handle %r' % (kind, key, a.handle))
                    if v not in poss[key]:
                        if v is None:
                            raise Violation('acknowledged-association-lost', 'store=%s %r is gone after a crash; expected %r' % (
                                kind, key, sorted(map(repr, poss[key]))))
                        raise Violation('corrupt-after-crash', 'store=%s %r reads back as %r after a crash; expected one of %r' % (
                            kind, key, v, sorted(map(repr, poss[key]))))
                    poss[key] = {v}
                for u in sorted(set(k[0] for k in poss)):
                    have = [(next(iter(v))[1], k[1]) for k, v in poss.items() if k[0] == u and next(iter(v)) is not None]
                    try:
                        a = st.getAssociation(u)
                    except Exception as why:
                        raise Violation('unusable-after-crash', 'store=%s getAssociation(%r) raised %r after a crash' % (kind, u, why))
                    if (a is None) != (not have) or (a is not None and a.issued != max(have)[0]):
                        raise Violation('corrupt-after-crash', 'store=%s fetch by server %r gives %r, stored: %r' % (kind, u, a and a.handle, have))
                for key in sorted(nonces):
                    if nonces[key] == {'used'}:
                        if st.useNonce(*key):
                            raise Violation('nonce-forgotten', 'store=%s nonce %r was accepted, then accepted again after a crash' % (kind, key))

            def power():
                sim.count_fault('power_loss')
                cur['node'].alive = False
                w.died(cur['node'])
                sim.disk.power_loss(prng)
                fresh()
                audit()

            fresh()
            for op in plan['ops']:
                st = cur['store']
                sim.ctx.begin_op(op.get('faults'), cur['node'].name)
                o = op['op']
                sim.log('op', o, repr(op.get('url')), repr(op.get('handle')))
                try:
                    if o == 'store':
                        key = (op['url'], op['handle'])
                        val = (bytes.fromhex(op['secret']), op['issued'], op['lifetime'], op['type'])
                        old = poss.get(key, {NONE})
                        poss[key] = old | {val}
                        st.storeAssociation(op['url'], association.Association(op['handle'], *val))
                        poss[key] = {val}
                    elif o == 'remove':
                        key = (op['url'], op['handle'])
                        old = poss.get(key, {NONE})
                        poss[key] = old | {NONE}
                        st.removeAssociation(*key)
                        poss[key] = {NONE}
                    elif o == 'nonce':
                        key = (op['url'], op['ts'], op['salt'])
                        old = nonces.get(key, {'free'})
                        nonces[key] = old | {'used'}
                        r = st.useNonce(*key)
                        env.checks += 1
                        if r and old == {'used'}:
                            raise Violation('nonce-forgotten', 'store=%s nonce %r accepted twice' % (kind, key))
                        if not r and old == {'free'}:
                            raise Violation('fresh-nonce-refused', 'store=%s nonce %r refused on first use' % (kind, key))
                        nonces[key] = {'used'}
                    elif o == 'cleanup':
                        st.cleanup()
                    elif o == 'get':
                        a = st.getAssociation(op['url'], op['handle'])
                        v = None if a is None else assoc_tuple(a)
                        if v not in poss.get((op['url'], op['handle']), {NONE}):
                            raise Violation('wrong-association', 'store=%s get%r: %r' % (kind, (op['url'], op['handle']), v))
                    elif o == 'reopen':
                        w.died(cur['node'])
                        fresh()
                    if op.get('power'):
                        sim.state(kind, o, 'acked+power')
                        power()
                except SimCrash:
                    hit = sim.main_ctx.hits[-1:] if sim.main_ctx.hits else [{}]
                    w.died(cur['node'])
                    if op.get('power'):
                        sim.count_fault('power_loss')
                        sim.disk.power_loss(prng)
                    amb = [k for k in poss if len(poss[k]) > 1]
                    fresh()
                    audit()
                    sim.state(kind, o, hit[0].get('point'), hit[0].get('kind'), [next(iter(poss[k])) is None for k in amb])
                    sim.probe('crash_in_' + o)
            # end: everything still there for one more process
            w.died(cur['node'])
            fresh()
            audit()
            w.close()

    def conc(self, plan, env):
        kind = plan['kind']
        _, _, _, association = modules()
        with env.sim() as sim:
            w = StoreWorld(sim, kind)
            nodes = [Node('p%d' % i) for i in range(len(plan['clients']) + 1)]
            stores = {}
            hist = []

            def do(i, op):
                sim.ctx.begin_op(op.get('faults'), 'p%d' % i)
                st = stores[i]
                o = op['op']
                if o == 'tick':
                    sim.advance(op['dt'])
                    return
                rec = dict(op=op, kind=o, inv=sim.seq, ret=c05.INF, t_inv=sim.now, t_ret=None, res=None, client=i)
                hist.append(rec)
                sim.log('inv', i, o, repr(op.get('url')), repr(op.get('handle')))
                try:
                    if o == 'store':
                        st.storeAssociation(op['url'], association.Association(
                            op['handle'], bytes.fromhex(op['secret']), op['issued'], op['lifetime'], op['type']))
                    elif o == 'get':
                        rec['res'] = st.getAssociation(op['url'], op['handle'])
                    elif o == 'best':
                        rec['res'] = st.getAssociation(op['url'])
                    elif o == 'remove':
                        rec['res'] = bool(st.removeAssociation(op['url'], op['handle']))
                    elif o == 'cleanup':
                        getattr(st, op['how'])()
                except Exception as why:
                    if kind != 'file' and 'locked' in str(why) or kind == 'pg' and type(why).__name__ == 'IntegrityError':
                        rec['res'] = 'busy'
                        rec['failed'] = True
                    else:
                        raise Violation('operation-failed:%s' % type(why).__name__, 'store=%s %s raised %r after another process crashed' % (kind, o, why))
                rec['ret'] = sim.seq
                rec['t_ret'] = sim.now

            for i, n in enumerate(nodes):
                sim.set_node(n)
                sim.ctx.begin_op(None, n.name)
                stores[i] = w.open(n)
            for op in plan['setup']:
                do(len(nodes) - 1, op)
            sim.set_node(sim.default_node)

            def client(i):
                def run():
                    for op in plan['clients'][i]:
                        do(i, op)
                return run
            tasks = sim.run_tasks([('p%d' % i, nodes[i], client(i)) for i in range(len(plan['clients'])) if plan['clients'][i]])
            for t in tasks:
                if t.error is not None:
                    raise t.error
                if t.crashed:
                    sim.probe('crash_while_concurrent')
            if sim.aborting:
                raise Violation('stuck', 'store operations did not finish: %s' % sim.aborting)
            for n in nodes[:-1]:
                w.died(n)
            # a fresh process reads everything
            n = Node('auditor')
            sim.set_node(n)
            sim.ctx.begin_op(None, n.name)
            nodes.append(n)
            stores[len(nodes) - 1] = w.open(n)
            keys = sorted(set((r['op']['url'], r['op']['handle']) for r in hist if r['kind'] == 'store'))
            for u, h in keys:
                do(len(nodes) - 1, dict(op='get', url=u, handle=h))
            for u in sorted(set(k[0] for k in keys)):
                do(len(nodes) - 1, dict(op='best', url=u))
            w.close()
            for r in hist:
                if r['t_ret'] is None:
                    r['failed'] = True
            c05.PROP.judge(plan, env, sim, hist)


PROP = C06()
