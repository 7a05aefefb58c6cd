"""C23: workers sharing a store are interchangeable."""
import copy

from ..gen import gen_id, gen_op, gen_rp
from ..kernel import Violation
from ..net import gen_fault
from ..provider import ProviderWorld
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec
from .c16 import PROP as C16

SHARED = ['file', 'sqlite', 'mysql', 'pg']


class C23(Prop):
    id = 'C23'
    runs = {'quick': 3500, 'thorough': 150000}
    budget = {'quick': 45.0, 'thorough': 1500.0}
    rule = ('the same history of login steps, duplicates, alterations, losses and time gives the same outcome of every step (requests answered, '
            'statuses, identifiers, confirmed verifications) with any worker per step and restarts in between as with one worker that never restarts')
    state_measure = 'hash of (store kinds, workers, versions, worker assignment pattern of a login, outcome)'
    assumptions = ['workers share the store and the user session, and their clocks agree', 'the memory store belongs to a single process']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        nops = rng.choice([1, 1, 2])
        ops = [gen_op(rng, i, kinds=('lib',), stores=[SHARED[index % 4]], workers=(2, 3), skew=False) for i in range(nops)]
        for o in ops:
            o['offsets'] = [0]
        rps = [gen_rp(rng, 0, stores=[SHARED[(index // 4) % 4]] * 3 + [None], workers=(2, 3), skew=False)]
        rps[0]['offsets'] = [0]
        ids = [gen_id(rng, i, nops) for i in range(rng.choice([1, 2]))]
        ids.append(gen_id(rng, len(ids), nops, ver='2', op=rng.randrange(nops), nsvc=1, xri=False))
        for c in ids:
            for k, s in enumerate(c['services']):
                s['prio'] = k
        who = ['rp0'] + ['op%d' % i for i in range(nops)]
        lanes = []
        for l in range(rng.choice([1, 2, 3, 4])):
            b = dict(s='begin', l=l, rp=0, id=rng.randrange(len(ids)), sess='s%d' % rng.randrange(2), w=rng.randrange(3), imm=rng.random() < 0.25)
            o = dict(s='op', l=l, dec=dict(allow=rng.random() < 0.8, sel=rng.randrange(100)), w=rng.randrange(3))
            if rng.random() < 0.5:
                o['w2'] = rng.randrange(3)
            lane = [b, o]
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                d = dict(s='deliver', l=l, w=rng.randrange(3))
                if rng.random() < 0.12:
                    d['edits'] = [rng.choice([['del', 'openid.sig'], ['set', 'openid.assoc_handle', 'x'], ['set', 'openid.mode', 'cancel'],
                                              ['set', 'openid.invalidate_handle', 'y'], ['append', 'openid.return_to', 'x'], ['append', 'openid.sig', 'A']])]
                lane.append(d)
            if rng.random() < 0.15:
                lane.insert(2, dict(o, w=rng.randrange(3)))
            for st in lane:
                if st['s'] in ('begin', 'deliver'):
                    f = []
                    if rng.random() < 0.2:
                        f.append(gen_fault(rng, n=rng.choice([0, 1, 2]), kinds=['refuse', 'lost', 'dup', 'status', 'garbage']))
                    # which worker of the provider serves the direct requests
                    f.append(dict(n='*', kind='server', w=rng.randrange(3), post=True))
                    st['net'] = f
            lanes.append(lane)
        steps = []
        work = [list(x) for x in lanes]
        while any(work):
            j = rng.choice([j for j, x in enumerate(work) if x])
            steps.append(work[j].pop(0))
            k = rng.random()
            if k < 0.25:
                steps.append(dict(s='restart', who=rng.choice(who), w=rng.randrange(3)))
            elif k < 0.35:
                steps.append(dict(s='tick', dt=rng.choice([1, 60, 3600, 1209601])))
            elif k < 0.42:
                steps.append(dict(s='cleanup', who=rng.choice(who), w=rng.randrange(3)))
            elif k < 0.46:
                steps.append(dict(s='wipe', who=rng.choice(who)))
        return dict(world=dict(ops=ops, rps=rps, ids=ids), steps=steps, sched=sched_spec(rng))

    shrink_lists = ['steps', 'steps.*.net']

    def execute(self, plan, env):
        many = self.play(plan, env, True)
        one = self.play(plan, env, False)
        for (k, st, a), (_, _, b) in zip(many, one):
            env.checks += 1
            if a != b:
                raise Violation('differs', 'step %d (%s): with one worker the outcome is %s, with interchanged workers %s' % (k, st, b, a))

    def play(self, plan, env, several):
        cfg = copy.deepcopy(plan['world'])
        if not several:
            for p in cfg['ops'] + cfg['rps']:
                p['workers'] = 1
        out = []
        with env.sim(max_steps=2000000) as sim:
            w = ProviderWorld(sim, cfg)
            C16.resolve(plan, w)
            for k, st in enumerate(plan['steps']):
                if not several:
                    if st['s'] == 'restart':
                        continue
                    st = dict(st)
                    st.pop('w2', None)
                w.do(st)
                if st['s'] in ('begin', 'op', 'deliver'):
                    out.append((k, st, self.seen(w, st)))
            if several:
                for p in w.rps + w.ops:
                    for r in p.stored:
                        sim.state(p.kind, r['type'], len(p.nodes))
                for l, lg in w.logins.items():
                    sim.state(tuple(p.kind for p in w.rps + w.ops), lg['st']['w'], tuple((o['step'].get('w'), o['step'].get('w2')) for o in lg['outs']),
                              tuple((r['step'].get('w'), r['status']) for r in lg['results']))
            gave_up = sim.db_gave_up
            w.close()
        return [] if gave_up else out

    def seen(self, w, st):
        lg = w.logins.get(st['l'])
        if lg is None:
            return None
        if st['s'] == 'begin':
            ev = lg['begin']
            m = ev['msg']
            return ('begin', type(ev['exc']).__name__, m and m.method, ev.get('server_url'), ev.get('claimed_id'), m and 'openid.assoc_handle' in m.args)
        if st['s'] == 'op':
            o = lg['outs'][-1] if lg['outs'] else None
            if o is None:
                return None
            m = o['msg']
            return ('op', o['kind'], m and sorted(m.args), m and m.args.get('openid.mode'), m and m.args.get('openid.identity'))
        r = lg['results'][-1] if lg['results'] else None
        if r is None:
            return None
        return ('complete', r['status'], r['identity'], r['server_url'], type(r['exc']).__name__, str(r.get('why') or '')[:12])


PROP = C23()
