"""C15: logins work again once faults stop."""
from ..gen import OP_STORES, gen_id, gen_op, gen_rp
from ..kernel import Violation
from ..net import gen_fault
from ..provider import ProviderWorld
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec
from .c16 import PROP as C16


class C15(Prop):
    id = 'C15'
    runs = {'quick': 5000, 'thorough': 200000}
    budget = {'quick': 45.0, 'thorough': 1500.0}
    rule = 'after the last fault, every fresh approved login succeeds at the first attempt, for the identifier the provider approved'
    state_measure = 'hash of (store kinds, fault kinds of the prefix, association used)'
    assumptions = ['answers are lost, cut or replaced by junk, but values inside an answer of a provider are not forged', 'after the faults the clocks of all parties agree within the permitted skew', 'identity documents are served again']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        nops = rng.choice([1, 1, 2])
        ops = [gen_op(rng, i, kinds=('lib', 'lib', 'lib', 'ref'), stores=[OP_STORES[index % 5], OP_STORES[(index // 5) % 5]], skew=False)
               for i in range(nops)]
        rps = [gen_rp(rng, 0, stores=[OP_STORES[(index // 3) % 5], OP_STORES[index % 5], None], skew=False)]
        ids = [gen_id(rng, i, nops) for i in range(rng.choice([1, 2]))]
        ids.append(gen_id(rng, len(ids), nops, ver='2', op=rng.randrange(nops), nsvc=1, xri=False))
        who = ['rp0'] + ['op%d' % i for i in range(nops)]
        steps = []
        n = rng.choice([1, 2, 2, 3, 4])
        for l in range(n):
            b = dict(s='begin', l=l, rp=0, id=rng.randrange(len(ids)), sess='s%d' % rng.randrange(2), w=rng.randrange(3), imm=rng.random() < 0.15)
            o = dict(s='op', l=l, dec=dict(allow=rng.random() < 0.8, sel=rng.randrange(100)), w=rng.randrange(3))
            d = dict(s='deliver', l=l, w=rng.randrange(3))
            for st in (b, d):
                if rng.random() < 0.5:
                    st['net'] = net_faults(rng)
            for st in (b, o, d):
                if rng.random() < 0.25:
                    st['faults'] = store_faults(rng)
                if rng.random() < 0.15:
                    st['edits'] = [rng.choice([['del', 'openid.sig'], ['set', 'openid.assoc_handle', 'x'], ['set', 'openid.mode', 'cancel'],
                                               ['set', 'openid.mode', 'error'], ['del', 'openid.identity'], ['set', 'openid.invalidate_handle', 'y'],
                                               ['append', 'openid.return_to', 'x']])]
            lane = [b, o, d]
            if rng.random() < 0.2:
                lane.pop(rng.choice([1, 2]))
            if rng.random() < 0.15:
                lane.append(dict(d))
            for st in lane:
                steps.append(st)
                steps += trouble(rng, who)
        if rng.random() < 0.25:
            steps = [dict(s='par', tasks=[[st for st in steps if st.get('l', l) == l and st['s'] not in ('wipe', 'restart')] for l in range(n)])]
        # the calm after the storm
        offs = {}
        base = rng.choice([0, 0, 3600, -7200])
        for name in who:
            off = base + rng.choice([0, 1, -1, 1800, -1800, 7200, -7200])
            offs[name] = off
        calm = []
        overlap = rng.random() < 0.3
        for k in range(rng.choice([1, 1, 2, 3]) + overlap):
            calm.append(dict(id=rng.randrange(len(ids)), sess='fresh%d' % k if overlap else rng.choice(['s0', 's1', 'fresh%d' % k]), sel=rng.randrange(100),
                             w=[rng.randrange(3) for _ in range(3)], dt=rng.choice([0, 0, 1, 60, 3600, 1209600])))
        return dict(world=dict(ops=ops, rps=rps, ids=ids), steps=steps, calm=calm, overlap=overlap, offs=offs, restart=rng.random() < 0.4, sched=sched_spec(rng))

    shrink_lists = ['steps', 'steps.*.tasks', 'steps.*.tasks.*', 'steps.*.net', 'steps.*.faults', 'calm', 'world.ids']

    def execute(self, plan, env):
        with env.sim(max_steps=2000000) as sim:
            w = ProviderWorld(sim, plan['world'])
            C16.resolve(plan, w)
            w.run(plan['steps'])
            stormy = tuple(sorted(sim.fault_counts))
            for p in w.rps + w.ops:
                for n in p.nodes:
                    n.offset = plan['offs'][p.name]
                if plan['restart'] and (p in w.rps or p.lib):
                    for i in range(len(p.nodes)):
                        p.restart(i)
            if plan.get('overlap'):
                live = [(k, c) for k, c in enumerate(plan['calm']) if c['sess'].startswith('fresh')]
                for phase in (self.begin, self.approve, self.finish):
                    live = [(k, c) for k, c in live if phase(env, sim, w, k, c, stormy)]
            else:
                for k, c in enumerate(plan['calm']):
                    sim.advance(c['dt'])
                    self.begin(env, sim, w, k, c, stormy) and self.approve(env, sim, w, k, c, stormy) and self.finish(env, sim, w, k, c, stormy)
            w.close()

    def fail(self, sim, w, c, why):
        if sim.db_gave_up:
            return False
        raise Violation('no-login', 'faults had stopped, but a fresh login as %r failed: %s' % (w.ids[c['id'] % len(w.ids)]['user'], why))

    def begin(self, env, sim, w, k, c, stormy):
        env.checks += 1
        w.do(dict(s='begin', l=1000 + k, rp=0, id=c['id'], sess=c['sess'], w=c['w'][0]))
        ev = w.logins[1000 + k]['begin']
        if ev['exc'] is not None or ev['msg'] is None:
            return self.fail(sim, w, c, 'begin: %s %s' % (type(ev['exc']).__name__, ev['exc']))
        return True

    def approve(self, env, sim, w, k, c, stormy):
        lg = w.logins[1000 + k]
        w.do(dict(s='op', l=1000 + k, dec=dict(allow=True, sel=c['sel']), w=c['w'][1]))
        outs = lg['outs']
        if not outs or outs[-1]['msg'] is None:
            return self.fail(sim, w, c, 'provider: %s %s' % (outs and outs[-1]['kind'], outs and repr(outs[-1].get('error') or outs[-1].get('body'))[:200]))
        if lg['begin']['msg'].args.get('openid.identity', '').endswith('identifier_select') and outs[-1]['msg'].args.get('openid.mode') != 'id_res':
            return False              # the provider has nobody to choose
        return True

    def finish(self, env, sim, w, k, c, stormy):
        lg = w.logins[1000 + k]
        w.do(dict(s='deliver', l=1000 + k, w=c['w'][2]))
        got = lg['results'][-1] if lg['results'] else None
        if got is None or got['status'] != 'success':
            return self.fail(sim, w, c, 'complete: %s %s %r' % (got and got['status'], got and got.get('why'), got and got['exc']))
        sim.state(tuple(p.cfg.get('store') for p in w.rps + w.ops), stormy, 'openid.assoc_handle' in lg['begin']['msg'].args)
        return True


def net_faults(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.25:
            f = dict(n=rng.choice([0, 1, 2, '*']), kind='server', faults=store_faults(rng), w=rng.randrange(3), post=True)
        else:
            f = gen_fault(rng, n=rng.choice([0, 0, 1, 2, '*']), kinds=['refuse', 'lost', 'dup', 'delay', 'status', 'garbage', 'truncate'])
            if rng.random() < 0.6:
                f['post'] = True
        out.append(f)
    return out


def store_faults(rng):
    return [dict(at=rng.randrange(0, 14), kind=rng.choice(['crash_before', 'crash_after', 'crash_after', 'eio', 'enospc', 'torn', 'op_error', 'op_error_after',
                                                          'commit_error', 'commit_lost', 'conn_lost', 'short', 'crash_torn']))
            for _ in range(rng.choice([1, 1, 2]))]


def trouble(rng, who):
    out = []
    while rng.random() < 0.3:
        k = rng.random()
        p = rng.choice(who)
        if k < 0.3:
            out.append(dict(s='wipe', who=p))
        elif k < 0.55:
            out.append(dict(s='restart', who=p, w=rng.randrange(3)))
        elif k < 0.75:
            out.append(dict(s='tick', dt=rng.choice([1, 60, 3600, 86400, 1209601])))
        elif k < 0.88:
            out.append(dict(s='offset', who=p, w=rng.randrange(3), off=rng.choice([0, 30, -30, 86400, -86400, 30 * 86400, -30 * 86400, 400 * 86400])))
        else:
            out.append(dict(s='cleanup', who=p, w=rng.randrange(3)))
    return out


PROP = C15()
