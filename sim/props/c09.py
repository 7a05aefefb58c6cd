"""C09: a provider confirms an assertion at most once and only its own."""
from ..gen import OP_STORES, gen_op
from ..kernel import Violation
from ..provider import LIFETIME, ProviderWorld
from ..world import NS2
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec

RTS = ['http://rp0.example/done', 'http://rp0.example/done?x=1', 'http://rp0.example/other', 'http://rp1.example/']
IDS = ['http://id0.example/', 'http://id1.example/', 'http://op0.example/u/bob']


def checkid(rng, v2, i=None):
    rt = rng.choice(RTS)
    a = {'openid.mode': rng.choice(['checkid_setup', 'checkid_setup', 'checkid_immediate']), 'openid.return_to': rt,
         'openid.identity': rng.choice(IDS)}
    realm = rt.split('/', 3)
    realm = '/'.join(realm[:3]) + '/'
    if v2:
        a['openid.ns'] = NS2
        a['openid.claimed_id'] = rng.choice([a['openid.identity'], rng.choice(IDS)])
        a['openid.realm'] = realm
    else:
        a['openid.trust_root'] = realm
    return a


def verify_edits(rng):
    f = 'openid.' + rng.choice(['identity', 'claimed_id', 'return_to', 'op_endpoint', 'response_nonce', 'assoc_handle', 'signed', 'sig', 'ns'])
    k = rng.random()
    if k < 0.35:
        return [['set', f, rng.choice(IDS + RTS + ['', 'x'])]]
    if k < 0.5:
        return [['del', f]]
    if k < 0.55:
        return [['cut', 'openid.sig', rng.choice([1, 2, -1, -2, 8])]]
    if k < 0.6:
        return [['append', f, rng.choice(['x', ' ', '\n', '=', ',foo', '\nmode:x'])]]
    if k < 0.7:
        return [['listdel', f[7:]]]
    if k < 0.8:
        return [['listadd', rng.choice(['foo', 'sreg.email', 'sig', 'ns'])]]
    if k < 0.9:
        return [['swap', 'openid.identity', 'openid.claimed_id']]
    return [['set', 'openid.foo', 'bar']]


def genuine(v):
    """The request carries what the provider issued, unaltered."""
    b = v['src']['msg'].args
    a = dict(v['args'], **{'openid.mode': 'id_res'})
    ks = set(['openid.' + k for k in b.get('openid.signed', '').split(',')] + ['openid.sig', 'openid.signed', 'openid.assoc_handle', 'openid.ns'])
    return all(a.get(k) == b.get(k) for k in ks)


class C09(Prop):
    id = 'C09'
    runs = {'quick': 6000, 'thorough': 250000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('every positive direct verification must match, over its signed list, one assertion the provider issued without a shared '
            'association, not expired, confirmed for the first time; the first request naming a fresh private handle is confirmed')
    state_measure = 'hash of (store, version, copies, verdicts in order, alterations, handle kind, restarts, faults)'
    assumptions = ['workers of a provider have equal clocks', 'completeness: no store error or crash hit an earlier request for the same '
                   'handle, and the store was not lost']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        op = gen_op(rng, 0, stores=[OP_STORES[index % 5], 'mem', 'file'], skew=False)
        op['policy'] = None
        op['workers'] = rng.choice([1, 2, 3])
        ops = [op]
        if rng.random() < 0.3:
            ops.append(dict(op, url='http://op1.example/openid'))
        steps = []
        nl = rng.choice([1, 1, 2, 3])
        crashes = rng.random() < 0.3
        if rng.random() < 0.4:
            steps.append(dict(s='att_assoc', op=0, type=rng.choice(['HMAC-SHA1', 'HMAC-SHA256']), session='no-encryption'))
        for l in range(nl):
            r = dict(s='raw_req', op=rng.randrange(len(ops)), args=checkid(rng, rng.random() < 0.6), w=rng.randrange(3))
            k = rng.random()
            if k < 0.25:
                r['handle'] = rng.choice([['loot', 0], 'bogus', ['out', 0], ''])
            steps.append(r)

        def verify():
            v = dict(s='verify', n=rng.randrange(nl), w=rng.randrange(3))
            if rng.random() < 0.3:
                v['edits'] = verify_edits(rng)
            if rng.random() < 0.1:
                v['op'] = rng.randrange(len(ops))
            if rng.random() < 0.1:
                v['handle'] = rng.choice([['loot', 0], ['out', rng.randrange(3)], '', 'bogus'])
            if rng.random() < 0.1:
                v['resign'] = 1
            if rng.random() < 0.15:
                v['inval'] = rng.choice([['loot', 0], ['out', 0], 'bogus'])
            if crashes and rng.random() < 0.3:
                v['faults'] = [dict(at=rng.randrange(0, 10), kind=rng.choice(['crash_before', 'crash_after', 'eio']))]
            return v
        trace = False
        for ph in range(rng.choice([1, 2, 3])):
            if rng.random() < 0.6:
                n = rng.choice([2, 2, 3, 4])
                one = rng.random() < 0.5
                tasks = [[verify() for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]
                if one:
                    for t in tasks:
                        for v in t:
                            v['n'] = 0
                            if rng.random() < 0.6:
                                v.pop('edits', None)
                steps.append(dict(s='par', tasks=tasks))
                trace = trace or op['store'] == 'mem' or rng.random() < 0.15
            else:
                for _ in range(rng.choice([1, 2, 3])):
                    steps.append(verify())
            k = rng.random()
            if k < 0.2:
                steps.append(dict(s='restart', who='op0', w=rng.randrange(3)))
            elif k < 0.3:
                steps.append(dict(s='cleanup', who='op0'))
            elif k < 0.33:
                steps.append(dict(s='wipe', who='op0'))
            if rng.random() < 0.3:
                steps.append(dict(s='tick', dt=rng.choice([1, 3600, LIFETIME - 10, LIFETIME - 1, LIFETIME, LIFETIME + 1, LIFETIME + 100])))
        return dict(world=dict(ops=ops), steps=steps, sched=sched_spec(rng), trace=trace)

    shrink_lists = ['steps', 'steps.*.tasks', 'steps.*.tasks.*', 'steps.*.edits', 'world.ops']

    def execute(self, plan, env):
        with env.sim(line_trace=('store/', 'server/server.py') if plan.get('trace') else False, max_steps=2000000) as sim:
            w = ProviderWorld(sim, plan['world'])
            w.run(plan['steps'])
            self.judge(plan, env, sim, w)
            w.close()

    def judge(self, plan, env, sim, w):
        confirmed = {}
        for v in w.verifies:
            env.checks += 1
            sim.probe('valid' if v['valid'] else 'status_%s' % v['status'])
            sim.state(v['op'].kind, v['valid'], v['status'], bool(v['args'].get('openid.ns')), tuple((e[0], e[1]) for e in v['step'].get('edits') or ()),
                      v['step'].get('handle'), v['step'].get('resign'), bool(v['step'].get('faults')), sorted(sim.fault_counts))
            if not v['valid']:
                continue
            a = v['args']
            h = a.get('openid.assoc_handle')
            what = 'provider %s (store %s) confirmed %r: ' % (v['op'].name, v['op'].kind, sorted(a.items()))
            if h in v['op'].given:
                raise Violation('shared-confirmed', what + 'its handle is a shared association')
            signed = a.get('openid.signed', '').split(',')
            match = [r for r in v['op'].issued if r['args'].get('openid.signed') == a.get('openid.signed') and all(
                r['args'].get('openid.' + k, '') == (a.get('openid.' + k, '') if k != 'mode' else 'id_res') for k in signed)
                and r['args'].get('openid.assoc_handle') == h and r['args'].get('openid.sig') == a.get('openid.sig')]
            if not match:
                raise Violation('not-issued', what + 'it never issued that')
            r = match[0]
            if v['t'] - r['t'] > LIFETIME + 1:
                raise Violation('expired-confirmed', what + 'issued %.0f s ago' % (v['t'] - r['t']))
            key = (v['op'].name, h, tuple((k, a.get('openid.' + k, '')) for k in signed))
            confirmed.setdefault(key, []).append(v)
        for key, vs in confirmed.items():
            if len(vs) > 1:
                raise Violation('confirmed-twice', 'provider %s (store %s) confirmed one assertion %d times: %s' % (
                    key[0], vs[0]['op'].kind, len(vs), [(v['inv'], v['ret']) for v in vs]))
        if sim.db_gave_up:
            return
        # the first request verifying a fresh private assertion
        named = {}
        for v in sorted(w.verifies, key=lambda v: v['inv']):
            named.setdefault((v['op'].name, v['args'].get('openid.assoc_handle')), []).append(v)
        wiped = any(st['s'] == 'wipe' for st in plan['steps'])
        firsts = []
        for (opn, h), vs in named.items():
            seen = []
            for v in vs:
                if not any(v['src'] is x for x in seen):
                    seen.append(v['src'])
                    firsts.append((opn, h, v, vs))
        for opn, h, v, vs in firsts:
            src = v['src']
            if v['valid'] or wiped or v['status'] == 'crash' or v['step'].get('faults') or src['op'] is not v['op'] or h != src['msg'].args['openid.assoc_handle']:
                continue
            if h in v['op'].given or not genuine(v) or v['t'] - src['t'] > LIFETIME - 5:
                continue
            others = [o for o in vs if o is not v and o['inv'] <= v['ret']]
            if any(o['status'] == 'crash' or o['step'].get('faults') or not genuine(o) for o in others):
                # something else used up that handle
                continue
            if any(o['valid'] and o['src'] is src for o in others):
                continue
            raise Violation('fresh-refused', 'provider %s (store %s) refused the first verification of %r (status %s)' % (
                opn, v['op'].kind, sorted(src['msg'].args.items()), v['status']))


PROP = C09()
