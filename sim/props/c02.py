"""C02: one assertion, at most one login; never outside the time window."""
import calendar
import time as _time

from ..adversary import loss_fault
from ..gen import OP_STORES, gen_id, gen_op, gen_rp
from ..kernel import Violation
from ..stores import SKEW
from ..world import NS2, World
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec

SALTS = ['', 'a', 'A', 'x' * 60, 'a-b', '_-_', 'sp ace', '\u00e9', '..', '/', '0', '%41', 'Z', "';--"]

HARMLESS = [['set', 'openid.foo', 'bar'], ['set', 'openid.ns.zz', 'http://zz.example/'], ['set', 'openid.zz.q', '1'],
            ['del', 'openid.invalidate_handle'], ['set', 'openid.invalidate_handle', 'h'], ['set', 'openid.contact', 'x'],
            ['append', 'openid.sig', '\n'], ['append', 'openid.sig', '='], ['append', 'openid.sig', ' '], ['append', 'openid.response_nonce', ' '],
            ['case', 'openid.response_nonce'], ['append', 'janrain_nonce', 'q'], ['del', 'janrain_nonce'], ['del', 'openid.response_nonce'],
            ['set', 'openid.ns', 'http://openid.net/signon/1.1'], ['del', 'openid.ns'], ['set', 'openid.ns', 'http://openid.net/signon/1.0'],
            ['append', 'openid.assoc_handle', ' '], ['set', 'openid.assoc_handle', 'unknown'], ['listadd', 'sig'], ['case', 'openid.mode'],
            ['append', 'openid.op_endpoint', '#x'], ['append', 'openid.return_to', '#x'], ['append', 'openid.claimed_id', '#x']]


def stamp(msg):
    """The two timestamps a message carries (response nonce, own nonce)."""
    out = {}
    for k in ('openid.response_nonce', 'janrain_nonce'):
        try:
            out[k] = calendar.timegm(_time.strptime((msg.args.get(k) or '')[:20], '%Y-%m-%dT%H:%M:%SZ'))
        except ValueError:
            pass
    return out


class C02(Prop):
    id = 'C02'
    runs = {'quick': 5000, 'thorough': 200000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('over the whole history of a relying party, completions reported as success are grouped by the signed content of the '
            'message; no group may have two members; no success outside the nonce window of the completing worker')
    state_measure = 'hash of (store kind, version, deliveries, statuses in order, restarts, crashes, clean-ups, clock class)'
    assumptions = ['the relying party has a store', 'workers of one relying party have equal clocks in runs with clean-up, and clocks '
                   'move backwards only in runs without it', 'the provider does not itself issue the same nonce twice']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        ops = [gen_op(rng, 0, kinds=('lib', 'lib', 'ref'), skew=False, workers=(1, 2))]
        if ops[0]['kind'] == 'ref':
            # keeps confirming: the relying party's own record is all there is
            ops[0]['reconfirm'] = rng.random() < 0.6
            if rng.random() < 0.5:
                ops[0]['salts'] = rng.sample(SALTS, 3)
        rp = gen_rp(rng, 0, stores=[OP_STORES[index % 5], 'file', 'mem'], skew=False, workers=(1, 2, 3, 3))
        if rng.random() < 0.3:
            rp['return_to'] = rng.choice(['http://RP0.example/done', 'http://rp0.example:80/done', 'http://rp0.example/do%6Ee'])
            rp['realm'] = 'http://rp0.example/'
        backwards = rng.random() < 0.2
        cleanup = not backwards and rng.random() < 0.6
        base = rng.choice([0, 0, 1800, -1800, SKEW - 2, -SKEW + 2, SKEW, -SKEW, SKEW + 2, -SKEW - 2])
        rp['offsets'] = [base + (rng.choice([0, 0, 0.5, -20]) if not cleanup else 0) for _ in range(rp['workers'])]
        ids = [gen_id(rng, 0, 1, xri=False, nsvc=rng.choice([1, 1, 2]))]
        for s in ids[0]['services']:
            if s['ver'] == 'op':
                s['ver'] = '2'
        nl = rng.choice([1, 1, 2])
        steps = []
        for l in range(nl):
            steps.append(dict(s='begin', l=l, rp=0, id=0, sess='s%d' % rng.randrange(2)))
            steps.append(dict(s='op', l=l, dec=dict(allow=True)))

        def deliver():
            d = dict(s='deliver', l=rng.randrange(nl), w=rng.randrange(3))
            if rng.random() < 0.25:
                d['sess'] = 's%d' % rng.randrange(3)
            if rng.random() < 0.25:
                d['edits'] = [rng.choice(HARMLESS) for _ in range(rng.choice([1, 1, 2]))]
                d['anyway'] = True
            if rng.random() < 0.15:
                d['net'] = [loss_fault(rng)]
            if crashes and rng.random() < 0.25:
                d['faults'] = [dict(at=rng.randrange(0, 8), kind=rng.choice(['crash_before', 'crash_after']))]
            return d
        crashes = rng.random() < 0.35
        trace = False
        for ph in range(rng.choice([1, 2, 3])):
            if rng.random() < 0.6:
                n = rng.choice([2, 2, 3, 4])
                tasks = [[deliver() for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]
                if cleanup and rng.random() < 0.4:
                    tasks.append([dict(s='cleanup', who='rp0')])
                steps.append(dict(s='par', tasks=tasks))
                trace = trace or rp['store'] == 'mem' or rng.random() < 0.1
            else:
                for _ in range(rng.choice([1, 2, 3])):
                    steps.append(deliver())
            k = rng.random()
            if k < 0.2:
                steps.append(dict(s='restart', who=rng.choice(['rp0', 'op0']), w=rng.randrange(3)))
            if cleanup and rng.random() < 0.5:
                steps.append(dict(s='cleanup', who='rp0'))
            if rng.random() < 0.6:
                dt = rng.choice([0.5, 1, 60, 3600, SKEW - 1, SKEW, SKEW + 1, SKEW + 3600, 2 * SKEW, 100000])
                steps.append(dict(s='tick', dt=-dt if backwards and rng.random() < 0.5 else dt))
            if cleanup and rng.random() < 0.4:
                steps.append(dict(s='cleanup', who='rp0'))
        return dict(world=dict(ops=ops, rps=[rp], ids=ids), steps=steps, sched=sched_spec(rng), trace=trace)

    shrink_lists = ['steps', 'steps.*.tasks', 'steps.*.tasks.*', 'steps.*.edits']

    def execute(self, plan, env):
        with env.sim(line_trace=('store/', 'consumer/consumer.py') if plan.get('trace') else False, max_steps=2000000) as sim:
            w = World(sim, plan['world'])
            w.run(plan['steps'])
            groups = {}
            for ev in w.events:
                if ev['kind'] != 'complete':
                    continue
                env.checks += 1
                sim.probe('status_%s' % (ev['status'] or 'raised'))
                if ev['status'] != 'success':
                    continue
                a = ev['msg'].args
                v2 = a.get('openid.ns') == NS2
                # rp0 has exactly one user-visible nonce per assertion
                nonce = a.get('openid.response_nonce') if v2 else a.get('janrain_nonce')
                signed = a.get('openid.signed', '').split(',')
                key = (nonce, tuple(sorted((k, a.get('openid.' + k, '')) for k in signed)))
                groups.setdefault(key, []).append(ev)
                st = stamp(ev['msg']).get('openid.response_nonce' if v2 else 'janrain_nonce')
                if st is None:
                    raise Violation('no-timestamp', 'success without a timestamped nonce: %r' % (sorted(a.items()),))
                lo, hi = sorted((ev['nt'], ev['nt1']))
                if min(abs(st - lo), abs(st - hi)) > SKEW + 0.001 and not lo - SKEW <= st <= hi + SKEW:
                    raise Violation('outside-window', '%s accepted an assertion stamped %d at its time %.1f (%.1f s apart)' % (
                        ev['node'], st, ev['nt'], st - ev['nt']))
            sts = tuple((e['status'] or '!')[0] for e in w.events if e['kind'] == 'complete')
            sim.state(w.rps[0].kind, w.ops[0].lib, sts, sorted(sim.fault_counts), plan['world']['rps'][0]['offsets'][0] // 3600)
            for key, evs in groups.items():
                if len(evs) > 1:
                    raise Violation('accepted-twice', 'one assertion (nonce %r, store %s) made %d logins succeed, at %s' % (
                        key[0], w.rps[0].kind, len(evs), [(e['node'], round(e['t'] - 1.5e9, 1), e['inv'], e['ret']) for e in evs]))
            w.close()


PROP = C02()
