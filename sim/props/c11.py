"""C11: expired associations are never used."""
from ..adversary import loss_fault
from ..gen import OP_STORES, gen_id, gen_op, gen_rp
from ..kernel import Violation
from ..provider import LIFETIME, ProviderWorld
from ..world import kv_decode
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec
from .c09 import checkid

LIVES = [1, 2, 5, 60, 300, 3600, 86400, LIFETIME]


class C11(Prop):
    id = 'C11'
    runs = {'quick': 5000, 'thorough': 250000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('a handle recorded by a side with issue time and lifetime must not appear in a request, a signature, a positive verification '
            'or a successful login of that side that started after the handle had expired by that side\'s clock')
    state_measure = 'hash of (who, store kinds, remaining life class, outcome, clock offsets class)'
    assumptions = ['providers grant positive lifetimes', 'an operation that started before the expiry may finish after it']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        ops = [gen_op(rng, i, kinds=('lib', 'ref', 'ref'), skew=True) for i in range(rng.choice([1, 1, 2]))]
        lives = [LIFETIME]
        for o in ops:
            o['policy'] = None
            if o['kind'] == 'ref':
                o['expires_in'] = rng.choice(LIVES)
                o['never_expires'] = rng.random() < 0.4   # signs with whatever handle it is asked for
                lives.append(o['expires_in'])
        rps = [gen_rp(rng, 0, stores=[OP_STORES[index % 5], 'mem', 'file'], skew=True)]
        rps[0]['policy'] = None
        ids = [gen_id(rng, 0, len(ops), xri=False)]
        for s in ids[0]['services']:
            if s['ver'] == 'op':
                s['ver'] = '2'
        life = rng.choice(lives)
        steps = []
        nl = rng.choice([2, 3, 4, 5])
        for l in range(nl):
            steps.append(dict(s='begin', l=l, rp=0, id=0, sess='s%d' % l, w=rng.randrange(3)))
            steps.append(dict(s='op', l=l, dec=dict(allow=True), w=rng.randrange(3)))
            if rng.random() < 0.3:
                steps.append(dict(s='raw_req', op=rng.randrange(len(ops)), args=checkid(rng, True), handle=['out', rng.randrange(4)]))
            d = dict(s='deliver', l=rng.choice([l, l, rng.randrange(l + 1)]), w=rng.randrange(3))
            if rng.random() < 0.2:
                d['net'] = [dict(n='*', kind='delay', before=rng.choice([0, 1, life]), after=rng.choice([0, 1, life]))]
            elif rng.random() < 0.1:
                d['net'] = [loss_fault(rng)]
            steps.append(d)
        for party in ops + rps:
            if rng.random() < 0.12:
                party['lag'] = rng.choice([1, 2, 5, 61, life])
        # scatter time over the history
        out = []
        for st in steps:
            k = rng.random()
            if k < 0.3:
                out.append(dict(s='tick', dt=rng.choice([1, life - 1, life, life + 1, life // 2, life + 60, 0.5])))
            elif k < 0.38:
                out.append(dict(s='offset', who=rng.choice(['rp0', 'op0']), w=rng.randrange(3), off=rng.choice([0, 3600, -3600, life, -life, 1])))
            elif k < 0.44:
                out.append(dict(s='cleanup', who=rng.choice(['rp0', 'op0'])))
            elif k < 0.5:
                out.append(dict(s='restart', who=rng.choice(['rp0', 'op0']), w=rng.randrange(3)))
            out.append(st)
        return dict(world=dict(ops=ops, rps=rps, ids=ids), steps=out, sched=sched_spec(rng))

    shrink_lists = ['steps']

    def execute(self, plan, env):
        with env.sim(max_steps=2000000) as sim:
            w = ProviderWorld(sim, plan['world'])
            for op in w.ops:
                if not op.lib and op.cfg.get('never_expires'):
                    op.keep_expired = True
            orig = w.s_op

            def s_op(st):
                out = orig(st)
                if out is not None and out['msg'] is not None:
                    w.answers.append(dict(out, req=out['req'], before=None, known=None, faulty=False))
                return out
            w.s_op = s_op
            for name in ('s_begin', 's_op', 's_deliver', 's_verify', 's_raw_req'):
                self.watch(w, name, sim)
            w.run(plan['steps'])
            self.judge(env, sim, w)
            w.close()

    @staticmethod
    def watch(w, name, sim):
        """A step in which an association was already expired when the store
        handed it over uses that association for nothing."""
        step = getattr(w, name)

        def late(party, handle):
            at, end = party.fetched.get(handle, (0, 1))
            if end > int(at):
                return False
            sim.probe('expired_when_fetched')
            return True

        def run(st):
            logs = [(op, len(op.direct_log)) for op in w.ops if op.lib]
            n, m = len(w.events), len(w.answers)
            for p in w.parties:
                p.fetched = {}
            r = step(st)
            for ev in w.events[n:]:
                if ev['kind'] not in ('begin', 'complete') or ev['msg'] is None:
                    continue
                rp = w.party(ev['rp'])
                h = ev['msg'].args.get('openid.assoc_handle')
                if h is None or not late(rp, h):
                    continue
                if ev['kind'] == 'begin':
                    raise Violation('expired-sent', '%s sent handle %r, expired when its store returned it' % (ev['node'], h))
                if ev['status'] == 'success':
                    raise Violation('expired-accepted', '%s accepted an assertion signed with handle %r, expired when its store returned it' % (ev['node'], h))
            for a in w.answers[m:]:
                if a['op'].lib and a['msg'] is not None and 'openid.sig' in a['msg'].args and late(a['op'], a['msg'].args.get('openid.assoc_handle')):
                    raise Violation('expired-signed', '%s signed with handle %r, expired when its store returned it' % (a['node'], a['msg'].args['openid.assoc_handle']))
            for op, k in logs:
                for rec in op.direct_log[k:]:
                    if rec['args'].get('openid.mode') != 'check_authentication' or not rec.get('reply') or not late(op, rec['args'].get('openid.assoc_handle')):
                        continue
                    body = rec['reply'] if isinstance(rec['reply'], bytes) else rec['reply'].encode('utf-8')
                    if kv_decode(body).get('is_valid') == 'true':
                        raise Violation('expired-verified', '%s verified with handle %r, expired when its store returned it' % (rec['node'], rec['args']['openid.assoc_handle']))
            return r
        setattr(w, name, run)

    @staticmethod
    def dead(recs, url, handle, nt):
        """Expired by `nt` according to every record of that handle."""
        rs = [r for r in recs if r['handle'] == handle and (url is None or r['url'] == url)]
        return rs and all(r['issued'] + r['lifetime'] <= int(nt) for r in rs), rs

    def judge(self, env, sim, w):
        for ev in w.events:
            if ev['kind'] == 'begin' and ev['msg'] is not None:
                env.checks += 1
                h = ev['msg'].args.get('openid.assoc_handle')
                rp = w.party(ev['rp'])
                if h is None:
                    continue
                d, rs = self.dead(rp.stored, ev['server_url'], h, ev['nt'])
                left = max([r['issued'] + r['lifetime'] - ev['nt'] for r in rs] or [0])
                sim.state('begin', rp.kind, left > 60, left > 0, ev.get('exc') is None)
                if d:
                    raise Violation('expired-sent', '%s (store %s, clock %.1f) sent handle %r which had expired %.1f s before' % (
                        ev['node'], rp.kind, ev['nt'], h, -left))
            elif ev['kind'] == 'complete':
                env.checks += 1
                h = ev['msg'].args.get('openid.assoc_handle')
                rp = w.party(ev['rp'])
                url = ev['server_url'] or ev['msg'].args.get('openid.op_endpoint')
                d, rs = self.dead(rp.stored, url, h, ev['nt'])
                if d:
                    sim.probe('expired_delivered_%s' % ev['status'])
                sim.state('complete', rp.kind, bool(d), bool(rs), ev['status'], str(ev.get('why'))[:20])
                if d and ev['status'] == 'success':
                    raise Violation('expired-accepted', '%s (store %s, clock %.1f) accepted an assertion signed with handle %r, expired %.1f s before' % (
                        ev['node'], rp.kind, ev['nt'], h, ev['nt'] - max(r['issued'] + r['lifetime'] for r in rs)))
        for a in w.answers:
            op, m = a['op'], a['msg']
            if not op.lib or m is None or 'openid.sig' not in m.args:
                continue
            env.checks += 1
            h = m.args.get('openid.assoc_handle')
            req = a['req'].args.get('openid.assoc_handle')
            d, rs = self.dead(op.stored, None, h, a['nt0'])
            dreq = self.dead(op.stored, None, req, a['nt0'])[0] if req else False
            sim.state('sign', op.kind, bool(d), bool(dreq), req == h)
            if dreq:
                sim.probe('expired_handle_requested')
            if d:
                raise Violation('expired-signed', '%s (store %s, clock %.1f) signed with handle %r, expired %.1f s before' % (
                    a['node'], op.kind, a['nt0'], h, a['nt0'] - max(r['issued'] + r['lifetime'] for r in rs)))
        for op in w.ops:
            if not op.lib:
                continue
            for rec in op.direct_log:
                if rec['args'].get('openid.mode') != 'check_authentication' or not rec.get('reply'):
                    continue
                env.checks += 1
                body = rec['reply'] if isinstance(rec['reply'], bytes) else rec['reply'].encode('utf-8')
                h = rec['args'].get('openid.assoc_handle')
                d, rs = self.dead(op.stored, None, h, rec['nt0'])
                if d:
                    sim.probe('expired_verification')
                if d and kv_decode(body).get('is_valid') == 'true':
                    raise Violation('expired-verified', '%s (store %s, clock %.1f) confirmed an assertion made with handle %r after its expiry' % (
                        rec['node'], op.kind, rec['nt0'], h))


PROP = C11()
