"""C10: shared and private association keys are never mixed."""
from ..gen import OP_STORES, gen_op
from ..kernel import Violation
from ..provider import LIFETIME, ProviderWorld
from ..world import sign_fields
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec
from .c09 import checkid, verify_edits


class C10(Prop):
    id = 'C10'
    runs = {'quick': 6000, 'thorough': 250000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('every signed answer names either the live shared handle of its request (and verifies under that key) or a handle never seen '
            'before together with invalidate_handle; no positive verification for a shared handle; invalidation confirmed exactly for '
            'handles not shared')
    state_measure = 'hash of (store, kind of handle named, liveness, outcome, faults)'
    assumptions = ['workers of a provider have equal clocks; a handle within two seconds of its expiry may count either way']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        op = gen_op(rng, 0, stores=[OP_STORES[index % 5], 'mem', 'file'], skew=False)
        op['policy'] = None
        op['offsets'] = [0]
        ops = [op]
        if rng.random() < 0.2:
            ops.append(dict(op, url='http://op1.example/openid'))
        steps = []

        def handle():
            return rng.choice([['loot', rng.randrange(3)], ['loot', rng.randrange(3)], ['out', rng.randrange(4)], ['out', rng.randrange(4)],
                               'bogus', '', None, '{HMAC-SHA1}{59682f00}{AAAAAA==}', 'http://localhost/|dumb', '../associations', '*', '%'])

        def one():
            k = rng.random()
            if k < 0.25:
                t = rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
                return dict(s='att_assoc', op=rng.randrange(len(ops)), type=t, session=rng.choice(['no-encryption', 'no-encryption', 'DH-' + t[5:]]),
                            v2=True)
            if k < 0.65:
                r = dict(s='raw_req', op=rng.randrange(len(ops)), args=checkid(rng, rng.random() < 0.6), w=rng.randrange(3), handle=handle())
                if rng.random() < 0.1:
                    r['dec'] = dict(allow=False)
                return r
            v = dict(s='verify', n=rng.randrange(6), w=rng.randrange(3))
            if rng.random() < 0.35:
                v['handle'] = handle()
            if rng.random() < 0.35:
                v['resign'] = rng.choice([1, 2, 3])
            if rng.random() < 0.4:
                v['inval'] = handle()
            if rng.random() < 0.15:
                v['edits'] = verify_edits(rng)
            if rng.random() < 0.1:
                v['op'] = rng.randrange(len(ops))
            return v
        for _ in range(rng.choice([4, 6, 10, 16])):
            k = rng.random()
            if k < 0.72:
                steps.append(one())
            elif k < 0.8:
                steps.append(dict(s='par', tasks=[[one()] for _ in range(rng.choice([2, 3]))]))
            elif k < 0.86:
                steps.append(dict(s='restart', who='op0', w=rng.randrange(3)))
            elif k < 0.9:
                steps.append(dict(s='cleanup', who='op0'))
            elif k < 0.92:
                steps.append(dict(s='wipe', who='op0'))
            else:
                steps.append(dict(s='tick', dt=rng.choice([1, 3600, LIFETIME - 5, LIFETIME - 1, LIFETIME, LIFETIME + 1, LIFETIME + 5])))
        return dict(world=dict(ops=ops), steps=steps, sched=sched_spec(rng))

    shrink_lists = ['steps', 'steps.*.tasks', 'world.ops']

    def execute(self, plan, env):
        with env.sim(max_steps=2000000) as sim:
            w = ProviderWorld(sim, plan['world'])
            w.run(plan['steps'])
            self.judge(env, sim, w)
            w.close()

    def judge(self, env, sim, w):
        used = {}
        keys = dict(((k['op'].name, k['handle']), k) for k in w.loot)
        for a in w.answers:
            m = a['msg']
            if m is None or 'openid.sig' not in m.args:
                continue
            env.checks += 1
            op = a['op']
            H = a['req'].args.get('openid.assoc_handle') or None
            R = m.args.get('openid.assoc_handle')
            inv = m.args.get('openid.invalidate_handle')
            what = 'provider %s (store %s), request naming handle %r, answer %r: ' % (op.name, op.kind, H, sorted(m.args.items()))
            sim.state(op.kind, a['known'], bool(H), R == H, bool(inv), a['step'].get('handle'))
            if R == H and H is not None:
                sim.probe('shared_answer')
                if a['known'] is False:
                    raise Violation('foreign-handle-used', what + 'that handle is not a live shared association')
                if inv is not None:
                    raise Violation('live-handle-invalidated', what + 'told to invalidate the handle it used')
                k = keys.get((op.name, R))
                if k is not None:
                    signed = m.args['openid.signed'].split(',')
                    if sign_fields(m.args, signed, k['secret'], k['type']) != m.args['openid.sig']:
                        raise Violation('wrong-key', what + 'the signature does not verify with the shared secret')
                continue
            sim.probe('private_answer')
            if R in op.given:
                raise Violation('other-shared-handle', what + 'signed with a shared handle the request did not name')
            if (op.name, R) in used:
                raise Violation('private-reused', what + 'private handle used for a second assertion')
            used[(op.name, R)] = a
            if H is not None:
                if inv != H:
                    raise Violation('not-invalidated', what + 'relying party not told to invalidate the handle')
                if a['known'] is True:
                    raise Violation('live-handle-refused', what + 'that handle is a live shared association')
        for op in w.ops:
            for h in op.given:
                if (op.name, h) in used:
                    raise Violation('private-shared', 'provider %s gave its private handle %r to a relying party' % (op.name, h))
        for v in w.verifies:
            env.checks += 1
            h = v['args'].get('openid.assoc_handle')
            op = v['op']
            what = 'provider %s (store %s), verification of %r: ' % (op.name, op.kind, sorted(v['args'].items()))
            sim.probe('valid' if v['valid'] else 'not_valid')
            sim.state(op.kind, v['valid'], v['known'], v['step'].get('handle'), v['step'].get('inval'), v['step'].get('resign'), bool(v['invalidate']))
            if v['valid'] and (h in op.given or (op.name, h) not in used):
                raise Violation('shared-confirmed', what + 'confirmed for a handle that is not private')
            asked = v['args'].get('openid.invalidate_handle') or None
            if v['status'] != 200:
                continue
            if v['invalidate'] is not None:
                if v['invalidate'] != asked:
                    raise Violation('invalidated-other', what + 'answer invalidates %r' % (v['invalidate'],))
                if v['known'] is True:
                    raise Violation('live-handle-invalidated', what + 'confirmed invalidation of a live shared association')
            elif asked is not None and v['known'] is False:
                raise Violation('not-invalidated', what + 'did not confirm that the handle is not valid')


PROP = C10()
