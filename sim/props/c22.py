"""C22: generated nonces, handles and secrets never repeat."""
import calendar
import time

from ..gen import cohost, OP_STORES, gen_id, gen_op, gen_rp
from ..kernel import Violation
from ..provider import ProviderWorld
from ..world import SIZE, parse_query
from urllib.parse import urlsplit
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec
from .c09 import checkid


class C22(Prop):
    id = 'C22'
    runs = {'quick': 3000, 'thorough': 120000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('all response nonces of a provider, all its association handles and secrets (shared and private), and all nonces of a relying party are pairwise '
            'distinct over every worker, thread, restart and clock step; secrets have the length of their type; nonces carry the time of issue')
    state_measure = 'hash of (store, workers, restarts, clock steps, number issued in one second)'
    assumptions = ['the operating system random source works']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        op = gen_op(rng, 0, stores=[OP_STORES[index % 5], 'mem'], workers=(1, 2, 4), skew=False)
        op['policy'] = None
        op['offsets'] = [0]
        rps = [gen_rp(rng, 0, stores=['mem', 'file', 'sqlite', None], workers=(1, 2, 4), skew=False)]
        rps[0]['policy'] = None
        ids = [gen_id(rng, 0, 1, ver=rng.choice(['1.1', '1.1', '2']), nsvc=1, xri=False)]
        steps = []
        l = [0]

        def one():
            k = rng.random()
            if k < 0.3:
                t = rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
                return dict(s='att_assoc', op=0, type=t, session=rng.choice(['no-encryption', 'no-encryption', 'DH-' + t[5:]]), v2=rng.random() < 0.7,
                            w=rng.randrange(4))
            if k < 0.75:
                return dict(s='raw_req', op=0, args=checkid(rng, rng.random() < 0.8), w=rng.randrange(4),
                            handle=rng.choice([None, None, 'bogus', ['loot', rng.randrange(3)]]))
            l[0] += 1
            return dict(s='begin', l=l[0], rp=0, id=0, sess='s%d' % l[0], w=rng.randrange(4))
        same_second = rng.random() < 0.5
        for _ in range(rng.choice([4, 8, 12, 20])):
            k = rng.random()
            if k < 0.55:
                steps.append(one())
            elif k < 0.7:
                steps.append(dict(s='par', tasks=[[one() for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 3]))]))
            elif k < 0.82:
                steps.append(dict(s='restart', who=rng.choice(['op0', 'rp0']), w=rng.randrange(4)))
            elif k < 0.86:
                steps.append(dict(s='wipe', who=rng.choice(['op0', 'rp0'])))
            elif not same_second:
                if rng.random() < 0.6:
                    steps.append(dict(s='offset', who=rng.choice(['op0', 'rp0']), w=rng.randrange(4), off=rng.choice([0, 0, -1, 1, -3600, 3600, -86400])))
                else:
                    steps.append(dict(s='tick', dt=rng.choice([0.3, 1, 1, 60])))
        cohost(rng, [op], rps)
        return dict(world=dict(ops=[op], rps=rps, ids=ids), steps=steps, sched=sched_spec(rng), one_pid=rng.random() < 0.5,
                    trace=op['store'] == 'mem' and rng.random() < 0.3)

    shrink_lists = ['steps', 'steps.*.tasks', 'steps.*.tasks.*']

    def execute(self, plan, env):
        with env.sim(line_trace=('server/server.py', 'store/nonce.py') if plan.get('trace') else False, max_steps=2000000) as sim:
            sim.one_pid = plan['one_pid']         # every worker is process 1 of its container
            w = ProviderWorld(sim, plan['world'])
            w.run(plan['steps'])
            self.judge(env, sim, w, plan)
            w.close()

    def judge(self, env, sim, w, plan):
        op, rp = w.ops[0], w.rps[0]
        nonces = []
        for a in w.answers:
            m = a['msg']
            if m is not None and 'openid.response_nonce' in m.args:
                n = m.args['openid.response_nonce']
                nonces.append(n)
                self.stamp(n, a['nt0'], a['op'].name)
        mine = []
        for ev in w.events:
            if ev['kind'] == 'begin' and ev['msg'] is not None:
                q = parse_query(urlsplit(ev['msg'].args.get('openid.return_to', '')).query)
                if 'janrain_nonce' in q:
                    mine.append(q['janrain_nonce'])
                    self.stamp(q['janrain_nonce'], ev['nt'], rp.name)
        env.checks += len(nonces) + len(mine) + 2 * len(op.stored)
        per = {}
        for n in nonces:
            per[n[:20]] = per.get(n[:20], 0) + 1
        sim.state(op.kind, len(op.nodes), len([s for s in plan['steps'] if s['s'] in ('restart', 'offset')]), max(per.values()) if per else 0, len(mine))
        self.distinct(nonces, 'response nonce', op.name)
        self.distinct(mine, 'nonce', rp.name)
        self.distinct([r['handle'] for r in op.stored], 'association handle', op.name)
        self.distinct([r['secret'] for r in op.stored], 'association secret', op.name)
        for r in op.stored:
            if len(r['secret']) != SIZE[r['type']]:
                raise Violation('short-secret', '%s issued a %s secret of %d bytes' % (op.name, r['type'], len(r['secret'])))
            h = r['handle']
            if not (0 < len(h) <= 255 and all(33 <= ord(c) <= 126 for c in h)):
                raise Violation('bad-handle', '%s issued the handle %r' % (op.name, h))

    def stamp(self, n, now, who):
        try:
            t = calendar.timegm(time.strptime(n[:20], '%Y-%m-%dT%H:%M:%SZ'))
        except ValueError:
            raise Violation('bad-nonce', '%s issued the nonce %r' % (who, n))
        if not (now - 1 <= t <= now + 600):       # the request may have waited for the store
            raise Violation('wrong-time', '%s issued the nonce %r when its clock said %r' % (who, n, now))
        if len(n) > 255:
            raise Violation('bad-nonce', '%s issued a nonce of %d characters' % (who, len(n)))

    def distinct(self, values, what, who):
        seen = set()
        for v in values:
            if v in seen:
                raise Violation('repeated-' + what.split()[-1], '%s issued the %s %r twice' % (who, what, v))
            seen.add(v)


PROP = C22()
