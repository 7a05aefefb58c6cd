"""C13: association negotiation stays inside policy and is bounded."""
import base64

from ..gen import OP_STORES, gen_id, gen_op, gen_rp
from ..kernel import Violation
from ..net import gen_fault
from ..provider import ProviderWorld
from ..world import ALL_PAIRS, kv_decode, parse_query
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec
from .c12 import DEFAULT_ORDER

TYPES = ['HMAC-SHA1', 'HMAC-SHA256']
SESSIONS = ['DH-SHA1', 'DH-SHA256', 'no-encryption']


class C13(Prop):
    id = 'C13'
    runs = {'quick': 8000, 'thorough': 350000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('every association request a relying party sends, and every association it records or names in a request, has types its policy allows; at most '
            'two association requests per login, the second only for the types an unsupported-type answer suggested; the login starts in any case; a '
            'provider answers with exactly the requested types and only if its policy allows them, and suggests only allowed types')
    state_measure = 'hash of (side, version, policy, requested types, answer class)'
    assumptions = ['discovery works', 'the store works']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        nops = rng.choice([1, 1, 2])
        # sometimes several providers with different policies in one process
        same = rng.random() < 0.15
        if same:
            nops = 2
        ops = [gen_op(rng, i, kinds=('lib',) if same else ('lib', 'ref', 'ref'), skew=False) for i in range(nops)]
        if nops == 2 and (same or rng.random() < 0.3):
            ops[1]['host'] = 'op0'
        for o in ops:
            if o['kind'] == 'lib':
                o['policy'] = pol(rng)
            else:
                o['assoc'] = [script(rng) for _ in range(rng.choice([1, 2, 3, 4]))]
                o['cycle'] = rng.random() < 0.6
        rps = [gen_rp(rng, i, stores=[OP_STORES[index % 5], 'mem'], skew=False) for i in range(rng.choice([1, 1, 2]))]
        for i, r in enumerate(rps):
            r['policy'] = pol(rng)
            if rng.random() < 0.2:
                r['host'] = rng.choice(['op0', 'rp0'][:1 + i])
        if len(rps) == 2 and rng.random() < 0.3:
            # a party with its own policy beside one that keeps the default
            rps[1].update(policy=None, host='rp0')
            if rng.random() < 0.5:
                rps[0]['policy'] = rng.choice([[['HMAC-SHA1', 'DH-SHA1'], ['HMAC-SHA1', 'no-encryption']], [['HMAC-SHA256', 'no-encryption'], ['HMAC-SHA256', 'DH-SHA256']]])
        ids = [gen_id(rng, i, nops, xri=False, nsvc=1) for i in range(rng.choice([1, 2]))]
        n = rng.choice([1, 2, 3, 4]) + 2 * same
        steps = []

        def one(l):
            if rng.random() < (0.8 if same else 0.35):
                t = rng.choice(TYPES + TYPES + TYPES + ['', 'x', 'HMAC-SHA256 ', 'hmac-sha1', None, None])
                s = rng.choice(SESSIONS + ['', 'x', 'dh-sha1', None, None]) if rng.random() < 0.5 else rng.choice(['DH-' + (t or 'HMAC-SHA1')[5:], 'no-encryption'])
                return dict(s='att_assoc', op=rng.randrange(nops), type=t, session=s, v2=rng.random() < 0.6, w=rng.randrange(3))
            b = dict(s='begin', l=l, rp=rng.randrange(len(rps)), id=rng.randrange(len(ids)), sess='s%d' % l, w=rng.randrange(3))
            if rng.random() < 0.35:
                b['net'] = []
                for _ in range(rng.choice([1, 1, 2])):
                    f = gen_fault(rng, n=rng.choice([0, 0, 1, '*']), kinds=['refuse', 'lost', 'dup', 'delay', 'status', 'garbage', 'truncate', 'mutate', 'mutate'])
                    f['post'] = True
                    if f['kind'] == 'status' and rng.random() < 0.5:
                        f.update(status=rng.choice([200, 400]), keep=True)
                    elif f['kind'] == 'mutate':
                        f['muts'] = [rng.choice([['DH-SHA1', 'no-encryption'], ['DH-SHA256', 'no-encryption'], ['HMAC-SHA1', 'HMAC-SHA256'],
                                                 ['HMAC-SHA256', 'HMAC-SHA1'], ['ns:http://specs.openid.net/auth/2.0\n', ''], ['session_type', 'x_type'],
                                                 ['DH-SHA1', ''], ['DH-SHA256', ''], ['no-encryption', 'DH-SHA1'], ['unsupported-type', 'x'],
                                                 ['enc_mac_key', 'mac_key'], ['assoc_handle', 'error_code:unsupported-type\nassoc_handle'],
                                                 ['error:', 'mac_key:AAAAAAAAAAAAAAAAAAAAAAAAAAA=\nerror:']])
                                     for _ in range(rng.choice([1, 1, 2, 3]))]
                    b['net'].append(f)
            return b
        for l in range(n):
            k = rng.random()
            if k < 0.2:
                steps.append(dict(s='wipe', who=rng.choice(['rp0', 'op0'])))
            elif k < 0.3:
                steps.append(dict(s='tick', dt=rng.choice([1, 61, 3600, 1209600])))
            if rng.random() < 0.12:
                steps.append(dict(s='par', tasks=[[one(100 + 10 * l + j)] for j in range(2)]))
            else:
                steps.append(one(l))
        return dict(world=dict(ops=ops, rps=rps, ids=ids), steps=steps, sched=sched_spec(rng))

    shrink_lists = ['steps', 'steps.*.tasks', 'steps.*.net']

    def execute(self, plan, env):
        with env.sim(max_steps=2000000) as sim:
            w = ProviderWorld(sim, plan['world'])
            w.run(plan['steps'])
            self.judge(env, sim, w)
            w.close()

    def judge(self, env, sim, w):
        for rp in w.rps:
            rp.allowed = [tuple(p) for p in rp.cfg.get('policy') or DEFAULT_ORDER]
        rps = dict((rp.name, rp) for rp in w.rps)
        replies = {}                # handle -> answers that reached a relying party
        for e in w.net.trace:
            if e['body'] is None or e['got'] is None:
                continue
            d = kv_decode(e['got'].body)
            if 'assoc_handle' in d:
                replies.setdefault(d['assoc_handle'], []).append((e, d))
        for ev in w.events:
            if ev['kind'] != 'begin':
                continue
            rp = rps[ev['rp']]
            env.checks += 1
            if ev['exc'] is not None:
                if sim.db_gave_up:
                    continue
                raise Violation('begin-failed', 'discovery worked but starting the login raised %s: %s' % (type(ev['exc']).__name__, str(ev['exc'])[:200]))
            self.one_begin(env, sim, w, rp, ev, [e for e in w.net.trace if e['ev'] is ev and e['body'] is not None])
        for rp in w.rps:
            for r in rp.stored:
                env.checks += 1
                cand = replies.get(r['handle'], ())
                ok = False
                seen = []
                for e, d in cand:
                    try:
                        clear = base64.b64decode(d.get('mac_key', '')) == r['secret']
                    except ValueError:
                        clear = False
                    s = 'no-encryption' if clear else (d.get('session_type') or 'no-encryption')
                    seen.append((r['type'], s))
                    q = parse_query(e['body'].decode('utf-8', 'replace'))
                    want = (q.get('openid.assoc_type'), q.get('openid.session_type') or 'no-encryption')
                    sim.state('stored', want, s, r['type'])
                    if (r['type'], s) in rp.allowed:
                        ok = True
                if not ok:
                    raise Violation('outside-policy', '%s (policy %s) recorded association %r of types %s' % (rp.name, rp.allowed, r['handle'], seen))
        for k in w.att_log:
            self.provider(env, sim, k)

    def one_begin(self, env, sim, w, rp, ev, mine):
        reqs = []
        for e in mine:
            q = parse_query(e['body'].decode('utf-8', 'replace'))
            if q.get('openid.mode') != 'associate':
                raise Violation('odd-request', 'starting a login sent a direct request of mode %r' % q.get('openid.mode'))
            t = (q.get('openid.assoc_type'), q.get('openid.session_type') or 'no-encryption')
            if t not in rp.allowed:
                raise Violation('asked-outside-policy', '%s (policy %s) asked for association types %s' % (rp.name, rp.allowed, t))
            reqs.append((t, q, e))
        sim.state('begin', len(reqs), tuple(r[0] for r in reqs), tuple(e['fault'] or '' for e in mine), ev['msg'].args.get('openid.assoc_handle') is not None)
        if len(reqs) > 2:
            raise Violation('too-many-requests', 'one login sent %d association requests: %s' % (len(reqs), [r[0] for r in reqs]))
        if len(reqs) == 2:
            got = reqs[0][2]['got']
            d = kv_decode(got.body) if got is not None else {}
            if got is None or d.get('error_code') != 'unsupported-type' or (d.get('assoc_type'), d.get('session_type')) != reqs[1][0]:
                raise Violation('unsuggested-retry', 'second association request for %s after the answer %s' % (reqs[1][0], d))
        h = ev['msg'].args.get('openid.assoc_handle')
        if h is not None and not any(r['handle'] == h and r['url'] == ev['server_url'] for r in rp.stored):
            raise Violation('unknown-association', 'the request names association %r, which was never recorded for %s' % (h, ev['server_url']))

    def provider(self, env, sim, k):
        env.checks += 1
        op, st, d = k['op'], k['step'], k['reply']
        allowed = [tuple(p) for p in op.cfg.get('policy') or DEFAULT_ORDER]
        v2 = st.get('v2', True)
        t, s = st['type'], st['session']
        if not v2:
            t = 'HMAC-SHA1' if t is None else t
            s = s or 'no-encryption'
        sim.state('answer', v2, t, s, tuple(allowed), k['status'], 'assoc_handle' in d, d.get('error_code'))
        if 'assoc_handle' in d:
            got = (d.get('assoc_type'), d.get('session_type') or ('no-encryption' if not v2 else None))
            if (t, s) not in allowed:
                raise Violation('issued-outside-policy', 'provider %s (policy %s) issued an association for a request of types %s: %s' % (op.name, allowed, (t, s), d))
            if got != (t, s):
                raise Violation('other-types', 'asked for %s, the provider answered with %s' % ((t, s), got))
            stored = [r for r in op.stored if r['handle'] == d['assoc_handle']]
            if not sim.db_gave_up and not (stored and all(r['type'] == t for r in stored)):
                raise Violation('other-types', 'association %r answered as %s but stored as %s' % (d['assoc_handle'], t, [r['type'] for r in stored]))
        elif d.get('error_code') == 'unsupported-type':
            if (t, s) in allowed:
                raise Violation('refused-allowed', 'provider %s (policy %s) refused types %s' % (op.name, allowed, (t, s)))
            sug = (d.get('assoc_type'), d.get('session_type'))
            if sug != (None, None) and sug not in allowed:
                raise Violation('suggested-outside-policy', 'provider %s (policy %s) suggested %s' % (op.name, allowed, sug))
            if k['status'] == 200:
                raise Violation('refusal-status', 'the refusal was sent with HTTP status 200')
        elif (t, s) in allowed and k['status'] != 500:
            raise Violation('refused-allowed', 'provider %s (policy %s) refused types %s: %s %s' % (op.name, allowed, (t, s), k['status'], d))


def pol(rng):
    if rng.random() < 0.3:
        return None
    return [list(x) for x in rng.sample(ALL_PAIRS, rng.randrange(1, 4))]


def script(rng):
    k = rng.random()
    if k < 0.45:
        if rng.random() < 0.7:
            a, s = rng.choice(ALL_PAIRS)
        else:
            a, s = rng.choice(TYPES + ['x', '', None]), rng.choice(SESSIONS + ['x', '', None])
        return dict(do='unsupported', a=a, s=s, code=rng.choice(['unsupported-type'] * 4 + ['x']), ns=rng.random() < 0.9, status=rng.choice([400, 400, 400, 200]))
    out = dict(do='ok', expires_in=rng.choice([60, 3600, 1209600]))
    if k < 0.6:
        return out
    if k < 0.75:
        out.update(plain1=True, name_plain=rng.random() < 0.5)
        return out
    if k < 0.95:
        a, s = rng.choice(ALL_PAIRS)
        if rng.random() < 0.5:
            out['a'] = a
        if rng.random() < 0.7:
            out['s'] = s
        if rng.random() < 0.3:
            out['size'] = rng.choice([20, 32])
        if rng.random() < 0.3:
            out['ns'] = False
        elif rng.random() < 0.2:
            out['force_ns'] = True
        if rng.random() < 0.3:
            out['set'] = rng.choice([{'session_type': ''}, {'session_type': 'no-encryption'}, {'session_type': 'DH-SHA1'}, {'assoc_type': 'HMAC-SHA1'},
                                     {'assoc_type': 'HMAC-SHA256'}, {'mac_key': 'AAAAAAAAAAAAAAAAAAAAAAAAAAA='}])
        return out
    return dict(do='raw', status=rng.choice([200, 400, 500]), body=rng.choice(['', 'error_code:unsupported-type\n', 'x', 'ns:http://specs.openid.net/auth/2.0\nerror_code:unsupported-type\nassoc_type:HMAC-SHA1\nsession_type:no-encryption\n']))


PROP = C13()
