"""C18: successive login attempts walk all services of an identifier."""
from urllib.parse import quote

from .. import docs
from ..gen import cohost, OP_STORES, gen_op, gen_rp
from ..kernel import Violation
from ..net import gen_fault
from ..world import World
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec
from .c16 import PROP as C16

LAST = 1 << 40
CLOSE = ['http://id0.example/me', 'http://id0.example/me/', 'http://id0.example/Me', 'http://id0.example/me?a=1', 'http://id0.example/me?a=2',
         'http://id0.example:81/me', 'http://id1.example/me', 'http://id0.example/m']


class C18(Prop):
    id = 'C18'
    runs = {'quick': 6000, 'thorough': 250000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('per user session, the service of every started login is one a small model of the service list allows: the next one of the list, '
            'without discovery, while the list lasts; the first of what is published, after discovery, otherwise')
    state_measure = 'hash of (document kind, services listed, services left, same identifier as before, discovery done, result, faults)'
    assumptions = ['requests of one user session do not overlap', 'the application saves the session unless it crashes',
                   'a cancelled login may or may not forget the list']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        nops = rng.choice([2, 3, 5])
        ops = [gen_op(rng, i, kinds=('ref', 'ref', 'lib'), stores=['mem', 'file'], skew=False) for i in range(nops)]
        rps = [gen_rp(rng, 0, stores=[OP_STORES[index % 5], 'mem', None], skew=False)]
        ids = [gen_ident(rng, i, nops) for i in range(rng.choice([1, 2, 2, 3]))]
        if rng.random() < 0.3:
            for i, c in enumerate(ids):
                if i:
                    c['url'] = ids[0].get('url', 'http://id0.example/') + ['a', 'a/b'][i - 1]
        elif rng.random() < 0.3:
            # addresses which are easily taken for each other
            for c, u in zip(ids, rng.sample(CLOSE, len(CLOSE))):
                c['url'] = u
        if rng.random() < 0.5:
            rps[0]['shelf'] = True
        nsess = rng.choice([1, 1, 2, 3])
        par = nsess > 1 and rng.random() < 0.4
        lanes = []
        l = 0
        for s in range(nsess):
            lane = []
            for _ in range(rng.choice([2, 4, 6, 9])):
                b = dict(s='begin', l=l, id=rng.randrange(len(ids)), sess='s%d' % s, w=rng.randrange(3), imm=rng.random() < 0.15,
                         spell=rng.choice([0, 0, 0, 1, 2]))
                if lane and rng.random() < 0.5:
                    b['id'] = lane[0]['id']
                if rng.random() < 0.3:
                    b['net'] = [gen_fault(rng, n=rng.choice([0, 0, 1, 2, 3]), kinds=['refuse', 'lost', 'delay', 'status'])]
                    if b['net'][0].get('status') == 206:
                        b['net'][0]['status'] = 500
                elif rng.random() < 0.3:
                    b['net'] = [dict(n='*', kind='refuse', post=True, exc=rng.randrange(9))]
                if rng.random() < 0.08:
                    b['faults'] = [dict(at=rng.randrange(0, 8), kind=rng.choice(['crash_before', 'crash_after', 'error']))]
                lane.append(b)
                k = rng.random()
                if k < 0.45:
                    lane.append(dict(s='op', l=l, dec=dict(allow=rng.random() < 0.7, sel=rng.randrange(100)), w=rng.randrange(3)))
                    d = dict(s='deliver', l=l, w=rng.randrange(3))
                    if rng.random() < 0.35:
                        d['edits'] = [rng.choice([['del', 'openid.sig'], ['set', 'openid.mode', 'cancel'], ['set', 'openid.mode', 'error'],
                                                  ['append', 'openid.sig', 'A'], ['set', 'openid.mode', 'bogus'], ['append', 'openid.return_to', 'x']])]
                    if rng.random() < 0.1:
                        d['sess'] = 's%d' % rng.randrange(nsess) if not par else 's%d' % s
                    if rng.random() < 0.06:
                        d['faults'] = [dict(at=rng.randrange(0, 8), kind=rng.choice(['crash_before', 'crash_after', 'error']))]
                    lane.append(d)
                    if rng.random() < 0.1:
                        lane.append(dict(d))
                elif k < 0.5 and l and not par:
                    lane.append(dict(s='deliver', l=rng.randrange(l)))
                l += 1
            lanes.append(lane)
        if par:
            steps = [dict(s='par', tasks=lanes)]
        else:
            steps = []
            work = [list(x) for x in lanes]
            while any(work):
                j = rng.choice([j for j, x in enumerate(work) if x])
                steps.append(work[j].pop(0))
                k = rng.random()
                if k < 0.07:
                    steps.append(dict(s='restart', who='rp0', w=rng.randrange(3)))
                elif k < 0.14:
                    i = rng.randrange(len(ids))
                    c = gen_ident(rng, i, nops)
                    for key in ('url', 'xri', 'canonical', 'redirect'):
                        c.pop(key, None)
                    if ids[i].get('xri'):
                        plain(c)
                    steps.append(dict(s='publish', id=i, cfg=c))
                elif k < 0.2:
                    steps.append(dict(s='tick', dt=rng.choice([1, 600, 86400, 1209601])))
        cohost(rng, ops, rps)
        return dict(world=dict(ops=ops, rps=rps, ids=ids), steps=steps, sched=sched_spec(rng))

    shrink_lists = ['steps', 'steps.*.tasks', 'steps.*.tasks.*', 'steps.*.net']

    def execute(self, plan, env):
        with env.sim(max_steps=2000000) as sim:
            w = World(sim, plan['world'])
            C16.resolve(plan, w)
            model = {}
            begin = w.s_begin
            give = w.give

            def s_begin(st):
                rec = w.ids[st['id'] % len(w.ids)]
                st = dict(st, ident=spelling(rec, st.get('spell', 0)))
                ev = begin(st)
                self.begun(env, sim, w, model, rec, ev)
                return ev

            def s_give(st, m, lg=None):
                ev = give(st, m, lg)
                self.ended(model, ev)
                return ev
            w.s_begin = s_begin
            w.give = s_give
            w.run(plan['steps'])
            w.close()

    def begun(self, env, sim, w, model, rec, ev):
        env.checks += 1
        user = ev['ident']
        states = model.get(ev['sess'], {None})
        ents = [e for e in w.net.trace[ev['req0']:ev['req1']] if e['ev'] is ev and e['body'] is None]
        fresh = listing(rec)
        if rec['cfg'].get('xri') and any(e['fault'] == 'status' for e in ents):
            # one request per service type: a failed one yields no services
            ok = [e['url'] for e in ents if e['fault'] != 'status']
            fresh = tuple((g, k) for g, k in fresh if any(quote(k[1][0], safe='') in u for u in ok))
        what = 'login for %s in session %s (services %s): ' % (user, ev['sess'], [k[:2] for _, k in fresh])
        if ev['exc'] == 'crash':
            return                         # nothing of it reached the session
        failed = type(ev['exc']).__name__ == 'DiscoveryFailure'
        used = None
        if ev['exc'] is None:
            used = (ev['server_url'], tuple(sorted(ev['types'])), ev['local_id'], ev['claimed_id'])
        out = set()
        for s in states:
            mine = s is not None and user in s[:2]
            if mine and s[2]:
                if ents:
                    continue
                if failed:
                    continue
                out |= after(s, used)
            else:
                if not ents:
                    continue
                if failed:
                    if fresh and not any(e['fault'] for e in ents):
                        continue
                    out.add(None if mine else s)
                else:
                    out |= after((user, rec['claimed'] if not rec['cfg'].get('xri') else rec['cfg']['xri'], fresh), used)
        sim.state(rec['cfg'].get('doc'), len(fresh), tuple(sorted(len(s[2]) if s else -1 for s in states)), any(s is not None and user in s[:2] for s in states),
                  bool(ents), type(ev['exc']).__name__, any(e['fault'] for e in ents))
        if not out:
            kind = 'failed' if failed else 'wrong-service'
            if not failed and ents and all(s is not None and user in s[:2] and s[2] for s in states):
                kind = 'rediscovered'
            elif not failed and not ents and not any(s is not None and user in s[:2] and s[2] for s in states):
                kind = 'not-discovered'
            raise Violation(kind, what + '%s, %d documents fetched; model allows %s' % (
                'raised %r' % (ev['exc'],) if ev['exc'] is not None else 'used %s' % (used,), len(ents),
                ['nothing listed' if s is None else '%d left for %s: %s' % (len(s[2]), s[0], [k[:2] for _, k in s[2]]) for s in states]))
        model[ev['sess']] = out

    def ended(self, model, ev):
        states = model.get(ev['sess'], {None})
        if ev['exc'] is not None:
            return
        if ev['status'] == 'success':
            model[ev['sess']] = {None} if ev['identity'] is not None else states | {None}
        elif ev['status'] == 'cancel':
            model[ev['sess']] = states | {None}


def after(s, used):
    """States after a login took one of the services due next."""
    start, yadis, left = s
    out = set()
    if not left:
        return out
    g = left[0][0]
    for i, (grp, k) in enumerate(left):
        if grp == g and (used is None or k == used):
            out.add((start, yadis, left[:i] + left[i + 1:]))
    return out


def listing(rec):
    """What discovery of the published documents has to list, as (group, service)
    in order; services of one group have the same priority."""
    out = []
    c = rec['cfg']
    if c.get('doc') == 'gone':
        return ()
    for n, (s, u) in enumerate(zip(rec['services'], rec['uris'])):
        v = docs.vers(s)
        prio = LAST if s.get('prio') is None else s['prio']
        if c.get('doc') == 'html':
            grp = (n,)
        elif c.get('xri'):
            grp = (['2', '1.1', '1.0'].index(v[0]), prio)
        else:
            grp = ('op' not in v, prio)
        claimed = None if 'op' in v else rec['claimed']
        out.append((grp, (u, tuple(sorted(docs.TYPE[x] for x in v)), None if 'op' in v else s.get('local') or rec['claimed'], claimed)))
    out.sort(key=lambda x: x[0])
    return tuple(out)


def plain(c):
    c['doc'] = 'yadis'
    for s in c['services']:
        s['ver'] = s['ver'].split('+')[0].replace('op', '2')


def gen_ident(rng, i, nops):
    svcs = []
    prios = [None, 0, 1, 2, 5, 10, 10, 20]
    for k in range(rng.choice([0, 1, 2, 3, 3, 4, 6])):
        v = rng.choice(['2', '2', '2', '1.1', '1.0', '2+1.1', 'op'])
        s = dict(op=rng.randrange(nops), ver=v, prio=rng.choice(prios))
        if v != 'op' and rng.random() < 0.4:
            s['local'] = 'http://op%d.example/u/%s' % (s['op'], rng.choice(['alice', 'bob', 'i%d' % i]))
        svcs.append(s)
    c = dict(doc=rng.choice(['yadis', 'nego', 'header', 'meta', 'html']), services=svcs)
    if c['doc'] == 'html' and any(s['ver'] == 'op' for s in svcs):
        c['doc'] = 'yadis'
    if rng.random() < 0.3:
        c['redirect'] = True
    if rng.random() < 0.12:
        c['xri'] = '=user%d' % i
        c['canonical'] = '=!%d000.1' % (i + 1)
        c.pop('redirect', None)
        plain(c)
    return c


def spelling(rec, k):
    if rec['cfg'].get('xri'):
        return rec['user'] if k != 1 else 'xri://' + rec['user']
    short = rec['url'][len('http://'):]
    if short.endswith('/') and short.count('/') == 1:
        short = short[:-1]
    return [rec['user'], rec['url'], short][k]


PROP = C18()
