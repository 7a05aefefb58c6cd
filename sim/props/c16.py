"""C16: fault-free logins end exactly as the provider decided."""
import calendar
import time as _time
from urllib.parse import urlsplit

from ..gen import cohost, gen_id, gen_op, gen_rp, selectable
from ..kernel import Violation
from ..stores import SKEW
from ..world import NS2, World
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec


class C16(Prop):
    id = 'C16'
    runs = {'quick': 4000, 'thorough': 150000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('every undisturbed login must end with the status the provider decided and the identifier discovery resolved; '
            'begin and the provider must not raise')
    state_measure = ('hash of (version, document kind, association used, immediate, decision, identifier selection, delegation, '
                     'relying-party store, provider kind and store, form or redirect)')
    assumptions = ['clocks of relying party and provider differ by at most the permitted nonce skew',
                   'an association does not run out between signing and delivery',
                   'overlapping OpenID 1 logins in one user session, and set-up addresses that are followed, are for identifiers with a single provider (an OpenID 1 response does '
                   'not name its provider)',
                   'runs in which SQLite reports "database is locked" are not judged', 'return addresses have no repeated query keys']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        nops = rng.choice([1, 1, 2, 3])
        ops = [gen_op(rng, i, kinds=('lib', 'lib', 'ref')) for i in range(nops)]
        rps = [gen_rp(rng, i) for i in range(rng.choice([1, 1, 2]))]
        ids = [gen_id(rng, i, nops) for i in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.7:
            k = rng.randrange(nops)
            ids.append(gen_id(rng, len(ids), nops, ver='2', op=k, nsvc=1, xri=False))
        nlog = rng.choice([1, 2, 3, 4, 6])
        sess_mode = rng.choice(['own', 'own', 'shared'])
        if any(len(c['services']) > 1 and any('1.' in s['ver'] for s in c['services']) for c in ids):
            sess_mode = 'own'
        long_gap = rng.random() < 0.3
        lanes = []
        for l in range(nlog):
            rp = rng.randrange(len(rps))
            i = rng.randrange(len(ids))
            b = dict(s='begin', l=l, rp=rp, id=i, sess='s%d' % l if sess_mode == 'own' else 's%d' % (l % 2), imm=rng.random() < 0.3,
                     style=rng.choice([None, 'twice', 'redirect', 'form']))
            dec = dict(allow=rng.random() < 0.72, sel=rng.randrange(100), frag=rng.random() < 0.15)
            if rng.random() < 0.3:
                dec['link'] = True
            elif dec['allow'] and rng.random() < 0.15:
                dec['slip'] = True
            o = dict(s='op', l=l, dec=dec)
            d = dict(s='deliver', l=l)
            if rng.random() < 0.3:
                for st in (b, o, d):
                    st['w'] = rng.randrange(3)
            # mere delays
            for st in (b, d):
                if rng.random() < 0.25:
                    st['net'] = [dict(n='*', kind='delay', before=rng.choice([0, 1, 20]), after=rng.choice([0, 2, 45]))]
            seq = [b]
            if rng.random() < 0.4:
                seq.append(dict(s='tick', dt=rng.choice([1, 60, 1800])))
            seq.append(o)
            if rng.random() < 0.3:
                seq.append(dict(s='tick', dt=rng.choice([1, 5, 60])))
            seq.append(d)
            if b['imm'] and len(ids[i]['services']) == 1 and rng.random() < 0.6:
                # the user goes to the address named by a setup_needed response
                seq.append(dict(s='op', l=l, setup=True, dec=dict(dec, allow=rng.random() < 0.75)))
                seq.append(dict(d, setup=True))
            lanes.append(seq)
        par = rng.random() < 0.45
        if par:
            steps = [dict(s='par', tasks=lanes)]
        else:
            # random interleaving of the lanes
            steps = []
            work = [list(x) for x in lanes]
            while any(work):
                j = rng.choice([j for j, x in enumerate(work) if x])
                steps.append(work[j].pop(0))
                if long_gap and rng.random() < 0.1:
                    steps.append(dict(s='tick', dt=rng.choice([3000, 3590, 86400, 1209500, 1209599])))
        cohost(rng, ops, rps)
        return dict(world=dict(ops=ops, rps=rps, ids=ids), steps=steps, sched=sched_spec(rng), trace=par and any(
            o.get('store') == 'mem' for o in ops + rps) and rng.random() < 0.7)

    shrink_lists = ['steps', 'steps.*.tasks', 'steps.*.tasks.*', 'world.ids']

    def execute(self, plan, env):
        with env.sim(line_trace=('store/', 'server/server.py') if plan.get('trace') else False, max_steps=2000000) as sim:
            w = World(sim, dict(plan['world'], strict_op=True))
            self.resolve(plan, w)
            w.run(plan['steps'])
            self.judge(plan, env, sim, w)
            w.close()

    def resolve(self, plan, w):
        """Provider-side choice of the identity for identifier_select."""
        ids = plan['world']['ids']
        real = w.s_op

        def s_op(st):
            lg = w.logins.get(st.get('l', 0))
            if st.get('setup') and lg and not any(o['op'].lib for o in lg['outs']):
                return None
            if lg and lg['begin']['msg'] is not None:
                op = w.find_op(lg['begin']['msg'].url)
                cand = selectable(ids, w.ops.index(op)) if op is not None else ()
                dec = st['dec']
                if cand:
                    i, s = cand[dec.get('sel', 0) % len(cand)]
                    claimed = w.ids[i]['claimed']
                    local = s.get('local')
                    dec = dict(dec, identity=local or claimed)
                    if local:
                        dec['claimed'] = claimed
                    if dec.get('frag'):
                        dec['claimed'] = claimed + '#g2'
                elif lg['begin']['msg'].args.get('openid.identity', '').endswith('identifier_select'):
                    dec = dict(dec, allow=False)
                st = dict(st, dec=dec)
            if st.get('setup') and lg and lg['results'] and lg['results'][-1].get('setup_url'):
                u = lg['results'][-1]['setup_url']
                if w.find_op(u) is not lg['outs'][0]['op']:
                    lg['lost'] = u
            return real(st)
        w.s_op = s_op
        give = w.s_deliver

        def s_deliver(st):
            lg = w.logins.get(st.get('l', 0))
            if st.get('setup') and not (lg and lg['outs'] and lg['outs'][-1]['step'].get('setup')):
                return None
            return give(st)
        w.s_deliver = s_deliver

    def judge(self, plan, env, sim, w):
        if sim.db_gave_up:
            sim.probe('skipped_database_locked')
            return
        for ev in w.events:
            if ev['kind'] == 'begin' and ev['exc'] is not None:
                raise Violation('begin-failed', 'begin(%r) at %s raised %r' % (ev['ident'], ev['rp'], ev['exc']))
            if ev['kind'] == 'op' and ev['out']['kind'] not in ('redirect', 'form'):
                raise Violation('provider-refused', 'provider %s answered a genuine request with %r (%r)' % (
                    ev['op'], ev['out']['kind'], ev['out'].get('protocol_error')))
            if ev['kind'] == 'op' and ev['out'].get('slipped'):
                raise Violation('answered-for-another', 'provider %s, asked about %r, let the application answer with %r' % ((ev['op'],) + ev['out']['slipped']))
        for l, lg in sorted(w.logins.items()):
            if lg.get('lost'):
                raise Violation('setup-differs', 'provider %s (%s) names %r as set-up address' % (lg['outs'][0]['op'].name, lg['outs'][0]['op'].url, lg['lost']))
            if not lg['results']:
                if lg['outs']:
                    if any(o['msg'] is None or not w.route_ok(o['msg'].url, lg['rp']) for o in lg['outs']):
                        raise Violation('misrouted', 'the answer for %s went to %r' % (lg['rp'].return_to, lg['outs'][0]['msg']))
                continue
            for k in range(min(len(lg['results']), len(lg['outs']))):
                self.one(plan, env, sim, w, l, lg, k)

    def one(self, plan, env, sim, w, l, lg, k):
        ev = lg['results'][k]
        out = lg['outs'][k]
        dec = out['dec']
        req = lg['begin']['msg'].args
        rec = w.ids[lg['st']['id'] % len(w.ids)]
        select = req.get('openid.identity', '').endswith('identifier_select')
        imm = lg['st'].get('imm') and not out['step'].get('setup')
        env.checks += 1
        v2 = 'openid.ns' in req
        sim.state(v2, rec['cfg']['doc'], bool(lg['begin']['assoc']), bool(imm), bool(dec.get('allow')), select,
                  bool(lg['begin']['local_id'] != lg['begin']['claimed_id']), lg['rp'].kind, out['op'].lib, out['op'].kind, out['kind'],
                  lg['begin']['msg'].method, bool(rec['cfg'].get('xri')), bool(rec['cfg'].get('redirect')))
        if dec.get('allow'):
            want = 'success'
        elif imm:
            want = 'setup_needed'
        else:
            want = 'cancel'
        what = 'login %s for %s at %s via %s (%s, v%s, rp store %s, op store %s): ' % (
            l, rec['user'], ev['rp'], out['op'].name, 'immediate' if imm else 'setup', 2 if v2 else 1, lg['rp'].kind, out['op'].kind)
        if out['msg'] is not None and urlsplit(out['msg'].url)[:3] != urlsplit(req['openid.return_to'])[:3]:
            raise Violation('misrouted', what + 'the answer for %r went to %r' % (req['openid.return_to'], out['msg'].url))
        if out['step'].get('setup'):
            a = out['req'].args
            for f in ('mode', 'identity', 'claimed_id', 'return_to', 'realm', 'trust_root'):
                x, y = a.get('openid.' + f), 'checkid_setup' if f == 'mode' else req.get('openid.' + f)
                if x != y:
                    raise Violation('setup-differs', what + 'the set-up address asks with %s %r instead of %r' % (f, x, y))
        if ev['exc'] is not None:
            raise Violation('complete-raised', what + 'complete raised %r' % (ev['exc'],))
        if ev['status'] != want:
            if want == 'success' and (self.ran_out(lg, ev) or too_late(ev)):
                sim.probe('delivered_too_late')
                return
            raise Violation('wrong-outcome', what + 'provider decided %s, relying party reports %s (%s)' % (
                want, ev['status'], ev.get('why')))
        if want == 'success':
            sim.probe('success')
            if out['step'].get('setup'):
                sim.probe('success_after_setup')
            ident = rec['claimed']
            if select:
                ident = dec.get('claimed') or dec['identity']
            if ev['identity'] != ident:
                raise Violation('wrong-identity', what + 'expected %r, relying party reports %r' % (ident, ev['identity']))
            # the name entered, unless the list it came from is gone already
            shown = [ident.split('#')[0]] + ([rec['cfg']['xri'], rec['cfg']['canonical']] if rec['cfg'].get('xri') and not select else [])
            if ev['shown'] not in shown:
                raise Violation('wrong-name', what + 'the user is shown %r instead of %r' % (ev['shown'], shown))
            if ev['server_url'] != out['op'].url:
                raise Violation('wrong-endpoint', what + 'expected %r, relying party reports %r' % (out['op'].url, ev['server_url']))
        else:
            sim.probe(want)
            if dec.get('link') and want == 'cancel':
                sim.probe('cancelled_by_link')
            if want == 'setup_needed' and not v2 and not ev.get('setup_url'):
                raise Violation('no-setup-url', what + 'no setup address')

    def ran_out(self, lg, ev):
        h = ev['msg'].args.get('openid.assoc_handle')
        for s in lg['rp'].stored:
            if s['handle'] == h and s['issued'] + s['lifetime'] <= int(ev['nt1']) + 1:
                return True
        return False


def too_late(ev):
    """The nonce of the delivered message was out of its time window."""
    a = ev['msg'].args
    n = a.get('openid.response_nonce' if a.get('openid.ns') == NS2 else 'janrain_nonce') or ''
    try:
        ts = calendar.timegm(_time.strptime(n[:20], '%Y-%m-%dT%H:%M:%SZ'))
    except ValueError:
        return False
    return abs(ts - ev['nt']) >= SKEW or abs(ts - ev['nt1']) >= SKEW


PROP = C16()
