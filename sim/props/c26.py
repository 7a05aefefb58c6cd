"""C26: relying parties answer whatever a browser delivers."""
from ..gen import OP_STORES, gen_id, gen_op, gen_rp
from ..kernel import Violation
from ..provider import ProviderWorld
from ..rawreq import EXT, FIELDS, ODD, URLS
from ..world import ALL_PAIRS, NS11, NS2, SELECT, Indirect, RefOP, apply_edits, sign_fields
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec
from .c14 import BOUND, STATUS, faults, where

MODES = ['id_res', 'id_res', 'id_res', 'cancel', 'error', 'setup_needed', 'setup_needed', '', 'x', 'checkid_setup', 'Invalid', 'id_res\n', 'id_res ', 'ID_RES', 'associate',
         '\u00e9', '_id_res', 'check_authentication']
NONCES = ['', 'x', '2009-01-01T00:00:00Z', '2009-01-01T00:00:00', '9999-12-31T23:59:59Zx', '0000-00-00T00:00:00Zx', '0001-01-01T00:00:00Zx', '1969-12-31T23:59:59Zx',
          '2009-13-01T00:00:00Zx', '2009-01-01T25:00:00Zx', '2009-01-01t00:00:00zx', '2009-01-01T00:00:00+01:00', ' 2009-01-01T00:00:00Zx', '2009-01-01T00:00:60Zx',
          '2009-01-01T00:00:00Z\u00e9', '2009-01-01T00:00:00Z/../../x', '2009-01-01T00:00:00Z' + 'x' * 300, '2009-01-01T00:00:00Za\nb', '\u0662009-01-01T00:00:00Zx',
          '0999-01-01T00:00:00Zx', '1900-01-01T00:00:00Zx', '2009-02-30T00:00:00Zx']
SIGNED = ['', ',', 'x', 'mode', 'return_to,identity', 'mode,identity,return_to', 'ns.sreg,sreg.email', 'a.b.c', 'signed,sig', 'mode,mode', 'x\ny', 'mode,a:b', '\u00e9', 'sig',
          'op_endpoint,return_to,response_nonce,assoc_handle,claimed_id,identity', 'op_endpoint,return_to,response_nonce,assoc_handle,claimed_id,identity,x',
          'op_endpoint,return_to,response_nonce,assoc_handle,claimed_id,identity,a:b', 'op_endpoint,return_to,response_nonce,assoc_handle,claimed_id,identity,',
          'op_endpoint,return_to,response_nonce,assoc_handle,claimed_id,identity,x.y', 'ns', 'ns.x', 'ns.', '.', 'ns.mode']
NS = ['', 'x', NS11, 'http://openid.net/signon/1.0', NS2, NS2 + '/', SELECT, 'http://openid.net/sreg/1.0', '\u00e9', NS2 + '\n', 'http://openid.net/signon/1.2']
RTFIELDS = ['return_to', 'identity', 'claimed_id', 'op_endpoint', 'response_nonce', 'assoc_handle', 'signed', 'sig', 'mode', 'ns', 'invalidate_handle', 'user_setup_url', 'error',
            'contact', 'reference']


def value(rng, f, urls):
    k = rng.random()
    if f == 'mode' and k < 0.85:
        return rng.choice(MODES)
    if f == 'ns' and k < 0.85:
        return rng.choice(NS)
    if f == 'signed' and k < 0.8:
        return rng.choice(SIGNED)
    if f in ('response_nonce', 'janrain_nonce') and k < 0.8:
        return rng.choice(NONCES)
    if f in ('return_to', 'op_endpoint', 'claimed_id', 'identity', 'user_setup_url', 'openid1_claimed_id') and k < 0.8:
        return rng.choice(URLS + urls * 3)
    if f in ('assoc_handle', 'invalidate_handle') and k < 0.3:
        return rng.choice(['none', '../../x', '\u00e9', 'a' * 300, '{HMAC-SHA1}{0}{x}'])
    return rng.choice(ODD)


def bend(rng, urls):
    """1-3 alterations: [key, value] to set, [key] to drop (keys as the application sees them)."""
    out = []
    for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 2, 3])):
        k = rng.random()
        f = rng.choice(RTFIELDS)
        if k < 0.2:
            out.append(['openid.' + f])
        elif k < 0.34:
            if rng.random() < 0.6:
                out.append(['openid.signed', None, ',' + rng.choice(['ns.x', 'ns.sreg', 'x.y', 'x', '', 'mode', 'a:b', 'sreg.email', 'ns', 'sig', 'signed', 'ns.', '.', 'ns.ns', 'x\ny', 'ax.',
                                                                     'user_setup_url', 'ns.mode', 'mode.x', 'identity', '\u00e9', ' '])])
            else:
                out.append(['openid.' + f, None, rng.choice(['#frag', ' ', '\n', '?', '&a=b', ':', '/', '%', '\u00e9', 'x' * 300])])
        elif k < 0.68:
            out.append(['openid.' + f, value(rng, f, urls)])
        elif k < 0.8:
            for a, v in sorted(rng.choice(EXT).items()):
                out.append(['openid.' + a, v])
        elif k < 0.85:
            f = rng.choice(FIELDS)
            out.append(['openid.' + f, value(rng, f, urls)])
        else:
            f = rng.choice(['janrain_nonce', 'openid1_claimed_id', 'x', '', 'openid', 'openid.', 'Openid.mode', '\u00e9', 'openid.openid.mode', 'ns'])
            out.append([f] if rng.random() < 0.35 else [f, value(rng, f, urls)])
    return out


class BentWorld(ProviderWorld):
    def s_bent(self, st):
        """A message made of what was seen, given to a relying party."""
        rp = self.rps[0]
        lg = self.logins.get(st.get('l', 0))
        if lg is not None and lg['begin']['msg'] is None:
            lg = None
        outs = [o for o in lg['outs'] if o['msg'] is not None] if lg else []
        if st['base'] == 'empty' or (st['base'] == 'answer' and not outs):
            args = {}
        elif st['base'] == 'request':
            args = dict(lg['begin']['msg'].args) if lg else {}
        elif st['base'] == 'answer':
            args = dict(outs[-1]['msg'].args)
        else:
            args = {'openid.ns': NS2} if st['base'][-1] == '2' else {}
            args['openid.mode'] = st['base'][:-1]
            if args['openid.mode'] == 'id_res' and st['base'][-1] == '1' and st.get('setup'):
                args['openid.user_setup_url'] = 'http://op0.example/setup'
        m = Indirect('GET', rp.return_to, args)
        for e in st['bend']:
            if len(e) == 3:
                if e[0] in args:
                    args[e[0]] += e[2]
                    self.sim.count_fault('message-append')
            elif len(e) == 1:
                args.pop(e[0], None)
                self.sim.count_fault('message-drop')
            else:
                args[e[0]] = e[1]
                self.sim.count_fault('message-set')
        if st.get('rt') is not None:               # a return address of its own
            args['openid.return_to'] = st['rt']
        key = None
        if st.get('sign'):
            h = args.get('openid.assoc_handle')
            for o in self.ops:
                if not o.lib:
                    key = key or o.assocs_all.get(h) or o.private.get(h)
            for k in self.loot:
                if k['handle'] == h:
                    key = k
            for e in rp.stored:
                if e['handle'] == h:
                    key = dict(secret=e['secret'], type=e['type'])
        if key is not None:
            self.sim.probe('resigned')
            args['openid.sig'] = sign_fields(args, args.get('openid.signed', '').split(','), key['secret'], key['type'])
        m.url = self.at(rp, args, st.get('url'))
        ev = self.give(dict(st, rp=0), m, lg)
        return ev

    @staticmethod
    def at(rp, args, url):
        """The address the application sees itself called under."""
        if url == 'return_to' and args.get('openid.return_to', '').startswith('http://rp0.example'):
            u = args['openid.return_to']
            if not any(ord(c) < 33 or ord(c) > 126 for c in u):
                return u
        if url == 'bare':
            return rp.return_to.split('?')[0]
        return rp.return_to


class C26(Prop):
    id = 'C26'
    runs = {'quick': 6000, 'thorough': 300000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('completing a login with any arguments raises nothing and returns success, failure, cancel or setup_needed: cancel only for mode cancel, setup_needed only for '
            'mode setup_needed (or an OpenID 1 id_res with user_setup_url), success only for mode id_res, failure for everything else; the reason of a failure is text; '
            'and an ordinary login in the same session afterwards succeeds')
    state_measure = 'hash of (base message, altered fields, session, status, reason without values)'
    assumptions = ['the web framework passes text and the address the application was called under', 'the store works']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        nops = rng.choice([1, 2])
        ops = [gen_op(rng, i, kinds=('lib', 'ref'), skew=False) for i in range(nops)]
        for o in ops:
            o['policy'] = None
        rps = [gen_rp(rng, 0, stores=[OP_STORES[index % 5], 'mem', 'file', None], skew=False)]
        rps[0]['policy'] = None
        ids = [gen_id(rng, i, nops) for i in range(rng.choice([1, 2]))]
        last = gen_id(rng, 9, nops, ver=rng.choice(['2', '1.1']), nsvc=1, xri=False)
        urls = [c.get('url') or 'http://id%d.example/' % i for i, c in enumerate(ids)] + \
               [o.get('url') or 'http://op%d.example/openid' % i for i, o in enumerate(ops)] + [rps[0]['return_to']] + \
               ['http://id0.example/#frag', 'http://rp0.example/done?x=1&x=2', 'http://rp0.example/done?openid.mode=x',
                'http://[#x', 'http://id0.example:port/#x', '=user0', '=!1000.1', 'xri://=!1000.1', '=(', 'xri://@a*b', '=user0#x', 'http://[::1#/', 'http://id0.example/?a=[#]', '#', '#x']
        steps = []
        for l in range(rng.choice([1, 1, 2])):
            steps.append(dict(s='begin', l=l, rp=0, id=rng.randrange(len(ids)), sess='s0', w=rng.randrange(2), imm=rng.random() < 0.2,
                              anon=rng.random() < 0.08))
            steps.append(dict(s='op', l=l, dec=dict(allow=rng.random() < 0.9, identity='http://op0.example/u/me')))
            if rng.random() < 0.3:
                steps.append(dict(s='att_assoc', op=rng.randrange(nops), type='HMAC-SHA1', session='no-encryption'))
            if rng.random() < 0.1:
                steps.append(dict(s='tick', dt=rng.choice([1, 3600, 86400, 1209601])))
            for _ in range(rng.choice([1, 2, 3, 4])):
                b = dict(s='bent', l=l, base=rng.choice(['answer', 'answer', 'answer', 'answer', 'answer', 'request', 'empty', 'id_res1', 'id_res2', 'cancel1', 'cancel2', 'error1', 'error2',
                                                         'setup_needed1', 'setup_needed2']),
                         bend=bend(rng, urls), w=rng.randrange(2), sess=rng.choice(['s0', 's0', 's0', 'other']), setup=rng.random() < 0.5)
                if rng.random() < 0.6:
                    b['sign'] = True
                if rng.random() < 0.2:
                    b['rt'] = rng.choice(URLS + urls)
                if rng.random() < 0.3:
                    b['url'] = rng.choice(['return_to', 'bare'])
                if rng.random() < 0.25:
                    b['net'] = faults(rng)
                steps.append(b)
                if rng.random() < 0.1:
                    steps.append(dict(s='op', l=l, dec=dict(allow=True, identity='http://op0.example/u/me')))
                if rng.random() < 0.06:
                    steps.append(dict(s='begin', l=l, rp=0, id=rng.randrange(len(ids)), sess='s0', w=rng.randrange(2)))
        return dict(world=dict(ops=ops, rps=rps, ids=ids + [last]), steps=steps, sched=sched_spec(rng))

    shrink_lists = ['steps', 'steps.*.bend', 'steps.*.net']

    def execute(self, plan, env):
        with env.sim(max_steps=2000000) as sim:
            w = BentWorld(sim, plan['world'])
            w.run(plan['steps'])
            for ev in w.events:
                if ev['kind'] == 'complete':
                    env.checks += 1
                    self.judge(sim, ev)
            n = len(w.events)
            k = len(w.ids) - 1
            if w.ids[k]['services']:
                w.do(dict(s='begin', l=99, rp=0, id=k, sess='s0'))
                w.do(dict(s='op', l=99, dec=dict(allow=True)))
                w.do(dict(s='deliver', l=99))
                ev = w.events[-1]
                env.checks += 1
                if not sim.db_gave_up and (ev['kind'] != 'complete' or ev['status'] != 'success'):
                    raise Violation('broken-afterwards', 'an ordinary login afterwards ended with %r' % (
                        [(e['kind'], e.get('status'), e.get('why'), e.get('exc')) for e in w.events[n:]],))
            w.close()

    def judge(self, sim, ev):
        a = ev['msg'].args
        st = ev['step']
        mode = a.get('openid.mode')
        what = 'message %r: ' % (sorted((k, v if len(v) < 200 else v[:80] + '...%d' % len(v)) for k, v in a.items()),)
        sim.state(st.get('base'), tuple(sorted((e[0], len(e)) for e in st.get('bend') or ())), ev['status'], ev['stale'], str(ev.get('why'))[:18], type(ev['exc']).__name__)
        sim.probe('status_%s' % (ev['status'] or 'raised'))
        e = ev['exc']
        if e is not None:
            if sim.db_gave_up:
                return
            raise Violation('escaped:%s:%s' % (type(e).__name__, where(e)), what + 'completing raised %s: %s' % (type(e).__name__, str(e)[:300]))
        s = ev['status']
        if s not in STATUS:
            raise Violation('undefined-status', what + 'status %r' % (s,))
        if ev['req1'] - ev['req0'] > BOUND:
            raise Violation('too-many-requests', what + '%d requests' % (ev['req1'] - ev['req0']))
        v2 = a.get('openid.ns') == NS2
        if s == 'success' and mode != 'id_res' or s == 'cancel' and mode != 'cancel':
            raise Violation('wrong-status', what + 'status %s' % s)
        if s == 'setup_needed' and not (v2 and mode == 'setup_needed' or not v2 and mode == 'id_res' and 'openid.user_setup_url' in a):
            raise Violation('wrong-status', what + 'status %s' % s)
        odd = any(k.startswith('openid.ns') and k != 'openid.ns' for k in a) or a.get('openid.ns') not in (None, NS2)
        if s == 'failure':
            if not isinstance(ev.get('why'), str) and not (mode == 'error' and ev.get('why') is None):
                raise Violation('no-reason', what + 'reason of the failure: %r' % (ev.get('why'),))
            if not odd and (mode == 'cancel' or mode == 'setup_needed' and v2 or mode == 'id_res' and not v2 and 'openid.user_setup_url' in a):
                raise Violation('wrong-status', what + 'failure: %s' % ev.get('why'))
            if mode == 'error' and not odd and ev.get('why') != a.get('openid.error'):
                raise Violation('no-reason', what + 'reason of the failure: %r' % (ev.get('why'),))


PROP = C26()
