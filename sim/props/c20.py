"""C20: extension data read as signed is what the provider put in."""
import warnings

from ..adversary import loss_fault
from ..gen import cohost, gen_id, gen_op, gen_rp
from ..kernel import SimCrash, Violation
from ..world import World
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec
from .c16 import too_late

SREG = ['fullname', 'nickname', 'dob', 'email', 'gender', 'postcode', 'country', 'language', 'timezone']
SREG_NS = ['http://openid.net/extensions/sreg/1.1', 'http://openid.net/sreg/1.0']
AX_NS = 'http://openid.net/srv/ax/1.0'
PAPE_NS = 'http://specs.openid.net/extensions/pape/1.0'
PAPE2_NS = 'http://www.idmanagement.gov/schema/2009/05/icam/openid-trust-level1.pdf'
TYPES = ['http://axschema.org/contact/email', 'http://axschema.org/namePerson', 'http://schema.example/1', 'http://schema.example/a?b=c&d', 'urn:x:y',
         'http://schema.example/\u017elu\u0165']
CUSTOM = [('http://ext.example/one', 'one'), ('http://ext.example/two?v=2', 'tw-o'), ('http://ext.example/three/', 'sreg2')]
POLICIES = ['http://schemas.openid.net/pape/policies/2007/06/multi-factor', 'http://schemas.openid.net/pape/policies/2007/06/phishing-resistant', 'urn:policy:1',
            'http://policy.example/?a=b']
LEVELS = ['http://csrc.nist.gov/publications/nistpubs/800-63/SP800-63V1_0_2.pdf', 'http://www.jisa.or.jp/spec/auth_level.html', 'http://level.example/l', 'http://level.example/m']
VALUES = ['', 'a', 'x y', ' lead', 'trail ', 'caf\u00e9', 'a=b&c', 'a,b', '0', 'true', 'none', 'openid.sig', '\u4e2d\u6587', 'y' * 2500, '%0A', '+', 'x:y', 'id_res', '\U0001f600',
          'a.b', '<b>&amp;"\'', 'http://e.example/?q=1#f', '\t']
ALIASES = ['email', 'a', 'm1', 'fullname', 'x' * 32, 'value', 'type', 'a-b', 'Email']


class C20(Prop):
    id = 'C20'
    runs = {'quick': 6000, 'thorough': 200000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('a provider sees exactly the extension requests the relying party made; values a relying party reads as signed from a successful response are '
            'exactly those the provider put into that answer, or (only if the message was altered) not reported')
    state_measure = 'hash of (version, extensions asked, extensions answered, kind of alteration, association or check_authentication, status, what was read)'
    assumptions = ['OpenID 1 messages carry registration data only (the library sends no namespace declarations in them)',
                   'an empty value removed on the way may go unnoticed: its signature is the same', 'values contain no line breaks or control characters']
    real = FLOW_REAL + ['openid.extensions.sreg', 'openid.extensions.ax', 'openid.extensions.pape', 'openid.extensions.draft.pape2', 'openid.extension']
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        nops = rng.choice([1, 1, 2])
        ops = [gen_op(rng, i, kinds=('lib',), skew=False) for i in range(nops)]
        rps = [gen_rp(rng, i, skew=False) for i in range(rng.choice([1, 1, 2]))]
        ids = [gen_id(rng, i, nops, ver=rng.choice(['2', '2', '1.1', '2+1.1', '1.0']), nsvc=1, xri=False) for i in range(rng.choice([1, 2, 3]))]
        alter = rng.random() < 0.55
        faulty = rng.random() < 0.2
        lanes = []
        for l in range(rng.choice([1, 1, 2, 3, 4])):
            b = dict(s='begin', l=l, rp=rng.randrange(len(rps)), id=rng.randrange(len(ids)), sess='s%d' % l, ask=self.ask(rng), style=rng.choice([None, None, 'redirect', 'form']))
            o = dict(s='op', l=l, dec=dict(allow=rng.random() < 0.92), give=self.give(rng))
            d = dict(s='deliver', l=l)
            if alter and rng.random() < 0.8:
                d['alter'] = self.alter(rng)
            if alter and rng.random() < 0.1:
                o['alter'] = self.alter(rng)
            if rng.random() < 0.3:
                for st in (b, o, d):
                    st['w'] = rng.randrange(3)
            if rng.random() < 0.2:
                o['w2'] = rng.randrange(3)
            if faulty and rng.random() < 0.5:
                rng.choice([b, d])['net'] = [loss_fault(rng)]
            seq = [b, o, d]
            if alter and rng.random() < 0.3:
                # the original also arrives
                seq.append(dict(s='deliver', l=l))
            lanes.append(seq)
        if rng.random() < 0.35:
            steps = [dict(s='par', tasks=lanes)]
        else:
            steps, work = [], [list(x) for x in lanes]
            while any(work):
                j = rng.choice([j for j, x in enumerate(work) if x])
                steps.append(work[j].pop(0))
                if rng.random() < 0.05:
                    steps.append(dict(s='restart', who=rng.choice(['op0', 'rp0']), w=rng.randrange(3)))
        cohost(rng, ops, rps)
        return dict(world=dict(ops=ops, rps=rps, ids=ids), steps=steps, sched=sched_spec(rng), faulty=faulty)

    def ask(self, rng):
        a = {}
        if rng.random() < 0.6:
            f = rng.sample(SREG, rng.randrange(0, 6))
            k = rng.randrange(len(f) + 1)
            a['sreg'] = dict(required=f[:k], optional=f[k:], ns=rng.choice([0, 0, 0, 1]), policy=rng.choice([None, None, 'http://rp.example/p?x=y z']))
        r = rng.random()
        if r < 0.45:
            ts = rng.sample(TYPES, rng.randrange(1, 5))
            al = rng.sample(ALIASES, len(ts)) if rng.random() < 0.6 else [None] * len(ts)
            if rng.random() < 0.2:
                al[0] = None
            a['ax'] = dict(attrs=[dict(type=t, alias=x, required=rng.random() < 0.5, count=rng.choice([1, 1, 2, 3, 'unlimited'])) for t, x in zip(ts, al)],
                           update=rng.random() < 0.3)
        elif r < 0.6:
            a['store'] = dict((t, [rng.choice(VALUES) for _ in range(rng.choice([0, 1, 1, 2]))]) for t in rng.sample(TYPES, rng.randrange(1, 4)))
        if rng.random() < 0.5:
            a['pape'] = dict(policies=rng.sample(POLICIES, rng.randrange(0, 4)), age=rng.choice([None, 0, 60, 100000]), levels=rng.sample(LEVELS, rng.randrange(0, 3)))
            if rng.random() < 0.2:
                a['pape'].update(levels=[], draft=True)
        if rng.random() < 0.3:
            a['custom'] = self.custom(rng)
        return a

    def custom(self, rng):
        return dict(i=rng.randrange(len(CUSTOM)), args=dict((rng.choice(['a', 'b', 'email', 'mode', 'a.b', 'auth_policies', 'value.x.1', 'X', 'ns', 'sig']), rng.choice(VALUES))
                                                             for _ in range(rng.randrange(0, 4))))

    def give(self, rng):
        g = {}
        if rng.random() < 0.75:
            g['sreg'] = dict(data=dict((f, rng.choice(VALUES)) for f in rng.sample(SREG, rng.randrange(0, 7))), how=rng.choice(['extract', 'extract', 'plain']), ns=rng.choice([0, 0, 1]))
        if rng.random() < 0.8:
            g['ax'] = dict(data=dict((t, [rng.choice(VALUES) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]) for t in rng.sample(TYPES, rng.randrange(0, 5))),
                           how=rng.choice(['request', 'request', 'plain']), update=rng.choice([None, None, 'http://op.example/u?x=1']))
            g['stored'] = rng.choice([True, True, None, 'no space', 'caf\u00e9'])
        if rng.random() < 0.75:
            g['pape'] = dict(policies=rng.sample(POLICIES, rng.randrange(0, 4)), time=rng.choice([None, '2007-01-31T05:59:59Z', '1970-01-01T00:00:00Z']),
                             levels=dict((u, rng.choice(['0', '1', '4', 'high', 3])) for u in rng.sample(LEVELS, rng.randrange(0, 4))))
            if rng.random() < 0.2:
                g['pape'].update(draft=True, levels={} if rng.random() < 0.3 else {'nist': rng.randrange(5)})
        if rng.random() < 0.35:
            g['custom'] = self.custom(rng)
        return g

    def alter(self, rng):
        out = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            k = rng.choice(['set', 'set', 'del', 'rename', 'swap', 'add', 'add', 'addns', 'nsset', 'unsign', 'sign', 'list', 'nsdel', 'realias', 'any', 'claim', 'trunc', 'child'])
            out.append([k, rng.randrange(1000), rng.randrange(1000), '' if k in ('add', 'child') and rng.random() < 0.2 else rng.choice(VALUES)])
        return out

    shrink_lists = ['steps', 'steps.*.tasks', 'steps.*.tasks.*', 'steps.*.alter', 'world.ids']

    def execute(self, plan, env):
        with env.sim(max_steps=2000000) as sim:
            w = ExtWorld(sim, dict(plan['world'], strict_op=True))
            w.run(plan['steps'])
            if not sim.db_gave_up:
                self.judge(plan, env, sim, w)
            else:
                sim.probe('skipped_database_locked')
            w.close()

    def judge(self, plan, env, sim, w):
        if w.bad is not None:
            raise w.bad
        for l, lg in sorted(w.logins.items()):
            b = lg['begin']
            if b['exc'] is not None:
                if not plan['faulty']:
                    raise Violation('begin-failed', 'begin raised %r' % (b['exc'],))
                continue
            v2 = 'openid.ns' in b['msg'].args
            ask = lg['st']['ask']
            for out in lg['outs']:
                env.checks += 1
                seen = out.get('seen')
                if seen is None:
                    if out['kind'] in ('error', 'page', 'none', 'notopenid') and not out['step'].get('alter'):
                        raise Violation('provider-refused', 'the provider answered a genuine request with %r (%r)' % (out['kind'], out.get('protocol_error')))
                    continue
                if not out['step'].get('alter'):
                    self.check_request(v2, ask, seen, lg['rp'])
            for ev in lg['results']:
                env.checks += 1
                out = ev['out']
                altered = bool(ev['step'].get('alter')) and ev['changed']
                dec = out['dec']
                what = 'login %s (v%s, %s, %s): ' % (l, 2 if v2 else 1, 'altered by %r' % (ev['step']['alter'],) if altered else 'as sent', lg['rp'].kind)
                sim.state(v2, tuple(sorted(ask)), tuple(sorted(out.get('given') or ())), tuple(e[0] for e in ev['step'].get('alter') or ()), bool(b['assoc']), ev['status'],
                          tuple(sorted((k, type(x).__name__, bool(x)) for k, x in (ev.get('read') or {}).items())))
                if ev['status'] != 'success':
                    first = ev is lg['results'][0]
                    if dec['allow'] and first and not altered and not plan['faulty'] and out['kind'] in ('redirect', 'form') and not out['step'].get('alter') and not too_late(ev) \
                            and not any(s['s'] == 'restart' for s in flat(plan['steps'])):
                        raise Violation('login-failed', what + 'ended as %r (%r, %r)' % (ev['status'], ev.get('why'), ev['exc']))
                    continue
                if ev['exc'] is not None:
                    raise Violation('read-raised', what + 'raised %r' % (ev['exc'],))
                sim.probe('read_altered' if altered else 'read')
                if ev['return_to'] != ev['msg'].args.get('openid.return_to'):
                    raise Violation('read-return-to', what + 'succeeded for the return address %r, the response says %r' % (
                        ev['msg'].args.get('openid.return_to'), ev['return_to']))
                for u, d in sorted(ev['sreg_fields'].items()):
                    if not v2 and any(q.startswith('openid.ns.') and q not in out['msg'].args for q in ev['msg'].args):
                        break           # the known finding
                    for k, x in sorted(d.items()):
                        have = ((out['given'] or {}).get('sreg') or {}).get(k)
                        if isinstance(x, Exception):
                            if not isinstance(x, (ValueError, KeyError)):
                                raise Violation('field-raised', what + 'reading the signed field %r raised %r' % (k, x))
                        elif x is not None and x != have:
                            raise Violation('field-differs', what + 'the provider sent %r as %r, read as signed: %r' % (k, have, x))
                for k, x in sorted(ev.get('fields', {}).items()):
                    if not v2:
                        break
                    have = ((out['given'] or {}).get('custom') or {}).get(k)
                    if isinstance(x, Exception):
                        if not (altered and isinstance(x, (ValueError, KeyError))):
                            raise Violation('field-raised', what + 'reading the signed field %r raised %r' % (k, x))
                    elif x != have and not (altered and x is None):
                        raise Violation('field-differs', what + 'the provider sent %r as %r, read as signed: %r' % (k, have, x))
                for k, got in sorted(ev['read'].items()):
                    given = (out['given'] or {}).get(k)
                    try:
                        self.compare(what, k, got, given, altered, v2, sim)
                    except Violation as why:
                        if v2 or not altered or not redeclared(ev['msg'].args, out['msg'].args, got):
                            raise
                        env.finding('redeclared', 'openid1', str(why))

    def check_request(self, v2, ask, seen, rp):
        for k in ('sreg', 'ax', 'store', 'pape', 'custom'):
            if not v2 and k != 'sreg':
                continue
            want, got = ask.get(k), seen.get(k)
            if isinstance(got, Exception):
                raise Violation('request-raised:%s' % type(got).__name__, 'reading the %s request %r raised %r' % (k, want, got))
            if k == 'sreg':
                w = dict(required=sorted(want['required']), optional=sorted(want['optional']), policy=want['policy']) if want else dict(required=[], optional=[], policy=None)
                g = dict(required=sorted(got['required']), optional=sorted(got['optional']), policy=got['policy'])
            elif k == 'ax':
                w = want and dict(attrs=sorted((a['type'], a['count'], a['required']) for a in want['attrs']), update=rp.return_to if want['update'] else None)
                g = got and dict(attrs=sorted((a['type'], a['count'], a['required']) for a in got['attrs']), update=got['update'])
            elif k == 'pape':
                w, g = want, got
                if want:
                    want = dict((a, b) for a, b in want.items() if a != 'draft')
                    w = dict(want, policies=sorted(want['policies']), levels=sorted(want['levels']))
                    g = got and dict(got, policies=sorted(got['policies']), levels=sorted(got['levels']))
            elif k == 'custom':
                w, g = (want['args'] if want else {}), got
            else:
                w, g = want, got
            if w != g:
                raise Violation('request-' + k, 'the relying party asked for %r, the provider saw %r' % (w, g))

    def compare(self, what, k, got, given, altered, v2, sim):
        name = {'sreg': 'registration', 'ax': 'attribute', 'store': 'store', 'pape': 'policy', 'custom': 'extension'}[k]
        if isinstance(got, Exception):
            if altered and isinstance(got, (ValueError, KeyError)):
                sim.probe('read_refused')
                return
            raise Violation('read-raised:%s:%s' % (k, type(got).__name__), what + 'reading signed %s data raised %r' % (name, got))
        if k == 'sreg':
            g = dict((a, b) for a, b in (got or {}).items() if b != '')
            e = dict((a, b) for a, b in (given or {}).items() if b != '')
            if not altered and (got or {}) != (given or {}):
                raise Violation('sreg', what + 'provider gave %r, relying party reads %r' % (given, got))
            if set(got or {}) - set(given or {}):
                raise Violation('sreg', what + 'provider gave %r, relying party reads %r as signed: a value was added' % (given, got))
            if g and g != e or not altered and g != e:
                raise Violation('sreg', what + 'provider gave %r, relying party reads %r as signed' % (given, got))
            return
        if not v2 and not got:
            return
        if k == 'pape':
            empty = dict(policies=[], time=None, levels={})
            got, given = got or empty, given or empty
            if (altered or not v2) and got == empty:
                return
        elif k == 'custom':
            if altered and not got:
                return
            g = dict((a, b) for a, b in (got or {}).items() if b != '')
            e = dict((a, b) for a, b in (given or {}).items() if b != '')
            if altered and g == e and not set(got) - set(given or {}):
                return
            got, given = got or {}, given or {}
        elif altered and got is None:
            return
        if got != given:
            raise Violation(k, what + 'provider gave %r, relying party reads %r as signed %s data' % (given, got, name))


def flat(steps):
    for s in steps:
        if s['s'] == 'par':
            for t in s['tasks']:
                for x in t:
                    yield x
        else:
            yield s


def redeclared(args, sent, got):
    """An added, unsigned declaration gives another meaning to the alias of
    an extension in an OpenID 1 message, and its signed values are read."""
    for k in args:
        if k.startswith('openid.ns.') and k not in sent:
            pre = 'openid.%s.' % k[10:]
            own = dict((q[len(pre):], v) for q, v in sent.items() if q.startswith(pre))
            if own and isinstance(got, dict) and (all(own.get(q) == v for q, v in got.items()) or all(v in own.values() for v in leaves(got))):
                return True
    return False


def leaves(got):
    """Every value of extension data as it was written in the message."""
    for k, v in got.items():
        if k == 'policies':
            v = ' '.join(v)
        if isinstance(v, dict):
            for x in leaves(v):
                yield x
        elif isinstance(v, list):
            for x in v:
                yield x
        elif v:
            yield v


def attempt(f):
    try:
        return f()
    except SimCrash:
        raise
    except Exception as why:
        return why


def read_all(f):
    out = {}
    for t in f.data:
        vs = out[t] = list(f.get(t))
        if f.count(t) != len(vs):
            out[t] = ['count says %r' % f.count(t)]
        elif len(vs) < 2 and f.getSingle(t, 'default') != (vs[0] if vs else 'default'):
            out[t] = ['getSingle says %r' % (f.getSingle(t, 'default'),)]
    return out


def read_sreg(s):
    """The request, as all of its ways to ask about it tell it."""
    out = dict(required=list(s.required), optional=list(s.optional), policy=s.policy_url)
    both = sorted(out['required'] + out['optional'])
    told = sorted(s.allRequestedFields())
    if told != both:
        out['required'].append('allRequestedFields says %r' % (told,))
    if sorted(f for f in SREG if f in s) != both:
        out['required'].append('membership says %r' % ([f for f in SREG if f in s],))
    if bool(s.wereFieldsRequested()) != bool(both):
        out['required'].append('wereFieldsRequested says %r' % (s.wereFieldsRequested(),))
    return out


def read_attrs(f):
    attrs = [dict(type=a.type_uri, count=a.count, required=a.required) for a in f.iterAttrs()]
    if sorted(f.getRequiredAttrs()) != sorted(a['type'] for a in attrs if a['required']):
        attrs.append(dict(type='getRequiredAttrs says %r' % (f.getRequiredAttrs(),), count=1, required=True))
    for a in attrs:
        if a['type'] not in f:
            a['type'] += ' (not a member)'
    for a in attrs:
        i = f.requested_attributes.get(a['type'])
        if i is not None and i.wantsUnlimitedValues() != (a['count'] == 'unlimited'):
            a['count'] = 'wantsUnlimitedValues says %r' % (i.wantsUnlimitedValues(),)
    return attrs


def pape2():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from openid.extensions.draft import pape2 as m
    return m


def custom_ext(spec):
    from openid.extension import Extension

    class Custom(Extension):
        ns_uri, ns_alias = CUSTOM[spec['i']]

        def getExtensionArgs(self):
            return dict(spec['args'])
    return Custom()


class ExtWorld(World):
    def __init__(self, sim, cfg):
        World.__init__(self, sim, cfg)
        self.begin_hook, self.op_hook, self.complete_hook = self.on_begin, self.on_op, self.on_complete
        self.bad = None
        self.slot = {}

    # -- relying party asks --------------------------------------------------
    def on_begin(self, st, req):
        from openid.extensions import ax, pape, sreg
        ask = st['ask']
        if 'sreg' in ask:
            s = ask['sreg']
            req.addExtension(sreg.SRegRequest(required=s['required'], optional=s['optional'], policy_url=s['policy'], sreg_ns_uri=SREG_NS[s['ns']]))
        if 'ax' in ask:
            rp = self.rps[st.get('rp', 0) % len(self.rps)]
            r = ax.FetchRequest(update_url=rp.return_to) if ask['ax']['update'] else ax.FetchRequest()
            for a in ask['ax']['attrs']:
                r.add(ax.AttrInfo(a['type'], count=a['count'], required=a['required'], alias=a['alias']))
            req.addExtension(r)
        if 'store' in ask:
            r = ax.StoreRequest()
            for t, vs in ask['store'].items():
                if len(vs) == 1:
                    r.addValue(t, vs[0])
                else:
                    r.setValues(t, vs)
            req.addExtension(r)
        if 'pape' in ask:
            p = ask['pape']
            if p.get('draft'):
                r = pape2().Request(list(p['policies'][:1]), p['age'])
            else:
                r = pape.Request(preferred_auth_policies=list(p['policies'][:1]), max_auth_age=p['age'], preferred_auth_level_types=p['levels'][:1])
            for u in p['policies'][1:]:
                r.addPolicyURI(u)
            for u in p['levels'][1:]:
                r.addAuthLevel(u)
            req.addExtension(r)
        if 'custom' in ask:
            req.addExtension(custom_ext(ask['custom']))

    # -- provider reads and answers ------------------------------------------
    def on_op(self, st, req, resp):
        from openid.extensions import ax, pape, sreg
        seen = {}
        s = attempt(lambda: sreg.SRegRequest.fromOpenIDRequest(req))
        seen['sreg'] = s if isinstance(s, Exception) else attempt(lambda: read_sreg(s))
        mode = req.message.getArg(AX_NS, 'mode')
        f = st_req = None
        if mode == 'store_request':
            st_req = attempt(lambda: ax.StoreRequest.fromOpenIDRequest(req))
            seen['store'] = st_req if isinstance(st_req, Exception) or st_req is None else dict(st_req.data)
        else:
            f = attempt(lambda: ax.FetchRequest.fromOpenIDRequest(req))
            seen['ax'] = f if isinstance(f, Exception) or f is None else dict(
                attrs=read_attrs(f), update=f.update_url)
        p = attempt(lambda: pape.Request.fromOpenIDRequest(req))
        seen['pape'] = p if isinstance(p, Exception) or p is None else dict(policies=list(p.preferred_auth_policies), age=p.max_auth_age, levels=list(p.preferred_auth_level_types))
        if seen['pape'] is p is not None or p is None:
            pass
        elif sorted(p.preferredTypes(POLICIES)) != sorted(u for u in POLICIES if u in p.preferred_auth_policies):
            seen['pape']['policies'].append('preferredTypes says %r' % (p.preferredTypes(POLICIES),))
        else:
            # The earlier draft reads the same policies and age.
            q = attempt(lambda: pape2().Request.fromOpenIDRequest(req))
            if isinstance(q, Exception) or q is None or list(q.preferred_auth_policies) != seen['pape']['policies'] or q.max_auth_age != p.max_auth_age \
                    or sorted(q.preferredTypes(POLICIES)) != sorted(p.preferredTypes(POLICIES)):
                seen['pape']['policies'].append('draft reads %r' % (q if isinstance(q, Exception) or q is None else vars(q),))
        lg = self.logins[st['l']]
        c = lg['st']['ask'].get('custom')
        seen['custom'] = dict(req.message.getArgs(CUSTOM[c['i']][0])) if c else {}
        given = {}
        self.slot[st['l']] = dict(seen=seen, given=given)
        if resp.fields.getArg(resp.fields.getOpenIDNamespace(), 'mode') != 'id_res':
            return
        g = st['give']
        if 'sreg' in g and not isinstance(s, Exception):
            d = g['sreg']
            if d['how'] == 'extract':
                r = sreg.SRegResponse.extractResponse(s, dict(d['data']))
                given['sreg'] = dict((k, v) for k, v in d['data'].items() if k in s.required or k in s.optional)
            else:
                r = sreg.SRegResponse(dict(d['data']), sreg_ns_uri=SREG_NS[d['ns']])
                given['sreg'] = dict(d['data'])
            resp.addExtension(r)
        if 'ax' in g and not isinstance(f, Exception):
            d = g['ax']
            if st_req is not None and not isinstance(st_req, Exception):
                ok = g['stored']
                r = ax.StoreResponse() if ok is True else ax.StoreResponse(False, ok)
                given['store'] = (r.succeeded(), None if ok is True else ok)
                resp.addExtension(r)
            else:
                data = dict(d['data'])
                use = f if d['how'] == 'request' else None
                if use is not None:
                    data = dict((t, v if use.requested_attributes[t].count == 'unlimited' else v[:use.requested_attributes[t].count]) for t, v in data.items() if t in use)
                r = ax.FetchResponse(request=use, update_url=d['update']) if use is not None or d['update'] else ax.FetchResponse()
                for t, vs in data.items():
                    if len(vs) > 1 or not vs:
                        r.setValues(t, vs)
                    else:
                        r.addValue(t, vs[0])
                full = dict(data)
                if use is not None:
                    for a in use.iterAttrs():
                        full.setdefault(a.type_uri, [])
                given['ax'] = dict(data=full, update=use is not None and use.update_url or d['update'])
                resp.addExtension(r)
        if 'pape' in g:
            d = g['pape']
            if d.get('draft'):
                r = pape2().Response(list(d['policies'][:1]), d['time'], d['levels'].get('nist'))
            else:
                r = pape.Response(list(d['policies'][:1]), d['time'], dict(list(d['levels'].items())[:1]))
                for u, v in list(d['levels'].items())[1:]:
                    r.setAuthLevel(u, v)
            for u in d['policies'][1:]:
                r.addPolicyURI(u)
            given['pape'] = dict(policies=list(d['policies']), time=d['time'], levels=dict((u, str(v)) for u, v in d['levels'].items()))
            resp.addExtension(r)
        if 'custom' in g:
            given['custom'] = dict(g['custom']['args'])
            resp.addExtension(custom_ext(g['custom']))

    def s_op(self, st):
        lg = self.logins.get(st['l'])
        if lg is None or lg['begin']['msg'] is None:
            return None
        if st.get('alter'):
            m = lg['begin']['msg'] = lg['begin']['msg'].copy()
            change(m, st['alter'])
            if self.find_op(m.url) is None:
                return None
        self.slot.pop(st['l'], None)
        out = World.s_op(self, st)
        if out is not None:
            got = self.slot.get(st['l'], {})
            out['seen'], out['given'] = got.get('seen'), got.get('given')
        return out

    # -- relying party reads --------------------------------------------------
    def on_complete(self, st, r, ev):
        from openid.extensions import ax, pape, sreg
        read = ev['read'] = {}
        s = attempt(lambda: sreg.SRegResponse.fromSuccessResponse(r))
        read['sreg'] = s if isinstance(s, Exception) or s is None else dict(s.items())
        f = attempt(lambda: ax.FetchResponse.fromSuccessResponse(r) if r.message.getArg(AX_NS, 'mode') in (None, 'fetch_response') else None)
        read['ax'] = f if isinstance(f, Exception) or f is None else attempt(lambda: dict(data=read_all(f), update=f.update_url))
        f = attempt(lambda: ax.StoreResponse.fromSuccessResponse(r) if r.message.getArg(AX_NS, 'mode') not in (None, 'fetch_response') else None)
        read['store'] = f if isinstance(f, Exception) or f is None else (f.succeeded(), f.error_message)
        draft = self.current[st['l']]['step']['give'].get('pape', {}).get('draft')
        p = attempt(lambda: (pape2() if draft else pape).Response.fromSuccessResponse(r))
        if draft and not isinstance(p, Exception) and p is not None:
            p.auth_levels = {} if p.nist_auth_level is None else {'nist': str(p.nist_auth_level)}
        read['pape'] = p if isinstance(p, Exception) or p is None else dict(policies=list(p.auth_policies), time=p.auth_time, levels=dict(p.auth_levels))
        out = self.current[st['l']]
        c = out['step']['give'].get('custom')
        if c:
            x = attempt(lambda: r.extensionResponse(CUSTOM[c['i']][0], True))
            read['custom'] = x if isinstance(x, Exception) or x is None else dict(x)
            # one value at a time
            ns = CUSTOM[c['i']][0]
            names = attempt(lambda: sorted(set(c['args']) | set(r.message.getArgs(ns))))
            if not isinstance(names, Exception):
                ev['fields'] = dict((k, attempt(lambda: r.getSigned(ns, k))) for k in names)
        ev['sreg_fields'] = dict((u, dict((f, attempt(lambda: r.getSigned(u, f))) for f in SREG)) for u in SREG_NS)
        ev['return_to'] = attempt(r.getReturnTo)

    current = None

    def s_deliver(self, st):
        lg = self.logins.get(st['l'])
        if lg is None:
            return None
        outs = [o for o in lg['outs'] if o['msg'] is not None]
        if not outs:
            return None
        out = outs[-1]
        m = out['msg'].copy()
        before = dict(m.args)
        change(m, st.get('alter'))
        self.current = dict(self.current or {})
        self.current[st['l']] = out
        ev = self.give(st, m, lg)
        ev['out'] = out
        ev['changed'] = m.args != before
        return ev


URIS = SREG_NS + [AX_NS, PAPE_NS] + [u for u, _ in CUSTOM]
NEW = [('sreg', SREG_NS[0], ['email', 'nickname']), ('ax', AX_NS, ['mode', 'type.a', 'count.a', 'value.a.1']), ('pape', PAPE_NS, ['auth_policies', 'auth_time', 'auth_level.nist']),
       ('one', CUSTOM[0][0], ['a', 'email']), ('zz', SREG_NS[1], ['email', 'fullname'])]
FULL = {'mode': 'fetch_response', 'type.a': TYPES[0], 'count.a': '1', 'value.a.1': 'evil', 'auth_policies': POLICIES[0], 'auth_time': '2020-01-01T00:00:00Z', 'auth_level.nist': '4'}


def change(m, edits):
    a = m.args
    for op, i, j, v in edits or ():
        ext = sorted(k for k in a if k.startswith('openid.') and '.' in k[7:] and not k.startswith('openid.ns.'))
        nss = sorted(k for k in a if k.startswith('openid.ns.'))
        signed = a.get('openid.signed', '').split(',')
        new = NEW[i % len(NEW)]
        if op == 'set' and ext:
            a[ext[i % len(ext)]] = v
        elif op == 'del' and ext:
            del a[ext[i % len(ext)]]
        elif op == 'rename' and ext:
            k = ext[i % len(ext)]
            al, _, tail = k[7:].partition('.')
            a[['openid.%s.%s' % (al, ['email', 'fullname', 'x', 'auth_policies', 'value.a.1', 'update_url'][j % 6]), 'openid.%s.%s' % (NEW[j % len(NEW)][0], tail), 'openid.' + tail,
               k + '.x', 'openid.ns.' + tail][j % 5]] = a.pop(k)
        elif op == 'swap' and len(ext) > 1:
            k, q = ext[i % len(ext)], ext[j % len(ext)]
            a[k], a[q] = a[q], a[k]
        elif op == 'add':
            fs = new[2] if j % 3 else [new[2][j % len(new[2])]]
            for f in fs:
                a['openid.%s.%s' % (new[0], f)] = FULL.get(f, v)
            if j % 2:
                a['openid.ns.' + new[0]] = new[1]
        elif op == 'addns':
            a['openid.ns.' + ['q', new[0], 'sreg', 'ext0'][j % 4]] = URIS[i % len(URIS)]
        elif op == 'claim' and ext:
            a['openid.ns.' + ext[i % len(ext)][7:].partition('.')[0]] = URIS[j % len(URIS)]
        elif op == 'child' and ext:
            # an unsigned field whose name extends (or is a dotted part of) a signed one
            k = ext[i % len(ext)]
            a[k + ['.x', '.1', 'x', '.value'][j % 4]] = v
        elif op == 'trunc' and ext:
            k = ext[i % len(ext)]
            n = len(k) - 1 - j % 3
            if j % 2 and k.count('.') > 2:
                n = k.rindex('.')
            if k[:n].count('.') > 1 and k[:n] not in a:
                a[k[:n]] = v
        elif op == 'nsset' and nss:
            a[nss[i % len(nss)]] = URIS[j % len(URIS)]
        elif op == 'nsdel' and nss:
            del a[nss[i % len(nss)]]
        elif op == 'unsign' and ext:
            k = ext[i % len(ext)]
            a['openid.signed'] = ','.join(x for x in signed if x != k[7:])
            if j % 2:
                a[k] = v
        elif op == 'sign':
            f = new[2][j % len(new[2])]
            a['openid.signed'] = ','.join(signed + ['%s.%s' % (new[0], f)])
            a['openid.%s.%s' % (new[0], f)] = FULL.get(f, v) if j % 4 else ''
        elif op == 'list' and len(signed) > 1:
            x = list(signed)
            x[i % len(x)], x[j % len(x)] = x[j % len(x)], x[i % len(x)]
            a['openid.signed'] = ','.join(x)
        elif op == 'realias' and nss:
            k = nss[i % len(nss)]
            al = k[10:]
            new_al = ['n', 'sreg', 'ax', 'pape'][j % 4]
            for q in [q for q in a if q.startswith('openid.%s.' % al)]:
                a['openid.%s.%s' % (new_al, q[len('openid.%s.' % al):])] = a.pop(q)
            a['openid.ns.' + new_al] = a.pop(k)
        elif op == 'any':
            ks = sorted(k for k in a if k.startswith('openid.'))
            if ks:
                a[ks[i % len(ks)]] = v


PROP = C20()
