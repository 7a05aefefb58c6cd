"""C19: assertions go to addresses inside the realm; return addresses are
verified by the realm's own document only."""
import html
import re

from .. import docs, realm as R
from ..gen import gen_op
from ..kernel import SimCrash, Violation
from ..net import Reply, gen_fault
from ..provider import ProviderWorld
from ..world import NS2, Indirect
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec
from .c14 import where

HOSTS = ['rp0.example', 'rp1.example', 'shop.rp0.example', 'a.b.rp0.example', 'evil.example', 'xrp0.example', 'rp0.example.evil.example', 'co.uk', 'example']
PATHS = ['/', '/done', '/done/', '/a/b', '/a/b/', '/a', '/doneX', '/done/x', '/a?x=1', '/?x', '/a?x=1&y=2', '', '/%64one', '/a/../done', '/done;v=1', '/?x=1', '/a?x']


class C19(Prop):
    id = 'C19'
    runs = {'quick': 12000, 'thorough': 500000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('a request is accepted only if an independent reading finds its return address inside its realm, and accepted if it plainly is; '
            'returnToVerified is true only if the document finally served from the realm\'s own discovery address, without redirects, lists a '
            'matching address, true if it plainly does, and raises only the documented errors')
    state_measure = 'hash of (relation of realm and return address, wildcard, request accepted, document kind, faults hit, result of verification)'
    assumptions = ['a redirect to a differently spelled form of the same address counts either way',
                   'addresses whose reading is disputable (user information, encoded hosts, fragments) are judged for soundness by the host a browser would go to']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        op = gen_op(rng, 0, stores=['mem', 'file'], skew=False)
        op['policy'] = None
        rs = [gen_realm(rng) for _ in range(rng.choice([1, 2, 3]))]
        rts = [gen_rt(rng, rng.choice(rs)) for _ in range(rng.choice([2, 3, 5]))]

        def site():
            r = rng.choice(rs)
            listing = [rng.choice(rts + rs + [gen_rt(rng, r), r]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            st = dict(s='site', realm=r, kind=rng.choice(['yadis', 'yadis', 'nego', 'header', 'meta', 'html', 'gone', 'redirect', 'redirect', 'away']),
                      listing=listing, type=rng.choice([0, 0, 0, 0, 1, 2]))
            if st['kind'] in ('redirect', 'away'):
                st['to'] = rng.choice(['http://evil.example/list', 'http://rp0.example/list', 'https://rp0.example/list', r + '?moved', r + 'x', r,
                                       r.replace('http:', 'https:'), r.replace('*.', ''), r.replace('*', 'www'), '/list', ''])
            return st

        def ask():
            st = dict(s='ask', realm=rng.choice(rs), rt=rng.choice(rts), v2=rng.random() < 0.7, imm=rng.random() < 0.2, w=rng.randrange(3),
                      verify=rng.random() < 0.7)
            if rng.random() < 0.1:
                st['realm'] = None
            if rng.random() < 0.3:
                st['net'] = [gen_fault(rng, n=rng.choice([0, 0, 1, 2]), kinds=['refuse', 'lost', 'delay', 'status', 'garbage', 'truncate', 'mutate', 'header'])]
            return st
        steps = [site() for _ in rs if rng.random() < 0.9]
        for _ in range(rng.choice([2, 4, 6])):
            k = rng.random()
            if k < 0.75:
                steps.append(ask())
            elif k < 0.87:
                steps.append(site())
            else:
                steps.append(dict(s='par', tasks=[[ask()], [ask()], [site()]]))
        return dict(world=dict(ops=[op]), steps=steps, sched=sched_spec(rng))

    shrink_lists = ['steps', 'steps.*.tasks', 'steps.*.tasks.*', 'steps.*.net', 'steps.*.listing']

    def execute(self, plan, env):
        with env.sim(max_steps=2000000) as sim:
            w = RealmWorld(sim, plan['world'])
            w.run(plan['steps'])
            for r in w.asked:
                env.checks += 1
                self.judge(sim, w, r)
            w.close()

    def judge(self, sim, w, r):
        st = r['step']
        realm, rt = st['realm'] or st['rt'], st['rt']
        rel = R.inside(realm, rt)
        kinds = tuple(sorted({e['fault'] for e in r['trace'] if e['fault']}))
        sim.state(rel, realm.split('//')[-1].startswith('*'), r['req'], type(r['error']).__name__, tuple(e.get('kind') for e in r['trace']), kinds, r['verified'],
                  type(r['verify_exc']).__name__)
        for k in ('req', 'verified'):
            if r[k]:
                sim.probe('accepted' if k == 'req' else k)
        what = 'realm %r, return address %r: ' % (realm, rt)
        if r['escaped'] is not None:
            raise Violation('escaped:%s:%s' % (type(r['escaped']).__name__, where(r['escaped'])), what + 'raised %r' % (r['escaped'],))
        if r['req']:
            if rel is False:
                raise Violation('outside', what + 'accepted although the address is outside the realm')
        elif rel is True:
            raise Violation('refused', what + 'refused (%r) although the address is inside the realm' % (r['error'],))
        if r['msg'] is not None and 'openid.sig' in r['msg'].args:
            if rel is False or not r['msg'].url.startswith(rt):
                raise Violation('released', what + 'a positive assertion was sent to %r' % r['msg'].url)
        e = r['verify_exc']
        if e is not None and type(e).__name__ not in ('DiscoveryFailure', 'HTTPFetchingError'):
            raise Violation('verify-escaped:%s:%s' % (type(e).__name__, where(e)), what + 'returnToVerified raised %r' % (e,))
        if not st['verify'] or not r['req']:
            return
        own = R.discovery_url(realm)
        docs_got = [x for x in r['trace'] if x['got'] is not None]
        if r['verified']:
            if not docs_got or r['trace'][-1] is not docs_got[-1]:
                raise Violation('verified-nothing', what + 'reported as verified although no document arrived')
            first = R.parse(r['trace'][0]['url'])
            if own is not None and (first is None or R.same(first)[:4] != own[:4]):
                raise Violation('wrong-document', what + 'verified by a document at %r' % r['trace'][0]['url'])
            i = 0
            while i < len(r['trace']) and r['trace'][i]['got'].status in (301, 302, 303, 307) and 'location' in r['trace'][i]['got'].headers:
                i += 1
            fin = R.parse(r['trace'][i]['url'])
            if own is not None and fin is not None and R.same(fin) != own and (own[4] or fin.query or R.same(fin)[:4] != own[:4]):
                raise Violation('redirected', what + 'verified by %r after a redirect' % r['trace'][i]['url'])
            body = r['trace'][-1]['got'].body
            if r['trace'][-1]['got'].status not in (200, 206):
                raise Violation('bad-status', what + 'verified by a document with status %s' % r['trace'][-1]['got'].status)
            if not any(R.inside(u, rt) is not False and not wildcard(u) for u in listed(body)):
                raise Violation('not-listed', what + 'verified although the document lists only %r' % (listed(body),))
        else:
            t = r['trace']
            site = r['site']
            if site is not None and rel is True and realm.startswith('http') and site['kind'] in ('yadis', 'nego', 'header', 'meta') and site['type'] != 1 and not any(x['fault'] for x in t) \
                    and any(R.inside(u, rt) is True and not wildcard(u) for u in site['listing']):
                raise Violation('not-verified', what + 'not verified (%r) although the document at %s lists %r; fetched %r' % (
                    e, R.discovery_url(realm), site['listing'], [x['url'] for x in t]))
            if e is None and rel is True and len(t) and not any(x['fault'] for x in t) and t[0]['got'].status == 200 and t[-1]['got'].status == 200:
                # nothing disturbed the check and nothing was redirected
                if any(x['got'].status != 200 for x in t):
                    return
                if any(R.inside(u, rt) is True and not wildcard(u) for u in listed(t[-1]['got'].body, True)):
                    raise Violation('not-verified', what + 'reported as not verified although the document lists %r' % (listed(t[-1]['got'].body),))
            if e is not None and t and not any(x['fault'] for x in t) and t[-1]['got'] is not None and t[-1]['got'].status == 200 \
                    and t[-1]['got'].headers.get('content-type') == docs.XRDS_CT:
                raise Violation('verify-failed', what + 'returnToVerified raised %r although nothing failed' % (e,))


def wildcard(u):
    p = R.parse(u)
    return p is not None and p.host.startswith('*')


def listed(body, exact=False):
    """Return addresses a document lists, by a lenient reading."""
    text = body.decode('utf-8', 'replace')
    out = []
    for svc in re.findall(r'<Service.*?</Service>', text, re.S):
        types = [html.unescape(t).strip() for t in re.findall(r'<Type[^>]*>([^<]*)</Type>', svc)]
        if docs.RP_TYPE in types:
            out += [html.unescape(u) if exact else html.unescape(u).strip() for u in re.findall(r'<URI[^>]*>([^<]*)</URI>', svc)]
    return out


class RealmWorld(ProviderWorld):
    def __init__(self, sim, cfg):
        ProviderWorld.__init__(self, sim, cfg)
        self.asked = []
        self.sites = {}
        for h in HOSTS:
            for x in (h, 'www.' + h):
                for port in ('', ':8080', ':80', ':443', ':81', ':080'):
                    self.net.host(x + port, self.serve_site)

    def s_site(self, st):
        key = R.discovery_url(st['realm'])
        if key is not None:
            self.sites[key] = st

    def serve_site(self, method, url, body, headers, fault):
        p = R.parse(url)
        if p is None:
            return None
        if p.path == '/list' or p.query == 'xrds' or p.query and p.query.endswith('&xrds'):
            key = R.same(p)
            sites = [s for k, s in sorted(self.sites.items())]
            if p.path == '/list':
                # the listing somebody else publishes
                sites = [s for s in sites if s['kind'] in ('redirect', 'away')]
                sv = [self.xml(s) for s in sites]
                return Reply(200, {'content-type': docs.XRDS_CT}, docs.xrds(sv))
            q = p.query[:-4].rstrip('&')
            s = self.sites.get(key[:4] + (q,))
            if s is None:
                return None
            return Reply(200, {'content-type': docs.XRDS_CT}, docs.xrds([self.xml(s)]))
        s = self.sites.get(R.same(p))
        if s is None:
            return None
        ct = {'content-type': 'text/html; charset=utf-8'}
        page = docs.html([], [], body='shop')
        loc = url + ('&' if '?' in url else '?') + 'xrds'
        k = s['kind']
        if k == 'nego':
            k = 'yadis' if 'xrds+xml' in (headers.get('Accept') or '') else 'html'
        if k == 'yadis':
            return Reply(200, {'content-type': docs.XRDS_CT}, docs.xrds([self.xml(s)]))
        if k == 'header':
            return Reply(200, dict(ct, **{'x-xrds-location': loc}), page)
        if k == 'meta':
            return Reply(200, ct, docs.html([], [], extra='<meta http-equiv="X-XRDS-Location" content="%s">' % docs.escape(loc)))
        if k == 'html':
            return Reply(200, ct, page)
        if k == 'redirect':
            return Reply(302, {'location': s['to']}, '')
        if k == 'away':             # the page names a document elsewhere: allowed
            return Reply(200, dict(ct, **{'x-xrds-location': s['to']}), page)
        return None

    def xml(self, s):
        types = [[docs.RP_TYPE], ['http://specs.openid.net/auth/2.0/signon'], [docs.RP_TYPE, 'http://x.example/t']][s.get('type', 0)]
        return docs.service_xml(dict(ver=types[0], extra=types[1:], prio=None), [u for u in s['listing'] if not re.search('[\x00-\x1f\ufffe\uffff]', u)])

    def s_ask(self, st):
        from openid.server import server
        op = self.ops[0]
        args = {'openid.mode': 'checkid_immediate' if st['imm'] else 'checkid_setup', 'openid.identity': 'http://op0.example/u/me',
                'openid.return_to': st['rt']}
        if st['v2']:
            args['openid.ns'] = NS2
            args['openid.claimed_id'] = 'http://op0.example/u/me'
        if st['realm'] is not None:
            args['openid.realm' if st['v2'] else 'openid.trust_root'] = st['realm']
        rec = dict(step=st, req=False, error=None, escaped=None, verified=None, verify_exc=None, msg=None, trace=[], site=None)
        if self.sim.task is None:
            rec['site'] = self.sites.get(R.discovery_url(st['realm'] or st['rt']))
        self.asked.append(rec)
        node = op.pick(st.get('w'))
        ev = dict(kind='ask')
        try:
            with self.sim.as_node(node) as ctx:
                ctx.net_faults = st.get('net')
                ctx.ev = ev
                self.sim.point('http', 'op ' + op.name)
                s = op.server(node)
                try:
                    req = s.decodeRequest(args)
                    rec['req'] = True
                    if st['verify']:
                        try:
                            rec['verified'] = req.returnToVerified()
                        except SimCrash:
                            raise
                        except Exception as why:
                            rec['verify_exc'] = why
                    web = s.encodeResponse(req.answer(True))
                    rec['msg'] = Indirect.redirect(web.headers['location']) if web.code == 302 else Indirect.form(web.body)
                except server.ProtocolError as why:
                    rec['error'] = why
        except SimCrash:
            raise
        except Exception as why:
            rec['escaped'] = why
        rec['trace'] = [e for e in self.net.trace if e['ev'] is ev]
        self.sim.log('ask', rec['req'], rec['verified'], type(rec['verify_exc']).__name__)


def gen_realm(rng):
    k = rng.random()
    if k < 0.06:
        return rng.choice(['http://*/', 'http://rp0.*/', 'http://*rp0.example/', 'ftp://rp0.example/', 'http://rp0.example/#f', '', 'rp0.example', 'http://a.*.rp0.example/',
                           'http://rp0.example:99999/', 'http://[::1]/', 'http://u@rp0.example/', 'http://RP0.example/', 'http://*.*.rp0.example/', 'http://rp0.example/\n'])
    host = rng.choice(HOSTS[:4] if rng.random() < 0.8 else HOSTS)
    if rng.random() < 0.35:
        host = '*.' + host
    port = rng.choice(['', '', '', ':8080', ':80', ':443'])
    return rng.choice(['http', 'http', 'https']) + '://' + host + port + rng.choice(PATHS)


def gen_rt(rng, realm):
    """A return address related to a realm in some way."""
    base = realm.replace('*.', rng.choice(['', 'www.', 'shop.', 'a.b.']), 1) if '*.' in realm else realm
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        k = rng.randrange(24)
        m = re.match(r'(\w+)://([^/?]*)(.*)\Z', base, re.S)
        if not m:
            return base
        sch, hp, rest = m.groups()
        host, c, port = hp.partition(':')
        if k == 0:
            base = base + rng.choice(['x', '/x', '?q=1', '&q=1', '#f', '/', '/../x', '/../../x', '%2f', '/.', '//x'])
        elif k == 1:
            sch = {'http': 'https', 'https': 'http'}.get(sch, sch)
            base = sch + '://' + hp + rest
        elif k == 2:
            base = sch + '://' + host + rng.choice(['', ':80', ':443', ':8080', ':81', ':', ':080', ':65536', ':x']) + rest
        elif k == 3:
            base = sch + '://' + rng.choice(['x', 'x.', 'evil.example.', 'www.', '*.', 'x%2e', 'x%40', '.', 'X-']) + hp + rest
        elif k == 4:
            base = sch + '://' + host + rng.choice(['.evil.example', 'x', '.', '%2eevil.example', '@evil.example', '\\@evil.example', '%00', '%2f.evil.example',
                                                    '#.evil.example', '?.evil.example', ';.evil.example', '\u3002evil.example', '\t.evil.example']) + (':' + port if c else '') + rest
        elif k == 5:
            base = sch + '://' + rng.choice(['evil.example@', 'evil.example\\@', 'evil.example#@', 'evil.example?@', 'evil.example/@', 'u:p@', 'evil.example%40',
                                             'evil.example%2f@', 'evil.example:80@', 'evil.example:80\\@', 'evil.example\x0b@', 'evil.example%5c@']) + hp + rest
        elif k == 6:
            base = sch + rng.choice([':', ':/', ':///', ':\\\\', '://\\', '://', '%3a//']) + hp + rest
        elif k == 7:
            base = sch + '://' + hp + rng.choice(PATHS)
        elif k == 8:
            base = sch + '://' + rng.choice(HOSTS) + (':' + port if c else '') + rest
        elif k == 9:
            base = base.swapcase()
        elif k == 10:
            base = sch.upper() + '://' + host.upper() + (':' + port if c else '') + rest
        elif k == 11:
            base = sch + '://' + hp + rest.replace('/', rng.choice(['//', '/./', '/x/../', '\\', '%2f', '/%2e/', '/%2e%2e/', '/..\\']), 1)
        elif k == 12:
            base = rng.choice([' ', '\t', '\n', '\x00', '\u00a0']) + base
        elif k == 13:
            base = base + rng.choice([' ', '\t', '\n', '\x00', '\u00e9', '%', '%zz', '\\'])
        elif k == 14:
            base = sch + '://' + host.partition('.')[2] + (':' + port if c else '') + rest
        elif k == 15:
            base = 'http://evil.example/?' + base
        elif k == 16:
            base = base.rstrip('/')
        elif k == 17:
            base = base.rpartition('/')[0]
        elif k == 18:
            base = sch + '://' + host.replace('e', '%65', 1) + (':' + port if c else '') + rest
        elif k == 19:
            base = base + rng.choice(['?openid.mode=x', '?x=1&x=2', '?a=b&openid.ns=z'])
        else:
            if k >= 22:
                base = base + rng.choice(['x', '/x', '?x', '&x', ';x', '=x', '.x', '-x', '&x=1', '?x=1'])
            else:
                base = base.rstrip('/') + rng.choice(['/deep', '/deep/er?x=1', '/', '?ok=1'])
    return base


PROP = C19()
