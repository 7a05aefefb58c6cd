"""C17: discovery yields exactly what the identifier's own documents say."""
import re
from collections import Counter
from html import escape, unescape
from urllib.parse import unquote, unquote_to_bytes, urljoin, urlsplit

from .. import docs
from ..gen import gen_rp
from ..kernel import SimCrash, Violation
from ..net import Reply, gen_fault
from ..world import World, parse_query
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec
from .c14 import where

INF = float('inf')
OPENID = list(docs.TYPE.values())
QTYPES = [docs.TYPE[k] for k in ('op', '2', '1.1', '1.0')]
HOSTS = ['id0.example', 'id1.example', 'xn--bcher-kva.example', 'docs.example']
SHAPES = ['/', '/', '/alice', '/bob', '/?alice', '/?bob', '/?alice=', '/?user=alice', '/?user=bob', '/?user=&x', '/?user=alice&b=1', '/a%2Fb', '/a/b', '/%FF', '/%FE',
          '/caf%C3%A9', '/a%20b', '/a+b', '/?a+b', '/?a%2Bb', '/?x=%26y', '/?x=&y', '/alice/', '/Alice', '/a;b', '/~u', '/a%25b', '/a%252Fb', '/?u=a%3Db', '/?u=a=b', '/a%3Fb',
          '/?q=http://x/y', '/?x=1&x=2', '/?x=2&x=1', '/a%23b', '/a/b/', '/?%FF', '/?%FE', '/?a&b', '/?ab', '/?&', '/x/%2E/y', '/a//b']
XRIS = ['=alice', '=bob', '@corp', '@corp*user', '=a*b', '=caf\u00e9', '=alice/x', '(http://x.example/y)', '=a%b', '!1', '+tag', '=alice*b']
IDN = 'http://b\u00fccher.example'


def key(url):
    """What resource a URL names: two spellings of one resource get one key."""
    m = re.match(r'(https?)://([^/?#]*)([^?#]*)(?:\?([^#]*))?(?:#.*)?\Z', url, re.I | re.S)
    if not m:
        return None
    scheme = m.group(1).lower()
    host, _, port = m.group(2).partition(':')
    try:
        host = unquote(host).lower().encode('idna').decode()
        port = int(port or {'http': 80, 'https': 443}[scheme])
        if not 0 < port < 65536:
            return None
    except ValueError:
        return None
    segs = []
    raw = [unquote_to_bytes(s) for s in (m.group(3) or '/').split('/')[1:]]
    for i, s in enumerate(raw):
        if s in (b'.', b'..'):
            if s == b'..' and segs:
                segs.pop()
            if i == len(raw) - 1:
                segs.append(b'')
        else:
            segs.append(s)
    q = tuple(tuple(unquote_to_bytes(c.replace('+', ' ')) for c in a.split('=', 1)) for a in m.group(4).split('&')) if m.group(4) else None
    return scheme, host, port, tuple(segs or [b'']), q


class C17(Prop):
    id = 'C17'
    runs = {'quick': 12000, 'thorough': 500000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('the result of each discovery is recomputed from the documents that arrived during that very call, with the services they were generated '
            'from: same services, same order up to equal priorities, bound to the identifier finally resolved; the documents have to be fetched '
            'from the places the identifier and the documents name')
    state_measure = 'hash of (way to the document, fetches, statuses, faults, services found, error)'
    assumptions = ['an HTML page cut or altered in transit cannot be recognised: only membership of its services is judged then',
                   'a resource may be asked for in any equivalent spelling of its URL',
                   'an XRI proxy that answers a query with an error status has no services of that type']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        urls = []
        base = rng.choice(['http://id0.example', 'http://id0.example', 'https://id0.example', 'http://id0.example:8080', IDN])
        for _ in range(rng.choice([1, 2, 3, 4])):
            b = base if rng.random() < 0.7 else rng.choice(['http://id0.example', 'https://id0.example', 'http://id1.example', 'http://id0.example:8080'])
            urls.append(b + rng.choice(SHAPES))
        xris = [rng.choice(XRIS) for _ in range(rng.choice([0, 0, 0, 1, 2]))]

        def site():
            if xris and rng.random() < 0.4:
                return dict(s='xri', iname=rng.choice(xris), docs=[gen_xri_doc(rng, xris) for _ in range(rng.choice([1, 1, 1, 4]))], sep=rng.random() < 0.7)
            st = dict(s='site', url=rng.choice(urls), kind=rng.choice(['yadis', 'yadis', 'yadis-cs', 'nego', 'header', 'header', 'meta', 'meta', 'both', 'html', 'html', 'xml', 'redirect',
                                                                         'redirect', 'gone']))
            st['xrds'] = gen_xrds(rng)
            st['html'] = gen_html(rng)
            st['loc'] = rng.choice(['http://id0.example/xrds/', 'http://docs.example/', 'https://docs.example/d?'])
            st['ct'] = rng.choice(['text/html; charset=utf-8', 'text/html', 'text/HTML;charset=UTF-8', 'application/xhtml+xml', 'text/plain', None])
            if st['kind'] in ('header', 'meta', 'both') and rng.random() < 0.1:
                st['loc2'] = rng.choice([st['url'], 'http://nowhere.example/x', 'http://docs.example/none', 'http://[bad', 'ftp://docs.example/'])
            if st['kind'] in ('header', 'meta', 'both') and 'loc2' not in st and rng.random() < 0.2:
                st['hop'] = rng.choice(['http://docs.example/real/%d', 'http://id1.example/real?%d', '/real%d', rng.choice(urls).replace('%', '%%') + '#%d'])
            if st['kind'] == 'redirect':
                st['to'] = spell(rng, rng.choice(urls), True)
                if rng.random() < 0.2:
                    st['to'] = rng.choice(['/alice', '?bob', 'alice', '//id1.example/', 'http://nowhere.example/', 'ftp://x.example/', '#x', ''])
                st['status'] = rng.choice([301, 302, 303, 307])
            return st

        def disc():
            u = rng.choice(xris) if xris and rng.random() < 0.4 else rng.choice(urls)
            if u in xris:
                ident = rng.choice(['', '', 'xri://']) + u
            else:
                ident = spell(rng, u)
            if rng.random() < 0.03:
                ident = rng.choice(['', 'http://', 'http://[bad', 'ftp://x.example/', 'http://id0.example:x/', 'http:///', 'https://', '#', '?', '(foo', 'xri://', '=', 'http://id0.example/a b',
                                    'http://id0.example/\u00e9', 'mailto:x@y', 'http://id0.example/%zz', 'http://id0.example:99999/', 'http://-.example/', 'http://id0..example/'])
            st = dict(s='disc', ident=ident, w=rng.randrange(3))
            if rng.random() < 0.3:
                st['net'] = [gen_fault(rng, n=rng.choice([0, 0, 1, 1, 2, 3]), kinds=['refuse', 'lost', 'dup', 'delay', 'status', 'garbage', 'truncate', 'truncate', 'mutate', 'header'])
                             for _ in range(rng.choice([1, 1, 2]))]
            return st
        steps = []
        for u in sorted(set(urls)):
            st = site()
            if st['s'] == 'site':
                st['url'] = u
            steps.append(st)
        for x in sorted(set(xris)):
            steps.append(dict(s='xri', iname=x, docs=[gen_xri_doc(rng, [x]) for _ in range(rng.choice([1, 1, 4]))], sep=rng.random() < 0.7))
        for _ in range(rng.choice([2, 4, 6])):
            k = rng.random()
            if k < 0.7:
                steps.append(disc())
            elif k < 0.8:
                steps.append(site())
            else:
                steps.append(dict(s='par', tasks=[[disc() for _ in range(rng.choice([1, 2]))], [disc()], [site(), site()]]))
        return dict(world=dict(rps=[gen_rp(rng, 0, stores=['mem'], skew=False)]), steps=steps, sched=sched_spec(rng))

    shrink_lists = ['steps', 'steps.*.tasks', 'steps.*.tasks.*', 'steps.*.net', 'steps.*.docs', 'steps.*.html.head', 'steps.*.html.body', 'steps.*.xrds.xrds',
                    'steps.*.xrds.xrds.*.services', 'steps.*.docs.*.xrds', 'steps.*.docs.*.xrds.*.services']

    def execute(self, plan, env):
        with env.sim(max_steps=2000000) as sim:
            w = DiscWorld(sim, plan['world'])
            w.run(plan['steps'])
            names = {}
            for r in w.found:
                env.checks += 1
                self.judge(sim, w, r, names)
            w.close()

    def judge(self, sim, w, r, names):
        ident = r['step']['ident']
        t = r['trace']
        e = r['exc']
        what = 'identifier %r: ' % ident
        sim.state(len(t), tuple((x['got'].status, x['fault']) if x['got'] else x['fault'] for x in t), tuple(w.kind(x) for x in t), type(e).__name__,
                  len(r['services'] or ()))
        if e is not None and type(e).__name__ not in ('DiscoveryFailure', 'HTTPFetchingError'):
            raise Violation('escaped:%s:%s' % (type(e).__name__, where(e)), what + 'discovery raised %r' % (e,))
        xri = ident.startswith('xri://') or ident[:1] in tuple('!=@+$(')
        if xri:
            iname = ident[6:] if ident.startswith('xri://') else ident
            if not re.match(r'[=@!+][\w*!./%]+\Z|\([^()]+\)\Z', iname):
                return
            exp = Xri(w, iname, t)
        else:
            url = ident if re.match(r'\w+://.', ident) else 'http://' + ident
            k = key(url)
            if k is None or not re.match(r"[\w.]+\Z", k[1]) or re.search(r'[\s\x00-\x20]|%(?![0-9A-Fa-f]{2})', url):
                return
            exp = Url(w, url, t)
        try:
            exp.walk()
        except Mismatch as why:
            raise Violation(why.args[0], what + why.args[1] + '; fetched %r' % ([x['url'] for x in t],))
        except Fail as why:
            if why.args[0] == 'weak':
                sim.probe('weak')
                self.weak(what, r, t)
                return
            if e is None:
                raise Violation('no-failure', what + 'discovery yields %r although %s' % (r['services'], why.args[0]))
            sim.probe('failed')
            return
        if e is not None:
            raise Violation('failed:%s' % type(e).__name__, what + 'discovery raised %r although all its documents arrived: %r' % (e, [x['url'] for x in t]))
        got = r['services']
        if xri:
            if r['claimed'] != iname:
                raise Violation('claimed', what + 'resolved as %r' % (r['claimed'],))
            cid = exp.canonical
        else:
            cid = r['claimed']
            if '#' in cid or key(cid) != key(exp.final):
                raise Violation('claimed', what + 'resolved as %r although it led to %r' % (cid, exp.final))
            if names.setdefault(key(cid), cid) != cid:
                raise Violation('claimed-spelling', what + 'resolved as %r, earlier as %r' % (cid, names[key(cid)]))
        want = Counter()
        slots = {}
        for s in exp.services:
            op = docs.TYPE['op'] in s['types']
            tup = (s['uri'], tuple(s['types']), None if op else s['local'], cid if xri or not op else None, cid if xri else None)
            want[tup] += 1
            slots.setdefault(tup, []).append(((not op,) + s['key'], s['svc'], s['up']))
        have = Counter(got)
        if have != want:
            missing, extra = list((want - have).elements()), list((have - want).elements())
            cls = 'services:' + ('missing' if missing and not extra else 'extra' if extra and not missing else 'differ')
            raise Violation(cls, what + 'missing %r, not declared %r' % (missing, extra))
        if got:
            sim.probe('services')
        if len(got) > 1:
            sim.probe('several')
        for v in slots.values():
            v.sort()
        last = None
        upr = {}
        for g in got:
            kk, svc, up = slots[g].pop(0)
            if last is not None and kk < last:
                raise Violation('order', what + 'services come in the wrong order: %r' % (got,))
            last = kk
            if want[g] > 1:
                continue
            if upr.get((kk, svc), -1) > up:
                raise Violation('uri-order', what + 'addresses of one service come in the wrong order: %r' % (got,))
            upr[(kk, svc)] = up

    def weak(self, what, r, t):
        """An altered page: what came out has to be in what arrived."""
        if r['exc'] is not None:
            return
        text = ''.join(unescape(x['got'].body.decode('utf-8', 'replace') + x['got'].body.decode('latin-1')) for x in t if x['got'] is not None)
        for s in r['services']:
            if s[0] not in text and re.search(r'[^\x21-\x7e]', s[0]) is None:
                raise Violation('foreign', what + 'endpoint %r is in none of the documents that arrived' % (s[0],))
            if s[2] and s[2] not in text and re.search(r'[^\x21-\x7e]', s[2]) is None:
                raise Violation('foreign-local', what + 'local identifier %r is in none of the documents that arrived' % (s[2],))


class Mismatch(Exception):
    pass


class Fail(Exception):
    pass


class Walk(object):
    def __init__(self, w, ident, t):
        self.w, self.ident, self.t, self.i = w, ident, list(t), 0

    def fetch(self, url, accept=None):
        """The library's fetch of url: (final url, reply)."""
        if not re.match('(?i)https?://', url):
            raise Fail('the document address %r is not fetchable' % url)
        for hop in range(10):
            if self.i >= len(self.t):
                raise Mismatch('not-fetched', 'no document was fetched from %r' % url)
            x = self.t[self.i]
            self.i += 1
            if key(x['url']) != key(url) and x['url'] != url:
                raise Mismatch('wrong-fetch', 'a document was fetched from %r instead of %r' % (x['url'], url))
            a = 'xrds+xml' in (x['headers'].get('Accept') or x['headers'].get('accept') or '')
            if accept is not None and a != accept:
                raise Mismatch('accept', '%r was fetched with%s asking for an XRDS document' % (url, '' if a else 'out'))
            g = x['got']
            if g is None:
                raise Fail('fetching %s failed' % url)
            if g.status in (301, 302, 303, 307) and 'location' in g.headers:
                url = urljoin(x['url'], g.headers['location'])
                if not re.match('(?i)https?://', url):
                    raise Fail('redirected to %r' % url)
                continue
            if g.status not in (200, 206):
                raise Fail('the answer from %s has status %s' % (url, g.status))
            return x['url'], x
        raise Fail('too many redirects')

    def doc(self, x):
        """Spec of the document in a reply; raises Fail('weak') if altered."""
        d = self.w.registry.get(x['got'].body)
        if d is not None:
            return d
        if x['fault'] == 'truncate' and x['reply'].body.startswith(b'<?xml'):
            return dict(kind='junk')
        raise Fail('weak')


def svc_list(xrd, q=0):
    out = []
    for n, s in enumerate(xrd['services']):
        if s.get('ns'):
            continue
        types = [t for t in s['types'] if t]
        if not any(t in OPENID for t in types):
            continue
        loc = None
        if docs.TYPE['op'] not in types and [u for u in s['uris'] if u[0].startswith('http')]:
            names = []
            if docs.TYPE['1.1'] in types or docs.TYPE['1.0'] in types:
                names.append('openid:Delegate')
            if docs.TYPE['2'] in types:
                names.append('LocalID')
            vals = {v for nm, v in s['tags'] if nm in names}
            if len(vals) > 1:
                raise Fail('a service has several local identifiers')
            loc = vals.pop() if vals else None
        for u, up in s['uris']:
            if u.startswith('http'):
                out.append(dict(uri=u, types=types, local=loc, key=(q, prio(s['prio'])), svc=(q, n), up=prio(up)))
    return out


def prio(p):
    return INF if p is None or not re.match(r'\d+\Z', str(p)) else int(p)


class Url(Walk):
    def walk(self):
        self.final, x = self.fetch(self.ident, True)
        first = self.final
        ct = x['got'].headers.get('content-type')
        loc = None
        isx = bool(ct) and ct.split(';', 1)[0].lower() == docs.XRDS_CT
        if not isx:
            loc = x['got'].headers.get('x-xrds-location')
            if loc == '':
                raise Fail('weak')
            if not loc:
                d = self.doc(x)
                if d['kind'] == 'html':
                    metas = [m for m in d['head'] if m[0] == 'meta']
                    if metas:
                        if not re.match(r'(text/html|application/xhtml\+xml|text/plain)(; ?charset=utf-8)?\Z', ct or 'text/html', re.I):
                            raise Fail('weak')
                        loc = metas[0][1]
        moved = False
        if loc and loc != first:
            moved = True
            _, x = self.fetch(loc)
            ct = x['got'].headers.get('content-type')
        d = self.doc(x)
        self.services = []
        if d['kind'] == 'xrds' and d['xrds']:
            self.services = svc_list(d['xrds'][-1])
        if self.services:
            return
        if moved or ct == docs.XRDS_CT:
            self.final, x = self.fetch(self.ident, False)
            self.html(self.doc(x))
        elif isx and d['kind'] == 'html':
            self.html(d)
        else:
            self.html(d)

    def html(self, d):
        if d['kind'] != 'html':
            return
        links = [i for i in d['head'] if i[0] == 'link']

        def first(rel):
            for i in links:
                if rel in i[1].split():
                    return i[2]
        for n, (t, prov, local) in enumerate((('2', 'openid2.provider', 'openid2.local_id'), ('1.1', 'openid.server', 'openid.delegate'))):
            u = first(prov)
            if u and u.startswith('http'):
                self.services.append(dict(uri=u, types=[docs.TYPE[t]], local=first(local), key=(n, 0), svc=n, up=0))


class Xri(Walk):
    def walk(self):
        self.services = []
        self.canonical = None
        ids = set()
        lists = []
        bad = False
        for q, t in enumerate(QTYPES):
            if self.i >= len(self.t):
                raise Mismatch('not-fetched', 'the proxy was not asked for services of type %s' % t)
            x = self.t[self.i]
            self.i += 1
            p = urlsplit(x['url'])
            if p.netloc != 'proxy.xri.net' or unquote(p.path[1:]).replace('%25', '%') != self.ident or parse_query(p.query).get('_xrd_t') != t:
                raise Mismatch('wrong-fetch', 'unexpected request %r' % x['url'])
            g = x['got']
            if g is None:
                raise Fail('fetching from the proxy failed')
            if g.status not in (200, 206):
                continue
            d = self.doc(x)
            try:
                if d['kind'] != 'xrds' or not d['xrds']:
                    raise ValueError
                c = self.authority(d['xrds'])
            except ValueError:
                bad = True
                break
            lists.append((d['xrds'][-1], q))
            if any(not s.get('ns') for s in d['xrds'][-1]['services']):
                ids.add(c)
                if len(ids) > 1:        # parts of different identities
                    break
        if bad or len(ids) != 1 or None in ids:
            return
        self.canonical = ids.pop()
        for x, q in lists:
            self.services += svc_list(x, q)

    def authority(self, xrds):
        """CanonicalID of the last XRD, vouched for by its parents."""
        c = xrds[-1].get('canonical')
        if not c:
            return None
        child = c.lower()
        for x in reversed(xrds[:-1]):
            parent = (x.get('canonical') or '').lower()
            if '!' not in child or child[:child.rindex('!')] != parent:
                raise ValueError
            child = parent
        root = self.ident[:self.ident.index(')') + 1] if self.ident.startswith('(') else self.ident[0]
        if '!' not in child or child[:child.rindex('!')] != root:
            raise ValueError
        return 'xri://' + c


class DiscWorld(World):
    def __init__(self, sim, cfg):
        World.__init__(self, sim, cfg)
        self.found = []
        self.sites = {}
        self.locs = {}
        self.xris = {}
        self.registry = {b'': dict(kind='junk'), b'error': dict(kind='junk')}
        self.n = 0
        for h in HOSTS:
            for port in ('', ':80', ':443', ':8080'):
                self.net.host(h + port, self.serve_site)
        self.net.host('proxy.xri.net', self.serve_xri)

    def kind(self, x):
        d = self.registry.get(x['got'].body) if x['got'] is not None else None
        return d and d['kind']

    def add(self, body, spec):
        self.registry[body] = spec
        return body

    def s_site(self, st):
        self.n += 1
        loc = st.get('loc2') or st['loc'] + str(self.n)
        pub = dict(st, loc=loc, xrds_body=self.add(render_xrds(st['xrds'], self.n), dict(st['xrds'], kind='xrds')))
        head = [i for i in st['html']['head'] if i[0] != 'meta']
        if st['kind'] in ('meta', 'both'):
            m = st['html'].get('metapos', 0) % (len(head) + 1)
            there = loc if st['kind'] == 'meta' else 'http://docs.example/not-here'
            head = head[:m] + [['meta', there, st['html'].get('mstyle', 0)]] + head[m:]
        spec = dict(st['html'], head=head, kind='html')
        pub['html_body'] = self.add(render_html(spec, self.n), spec)
        self.sites[key(st['url'])] = pub
        self.locs[key(loc)] = pub
        if st.get('hop'):
            there = urljoin(loc, st['hop'] % self.n)
            self.locs[key(loc)] = dict(hop=st['hop'] % self.n, status=302)
            if key(there) not in self.sites:
                self.locs[key(there)] = pub

    def s_xri(self, st):
        pub = dict(st, bodies=[])
        for q, t in enumerate(QTYPES):
            self.n += 1
            d = st['docs'][q % len(st['docs'])]
            if st['sep'] and d['xrds']:
                last = d['xrds'][-1]
                d = dict(d, xrds=d['xrds'][:-1] + [dict(last, services=[s for s in last['services'] if t in s['types']])])
            pub['bodies'].append(self.add(render_xrds(d, self.n), dict(d, kind='xrds')))
        self.xris[st['iname']] = pub

    def serve_xri(self, method, url, body, headers, fault):
        p = urlsplit(url)
        s = self.xris.get(unquote(p.path[1:]).replace('%25', '%'))
        t = parse_query(p.query).get('_xrd_t')
        if s is None or t not in QTYPES:
            return None
        return Reply(200, {'content-type': docs.XRDS_CT}, s['bodies'][QTYPES.index(t)])

    def serve_site(self, method, url, body, headers, fault):
        k = key(url)
        s = self.sites.get(k)
        ct = {} if s is None or s.get('ct') is None else {'content-type': s['ct']}
        if s is None:
            s = self.locs.get(k)
            if s is None:
                return None
            if 'hop' in s:
                return Reply(s['status'], {'location': s['hop']}, '')
            return Reply(200, {'content-type': docs.XRDS_CT}, s['xrds_body'])
        kind = s['kind']
        if kind == 'nego':
            kind = 'yadis' if 'xrds+xml' in (headers.get('Accept') or headers.get('accept') or '') else 'html'
        if kind == 'yadis':
            return Reply(200, {'content-type': docs.XRDS_CT}, s['xrds_body'])
        if kind == 'yadis-cs':
            return Reply(200, {'content-type': docs.XRDS_CT + '; charset=utf-8'}, s['xrds_body'])
        if kind == 'xml':
            return Reply(200, {'content-type': 'text/xml'}, s['xrds_body'])
        if kind in ('header', 'both'):
            return Reply(200, dict(ct, **{'x-xrds-location': s['loc']}), s['html_body'])
        if kind in ('html', 'meta'):
            return Reply(200, ct, s['html_body'])
        if kind == 'redirect':
            return Reply(s['status'], {'location': s['to']}, '')
        return None

    def s_disc(self, st):
        from openid.consumer import discover
        node = self.rps[0].pick(st.get('w'))
        ev = {}
        rec = dict(step=st, exc=None, claimed=None, services=None, trace=[])
        with self.sim.as_node(node) as ctx:
            ctx.net_faults = st.get('net')
            ctx.ev = ev
            self.sim.point('disc', st['ident'])
            try:
                rec['claimed'], sv = discover.discover(st['ident'])
                rec['services'] = [(s.server_url, tuple(s.type_uris), s.local_id, s.claimed_id, s.canonicalID) for s in sv]
            except SimCrash:
                raise
            except Exception as why:
                rec['exc'] = why
        rec['trace'] = [x for x in self.net.trace if x['ev'] is ev]
        self.found.append(rec)
        self.sim.log('disc', st['ident'], rec['claimed'], rec['services'], type(rec['exc']).__name__)


# ------------------------------------------------------------- documents

def gen_services(rng, n):
    out = []
    for i in range(n):
        types = [docs.TYPE[k] for k in rng.choice([['2'], ['2'], ['op'], ['1.1'], ['1.0'], ['2', '1.1'], ['1.1', '1.0'], ['op', '2'], ['2', '1.1', '1.0'], []])]
        for _ in range(rng.choice([0, 0, 0, 1])):
            types.insert(rng.randrange(len(types) + 1), rng.choice(['http://openid.net/sreg/1.0', 'http://x.example/t', '', 'http://openid.net/server/1.0']))
        uris = [[rng.choice(['http://op%d.example/s%d' % (rng.randrange(3), rng.randrange(9)), 'https://op0.example/s?a=1&b=%d' % rng.randrange(9)])
                 if rng.random() < 0.93 else rng.choice(['ftp://op.example/', '', 'mailto:x@y', '/rel', 'urn:x']), gen_prio(rng)]
                for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3]))]
        if rng.random() < 0.5:
            for j, u in enumerate(uris):
                if u[0].startswith('http'):
                    u[0] += '%su=%d.%d' % ('&' if '?' in u[0] else '?', i, j)
        tags = []
        if rng.random() < 0.4:
            v = 'http://op0.example/u/%s' % rng.choice(['a', 'b', 'x?y=1&z=2'])
            tags = rng.choice([[['LocalID', v]], [['openid:Delegate', v]], [['LocalID', v], ['openid:Delegate', v]], [['LocalID', v], ['LocalID', v]]])
            if rng.random() < 0.08:
                tags = tags + [[tags[0][0], v + 'x']]
        s = dict(types=types, prio=gen_prio(rng), uris=uris, tags=tags, lay=rng.randrange(4))
        if rng.random() < 0.04:
            s['ns'] = 'http://other.example/ns'
        out.append(s)
    return out


def gen_prio(rng):
    return rng.choice([None, None, None, 0, 1, 2, 5, 10, 10, 9, 100, 20, 'x', '-1', '1.5', ''])


def gen_xrds(rng):
    xs = []
    for _ in range(rng.choice([1, 1, 1, 1, 1, 2, 3, 0] if rng.random() < 0.5 else [1])):
        x = dict(services=gen_services(rng, rng.choice([0, 1, 1, 2, 3, 5])))
        if rng.random() < 0.1:
            x['canonical'] = '=!1'
        xs.append(x)
    return dict(xrds=xs, form=rng.randrange(4))


def gen_xri_doc(rng, xris):
    iname = rng.choice(xris)
    root = '(http://x.example/y)' if iname.startswith('(') else iname[0]
    k = rng.random()
    chain = [root + '!A.%d' % rng.choice([1, 1, 1, 2])]
    while rng.random() < 0.3 and len(chain) < 3:
        chain.append(chain[-1] + '!%d' % rng.choice([1, 1, 2]))
    if k < 0.15:
        chain[rng.randrange(len(chain))] = rng.choice([None, '', '=!other', '@!1', 'x', root, root + '!A.1!x', '=!A.1', chain[0] + '!', root + '!a.1', root + root + '!1', '!' + root, 'xri://='])
    return dict(xrds=[dict(canonical=c, services=gen_services(rng, rng.choice([0, 1, 1, 2, 3]))) for c in chain], form=rng.randrange(4))


def render_xrds(d, n):
    out = ['<?xml version="1.0"%s?>\n' % ('' if d['form'] == 3 else ' encoding="UTF-8"')]
    p = 'q:' if d['form'] == 2 else ''
    out.append('<xrds:XRDS xmlns:xrds="xri://$xrds" xmlns%s="xri://$xrd*($v*2.0)" xmlns:openid="http://openid.net/xmlns/1.0" xmlns:o="http://other.example/ns"><!-- %d -->' % (
        ':q' if p else '', n))
    for x in d['xrds']:
        out.append('<%sXRD>' % p)
        if x.get('canonical') is not None:
            out.append('<%sCanonicalID>%s</%sCanonicalID>' % (p, escape(x['canonical']), p))
        for s in x['services']:
            q = 'o:' if s.get('ns') else p
            ch = ['<%sType>%s</%sType>' % (p, escape(t), p) for t in s['types']]
            ch += ['<%sURI%s>%s</%sURI>' % (p, '' if up is None else ' priority="%s"' % up, ('<![CDATA[%s]]>' % u) if s['lay'] == 3 and u else escape(u), p) for u, up in s['uris']]
            ch += ['<%s%s>%s</%s%s>' % ('' if ':' in nm else p, nm, escape(v), '' if ':' in nm else p, nm) for nm, v in s['tags']]
            if s['lay'] == 1:
                ch.reverse()
                ch = [c for c in ch if 'URI' not in c] + [c for c in ch if 'URI' in c][::-1]
                ch = [c for c in ch if 'Type' not in c] + [c for c in ch if 'Type' in c][::-1]
            if s['lay'] == 2:
                ch = ['\n  <!-- <Type>http://x</Type> -->', '<%sMediaType>text/html</%sMediaType>' % (p, p)] + ch
            out.append('<%sService%s>%s</%sService>' % (q, '' if s['prio'] is None else ' priority="%s"' % s['prio'], ('\n  ' if d['form'] == 1 else '').join(ch), q))
        out.append('</%sXRD>' % p)
    out.append('</xrds:XRDS>')
    return ''.join(out).encode('utf-8')


RELS = ['openid2.provider', 'openid2.local_id', 'openid.server', 'openid.delegate']


def gen_html(rng):
    def link():
        rel = rng.choice(RELS + RELS[:1] * 2 + RELS[2:3] + ['stylesheet', 'openid2.provider openid.server', 'openid2.local_id openid.delegate', 'xopenid.server', 'openid.server.x',
                                                             'openid2 provider', 'me openid2.provider', 'openid2.provider\n me'])
        href = rng.choice(['http://op0.example/h%d' % rng.randrange(9), 'https://op1.example/h?a=1&b=%d' % rng.randrange(9), 'http://op2.example/h%d' % rng.randrange(9)])
        if rng.random() < 0.05:
            href = rng.choice(['/rel', 'ftp://x.example/', 'javascript:1'])
        return ['link', rel, href, rng.randrange(7)]

    def noise():
        l = render_item(link())
        return rng.choice([['raw', '<!-- %s -->' % l], ['raw', '<script>var x = \'%s\';</script>' % l], ['raw', '<title>%s</title>' % escape(l)], ['raw', '<style>a {}</style>'],
                           ['raw', '<meta name="openid2.provider" content="http://evil.example/">'], ['raw', '<title>caf\u00e9</title>'], ['raw', '\n']])
    head = [link() if rng.random() < 0.75 else noise() for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))]
    body = [link() if rng.random() < 0.5 else ['raw', '<p>hello'] for _ in range(rng.choice([0, 0, 1, 2]))]
    return dict(head=head, body=body, metapos=rng.randrange(8), mstyle=rng.randrange(4), wrap=rng.randrange(4))


def render_item(i):
    if i[0] == 'raw':
        return i[1]
    if i[0] == 'meta':
        u = escape(i[1])
        return ['<meta http-equiv="X-XRDS-Location" content="%s">', '<META HTTP-EQUIV="x-xrds-location" CONTENT="%s"/>', "<meta content='%s' http-equiv='X-Xrds-Location'>",
                '<meta\n http-equiv="X-XRDS-LOCATION"\n content="%s" />'][i[2]] % u
    rel, href = escape(i[1]), escape(i[2])
    return ['<link rel="%s" href="%s">', "<link rel='%s' href='%s'>", '<link rel="%s" href="%s" />', '<LINK REL="%s" HREF="%s">', '<link title="x" rel="%s"\n\thref="%s" type="text/html">',
            '<link class="openid.server" rel="%s" href="%s">'][i[3] % 6] % (rel, href) if i[3] < 6 else '<link href="%s" rel="%s">' % (href, rel)


def render_html(d, n):
    head = ''.join(render_item(i) for i in d['head'])
    body = ''.join(render_item(i) for i in d['body'])
    return ['<!DOCTYPE html><html><head>%s</head><body>%s<!-- %d --></body></html>', '<html>\n<head lang="en">\n%s\n</head>\n<body class="x">\n%s\n<!-- %d --></body>\n</html>',
            '<HTML><HEAD>%s</HEAD><BODY>%s<!-- %d --></BODY></HTML>',
            '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd"><html xmlns="http://www.w3.org/1999/xhtml"><head>%s</head>'
            '<body>%s<!-- %d --></body></html>'][d['wrap']].replace('%s', '\0').replace('%d', str(n)).replace('\0', head, 1).replace('\0', body, 1).encode('utf-8')


def spell(rng, url, target=False):
    """Another spelling of the same resource."""
    m = re.match(r'(\w+)://([^/?]*)([^?]*)(.*)\Z', url)
    sch, hp, path, q = m.groups()
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        k = rng.randrange(9)
        if k == 0:
            hp = hp.upper() if rng.random() < 0.5 else hp.title()
        elif k == 1 and ':' not in hp:
            hp += {'http': ':80', 'https': ':443'}[sch.lower()]
        elif k == 2:
            path = '/.' + path if rng.random() < 0.5 else '/x/..' + path
        elif k == 3:
            path = path.replace('a', '%61', 1) if rng.random() < 0.5 else path.replace('l', '%6C')
        elif k == 4:
            path = re.sub('%[0-9A-F]{2}', lambda x: x.group().lower(), path)
        elif k == 5 and '#' not in q:
            q += '#frag'
        elif k == 6 and path == '/' and not q and not target:
            path = ''
        elif k == 7:
            q = q.replace('a', '%61', 1).replace('#fr%61g', '#frag') if '#' not in q else q
        elif k == 8:
            hp = hp.replace('d', '%64', 1)
    if rng.random() < 0.12 and sch == 'http' and not target:
        return hp + path + q
    if rng.random() < 0.1:
        sch = sch.upper()
        if target:
            sch = sch.lower()
    if target:
        hp = hp.replace('\u00fc', 'u')
    return sch + '://' + hp + path + q


PROP = C17()
