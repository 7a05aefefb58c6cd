"""C21: every bundled fetcher returns complete responses or fails as documented."""
import re
from urllib.parse import urljoin, urlsplit

from ..kernel import Node, SimCrash, Violation
from ..sockets import FTP_FILE, CurlStub, Wire, body_of
from .base import Prop, sched_spec
from .c14 import where

HOSTS = {'a.example': '10.0.0.1', 'b.example': '10.0.0.2'}
KINDS = ['urllib', 'requests', 'httplib2', 'curl']
LIMIT = 1024 * 1024
REDIRECTS = (301, 302, 303, 307)
RAW = ['', '\r\n', 'garbage\r\n\r\n', 'HTTP/1.1 abc\r\n\r\n', 'HTTP/1.1 200 OK\r\nno-colon\r\n\r\n', 'HTTP/1.1 99999 x\r\n\r\n', 'HTTP/1.1 200 OK\r\nContent-Length: abc\r\n\r\nxx',
       'HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n', 'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n', 'HTTP/1.1 200 OK\r\nX: \xff\xfe\r\nContent-Length: 0\r\n\r\n',
       'SSH-2.0-OpenSSH\r\n', 'HTTP/1.1 200 OK\r\n' + 'X-Y: z\r\n' * 300 + '\r\n', 'HTTP/1.1 302 Found\r\nContent-Length: 0\r\n\r\n', 'HTTP/1.1 200\r\nContent-Length: 0\r\n\r\n',
       'HTTP/1.1 302 Found\r\nLocation: http://[bad\r\nContent-Length: 0\r\n\r\n', 'HTTP/1.1 302 Found\r\nLocation: \xff\r\nContent-Length: 0\r\n\r\n',
       'HTTP/1.1 302 Found\r\nLocation: http://\r\nContent-Length: 0\r\n\r\n', 'HTTP/1.1 301 M\r\nLocation: http://a.example:x/\r\nContent-Length: 0\r\n\r\n']


class C21(Prop):
    id = 'C21'
    runs = {'quick': 6000, 'thorough': 250000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('a fetch returns exactly the status, headers, final address and body of the page the request and its redirects lead to, or raises '
            'HTTPFetchingError; it returns it if nothing went wrong; an endless body, an endless redirect chain or a scheme other than http(s) never gets through')
    state_measure = 'hash of (fetcher, method, pages on the way, framing, faults, outcome)'
    assumptions = ['a body without length or chunking that is cut cannot be recognised as incomplete',
                   'how a redirect of a POST is repeated is left to the client library', 'httplib2 reads bodies of any length']
    real = ['openid.fetchers', 'http.client', 'urllib', 'requests', 'urllib3', 'httplib2']
    stub = ['sockets and name resolution (simulated TCP with scripted HTTP servers)', 'libcurl (model of its documented behaviour)', 'wall clock', 'thread scheduler']

    def gen(self, rng, tier, index):
        kind = KINDS[index % 4]
        npages = rng.choice([2, 3, 5])
        pages = [self.page(rng, i, npages) for i in range(npages)]
        if kind == 'httplib2':
            for p in pages:
                p.pop('endless', None)

        def fetch():
            st = dict(s='fetch', url=self.url(rng, rng.randrange(npages)), post=rng.random() < 0.3, hdr=rng.random() < 0.4)
            if rng.random() < 0.35:
                f = dict(n=rng.choice([0, 0, 0, 1, 2]), kind=rng.choice(['refuse', 'unresolved', 'reset', 'cut', 'cut', 'cut', 'slow']))
                if f['kind'] in ('reset', 'cut'):
                    f['at'] = round(rng.choice([rng.random(), 1 + rng.random(), 1 + rng.random(), 1.0]), 4)
                if f['kind'] == 'slow':
                    f['secs'] = rng.choice([0.5, 3, 15])
                st['net'] = [f]
            if rng.random() < 0.3:
                st['pieces'] = [rng.choice([1, 7, 100, 1000, 5000, 70000]) for _ in range(3)]
                if 1 in st['pieces'] or 7 in st['pieces']:
                    st['pieces'].append(100000)
            if rng.random() < 0.04:
                st['url'] = rng.choice(['ftp://a.example/', 'file:///etc/hostname', 'http://', '', 'http://nowhere.example/', 'a.example', 'http://[bad/', 'javascript:1', 'data:,x',
                                        'http://a.example:x/', 'http://a.example/a b', 'http://a.example/\u00e9', 'HTTP://a.example/0', 'http://a.example:81/', '//a.example/0'])
            return st
        steps = []
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < 0.35:
                steps.append(dict(s='par', tasks=[[fetch() for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 3]))]))
            else:
                steps.append(fetch())
        return dict(kind=kind, default=rng.random() < 0.5, pages=pages, steps=steps, sched=sched_spec(rng))

    def url(self, rng, i):
        return 'http://%s/%d%s' % (rng.choice(['a.example', 'a.example', 'b.example', 'a.example:8080', 'a.example:80']), i, rng.choice(['', '', '', '?q=1', '/x/y?a=b&c=d', '#frag', '?']))

    def page(self, rng, i, npages):
        p = dict(id='p%d' % i, status=rng.choice([200, 200, 200, 200, 404, 500, 206, 400, 403, 503]), frame=rng.choice(['length', 'length', 'chunked', 'close']),
                 size=rng.choice([0, 1, 20, 300, 5000, 70000] if rng.random() < 0.95 else [LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 5000]), chunk=rng.choice([1000, 37, 50000]))
        p['headers'] = [[rng.choice(['Content-Type', 'content-type', 'CONTENT-TYPE']), rng.choice(['text/html', 'application/xrds+xml', 'text/html; charset=utf-8'])]]
        if rng.random() < 0.4:
            p['headers'].append([rng.choice(['X-XRDS-Location', 'x-xrds-location']), 'http://a.example/xrds'])
        if rng.random() < 0.2:
            p['headers'].append([rng.choice(['Content-Location', 'content-location', 'Location', 'Refresh', 'Content-Base', 'Link']), rng.choice(['http://victim.example/', '/other'])])
        if rng.random() < 0.1:
            p['headers'].append(['Set-Cookie', 'a=b; path=/'])
        if rng.random() < 0.1:
            p['lag'] = rng.choice([0.3, 2, 9])
        if p['frame'] != 'close' and rng.random() < 0.05:
            p['interim'] = True
        k = rng.random()
        if k < 0.35:
            p['status'] = rng.choice(REDIRECTS)
            p['headers'] = [h for h in p['headers'] if h[0].lower() not in ('location',)]
            to = rng.choice([self.url(rng, rng.randrange(npages)), self.url(rng, rng.randrange(npages)), '/%d' % rng.randrange(npages), '%d?z' % rng.randrange(npages)])
            if rng.random() < 0.15:
                to = rng.choice(['ftp://a.example/x', 'file:///etc/hostname', 'https://a.example/', 'javascript:1', 'gopher://a.example/', 'ftp://nowhere.example/x'])
            p['headers'].append([rng.choice(['Location', 'location']), to])
            p['size'] = min(p['size'], 300)
        elif k < 0.41:
            p['raw'] = rng.choice(RAW)
        elif k < 0.43:
            p['endless'] = True
        return p

    shrink_lists = ['steps', 'steps.*.tasks', 'steps.*.tasks.*', 'steps.*.net', 'steps.*.pieces']

    def execute(self, plan, env):
        with env.sim(max_steps=3000000) as sim:
            run = Run(sim, plan)
            try:
                run.steps(plan['steps'])
            finally:
                run.wire.uninstall()
            for r in run.done:
                env.checks += 1
                self.judge(sim, run, r)

    def judge(self, sim, run, r):
        st, e, resp, log = r['step'], r['exc'], r['resp'], r['log']
        kind = run.kind
        post = st['post']
        sim.state(kind, post, tuple((x['page']['status'], x['page']['frame'], bool(x['page'].get('raw')), x['fault'] and x['fault']['kind']) if x['page'] else None for x in log),
                  type(e).__name__, resp and resp[0])
        what = '%s %s %r: ' % (kind, 'POST' if post else 'GET', st['url'])
        if e is not None and type(e).__name__ not in ('HTTPFetchingError', 'HTTPError'):
            raise Violation('escaped:%s:%s' % (type(e).__name__, where(e)), what + 'raised %r' % (e,))
        if e is not None and not isinstance(e.why, Exception):
            raise Violation('no-reason', what + 'raised %r whose reason (`why`) is %r' % (e, e.why))
        if r['over'] and kind != 'httplib2':
            raise Violation('unbounded', what + 'read a body without end')
        if len(log) > (1100 if kind == 'curl' else 60):
            raise Violation('redirects', what + 'made %d requests' % len(log))
        if kind == 'curl' and r['secs'] > 21.5:
            raise Violation('too-long', what + 'took %s seconds' % r['secs'])
        if resp is not None and FTP_FILE in resp[3]:
            raise Violation('scheme', what + 'returned a file from an FTP server')
        m = re.match(r'http://([a-z.]+)(:\d+)?/', st['url'])
        if not st['url'].startswith(('http:', 'https:', 'HTTP:')) and resp is not None:
            raise Violation('scheme', what + 'returned status %r from %r' % (resp[0], resp[2]))
        # walk
        url = st['url']
        exact = m is not None and bool(re.match(r'[!-~]*\Z', url))
        hits = r['hits']
        # http.client takes a cut head for a complete one
        fuzzy = any(f['kind'] == 'cut' and f['at'] < 1 for f in hits)
        if resp is not None and resp[0] in REDIRECTS and log and log[-1]['page'] is not None and log[-1]['page']['status'] == resp[0]:
            sim.probe('not_followed')
            stopped = True
        else:
            stopped = False
        page = None
        for hop in range(100):
            if not exact:
                page = None
                break
            p = urlsplit(url)
            if p.scheme != 'http' or p.hostname not in HOSTS or (p.port or 80) not in (80, 8080):
                page = None
                break
            target = (p.path or '/') + ('?' + p.query if p.query else '')
            page = run.lookup(p.hostname, p.port or 80, target)
            if page is None:
                page = dict(id='none', status=404, headers=[['Content-Type', 'text/plain']], size=9, frame='length')
            if page.get('raw') is not None:
                fuzzy = True
                break
            loc = [v for k, v in page['headers'] if k.lower() == 'location']
            if page['status'] in REDIRECTS and not (post and hop == 0):
                try:
                    url = urljoin(url, loc[0])
                    urlsplit(url).port
                except ValueError:
                    exact = False
                continue
            break
        else:
            page = None
        if post and page is not None and page.get('raw') is None and page['status'] in REDIRECTS:
            return
        if resp is None:
            if exact and page is not None and not fuzzy and not hits and not page.get('endless') and hop <= 4 and r['secs'] < 15 and page['size'] < LIMIT:
                raise Violation('failed', what + 'raised %r although nothing went wrong' % (e.why if hasattr(e, 'why') else e,))
            sim.probe('failed_' + kind)
            return
        status, headers, final, body = resp
        if stopped and (page is None or hop > 4 or hits or not exact):
            return
        if not re.match('(?i)https?://', final or ''):
            raise Violation('final-scheme', what + 'was answered from %r' % (final,))
        if fuzzy or not exact:
            return
        if page is None:
            raise Violation('no-failure', what + 'returned status %r from %r although the address leads nowhere' % (resp[0], resp[2]))
        sim.probe('ok_' + kind)
        if status != page['status']:
            raise Violation('status', what + 'returned status %r instead of %r' % (status, page['status']))
        if canon(final) != canon(url):
            raise Violation('final-url', what + 'returned %r as final address instead of %r' % (final, url))
        for k, v in page['headers']:
            if k.lower() in ('set-cookie', 'content-location'):
                continue
            if headers.get(k.lower()) != v:
                raise Violation('header', what + 'header %s is %r instead of %r' % (k.lower(), headers.get(k.lower()), v))
        p = urlsplit(url)
        want = body_of(page, (p.path or '/') + ('?' + p.query if p.query else ''))
        cutoff = any(f['kind'] == 'cut' for f in hits) and page['frame'] == 'close'
        if page.get('endless'):
            if len(body) > 2 * LIMIT and kind != 'httplib2':
                raise Violation('too-big', what + 'returned %d bytes' % len(body))
            if not body.startswith(want[:LIMIT]) and not (cutoff and want.startswith(body)):
                raise Violation('body', what + 'returned another body')
            return
        if body != want:
            if len(want) > LIMIT and body == want[:LIMIT]:
                return
            if cutoff and want.startswith(body):
                return
            if want.startswith(body):
                raise Violation('incomplete', what + 'returned %d of %d bytes as if they were all' % (len(body), len(want)))
            raise Violation('body', what + 'returned %r... instead of %r...' % (body[:60], want[:60]))
        if len(body) > LIMIT + 70000 and kind != 'httplib2':
            raise Violation('too-big', what + 'returned %d bytes' % len(body))
        if r['methods'] and r['methods'][0] != ('POST' if post else 'GET') or post and r['sent'] != st_body(st):
            raise Violation('request', what + 'was sent as %r with %r' % (r['methods'], r['sent']))
        if st['hdr'] and any(x['headers'].get('accept') != 'application/xrds+xml' for x in log[:1]):
            raise Violation('request-header', what + 'the given header was not sent')


def canon(u):
    p = urlsplit(u)
    return p.scheme, p.hostname, p.port or 80, p.path or '/', p.query


def st_body(st):
    return ('openid.mode=associate&u=' + st['url'].replace('/', '.')).encode('ascii', 'replace')


class Run(object):
    def __init__(self, sim, plan):
        self.sim, self.plan, self.kind = sim, plan, plan['kind']
        self.node = Node('client')
        self.done = []
        self.wire = Wire(sim, HOSTS, self.lookup)
        self.fetcher = None
        self.wire.install()

    def lookup(self, host, port, target):
        m = re.match(r'/(\d+)', target)
        if not m or int(m.group(1)) >= len(self.plan['pages']):
            return None
        return self.plan['pages'][int(m.group(1))]

    def get_fetcher(self):
        from openid import fetchers
        if self.kind == 'curl':
            fetchers.pycurl = CurlStub(self.wire)
        if self.fetcher is None and not (self.kind == 'requests' and self.plan.get('default')):
            cls = {'urllib': 'Urllib2Fetcher', 'requests': 'RequestsFetcher', 'httplib2': 'HTTPLib2Fetcher', 'curl': 'CurlHTTPFetcher'}[self.kind]
            self.fetcher = getattr(fetchers, cls)()
        if self.kind == 'requests' and self.plan.get('default'):
            # Not set by anybody: the library makes and wraps its own.
            if self.fetcher is None:
                self.fetcher = 'default'
                fetchers.setDefaultFetcher(None)
            return fetchers
        fetchers.setDefaultFetcher(self.fetcher)
        return fetchers

    def steps(self, steps):
        for st in steps:
            if st['s'] == 'par':
                tasks = self.sim.run_tasks([('t%d' % i, Node('t%d' % i), (lambda sub=sub: self.steps(sub))) for i, sub in enumerate(st['tasks'])])
                for t in tasks:
                    if t.error is not None:
                        raise t.error
                if self.sim.aborting:
                    raise Violation('stuck', 'a fetch does not end: %s' % self.sim.aborting)
            else:
                self.fetch(st)

    def fetch(self, st):
        sim = self.sim
        ev = {}
        rec = dict(step=st, exc=None, resp=None)
        t0 = sim.now
        with sim.as_node(self.node) as ctx:
            ctx.net_faults = [dict(f) for f in st.get('net') or ()]
            ctx.net_n = 0
            ctx.pieces = st.get('pieces')
            ctx.ev = ev
            fetchers = self.get_fetcher()
            self.wire.over = False
            try:
                r = fetchers.fetch(st['url'], st_body(st) if st['post'] else None, {'Accept': 'application/xrds+xml'} if st['hdr'] else None)
                rec['resp'] = (r.status, r.headers, r.final_url, r.body)
            except (SimCrash, Violation):
                raise
            except Exception as why:
                rec['exc'] = why
            rec['hits'] = list(ctx.hits)
            rec['over'] = self.wire.over
        rec['secs'] = sim.now - t0
        rec['log'] = [x for x in self.wire.log if x['ev'] is ev]
        rec['methods'] = [x['method'] for x in rec['log']]
        rec['sent'] = rec['log'][0]['body'] if rec['log'] else None
        self.done.append(rec)
        sim.log('fetched', st['url'], type(rec['exc']).__name__, rec['resp'] and (rec['resp'][0], rec['resp'][2], len(rec['resp'][3])))


PROP = C21()
