"""Simulated network: the HTTP fetcher seam and the hosts behind it.

The library performs every direct request through openid.fetchers; the
simulator installs its own HTTPFetcher (the library's documented extension
point, wrapped by the library's own ExceptionWrappingFetcher).  A request is
routed to a simulated host and handled synchronously in the context of one of
that host's worker processes.  Faults are planned per request ordinal of the
client operation in progress:

  refuse     nothing reaches the server; the client sees a connection error
  lost       the server handles the request, the reply is lost
  dup        the server receives the request twice (reply to either)
  delay      simulated time passes before and/or after handling
  status     the reply is replaced by an HTTP error status
  garbage    the body is replaced by something that is not a protocol answer
  truncate   the body is cut
  header     a reply header is replaced
  mutate     parts of the body are replaced
  elsewhere  the reply sends the client on to another address of the same host (as Yadis location or by redirect)
  server     faults (I/O error, crash) inside the server's own store
"""
import http.client
import socket
from urllib.parse import urljoin, urlsplit

from . import kernel


class Reply(object):
    def __init__(self, status=200, headers=None, body=b''):
        self.status = status
        self.headers = dict((k.lower(), v) for k, v in (headers or {}).items())
        self.body = body if isinstance(body, bytes) else body.encode('utf-8')


EXCS = [lambda: ConnectionRefusedError(111, 'Connection refused'),
        lambda: socket.timeout('timed out'),
        lambda: socket.gaierror(-2, 'Name or service not known'),
        lambda: ConnectionResetError(104, 'Connection reset by peer'),
        lambda: http.client.IncompleteRead(b'abc'),
        lambda: http.client.BadStatusLine('x'),
        lambda: ValueError('unknown url type'),
        lambda: UnicodeError('label empty or too long'),
        lambda: OSError(5, 'ssl: certificate verify failed')]

GARBAGE = [b'', b'\n', b'is_valid:true', b'is_valid:true\n', b'is_valid: true\nns:http://specs.openid.net/auth/2.0\n',
           b'<html><body>502 Bad Gateway</body></html>',
           b'\xff\xfe\x00\x01binary\x80', b'ns:\xff\xfe\n', b'ns:http://bogus.example/ns\nerror:x\n',
           b'ns.x:http://specs.openid.net/auth/2.0\nns:http://specs.openid.net/auth/2.0\n', b':\n::\na\n', b'ns.ns:x\nns.mode:y\n',
           b'error:no\nerror_code:unsupported-type\nns:http://specs.openid.net/auth/2.0\n',
           b'ns:http://specs.openid.net/auth/2.0\nmode:error\nerror:\xc3\xa9\n',
           b'ns.a:http://x/\nns.b:http://x/\na.q:1\nb.q:2\n', b'x' * 5000, b'a:b\n' * 500,
           b'assoc_type:HMAC-SHA1\nassoc_handle:h\nexpires_in:abc\n', b'ns.sreg:http://x.example/\nns.sreg2:http://x.example/\n',
           b'<?xml version="1.0"?><xrds:XRDS xmlns:xrds="xri://$xrds"></xrds:XRDS>', b'<?xml version="1.0"?><a><b></a>',
           b'<html><head><link rel="openid2.provider" href=""></head></html>', b'\x00' * 40, b'%s%d{}', b'{"json": true}',
           b'<html><head><meta http-equiv="X-XRDS-Location" content="http://nowhere.example/x"></head></html>',
           b'<html><head><meta http-equiv="X-XRDS-Location" content="ftp://nowhere.example/x"></head></html>',
           b'<html><head><meta http-equiv="X-XRDS-Location" content="::::"></head></html>', b'<!--', b'<html><head><title>', b'&#xD800;',
           b'<html \xff><head></head>', b'mode:id_res\n', b'ns:\n', b'ns', b'is_valid', b'is_valid:', b':true']

STATUSES = [500, 404, 403, 503, 502, 301, 401, 410, 204, 206, 400, 999, 100]


MUTATIONS = [['<Service', '<Service priority="x"'], ['priority="', 'priority="-'], ['priority="', 'priority="9999999999999999999999'],
             ['priority="', 'priority=" '], ['<URI>', '<URI priority="z">'], ['<URI>', '<URI></URI><URI>'], ['http://', 'http://['], ['http://', ''],
             ['http://', 'http://\xff'], ['http://', 'javascript:'], ['<Type>', '<Type></Type><Type>'], ['<Type>', '<Type> '], ['<XRD>', '<XRD></XRD><XRD>'],
             ['<XRD>', '<XRD xmlns:q="z">'], ['</XRD>', '</XRD><XRD></XRD>'], ['<XRD>', ''], ['CanonicalID', 'CanonicalId'],
             ['<CanonicalID>', '<CanonicalID>x'], ['<CanonicalID>', '<CanonicalID></CanonicalID><CanonicalID>'], ['<CanonicalID>=', '<CanonicalID>'],
             ['<CanonicalID>=', '<CanonicalID>http://'], ['!', ''], ['<LocalID>', '<LocalID></LocalID><LocalID>'], ['<LocalID>', '<LocalID>a</LocalID><LocalID>'],
             ['<openid:Delegate>', '<openid:Delegate>z</openid:Delegate><openid:Delegate>'], ['UTF-8', 'bogus'], ['UTF-8', 'utf-16'],
             ['<?xml', '<!DOCTYPE x [<!ENTITY a "b">]><?xml'], ['<xrds:XRDS', '<xrds:XRDS bad'], ['xri://$xrds', 'xri://$x'], ['xri://$xrd*', 'xri://$y*'],
             ['<link', '<link <link'], ['href="', 'href='], ['href="', 'href="&#xD800;'], ['href="', 'href="&#9999999999;'], ['rel="', 'REL="x '], ['</head>', ''], ['<head>', '<head><head>'],
             ['<html', '<html><html'], ['<head>', '<body>'], ['<!DOCTYPE html>', '<?php ?>'], ['content="', 'content="x'], ['content="http', 'content="//'],
             ['http-equiv="', 'http-equiv=" '], ['ns:', 'ns.ns:'], ['ns:', 'ns.a:x\nns.b:x\nns:'], [':', '::'], [':', ''], ['\n', '\r\n'], ['\n', '\n\n'],
             ['assoc_handle:', 'assoc_handle:\xff'], ['assoc_type:', 'assoc_typ:'], ['expires_in:', 'expires_in:-'], ['expires_in:', 'expires_in:\u0663'],
             ['mac_key:', 'mac_key:='], ['session_type:', 'session_type: '], ['dh_server_public:', 'dh_server_public:A'], ['enc_mac_key:', 'enc_mac_key:AAAA'],
             ['is_valid:true', 'is_valid:True'], ['is_valid:', 'is_valid:false\nis_valid:'], ['is_valid', 'invalidate_handle:x\nis_valid'],
             ['is_valid', 'invalidate_handle:\nis_valid'], ['is_valid', 'invalidate_handle:\xe9\nis_valid'], ['error', 'ns.error:z\nerror']]


def mutate(body, muts):
    for m in muts:
        if m[0] == '@':
            i = int(m[1] * len(body))
            body = body[:i] + m[2].encode('latin-1') + body[i + 1:]
        else:
            new = m[1].encode('utf-8') if any(ord(c) > 255 for c in m[1]) else m[1].encode('latin-1')
            body = body.replace(m[0].encode('latin-1'), new, 1)
    return body


ENDLESS = 400             # requests in one call of the library, far more than any call needs


class Net(object):
    def __init__(self, sim):
        self.sim = sim
        self.hosts = {}
        self.trace = []            # every request that reached the wire
        self.max_hops = 10
        self.whole_documents = False   # a cut GET reply is noticed by the transport

    def host(self, netloc, handler):
        self.hosts[netloc] = handler

    # -- the client side ---------------------------------------------------
    def fetch(self, url, body=None, headers=None):
        from openid import fetchers
        if not (url.startswith('http://') or url.startswith('https://')):
            raise ValueError('Bad URL scheme: %r' % (url,))
        cur = url
        for hop in range(self.max_hops):
            reply = self.request(cur, body, headers or {})
            if reply.status in (301, 302, 303, 307) and 'location' in reply.headers:
                cur = urljoin(cur, reply.headers['location'])
                if not (cur.startswith('http://') or cur.startswith('https://')):
                    raise ValueError('Bad URL scheme: %r' % (cur,))
                body = None
                continue
            return fetchers.HTTPResponse(final_url=cur, status=reply.status, headers=reply.headers, body=reply.body)
        raise ValueError('too many redirects')

    def request(self, url, body, headers):
        sim = self.sim
        ctx = sim.ctx
        n = getattr(ctx, 'net_n', 0)
        ctx.net_n = n + 1
        if n > ENDLESS:
            sim.abort('endless-requests')
        np = getattr(ctx, 'net_np', 0)
        if body is not None:
            ctx.net_np = np + 1
        sim.point('net', '%s %s' % ('POST' if body is not None else 'GET', url))
        f = None
        for cand in getattr(ctx, 'net_faults', None) or ():
            if cand.get('post'):          # ordinal among the direct requests only
                hit = body is not None and cand['n'] in (np, '*')
            else:
                hit = cand['n'] == n or cand['n'] == '*'
            if hit:
                f = cand
                break
        kind = f['kind'] if f else None
        entry = dict(src=ctx.node.name, url=url, body=body, headers=dict(headers), reply=None, got=None, fault=kind, t=sim.now, ev=getattr(ctx, 'ev', None))
        self.trace.append(entry)
        if f is not None:
            sim.count_fault('net_' + kind)
            sim.probe('net_fault_hit')
        got = entry['got'] = self._answer(entry, f, kind, ctx, url, body, headers)
        return got

    def _answer(self, entry, f, kind, ctx, url, body, headers):
        sim = self.sim
        if kind == 'refuse':
            raise EXCS[f.get('exc', 0) % len(EXCS)]()
        if kind == 'delay':
            self.pass_time(f.get('before', 0))
        reply = None
        try:
            reply = self.serve(url, body, headers, f if kind == 'server' else None)
            if kind == 'dup':
                again = self.serve(url, body, headers, None)
                if f.get('second'):
                    reply = again
        except kernel.SimCrash:
            if not ctx.node.alive or ctx.incarnation != ctx.node.incarnation:
                raise
            sim.log('server-died', url)
            entry['reply'] = 'crash'
            raise ConnectionResetError(104, 'Connection reset by peer')
        if kind == 'delay':
            self.pass_time(f.get('after', 0))
        entry['reply'] = reply
        sim.log('net-reply', url, reply.status, len(reply.body))
        if kind == 'lost':
            raise EXCS[f.get('exc', 1) % len(EXCS)]()
        if kind == 'status':
            h = dict(reply.headers)
            if f.get('strip', True):
                h.pop('location', None)
            return Reply(f['status'], h, reply.body if f.get('keep') else f.get('text', 'error').encode())
        if kind == 'garbage':
            return Reply(f.get('status', 200), reply.headers if f.get('keep_type', True) else {'content-type': f.get('ctype', 'text/html')},
                         GARBAGE[f['g'] % len(GARBAGE)])
        if kind == 'mutate':
            return Reply(reply.status, reply.headers, mutate(reply.body, f['muts']))
        if kind == 'header':
            return Reply(reply.status, dict(reply.headers, **f['headers']), reply.body)
        if kind == 'elsewhere':
            to = urljoin(url, '/more?%d' % (len(self.trace) % f['of']))
            if f['way'] == 'header':
                return Reply(200, {'content-type': 'text/html', 'x-xrds-location': to}, b'<html><head></head></html>')
            if f['way'] == 'meta':
                return Reply(200, {'content-type': 'text/html'}, ('<html><head><meta http-equiv="X-XRDS-Location" content="%s"></head></html>' % to).encode())
            return Reply(302, {'location': to}, b'')
        if kind == 'truncate':
            if self.whole_documents and body is None:
                raise http.client.IncompleteRead(b'')
            cut = int(len(reply.body) * f['frac'])
            return Reply(reply.status, reply.headers, reply.body[:cut])
        return reply

    def pass_time(self, dt):
        if dt > 0:
            if self.sim.task is not None:
                self.sim.block(timeout=dt)
            else:
                self.sim.advance(dt)

    def serve(self, url, body, headers, fault):
        parts = urlsplit(url)
        h = self.hosts.get(parts.netloc.lower()) or self.hosts.get(parts.netloc.lower().rpartition('@')[2].rstrip(':'))
        if h is None:
            raise EXCS[2]()
        reply = h('POST' if body is not None else 'GET', url, body, headers, fault)
        if reply is None:
            return Reply(404, {'content-type': 'text/html'}, 'not found')
        return reply


def gen_fault(rng, n=None, kinds=None):
    kind = rng.choice(kinds or ['refuse', 'lost', 'dup', 'delay', 'status', 'garbage', 'truncate', 'status', 'garbage'])
    f = dict(n=rng.randrange(0, 4) if n is None else n, kind=kind)
    if kind in ('refuse', 'lost'):
        f['exc'] = rng.randrange(len(EXCS))
    elif kind == 'dup':
        f['second'] = rng.random() < 0.5
    elif kind == 'delay':
        f['before'] = rng.choice([0, 1, 30, 400])
        f['after'] = rng.choice([0, 1, 30, 400])
    elif kind == 'status':
        f['status'] = rng.choice(STATUSES)
        f['keep'] = rng.random() < 0.4
    elif kind == 'garbage':
        f['g'] = rng.randrange(len(GARBAGE))
        f['keep_type'] = rng.random() < 0.5
        f['ctype'] = rng.choice(['text/html', 'text/html; charset=utf-8', 'text/html; charset=bogus', 'application/xrds+xml', 'text/plain',
                                 'text/html; charset=', 'text/html; charset=utf-16'])
        f['status'] = rng.choice([200, 200, 200, 400, 500, 206])
    elif kind == 'mutate':
        f['muts'] = [rng.choice(MUTATIONS) if rng.random() < 0.7 else ['@', round(rng.random(), 4), rng.choice(['', 'x', '<', '>', '"', '\x00', ':', '\n', '&', '\xff', '%s'])]
                     for _ in range(rng.choice([1, 1, 2]))]
    elif kind == 'header':
        f['headers'] = rng.choice([{'content-type': 'text/html; charset=bogus'}, {'content-type': ''}, {'content-type': ';;'},
                                   {'content-type': 'text/html; charset=utf-16'}, {'content-type': 'application/xrds+xml'},
                                   {'content-type': 'text/html; charset=hex'}, {'content-type': 'text/html; charset=idna'},
                                   {'x-xrds-location': 'http://nowhere.example/'}, {'x-xrds-location': '::'}, {'x-xrds-location': ''},
                                   {'x-xrds-location': 'ftp://x/'}, {'x-xrds-location': 'http://[bad'}])
    elif kind == 'elsewhere':
        f['way'] = rng.choice(['header', 'meta', 'redirect'])
        f['of'] = rng.choice([1, 2, 3, 1000])
    elif kind == 'truncate':
        f['frac'] = round(rng.random(), 3)
    return f


class _Fetcher(object):
    pass


def install_fetcher(net):
    from openid import fetchers

    class SimFetcher(fetchers.HTTPFetcher):
        def fetch(self, url, body=None, headers=None):
            return net.fetch(url, body, headers)
    fetchers.setDefaultFetcher(SimFetcher())
