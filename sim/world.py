"""A whole OpenID deployment in one process: identity pages, providers,
relying parties and browsers, joined by the simulated network (net.py) and
living on simulated stores (stores.py).

Library code runs unmodified on both ends.  Independent ("reference")
providers implement the specification in the harness so that the library is
also judged against a peer that does not share its code.

Everything that happens is appended to World.events; oracles judge those
records and the wire trace in World.net.trace.
"""
import base64
import hashlib
import hmac
import pickle
import random
from html.parser import HTMLParser
from urllib.parse import parse_qsl, unquote, urlencode, urlsplit

from . import docs, kernel
from .kernel import Node, SimCrash
from .net import Net, Reply, install_fetcher
from .stores import StoreWorld

NS2 = 'http://specs.openid.net/auth/2.0'
NS11 = 'http://openid.net/signon/1.1'
SELECT = NS2 + '/identifier_select'
DEFAULT_MOD = 155172898181473697471232257763715539915724801966915404479707795314057629378541917580651227423698188993727816152646631438561595825688188889951272158842675419950341258706556549803580104870537681476726513255747040765857479291291572334510643245094715007229621094194349783925984760375594985848253359305585439638443  # noqa
ALL_PAIRS = [('HMAC-SHA1', 'DH-SHA1'), ('HMAC-SHA256', 'DH-SHA256'), ('HMAC-SHA1', 'no-encryption'), ('HMAC-SHA256', 'no-encryption')]
HASH = {'HMAC-SHA1': hashlib.sha1, 'HMAC-SHA256': hashlib.sha256, 'DH-SHA1': hashlib.sha1, 'DH-SHA256': hashlib.sha256}
SIZE = {'HMAC-SHA1': 20, 'HMAC-SHA256': 32}


def b64(b):
    return base64.b64encode(b).decode('ascii')


def btwoc(n):
    """Shortest big-endian two's complement of n >= 0 (OpenID 2.0, 4.2)."""
    return n.to_bytes(n.bit_length() // 8 + 1, 'big')


def kv_decode(body):
    out = {}
    for line in body.decode('utf-8', 'replace').split('\n'):
        if ':' in line:
            k, v = line.split(':', 1)
            out[k] = v
    return out


def kv_encode(d):
    return ''.join('%s:%s\n' % kv for kv in d.items()).encode('utf-8')


def sign_fields(fields, signed, secret, assoc_type):
    """OpenID signature computed from the specification alone."""
    kv = ''.join('%s:%s\n' % (k, fields.get('openid.' + k, '')) for k in signed)
    return b64(hmac.new(secret, kv.encode('utf-8'), HASH[assoc_type]).digest())


class FormParser(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self)
        self.action = None
        self.method = None
        self.fields = {}
        self.inside = False

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == 'form':
            self.action = a.get('action')
            self.method = (a.get('method') or 'get').lower()
            self.inside = True
        elif tag == 'input' and self.inside and a.get('type') != 'submit' and a.get('name') is not None:
            self.fields[a['name']] = a.get('value') or ''

    handle_startendtag = handle_starttag

    def handle_endtag(self, tag):
        if tag == 'form':
            self.inside = False


def parse_query(qs):
    return dict(parse_qsl(qs, keep_blank_values=True))


class Indirect(object):
    """A message in the hands of a browser: where it goes and its arguments
    as the receiving application will see them."""

    def __init__(self, method, url, args):
        self.method = method
        self.url = url
        self.args = args

    def copy(self):
        return Indirect(self.method, self.url, dict(self.args))

    @classmethod
    def redirect(cls, url):
        return cls('GET', url, parse_query(urlsplit(url).query))

    @classmethod
    def form(cls, html):
        p = FormParser()
        p.feed(html)
        p.close()
        if p.action is None:
            return None
        args = parse_query(urlsplit(p.action).query)
        args.update(p.fields)
        return cls(p.method.upper(), p.action, args)

    def __repr__(self):
        return '<%s %s %r>' % (self.method, self.url, sorted(self.args.items()))


class SpyStore(object):
    """Delegates to the real store; notes associations stored and, at a party
    whose store answers slowly, what it answered when."""

    def __init__(self, real, note, party=None):
        self._real = real
        self._note = note
        self._party = party

    def __getattr__(self, name):
        return getattr(self._real, name)

    def storeAssociation(self, url, assoc):
        r = self._real.storeAssociation(url, assoc)
        self._note(url, assoc)
        return r

    def getAssociation(self, url, *handle):
        a = self._real.getAssociation(url, *handle)
        party = self._party
        if party is not None and party.lag:
            party.sim.advance(party.lag)
            if a is not None:
                party.sim.count_fault('slow_store')
                party.fetched.setdefault(a.handle, (party.sim.now + party.sim.ctx.node.offset, a.issued + a.lifetime))
        return a


class Party(object):
    """Workers sharing a store."""

    def __init__(self, world, name, cfg):
        self.world = world
        self.sim = world.sim
        self.name = name
        self.cfg = cfg
        kind = cfg.get('store', 'mem')
        self.kind = kind
        self.store = None if kind is None else StoreWorld(self.sim, kind, name)
        offs = cfg.get('offsets') or [0]
        # `host`: this party runs in the worker processes of an earlier one
        host = [p for p in world.parties if p.name == cfg.get('host')]
        self.nodes = host[0].nodes if host else [Node('%s.%d' % (name, i), offs[i % len(offs)]) for i in range(cfg.get('workers', 1))]
        world.parties.append(self)
        self.open = {}
        self.lag = cfg.get('lag') or 0     # seconds the store takes to answer
        self.fetched = {}                  # handle -> (clock when it was first answered in this step, its expiry)
        self.lb = random.Random('lb-%s-%s' % (self.sim.seed, name))
        self.stored = []           # (sim time, node time, url, secret, handle, type, issued, lifetime)

    def pick(self, w=None):
        i = self.lb.randrange(len(self.nodes)) if w is None else w % len(self.nodes)
        n = self.nodes[i]
        if not n.alive:
            self.restart(i)
        return n

    def restart(self, i):
        n = self.nodes[i % len(self.nodes)]
        with_me = [p for p in self.world.parties if n in p.nodes]
        for p in with_me:
            if p.store is not None:
                p.store.died(n)
        n.restart()
        for p in with_me:
            p.forget(n)

    def forget(self, n):
        for k in [k for k in self.open if k[0] == n.name]:
            del self.open[k]

    def store_for(self, node):
        if self.store is None:
            return None
        # database connections are not shared between threads of a worker
        key = (node.name, self.sim.task.tid if self.sim.task is not None else None, 'store')
        s = self.open.get(key)
        if s is None:
            s = self.open[key] = self.store.open(node)
        return SpyStore(s, self._note, self)

    def _note(self, url, assoc):
        self.stored.append(dict(seq=self.sim.seq, t=self.sim.now, nt=self.sim.now + self.sim.ctx.node.offset, url=url, secret=bytes(assoc.secret),
                                handle=assoc.handle, type=assoc.assoc_type, issued=assoc.issued, lifetime=assoc.lifetime))

    def wipe(self):
        for n in self.nodes:
            self.forget(n)
        if self.store is not None:
            self.store.wipe()

    def cleanup(self, w=None):
        if self.store is None:
            return
        n = self.pick(w)
        with self.sim.as_node(n):
            st = self.store_for(n)
            st.cleanupNonces()
            st.cleanupAssociations()


# --------------------------------------------------------------- providers

def set_policy(obj, pol, cls):
    """The ways an application has to give an object its own policy."""
    types = [tuple(p) for p in pol]
    way = (len(obj.__class__.__name__) + len(types)) % 3 if cls else len(types) % 4 // 2
    if way == 0:
        obj.negotiator.setAllowedTypes(types)
    elif way == 1 and types:
        obj.negotiator.setAllowedTypes(types[:1])
        for t in types[1:]:
            obj.negotiator.addAllowedType(*t)
    else:
        obj.negotiator = cls(types)


class LibOP(Party):
    lib = True

    def __init__(self, world, name, cfg):
        Party.__init__(self, world, name, cfg)
        self.url = cfg['url']
        self.issued = []          # signed positive assertions that left the provider
        self.confirmed = []       # fields of every positive check_authentication
        self.direct_log = []
        self.given = {}           # shared handle -> record
        self.generation = 0       # bumped when the store is lost

    def server(self, node):
        from openid.server import server
        # one Server object per worker (thread), or one per request
        key = (node.name, self.sim.task.tid if self.sim.task is not None else None, 'server')
        if key in self.open and not self.cfg.get('per_request'):
            return self.open[key]
        s = self.open[key] = server.Server(self.store_for(node), self.url)
        pol = self.cfg.get('policy')
        if pol is not None:
            from openid.association import SessionNegotiator
            set_policy(s, pol, SessionNegotiator)
        return s

    def shared_handles(self):
        """Every handle this provider gave to someone in an association."""
        return [h for h, rec in self.given.items()]

    def shared_now(self, handle):
        """Is `handle` an association shared with someone and alive?  True,
        False, or None when it is running out just now."""
        rec = self.given.get(handle)
        if rec is None or rec['gen'] != self.generation:
            return False
        left = rec['nt'] + rec['expires_in'] - (self.sim.now + self.nodes[0].offset)
        return None if abs(left) <= 2 else left > 0

    def wipe(self):
        Party.wipe(self)
        self.generation += 1

    # direct requests from relying parties
    def direct(self, method, url, body, headers, fault):
        node = self.pick((fault or {}).get('w'))
        args = parse_query((body or b'').decode('utf-8', 'replace'))
        with self.sim.as_node(node, (fault or {}).get('faults')):
            return self._direct(node, args)

    def _direct(self, node, args):
        from openid.server import server
        rec = dict(t=self.sim.now, nt0=self.sim.now + node.offset, args=args, inv=self.sim.seq, node=node.name, reply=None)
        self.direct_log.append(rec)
        try:
            s = self.server(node)
            try:
                req = s.decodeRequest(args)
                if req is None:
                    return Reply(400, {'content-type': 'text/plain'}, 'no openid request')
                resp = s.handleRequest(req)
                web = s.encodeResponse(resp)
            except server.ProtocolError as why:
                web = s.encodeResponse(why)
        except SimCrash:
            raise
        except Exception as why:      # the web framework answers 500
            rec['error'] = why
            self.sim.log('op-500', type(why).__name__)
            if self.world.strict_op and not self.sim.db_gave_up:
                raise
            return Reply(500, {'content-type': 'text/html'}, 'internal error')
        rec['ret'] = self.sim.seq
        self.world.wire.append(dict(op=self, inv=rec['inv'], ret=self.sim.seq, req=args, code=web.code, headers=dict(web.headers), body=web.body))
        rec['reply'] = web.body
        rec['code'] = web.code
        if args.get('openid.mode') == 'associate' and web.code == 200:
            d = kv_decode(web.body if isinstance(web.body, bytes) else web.body.encode('utf-8'))
            if 'assoc_handle' in d:
                try:
                    exp = int(d.get('expires_in', ''))
                except ValueError:
                    exp = 0
                self.given[d['assoc_handle']] = dict(nt=self.sim.now + node.offset, expires_in=exp, gen=self.generation, type=d.get('assoc_type'),
                                                     session=d.get('session_type'), reply=d)
        return Reply(web.code, dict({'content-type': 'text/plain'}, **web.headers), web.body)

    # requests carried by a browser
    def browser(self, msg, decision, w=None, faults=None, hook=None, w2=None):
        """One request of a browser.  With w2 the decoded request waits in the
        user's session until worker w2 handles the user's decision."""
        from openid.server import server
        kept = None
        if w2 is not None:
            node = self.pick(w)
            with self.sim.as_node(node, faults):
                self.sim.point('http', 'op ' + self.name)
                try:
                    kept = pickle.dumps(self.server(node).decodeRequest(dict(msg.args)))
                except server.ProtocolError:
                    pass            # answered at once below
            w = w2
        node = self.pick(w)
        out = dict(kind='none', msg=None, nt0=self.sim.now + node.offset, node=node.name)
        inv = self.sim.seq
        with self.sim.as_node(node, faults):
            self.sim.point('http', 'op ' + self.name)
            try:
                s = self.server(node)
                try:
                    req = s.decodeRequest(dict(msg.args)) if kept is None else pickle.loads(kept)
                    if req is None:
                        out['kind'] = 'notopenid'
                        return out
                    if req.mode not in ('checkid_setup', 'checkid_immediate'):
                        resp = s.handleRequest(req)
                    elif decision.get('link') and not decision.get('allow') and req.mode == 'checkid_setup':
                        # the cancel link of the page that asks the user
                        out['kind'] = 'redirect'
                        out['msg'] = Indirect.redirect(req.getCancelURL())
                        return out
                    else:
                        kw = {}
                        if decision.get('slip') and decision.get('allow'):
                            # the application first answers for another user, or for none
                            other = {} if req.idSelect() else {'identity': self.url + '/nobody'}
                            try:
                                req.answer(True, **other)
                            except (ValueError, server.VersionError):
                                pass
                            else:
                                out['slipped'] = (req.identity, other)
                        if decision.get('allow') and (req.idSelect() or decision.get('force')):
                            kw['identity'] = decision.get('identity')
                            if decision.get('claimed'):
                                kw['claimed_id'] = decision['claimed']
                        resp = req.answer(bool(decision.get('allow')), **kw)
                        if hook is not None:
                            hook(req, resp)
                    web = s.encodeResponse(resp)
                except server.ProtocolError as why:
                    out['protocol_error'] = str(why)
                    web = s.encodeResponse(why)
            except SimCrash:
                raise
            except server.EncodingError:
                out['kind'] = 'page'
                return out
            except Exception as why:
                out['kind'] = 'error'
                out['error'] = why
                if self.world.strict_op and not self.sim.db_gave_up:
                    raise
                return out
        self.world.wire.append(dict(op=self, inv=inv, ret=self.sim.seq, req=dict(msg.args), code=web.code, headers=dict(web.headers), body=web.body))
        if web.code == 302:
            out['kind'] = 'redirect'
            out['msg'] = Indirect.redirect(web.headers['location'])
        elif web.code == 200 and '<form' in str(web.body):
            out['kind'] = 'form'
            out['msg'] = Indirect.form(web.body)
        else:
            out['kind'] = 'page'
            out['body'] = web.body
            out['code'] = web.code
        m = out['msg']
        if m is not None and 'openid.sig' in m.args:
            self.issued.append(dict(t=self.sim.now, nt=self.sim.now + node.offset, node=node.name, args=dict(m.args), url=m.url,
                                    req=dict(msg.args), decision=dict(decision), inv=self.sim.seq))
        return out


class RefOP(object):
    """Independent provider.  cfg keys: url, evil (bool), assoc (list of
    scripted behaviours for successive association requests), expires_in,
    sign ('all'|'min'), dh_x (list of private keys to use first)."""
    lib = False

    def __init__(self, world, name, cfg):
        self.world = world
        self.sim = world.sim
        self.name = name
        self.cfg = cfg
        self.url = cfg['url']
        self.rng = random.Random('refop-%s-%s' % (self.sim.seed, name))
        self.assocs = {}          # shared handle -> dict(secret, type, exp)
        self.assocs_all = {}      # every one ever issued
        self.private = {}         # handle -> dict(secret, type, fields)
        self.issued = []
        self.confirmed = []
        self.direct_log = []
        self.nodes = [Node(name, (cfg.get('offsets') or [0])[0])]
        self.n_assoc = 0
        self.keep_expired = False
        self.n = 0
        self.kind = None

    def now(self):
        return self.sim.now + self.nodes[0].offset

    def direct(self, method, url, body, headers, fault):
        args = parse_query((body or b'').decode('utf-8', 'replace'))
        rec = dict(t=self.sim.now, args=args, reply=None)
        self.direct_log.append(rec)
        mode = args.get('openid.mode')
        if mode == 'associate':
            r = self.associate(args)
        elif mode == 'check_authentication':
            r = self.check_auth(args)
        else:
            r = Reply(400, {}, 'error:unknown mode\n')
        rec['reply'] = r.body
        rec['code'] = r.status
        return r

    def new_handle(self):
        self.n += 1
        fixed = self.cfg.get('handle')
        return fixed or 'ref-%s-%d' % (self.name, self.n)

    def associate(self, args):
        k = self.n_assoc
        self.n_assoc += 1
        script = self.cfg.get('assoc') or []
        beh = script[k % len(script)] if script and (self.cfg.get('cycle') or k < len(script)) else {'do': 'ok'}
        v2 = args.get('openid.ns') == NS2
        atype = args.get('openid.assoc_type') or ('HMAC-SHA1' if not v2 else '')
        stype = args.get('openid.session_type') or 'no-encryption'
        do = beh['do']
        if do == 'raw':
            return Reply(beh.get('status', 200), {'content-type': 'text/plain'}, beh['body'].encode('utf-8', 'surrogateescape'))
        if do == 'unsupported':
            d = {'ns': NS2} if beh.get('ns', True) else {}
            d.update({'error': 'unsupported', 'error_code': beh.get('code', 'unsupported-type')})
            if beh.get('a') is not None:
                d['assoc_type'] = beh['a']
            if beh.get('s') is not None:
                d['session_type'] = beh['s']
            return Reply(beh.get('status', 400), {}, kv_encode(d))
        ra, rs = beh.get('a') or atype, beh.get('s') or stype
        if beh.get('plain1') and not v2:
            rs = 'no-encryption'
        secret = bytes(self.rng.getrandbits(8) for _ in range(beh.get('size') or SIZE.get(ra, 20)))
        handle = beh.get('handle') or self.new_handle()
        exp = beh.get('expires_in', self.cfg.get('expires_in', 3600))
        d = {}
        if (v2 and beh.get('ns', True)) or beh.get('force_ns'):
            d['ns'] = NS2
        elif not v2:
            d.update(self.said_ns(v2))
        d['assoc_handle'] = handle
        d['assoc_type'] = ra
        if not (not v2 and rs == 'no-encryption' and not beh.get('name_plain')):
            d['session_type'] = rs
        d['expires_in'] = str(exp)
        if rs == 'no-encryption':
            d['mac_key'] = b64(secret)
        else:
            try:
                p = int.from_bytes(base64.b64decode(args['openid.dh_modulus']), 'big') if 'openid.dh_modulus' in args else DEFAULT_MOD
                g = int.from_bytes(base64.b64decode(args['openid.dh_gen']), 'big') if 'openid.dh_gen' in args else 2
                A = int.from_bytes(base64.b64decode(args['openid.dh_consumer_public']), 'big')
            except (KeyError, ValueError):
                return Reply(400, {}, kv_encode({'ns': NS2, 'error': 'bad dh'}))
            y = self.choose_y(p, g, A, rs, beh)
            B = pow(g, y, p)
            shared = pow(A, y, p)
            digest = HASH[rs](btwoc(shared)).digest()
            enc = bytes(a ^ b for a, b in zip(digest, secret))
            if len(secret) != len(digest) and not beh.get('size'):
                return Reply(400, {}, kv_encode({'ns': NS2, 'error': 'size'}))
            d['dh_server_public'] = b64(btwoc(B))
            d['enc_mac_key'] = b64(enc)
        for key in beh.get('drop', ()):
            d.pop(key, None)
        d.update(beh.get('set', {}))
        self.assocs_all[handle] = self.assocs[handle] = dict(secret=secret, type=ra, session=rs, exp=self.now() + exp, expires_in=exp, t=self.now(), reply=dict(d))
        return Reply(beh.get('status', 200), {'content-type': 'text/plain'}, kv_encode(d))

    def choose_y(self, p, g, A, rs, beh):
        """Private key; with 'lead' look for a shared secret or public key with
        interesting leading bits (short, or top bit set)."""
        want = beh.get('lead')
        y = self.rng.randrange(2, 1 << 64)
        if not want:
            return y
        base = A if want.startswith('s') else g
        v = pow(base, y, p)
        for _ in range(beh.get('tries', 3000)):
            if kernel.leading_bits(v, p, want[1:]):
                self.sim.probe('dh_' + want)
                return y
            y += 1
            v = v * base % p
        return y

    def make_nonce(self):
        import time as _t
        t = kernel.REAL.gmtime(int(self.now()))
        self.n += 1
        salts = self.cfg.get('salts')
        salt = salts[self.n % len(salts)] if salts else 'ref%d' % self.n
        return '%04d-%02d-%02dT%02d:%02d:%02dZ' % tuple(t[:6]) + salt

    def assertion(self, req, decision):
        """Positive assertion as the specification describes it."""
        v2 = req.get('openid.ns') == NS2
        a = dict(self.said_ns(v2, 'openid.'))
        a['openid.mode'] = 'id_res'
        ident = req.get('openid.identity')
        pick = ident == SELECT or decision.get('force')
        if pick:
            ident = decision.get('identity')
        a['openid.return_to'] = req.get('openid.return_to', '')
        if ident is not None:
            a['openid.identity'] = ident
        if v2:
            a['openid.op_endpoint'] = self.url
            if ident is not None:
                a['openid.claimed_id'] = (decision.get('claimed') or ident) if pick else req.get('openid.claimed_id')
            a['openid.response_nonce'] = self.make_nonce()
        h = req.get('openid.assoc_handle')
        rec = self.assocs.get(h) if h else None
        if rec is not None and rec['exp'] <= self.now() and not self.keep_expired:
            rec = None
        if rec is None:
            if h:
                a['openid.invalidate_handle'] = h
            t = decision.get('type') or 'HMAC-SHA1'
            h = 'priv-%s-%d' % (self.name, self.n + 1)
            self.n += 1
            rec = dict(secret=bytes(self.rng.getrandbits(8) for _ in range(SIZE[t])), type=t)
            self.private[h] = rec
        a['openid.assoc_handle'] = h
        return a, rec

    def said_ns(self, v2, prefix=''):
        """Version declaration of our answers; some providers declare OpenID 1 as well."""
        ns = NS2 if v2 else self.cfg.get('ns1')
        return {prefix + 'ns': ns} if ns else {}

    def min_signed(self, a):
        return [k[7:] for k in a if k[7:] in ('op_endpoint', 'return_to', 'response_nonce', 'assoc_handle', 'claimed_id', 'identity',
                                              'mode')]

    def browser(self, msg, decision, w=None, faults=None, hook=None):
        self.sim.point('http', 'op ' + self.name)
        req = msg.args
        rt = req.get('openid.return_to')
        if not rt or req.get('openid.mode') not in ('checkid_setup', 'checkid_immediate'):
            return dict(kind='page', msg=None)
        v2 = req.get('openid.ns') == NS2
        if not decision.get('allow'):
            if req['openid.mode'] == 'checkid_immediate':
                a = {'openid.mode': 'setup_needed'} if v2 else {'openid.mode': 'id_res', 'openid.user_setup_url': self.url + '?setup'}
            else:
                a = {'openid.mode': 'cancel'}
            a.update(self.said_ns(v2, 'openid.'))
            return dict(kind='redirect', msg=self.to(rt, a))
        a, rec = self.assertion(req, decision)
        for k, v in (decision.get('extra') or {}).items():
            a[k] = v
        for k, v in (decision.get('override') or {}).items():
            if v is None:
                a.pop(k, None)
            else:
                a[k] = v
        signed = self.min_signed(a) if self.cfg.get('sign') == 'min' else [k[7:] for k in a if k.startswith('openid.')]
        signed = [s for s in signed if s not in (decision.get('unsign') or ())]
        if not v2 and self.cfg.get('sign') == 'min':
            signed = [s for s in ('identity', 'return_to', 'mode') if 'openid.' + s in a]
        a['openid.signed'] = ','.join(signed)
        a['openid.sig'] = sign_fields(a, signed, rec['secret'], rec['type'])
        m = self.to(rt, a)
        self.issued.append(dict(t=self.sim.now, nt=self.now(), node=self.name, args=dict(m.args), url=m.url, req=dict(req),
                                decision=dict(decision)))
        return dict(kind='redirect', msg=m)

    @staticmethod
    def to(rt, a):
        sep = '&' if '?' in rt else '?'
        return Indirect.redirect(rt + sep + urlencode(a))

    def check_auth(self, args):
        h = args.get('openid.assoc_handle')
        v2 = args.get('openid.ns') == NS2
        ok = False
        rec = self.private.get(h)
        if rec is not None:
            a = dict(args, **{'openid.mode': 'id_res'})
            signed = (a.get('openid.signed') or '').split(',')
            ok = hmac.compare_digest(sign_fields(a, signed, rec['secret'], rec['type']).encode(), (a.get('openid.sig') or '').encode())
            if not self.cfg.get('reconfirm'):
                self.private.pop(h, None)
        if self.cfg.get('evil'):
            ok = True
        d = self.said_ns(v2)
        no = self.cfg.get('no', 'false')
        if ok or no is not None:
            d['is_valid'] = 'true' if ok else no
        ih = args.get('openid.invalidate_handle')
        if ih and ih not in self.assocs:
            d['invalidate_handle'] = ih
        return Reply(200, {'content-type': 'text/plain'}, kv_encode(d))

    def restart(self, i):
        pass

    def shared_now(self, handle):
        return None

    def shared_handles(self):
        return list(self.assocs)

    def wipe(self):
        self.assocs.clear()
        self.private.clear()

    def cleanup(self, w=None):
        pass


# ----------------------------------------------------------- relying party

class Shelf(object):
    """A session that keeps each value serialised, as web frameworks and
    shelve do: what is read is a copy."""

    def __init__(self, data):
        self.data = data

    def __getitem__(self, k):
        return pickle.loads(self.data[k])

    def __setitem__(self, k, v):
        self.data[k] = pickle.dumps(v)

    def __delitem__(self, k):
        del self.data[k]

    def __contains__(self, k):
        return k in self.data

    def get(self, k, default=None):
        return self[k] if k in self.data else default


class RP(Party):
    def __init__(self, world, name, cfg):
        Party.__init__(self, world, name, cfg)
        self.return_to = cfg['return_to']
        self.realm = cfg['realm']
        self.sessions = {}

    def consumer(self, node, session):
        from openid.consumer import consumer
        c = consumer.Consumer(session, self.store_for(node))
        pol = self.cfg.get('policy')
        if pol is not None:
            if len(pol) % 2:
                c.setAssociationPreference([tuple(p) for p in pol])
            else:
                set_policy(c.consumer, pol, None)
        return c

    def session(self, sid):
        raw = self.sessions.get(sid)
        if self.cfg.get('shelf'):
            return Shelf(pickle.loads(raw) if raw is not None else {})
        return {} if raw is None else pickle.loads(raw)

    def begin(self, sid, ident, w=None, imm=False, net=None, faults=None, style=None, hook=None, anonymous=False, rt=None):
        """Application page that starts a login.  Returns an event dict."""
        node = self.pick(w)
        sim = self.sim
        ev = dict(kind='begin', rp=self.name, ident=ident, sess=sid, node=node.name, t=sim.now, nt=sim.now + node.offset, inv=sim.seq, exc=None,
                  msg=None, imm=imm, req0=len(self.world.net.trace))
        self.world.events.append(ev)
        try:
            with sim.as_node(node, faults) as ctx:
                ctx.net_faults = net
                ctx.ev = ev
                sim.point('http', 'rp begin')
                session = self.session(sid)
                try:
                    c = self.consumer(node, session)
                    req = c.begin(ident, anonymous) if anonymous else c.begin(ident)
                    if hook is not None:
                        hook(req)
                    ret = rt or self.return_to
                    if style == 'twice':
                        # an application that offers both kinds of request
                        req.redirectURL(self.realm, ret, not imm)
                        style = None
                    if style == 'redirect' or (style is None and req.shouldSendRedirect()):
                        m = Indirect.redirect(req.redirectURL(self.realm, ret, imm))
                    else:
                        m = Indirect.form(req.htmlMarkup(self.realm, ret, imm))
                    ev['msg'] = m
                    ev['server_url'] = req.endpoint.server_url
                    ev['claimed_id'] = req.endpoint.claimed_id
                    ev['local_id'] = req.endpoint.getLocalID()
                    ev['types'] = list(req.endpoint.type_uris)
                    ev['assoc'] = req.assoc.handle if req.assoc is not None else None
                except SimCrash:
                    raise
                except Exception as why:
                    ev['exc'] = why
                self.sessions[sid] = pickle.dumps(session.data if isinstance(session, Shelf) else session)
        except SimCrash:
            if sim.finished or (sim.task is not None and sim.aborting):
                raise
            ev['exc'] = 'crash'
            sim.probe('rp_crash')
        ev['ret'] = sim.seq
        ev['req1'] = len(self.world.net.trace)
        sim.log('begin', self.name, ident, type(ev['exc']).__name__, ev['msg'])
        return ev

    def complete(self, sid, msg, w=None, net=None, faults=None, login=None, hook=None):
        node = self.pick(w)
        sim = self.sim
        ev = dict(kind='complete', rp=self.name, sess=sid, node=node.name, t=sim.now, nt=sim.now + node.offset, inv=sim.seq, exc=None,
                  status=None, msg=msg, login=login, req0=len(self.world.net.trace), identity=None, server_url=None, resp=None)
        self.world.events.append(ev)
        try:
            with sim.as_node(node, faults) as ctx:
                ctx.net_faults = net
                ctx.ev = ev
                sim.point('http', 'rp complete')
                session = self.session(sid)
                ev['stale'] = session.get('_openid_consumer_last_token') is None
                try:
                    c = self.consumer(node, session)
                    r = c.complete(dict(msg.args), msg.url)
                    ev['status'] = r.status
                    ev['identity'] = r.identity_url
                    ev['shown'] = r.getDisplayIdentifier()
                    ev['resp'] = r
                    if r.status == 'success':
                        ev['server_url'] = r.endpoint.server_url
                        ev['signed'] = list(r.signed_fields)
                        if hook is not None:
                            hook(r, ev)
                    elif r.status == 'failure':
                        ev['why'] = r.message
                    elif r.status == 'setup_needed':
                        ev['setup_url'] = r.setup_url
                except SimCrash:
                    raise
                except Exception as why:
                    ev['exc'] = why
                self.sessions[sid] = pickle.dumps(session.data if isinstance(session, Shelf) else session)
        except SimCrash:
            if sim.finished or (sim.task is not None and sim.aborting):
                raise
            ev['exc'] = 'crash'
            sim.probe('rp_crash')
        ev['ret'] = sim.seq
        ev['nt1'] = sim.now + node.offset
        ev['req1'] = len(self.world.net.trace)
        sim.log('complete', self.name, ev['status'], ev['identity'], ev.get('why'), type(ev['exc']).__name__)
        return ev


# ------------------------------------------------------------------- world

class World(object):
    def __init__(self, sim, cfg):
        self.sim = sim
        self.cfg = cfg
        self.strict_op = cfg.get('strict_op', False)
        self.net = Net(sim)
        install_fetcher(self.net)
        self.parties = []
        self.events = []
        self.pages = {}
        self.logins = {}
        self.wire = []             # everything providers sent: dict(op, t, inv, req, code, headers, body)
        self.ops = []
        for i, c in enumerate(cfg.get('ops', ())):
            c = dict(c)
            c.setdefault('url', 'http://op%d.example/openid' % i)
            op = (LibOP if c.get('kind', 'lib') == 'lib' else RefOP)(self, 'op%d' % i, c)
            self.ops.append(op)
        self.rps = []
        for i, c in enumerate(cfg.get('rps', ())):
            c = dict(c)
            c.setdefault('return_to', 'http://rp%d.example/done' % i)
            c.setdefault('realm', 'http://rp%d.example/' % i)
            self.rps.append(RP(self, 'rp%d' % i, c))
        self.ids = []
        self.claims = set()       # (claimed id, endpoint url, local id, 'v1'|'v2')
        for i, c in enumerate(cfg.get('ids', ())):
            self.publish(i, c)
        self.op_by_url = {}
        for op in self.ops:
            self.op_by_url[op.url] = op
        self.begin_hook = None
        self.op_hook = None
        self.complete_hook = None

    # -- identity pages ---------------------------------------------------
    def id_url(self, i, c):
        return c.get('url') or 'http://id%d.example/' % i

    def publish(self, i, c):
        """(Re)publish identity i's documents."""
        url = self.id_url(i, c)
        svcs = c['services']
        if c.get('doc') == 'html':
            svcs = docs.html_services(svcs)
        uris = [self.ops[s['op']].url for s in svcs]
        rec = dict(i=i, url=url, cfg=c, services=svcs, uris=uris, user=url, claimed=url)
        if c.get('xri'):
            rec['user'] = c['xri']
            rec['claimed'] = 'xri://' + c['canonical']     # the library's form of a CanonicalID
            self.net.host('proxy.xri.net', self._xri)
        if c.get('redirect'):
            rec['user'] = 'http://go%d.example/x' % i
            self.pages[rec['user']] = lambda h, url=url: Reply(302, {'location': url}, '')
            self.net.host('go%d.example' % i, self._page)
        while len(self.ids) <= i:
            self.ids.append(None)
        self.ids[i] = rec
        for s, u in zip(svcs, uris):
            if s['ver'] == 'op':
                continue
            local = s.get('local') or rec['claimed']
            for v in docs.vers(s):
                self.claims.add((rec['claimed'], u, local, 'v2' if v == '2' else 'v1'))
        doc = c.get('doc', 'yadis')
        page = docs.html([], [], body='hello')
        xml = docs.xrds([docs.service_xml(s, [u]) for s, u in zip(svcs, uris)], canonical=c.get('canonical'))
        rec['xml'] = xml
        ct_html = {'content-type': 'text/html; charset=utf-8'}
        ct_xrds = {'content-type': docs.XRDS_CT}
        sep = '&' if '?' in url else '?'
        if c.get('xri'):
            self.pages.pop(url, None)      # found through the resolver only
        elif doc == 'yadis':
            self.pages[url] = lambda h: Reply(200, ct_xrds, xml)
        elif doc == 'nego':
            self.pages[url] = lambda h: Reply(200, ct_xrds, xml) if 'xrds+xml' in (h.get('Accept') or h.get('accept') or '') \
                else Reply(200, ct_html, page)
        elif doc == 'header':
            self.pages[url] = lambda h: Reply(200, dict(ct_html, **{'x-xrds-location': url + sep + 'xrds'}), page)
            self.pages[url + sep + 'xrds'] = lambda h: Reply(200, ct_xrds, xml)
        elif doc == 'meta':
            mp = docs.html([], [], extra='<meta http-equiv="X-XRDS-Location" content="%s">' % docs.escape(url + sep + 'xrds'))
            self.pages[url] = lambda h: Reply(200, ct_html, mp)
            self.pages[url + sep + 'xrds'] = lambda h: Reply(200, ct_xrds, xml)
        elif doc == 'html':
            hp = docs.html(svcs, uris)
            self.pages[url] = lambda h: Reply(200, ct_html, hp)
        elif doc == 'gone':
            self.pages.pop(url, None)
        self.net.host(urlsplit(url).netloc, self._page)
        for op in self.ops:
            self.net.host(urlsplit(op.url).netloc, self._page)
        return rec

    def _page(self, method, url, body, headers, fault):
        if method == 'POST':
            for op in self.ops:
                if op.url == url:
                    return op.direct(method, url, body, headers, fault)
        p = self.pages.get(url.split('#')[0])
        if p is None:
            return None
        return p(headers)

    def _xri(self, method, url, body, headers, fault):
        path = unquote(urlsplit(url).path.lstrip('/'))
        q = parse_query(urlsplit(url).query)
        want = q.get('_xrd_t')
        for rec in self.ids:
            if rec and rec['cfg'].get('xri') and path in (rec['cfg']['xri'], rec['cfg']['canonical']):
                sv = [(s, u) for s, u in zip(rec['services'], rec['uris']) if want in [docs.TYPE.get(v, v) for v in docs.vers(s)]]
                return Reply(200, {'content-type': docs.XRDS_CT},
                             docs.xrds([docs.service_xml(s, [u]) for s, u in sv], canonical=rec['cfg']['canonical'], pre='<Query>%s</Query>' % path))
        return Reply(404, {}, '')

    def find_op(self, url):
        for u, op in self.op_by_url.items():
            if url == u or url.startswith(u + ('&' if '?' in u else '?')):
                return op
        return None

    # -- steps ------------------------------------------------------------
    def do(self, st):
        getattr(self, 's_' + st['s'])(st)

    def run(self, steps):
        for st in steps:
            self.do(st)

    def s_par(self, st):
        specs = []
        for k, sub in enumerate(st['tasks']):
            specs.append(('b%d' % k, Node('browser%d' % k), (lambda sub=sub: self.run(sub))))
        tasks = self.sim.run_tasks(specs)
        for t in tasks:
            if t.error is not None:
                raise t.error
        if self.sim.aborting:
            raise kernel.Violation('stuck', 'the parties did not finish: %s' % self.sim.aborting)

    def s_tick(self, st):
        if self.sim.task is not None and st['dt'] > 0:
            self.net.pass_time(st['dt'])
        else:
            self.sim.advance(st['dt'])

    def s_begin(self, st):
        rp = self.rps[st.get('rp', 0) % len(self.rps)]
        ident = st.get('ident')
        if ident is None:
            ident = self.ids[st['id'] % len(self.ids)]['user']
        self.sim.dh_wants = [(None, k) if k else None for k in st.get('dh') or ()]
        ev = rp.begin(st.get('sess', 's0'), ident, w=st.get('w'), imm=st.get('imm', False), net=st.get('net'), faults=st.get('faults'),
                      style=st.get('style'), hook=self.begin_hook and (lambda req: self.begin_hook(st, req)), anonymous=st.get('anon', False),
                      rt=st.get('rt'))
        self.sim.dh_wants = []
        ev['step'] = st
        self.logins[st.get('l', 0)] = dict(l=st.get('l', 0), begin=ev, st=st, outs=[], rp=rp, results=[])
        return ev

    def s_op(self, st):
        lg = self.logins.get(st.get('l', 0))
        if lg is None or lg['begin']['msg'] is None:
            return None
        m = lg['begin']['msg'].copy()
        if st.get('setup'):
            # the user follows the address a setup_needed response named
            if not lg['results'] or not lg['results'][-1].get('setup_url'):
                return None
            m = Indirect.redirect(lg['results'][-1]['setup_url'])
        apply_edits(m, st.get('edits'))
        op = self.find_op(m.url)
        if op is None:
            return None
        dec = dict(st.get('dec') or {'allow': True})
        try:
            out = op.browser(m, dec, w=st.get('w'), faults=st.get('faults'), **(dict(w2=st['w2']) if op.lib and st.get('w2') is not None else {}),
                             hook=self.op_hook and (lambda req, resp: self.op_hook(st, req, resp)))
        except SimCrash:
            if self.sim.finished or (self.sim.task is not None and self.sim.aborting):
                raise
            out = dict(kind='crash', msg=None)
        out['op'] = op
        out['dec'] = dec
        out['step'] = st
        out['t'] = self.sim.now
        out['req'] = m
        self.events.append(dict(kind='op', op=op.name, out=out, l=st.get('l', 0), t=self.sim.now))
        self.sim.log('op', op.name, out['kind'], out['msg'])
        lg['outs'].append(out)
        return out

    def s_deliver(self, st):
        lg = self.logins.get(st.get('l', 0))
        if lg is None:
            return None
        outs = [o for o in lg['outs'] if o['msg'] is not None]
        if not outs:
            return None
        out = outs[st.get('m', -1) % len(outs)]
        m = out['msg'].copy()
        apply_edits(m, st.get('edits'))
        if not self.route_ok(m.url, lg['rp']) and not st.get('anyway'):
            return None
        return self.give(st, m, lg)

    def route_ok(self, url, rp):
        return urlsplit(url).netloc == urlsplit(rp.return_to).netloc

    def give(self, st, m, lg=None):
        rp = self.rps[st['rp'] % len(self.rps)] if st.get('rp') is not None else lg['rp']
        sess = st.get('sess')
        if sess is None:
            sess = lg['begin']['sess'] if lg else 's0'
        ev = rp.complete(sess, m, w=st.get('w'), net=st.get('net'), faults=st.get('faults'), login=lg and lg['l'], hook=self.complete_hook and
                         (lambda r, e: self.complete_hook(st, r, e)))
        ev['step'] = st
        if lg is not None:
            lg['results'].append(ev)
        return ev

    def party(self, name):
        for p in self.ops + self.rps:
            if p.name == name:
                return p

    def s_restart(self, st):
        p = self.party(st['who'])
        if p is not None:
            p.restart(st.get('w', 0))

    def s_wipe(self, st):
        p = self.party(st['who'])
        if p is not None:
            p.wipe()
            self.sim.count_fault('store_lost')

    def s_cleanup(self, st):
        p = self.party(st['who'])
        if p is not None:
            try:
                p.cleanup(st.get('w'))
            except Exception as why:       # the operator's cron job mails the error
                self.events.append(dict(kind='cleanup-error', who=st['who'], exc=why))
                self.sim.log('cleanup-error', type(why).__name__)

    def s_offset(self, st):
        p = self.party(st['who'])
        if p is not None:
            p.nodes[st.get('w', 0) % len(p.nodes)].offset = st['off']
            self.sim.count_fault('clock_jump')

    def s_publish(self, st):
        i = st['id'] % len(self.ids)
        self.publish(i, dict(self.ids[i]['cfg'], **st['cfg']))

    def close(self):
        for p in self.ops + self.rps:
            if isinstance(p, Party) and p.store is not None:
                p.store.close()


def apply_edits(m, edits):
    """Edits an adversary makes: ['set',k,v] ['del',k] ['swap',k1,k2]
    ['append',k,v] ['url',u] ['listdel',field] ['listadd',field] ..."""
    for e in edits or ():
        op = e[0]
        a = m.args
        if op == 'set':
            a[e[1]] = e[2]
        elif op == 'del':
            a.pop(e[1], None)
        elif op == 'swap':
            if e[1] in a and e[2] in a:
                a[e[1]], a[e[2]] = a[e[2]], a[e[1]]
        elif op == 'copy':
            if e[1] in a:
                a[e[2]] = a[e[1]]
        elif op == 'append':
            if e[1] in a:
                a[e[1]] = a[e[1]] + e[2]
        elif op == 'cut':
            if e[1] in a:
                a[e[1]] = a[e[1]][:e[2]]
        elif op == 'prepend':
            if e[1] in a:
                a[e[1]] = e[2] + a[e[1]]
        elif op == 'case':
            if e[1] in a:
                a[e[1]] = a[e[1]].swapcase()
        elif op == 'rename':
            if e[1] in a:
                a[e[2]] = a.pop(e[1])
        elif op == 'listdel':
            lst = [x for x in a.get('openid.signed', '').split(',') if x != e[1]]
            a['openid.signed'] = ','.join(lst)
        elif op == 'listadd':
            a['openid.signed'] = ','.join([x for x in a.get('openid.signed', '').split(',') if x] + [e[1]])
        elif op == 'url':
            m.url = e[1]
        elif op == 'replace':
            if e[1] in a:
                a[e[1]] = a[e[1]].replace(e[2], e[3])


def simple_login(l, rp=0, id=0, sess=None, dec=None, **kw):
    """The three steps of an undisturbed login."""
    b = dict(s='begin', l=l, rp=rp, id=id, sess=sess or 's%s' % l)
    b.update(kw.get('begin', {}))
    o = dict(s='op', l=l, dec=dec or {'allow': True})
    o.update(kw.get('op', {}))
    d = dict(s='deliver', l=l)
    d.update(kw.get('deliver', {}))
    return [b, o, d]
