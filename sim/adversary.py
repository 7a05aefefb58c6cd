"""Hostile browser / hostile provider / hostile relying party toolkit."""
from urllib.parse import parse_qsl, urlencode, urlsplit

from . import docs
from .kernel import SimCrash, leading_bits
from .net import GARBAGE, gen_fault
from .world import DEFAULT_MOD, HASH, NS2, SIZE, Indirect, RefOP, World, b64, btwoc, kv_decode, sign_fields
import base64

SAFE_GARBAGE = [i for i, g in enumerate(GARBAGE) if b'is_valid:true' not in g.replace(b' ', b'')]

FIELDS = ['identity', 'claimed_id', 'return_to', 'op_endpoint', 'response_nonce', 'assoc_handle', 'signed', 'sig', 'mode', 'ns',
          'invalidate_handle']


# (modulus, generator): the default group, RFC 3526 group 14, RFC 2409 group 1
MODULI = [(DEFAULT_MOD, 2),
          (int('FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B302B0A6DF25F1437'
               '4FE1356D6D51C245E485B576625E7EC6F44C42E9A637ED6B0BFF5CB6F406B7EDEE386BFB5A899FA5AE9F24117C4B1FE649286651ECE45B3DC2007CB8A163BF05'
               '98DA48361C55D39A69163FA8FD24CF5F83655D23DCA3AD961C62F356208552BB9ED529077096966D670C354E4ABC9804F1746C08CA18217C32905E462E36CE3B'
               'E39E772C180E86039B2783A2EC07A28FB5C55DF06F4C52C9DE2BCBF6955817183995497CEA956AE515D2261898FA051015728E5A8AACAA68FFFFFFFFFFFFFFFF', 16), 2),
          (int('FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B302B0A6DF25F1437'
               '4FE1356D6D51C245E485B576625E7EC6F44C42E9A63A3620FFFFFFFFFFFFFFFF', 16), 2)]


def loss_fault(rng):
    """A fault of the direct channel that does not forge protocol answers."""
    f = gen_fault(rng)
    if f['kind'] == 'garbage':
        f['g'] = rng.choice(SAFE_GARBAGE)
    return f


def gen_edits(rng, ids_urls, op_urls, rp_urls, bare=('janrain_nonce', 'openid1_claimed_id', 'x', 'next', 'evil')):
    """1-3 alterations of a message in a browser."""
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        k = rng.random()
        f = 'openid.' + rng.choice(FIELDS)
        pool = (ids_urls + op_urls + rp_urls + ['', 'true', 'x', NS2, 'http://openid.net/signon/1.1', 'id_res', 'http://openid.net/signon/1.0'])
        if k < 0.28:
            if f == 'openid.claimed_id' or f == 'openid.identity':
                v = rng.choice(ids_urls)
            elif f == 'openid.op_endpoint':
                v = rng.choice(op_urls)
            elif f == 'openid.return_to':
                v = rng.choice(rp_urls)
            else:
                v = rng.choice(pool)
            out.append(['set', f, v])
        elif k < 0.42:
            out.append(['del', f])
        elif k < 0.5:
            out.append(['append', f, rng.choice(['x', '#frag', '?', '&a=b', '/', ',extra', ' ', '%20', 'A', '=', '\n'])])
        elif k < 0.55:
            out.append(['prepend', f, rng.choice(['x', ' ', 'http://', ','])])
        elif k < 0.58:
            out.append(['case', f])
        elif k < 0.6:
            out.append(['cut', rng.choice(['openid.sig', 'openid.sig', f]), rng.choice([1, 2, 5, -1, -2])])
        elif k < 0.68:
            out.append(['listdel', rng.choice(FIELDS)])
            if rng.random() < 0.6:
                out.append(['set', 'openid.' + out[-1][1], rng.choice(pool)])
        elif k < 0.73:
            out.append(['listadd', rng.choice(FIELDS + ['sreg.email', 'ns.sreg', 'foo'])])
        elif k < 0.78:
            out.append(['swap', f, 'openid.' + rng.choice(FIELDS)])
        elif k < 0.82:
            out.append(['copy', 'openid.claimed_id', 'openid.identity'])
        elif k < 0.86:
            # move a field between namespaces / aliases
            out.append(['rename', f, rng.choice(['openid.ext.' + f[7:], f[7:], 'openid.ns.' + f[7:], f.upper(), f + ' '])])
        elif k < 0.95:
            b = rng.choice(bare)
            out.append(rng.choice([['set', b, rng.choice(pool)], ['del', b], ['append', b, 'z']]))
        else:
            # openid 2 <-> 1
            out.append(rng.choice([['del', 'openid.ns'], ['set', 'openid.ns', 'http://openid.net/signon/1.1'],
                                   ['set', 'openid.ns', 'http://openid.net/signon/1.0'], ['set', 'openid.ns', NS2]]))
    return out


class HostileWorld(World):
    """World plus attacker steps: att_assoc, forge, steal."""

    def __init__(self, sim, cfg):
        World.__init__(self, sim, cfg)
        self.att_log = []
        self.loot = []            # associations the attacker made with honest providers

    def s_att_assoc(self, st):
        """The attacker associates with provider `op` like any relying party."""
        op = self.ops[st['op'] % len(self.ops)]
        t, stype = st['type'], st['session']
        a = {'openid.mode': 'associate'}
        if t is not None:
            a['openid.assoc_type'] = t
        if stype is not None:
            a['openid.session_type'] = stype
        if st.get('v2', True):
            a['openid.ns'] = NS2
        x = st.get('x') or 0x1234567890abcdef1234567890abcdef + len(self.loot)
        mod, g = MODULI[st.get('mod', 0) % len(MODULI)]
        if stype not in ('no-encryption', None, ''):
            A = pow(g, x, mod)
            lead = st.get('clead')         # our public key with special leading bits
            for _ in range(3000 if lead else 0):
                if leading_bits(A, mod, lead):
                    self.sim.probe('client_public_' + lead)
                    break
                x += 1
                A = A * g % mod
            a['openid.dh_consumer_public'] = b64(btwoc(A))
            if mod != DEFAULT_MOD:
                a['openid.dh_modulus'] = b64(btwoc(mod))
                a['openid.dh_gen'] = b64(btwoc(g))
            if st.get('slead'):            # let the server draw a key giving a special shared secret
                self.sim.dh_wants = [(A, st['slead'])]
            elif st.get('plead'):          # ... or a special public key
                self.sim.dh_wants = [(None, st['plead'])]
        if not op.lib:
            self.sim.dh_wants = []
            return
        try:
            r = op.direct('POST', op.url, urlencode(a).encode(), {}, dict(w=st.get('w'), faults=st.get('faults')))
        except SimCrash:
            if self.sim.finished or (self.sim.task is not None and self.sim.aborting):
                raise
            return
        finally:
            self.sim.dh_wants = []
        d = kv_decode(r.body)
        self.att_log.append(dict(op=op, status=r.status, reply=d, step=st))
        if 'assoc_handle' not in d:
            return
        if stype not in HASH and 'mac_key' not in d:
            return
        if 'mac_key' in d:
            secret = base64.b64decode(d['mac_key'])
        else:
            B = int.from_bytes(base64.b64decode(d['dh_server_public']), 'big')
            digest = HASH[stype](btwoc(pow(B, x, mod))).digest()
            secret = bytes(p ^ q for p, q in zip(digest, base64.b64decode(d['enc_mac_key'])))
        self.loot.append(dict(op=op, handle=d['assoc_handle'], secret=secret, type=t, session=stype, reply=d, step=st))
        self.sim.probe('attacker_associated')

    def s_forge(self, st):
        """Build an assertion from nothing and give it to a relying party."""
        lg = self.logins.get(st.get('l', 0))
        rp = self.rps[st.get('rp', 0) % len(self.rps)]
        victim = self.ids[st['victim'] % len(self.ids)]
        if not victim['services']:
            return
        svc_i = st.get('svc', 0) % len(victim['services'])
        svc, uri = victim['services'][svc_i], victim['uris'][svc_i]
        rt = rp.return_to
        if lg is not None and lg['begin']['msg'] is not None and lg['rp'] is rp:
            rt = lg['begin']['msg'].args.get('openid.return_to', rt)
        elif st.get('nonce_rt'):
            rt = rt + ('&' if '?' in rt else '?') + urlencode({'janrain_nonce': self.stamp() + 'att%d' % self.sim.seq,
                                                             'openid1_claimed_id': victim['claimed']})
        evil = [o for o in self.ops if not o.lib and o.cfg.get('evil')]
        key = None
        handle = None
        kind = st['key']
        if kind == 'evil' and evil:
            e = evil[0]
            if e.assocs:
                handle = sorted(e.assocs)[-1]
                key = e.assocs[handle]
            else:
                handle, key = 'evilhandle', dict(secret=b'k' * 20, type='HMAC-SHA1')
        elif kind == 'loot' and self.loot:
            k = self.loot[st.get('n', 0) % len(self.loot)]
            handle, key = k['handle'], k
        if key is None:
            handle, key = 'nohandle', dict(secret=b'', type='HMAC-SHA1') if kind != 'weak' else dict(secret=b'\0' * 20, type='HMAC-SHA1')
        if st.get('handle') == 'shared' and lg is not None and lg['begin']['msg'] is not None:
            handle = lg['begin']['msg'].args.get('openid.assoc_handle', handle)
        ep = uri if st.get('ep') != 'evil' or not evil else evil[0].url
        local = svc.get('local') or victim['claimed']
        a = {}
        if st.get('ver', 2) == 2:
            a['openid.ns'] = NS2
            a['openid.op_endpoint'] = ep
            a['openid.claimed_id'] = victim['claimed']
            a['openid.response_nonce'] = self.stamp() + 'f%d' % self.sim.seq
        a['openid.mode'] = 'id_res'
        a['openid.identity'] = local
        a['openid.return_to'] = rt
        a['openid.assoc_handle'] = handle
        if st.get('inval'):
            a['openid.invalidate_handle'] = handle
        signed = [k[7:] for k in a if k.startswith('openid.')]
        if st.get('signed') == 'min':
            signed = [s for s in signed if s not in ('mode', 'ns')]
        elif st.get('signed') == 'few':
            signed = [s for s in signed if s in ('return_to', 'identity')]
        a['openid.signed'] = ','.join(signed)
        a['openid.sig'] = sign_fields(a, signed, key['secret'], key['type'])
        m = RefOP.to(rt, a)
        from .world import apply_edits
        apply_edits(m, st.get('edits'))
        self.sim.count_fault('forged_assertion')
        self.give(dict(st, rp=self.rps.index(rp)), m, lg if lg is not None and lg['rp'] is rp else None)

    def stamp(self):
        from . import kernel
        t = kernel.REAL.gmtime(int(self.sim.now))
        return '%04d-%02d-%02dT%02d:%02d:%02dZ' % tuple(t[:6])

    def s_cross(self, st):
        """Deliver the answer of one login to another relying party / path."""
        lg = self.logins.get(st.get('l', 0))
        if lg is None:
            return
        outs = [o for o in lg['outs'] if o['msg'] is not None]
        if not outs:
            return
        m = outs[-1]['msg'].copy()
        rp = self.rps[st['rp'] % len(self.rps)]
        base = rp.return_to.split('?')[0] + st.get('path', '')
        if st.get('scheme'):
            base = st['scheme'] + base[base.index(':'):]
        if st.get('host'):
            u = urlsplit(base)
            base = '%s://%s%s%s' % (u.scheme, u.netloc, st['host'], base[base.index(u.netloc) + len(u.netloc):])
        m.url = base + '?' + urlsplit(m.url).query
        from .world import apply_edits
        apply_edits(m, st.get('edits'))
        self.sim.count_fault('cross_delivery')
        ev = self.give(dict(st), m, None)
        ev['moved'] = True


def judge_success(w, ev, err):
    """Ground truth for one successful completion; err(cls, msg) reports."""
    a = ev['msg'].args
    X = ev['identity']
    E = ev['server_url']
    v2 = a.get('openid.ns') == NS2
    signed = a.get('openid.signed', '').split(',')
    what = 'login at %s succeeded for %r via %r: ' % (ev['rp'], X, E)
    op = w.op_by_url.get(E)
    must = ['return_to', 'identity'] + (['op_endpoint', 'response_nonce', 'assoc_handle', 'claimed_id'] if v2 else [])
    if X is None:
        must = [m for m in must if m not in ('identity', 'claimed_id')]
    for m in must:
        if m not in signed:
            err('unsigned-field', what + 'field %s is not in the signed list %r' % (m, signed))
            return
    if X is not None:
        ident = a.get('openid.identity')
        if v2 and a.get('openid.claimed_id') != X:
            err('identity-changed', what + 'message claims %r' % a.get('openid.claimed_id'))
            return
        if (X.split('#')[0], E, ident, 'v2' if v2 else 'v1') not in w.claims:
            err('endpoint-not-authorised', what + 'documents of that identifier never named this provider with local id %r for OpenID %s' % (
                ident, 2 if v2 else 1))
            return
    if v2 and a.get('openid.op_endpoint') != E:
        err('endpoint-changed', what + 'message names %r' % a.get('openid.op_endpoint'))
        return
    # return address
    rt = a.get('openid.return_to', '')
    if urlsplit(rt)[:3] != urlsplit(ev['msg'].url)[:3]:
        err('return-to-mismatch', what + 'signed return address %r, delivered to %r' % (rt, ev['msg'].url))
        return
    q = parse_qsl(urlsplit(rt).query, keep_blank_values=True)
    for k, v in q:
        if a.get(k) != v:
            err('return-to-mismatch', what + 'return address argument %s=%r but request has %r' % (k, v, a.get(k)))
            return
    for k, v in a.items():
        if not k.startswith('openid.') and (k, v) not in q:
            err('return-to-mismatch', what + 'argument %s=%r is not in the signed return address' % (k, v))
            return
    if op is None:
        if X is not None:
            err('unknown-provider', what + 'no such provider')
        return
    if not op.lib and op.cfg.get('evil'):
        return
    for rec in op.issued:
        r = rec['args']
        if r.get('openid.signed') == a.get('openid.signed') and r.get('openid.sig') == a.get('openid.sig') and all(r.get('openid.' + k, '') == a.get('openid.' + k, '') for k in signed):
            if rec['decision'].get('allow'):
                return
    err('never-approved', what + 'that provider never issued such an assertion: %r' % (sorted(a.items()),))
