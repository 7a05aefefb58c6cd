"""C24: association secrets are not disclosed."""
import base64
import hashlib
import re
from urllib.parse import unquote, unquote_plus, urlencode

from ..gen import OP_STORES, gen_id, gen_op, gen_rp, policy
from ..kernel import Violation
from ..provider import ProviderWorld
from ..rawreq import gen_request
from ..world import DEFAULT_MOD, HASH, btwoc, kv_decode, parse_query
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec
from .c09 import checkid, verify_edits
from .c12 import DEFAULT_ORDER

TOKEN = re.compile(r'[A-Za-z0-9+/_=-]{8,}')
SMALL = [pow(2, k, DEFAULT_MOD) for k in range(0, 64)]


class C24(Prop):
    id = 'C24'
    runs = {'quick': 4000, 'thorough': 180000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('no byte string sent by a library provider or relying party contains an association secret or key-exchange exponent, or 8 consecutive bytes of one, plain or in '
            'base64, hex, decimal or URL encoding, except the mac_key answering a request for an unencrypted session with a newly made association; '
            'encrypted keys do not decrypt with values visible on the wire; a relying party asks for an unencrypted session only if its policy lists it')
    state_measure = 'hash of (sender, request kind, session type, version, answer status, alterations)'
    assumptions = ['what an independent provider sends is its own business', 'discrete logarithms are hard']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        nops = rng.choice([1, 1, 2])
        ops = [gen_op(rng, 0, stores=[OP_STORES[index % 5], 'mem'], skew=False)]
        if nops == 2:
            ops.append(gen_op(rng, 1, kinds=('ref', 'lib'), skew=False))
        rps = [gen_rp(rng, 0, stores=[OP_STORES[(index // 5) % 5], 'mem', None], skew=False)]
        rps[0]['policy'] = policy(rng, 0.3)
        ids = [gen_id(rng, i, nops, xri=False, nsvc=rng.choice([1, 2])) for i in range(rng.choice([1, 2]))]
        for c in ids:
            for s in c['services']:
                if s['ver'] == 'op':
                    s['ver'] = '2'
        steps = []
        l = [0]

        def some():
            k = rng.random()
            if k < 0.3:
                l[0] += 1
                n = l[0]
                b = dict(s='begin', l=n, rp=0, id=rng.randrange(len(ids)), sess='s%d' % rng.randrange(2), w=rng.randrange(2), imm=rng.random() < 0.2)
                return [b, dict(s='op', l=n, dec={'allow': rng.random() < 0.8}, w=rng.randrange(2)), dict(s='deliver', l=n, w=rng.randrange(2))]
            if k < 0.5:
                t = rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
                return [dict(s='att_assoc', op=0, type=t, session=rng.choice(['no-encryption', 'DH-' + t[5:], 'DH-' + t[5:], None, '', 'DH-SHA1']), v2=rng.random() < 0.6,
                             w=rng.randrange(2))]
            if k < 0.65:
                return [dict(s='raw_req', op=0, args=checkid(rng, rng.random() < 0.6), w=rng.randrange(2), dec={'allow': rng.random() < 0.8},
                             handle=rng.choice([None, ['loot', 0], ['out', 0], 'bogus']))]
            if k < 0.8:
                v = dict(s='verify', n=rng.randrange(3), w=rng.randrange(2))
                if rng.random() < 0.4:
                    v['edits'] = verify_edits(rng)
                if rng.random() < 0.3:
                    v['inval'] = rng.choice([['loot', 0], ['out', 0], 'bogus'])
                return [v]
            return [dict(s='raw', op=0, spec=gen_request(rng, 0.6), w=rng.randrange(2), dec={'allow': rng.random() < 0.7})]
        for _ in range(rng.choice([2, 4, 7])):
            k = rng.random()
            if k < 0.85:
                steps += some()
            elif k < 0.9:
                steps.append(dict(s='par', tasks=[some(), some()]))
            elif k < 0.94:
                steps.append(dict(s='wipe', who=rng.choice(['op0', 'rp0'])))
            else:
                steps.append(dict(s='tick', dt=rng.choice([1, 3600, 1209601])))
        return dict(world=dict(ops=ops, rps=rps, ids=ids), steps=steps, sched=sched_spec(rng))

    shrink_lists = ['steps', 'steps.*.tasks', 'steps.*.tasks.*']

    def execute(self, plan, env):
        with env.sim(max_steps=2000000) as sim:
            w = ProviderWorld(sim, plan['world'])
            w.run(plan['steps'])
            self.judge(env, sim, w)
            w.close()

    def judge(self, env, sim, w):
        secrets = {}
        for p in w.ops + w.rps:
            for r in getattr(p, 'stored', ()):
                secrets.setdefault(r['secret'], []).append(dict(r, party=p))
        for o in w.ops:
            if not o.lib:
                for r in list(o.assocs_all.values()) + list(o.private.values()):
                    secrets.setdefault(r['secret'], [])
        exps = [btwoc(x).lstrip(b'\0') for x in sim.dh_privates]
        # a handle is public: it must not be made of the key
        for sec, recs in secrets.items():
            for r in recs:
                if r['party'] not in w.ops:
                    continue
                h = r['handle']
                hay = [h.encode('utf-8')] + [x for t in re.findall(r'[A-Za-z0-9+/_-]{4,}', h) for x in _decodings(t)] + _hex(h)
                env.checks += 1
                for i in range(len(sec) - 3):
                    if any(sec[i:i + 4] in x for x in hay):
                        raise Violation('secret-disclosed', 'the handle %r of %s contains part of its secret %s' % (h, r['party'].name, sec.hex()))
        # providers
        for k, e in enumerate(w.wire):
            env.checks += 1
            body = e['body'] if isinstance(e['body'], str) else e['body'].decode('utf-8', 'replace')
            text = '\n'.join('%s: %s' % kv for kv in e['headers'].items()) + '\n\n' + body
            req = e['req']
            d = kv_decode(body.encode('utf-8'))
            stype = req.get('openid.session_type') or ('no-encryption' if 'openid.ns' not in req or 'signon/1' in req['openid.ns'] else '')
            sim.state('op', req.get('openid.mode'), stype, e['code'], 'openid.ns' in req)
            if req.get('openid.mode') == 'associate' and stype == 'no-encryption' and e['code'] == 200 and 'mac_key' in d:
                mine = [r for r in e['op'].stored if r['handle'] == d.get('assoc_handle') and e['inv'] <= r['seq'] <= e['ret']]
                if mine and _b64(d['mac_key']) == mine[-1]['secret']:
                    text = text.replace('mac_key:' + d['mac_key'], '')
                    sim.probe('clear_text_key')
            self.search(text, secrets, exps, 'provider %s answering %r' % (e['op'].name, sorted((a, b[:80]) for a, b in req.items())))
            if 'enc_mac_key' in d and 'openid.dh_modulus' not in req:
                self.weak(d, req, secrets, e['op'].name)
        # relying parties
        for e in w.net.trace:
            if not e['src'].startswith('rp'):
                continue
            env.checks += 1
            body = (e['body'] or b'')
            body = body.decode('utf-8', 'replace') if isinstance(body, bytes) else body
            text = '\n'.join([e['url']] + ['%s: %s' % kv for kv in e['headers'].items()] + ['', body])
            self.search(text, secrets, exps, 'relying party request to %s: %r' % (e['url'], body[:200]))
            q = parse_query(body)
            if q.get('openid.mode') == 'associate':
                rp = w.rps[0]
                allowed = [tuple(p) for p in rp.cfg.get('policy') or DEFAULT_ORDER]
                s = q.get('openid.session_type') or 'no-encryption'
                sim.state('rp', q.get('openid.assoc_type'), s, 'openid.ns' in q)
                if s == 'no-encryption' and (q.get('openid.assoc_type'), s) not in allowed:
                    raise Violation('asked-clear-text', '%s with policy %s asked for %s' % (rp.name, allowed, sorted(q.items())))
                if s != 'no-encryption':
                    self.trivial(q.get('openid.dh_consumer_public'), rp.name)
        for ev in w.events:
            if ev['kind'] == 'begin' and ev['msg'] is not None:
                env.checks += 1
                self.search(ev['msg'].url + '\n' + urlencode(ev['msg'].args), secrets, exps, 'login request of %s' % ev['rp'])

    def search(self, text, secrets, exps, what):
        texts = [text, unquote(text), unquote_plus(text), unquote_plus(unquote_plus(text))]
        raw = [t.encode('utf-8') for t in texts] + [t.encode('latin-1', 'replace') for t in texts]
        for t in set(texts):
            for tok in TOKEN.findall(t):
                for part in {tok, tok.strip('='), tok.lstrip('-_/+='), tok.split('=')[0]}:
                    raw += _decodings(part)
        hay = b'\0\0'.join(raw)
        low = hay.lower()
        for s in list(secrets) + exps:
            if len(s) < 8:
                continue
            for win in (s[:8], s[len(s) // 2 - 4:len(s) // 2 + 4], s[-8:]):
                if win in hay or win[::-1] in hay or win.hex().encode() in low:
                    raise Violation('secret-disclosed', what + ': the message %r contains (part of) the %s %s' % (
                        text[:600], 'exponent' if s in exps else 'secret', s.hex()))
            if str(int.from_bytes(s, 'big')).encode() in hay:
                raise Violation('secret-disclosed', what + ': the message %r contains the number %d' % (text[:600], int.from_bytes(s, 'big')))

    def trivial(self, pub, who):
        v = int.from_bytes(_b64(pub or '') or b'', 'big')
        if v in (0, 1, DEFAULT_MOD - 1, DEFAULT_MOD) or v in SMALL:
            raise Violation('weak-exchange', '%s used the public key %d' % (who, v))

    def weak(self, d, req, secrets, who):
        self.trivial(d.get('dh_server_public'), who)
        enc = _b64(d['enc_mac_key'])
        A = int.from_bytes(_b64(req.get('openid.dh_consumer_public', '')) or b'', 'big')
        B = int.from_bytes(_b64(d.get('dh_server_public', '')) or b'', 'big')
        if A < 1 << 64 or A > DEFAULT_MOD - (1 << 64):
            return                  # the client chose to give its own exponent away
        cand = [0, 1, 2, A, B, DEFAULT_MOD - 1, DEFAULT_MOD, A * B % DEFAULT_MOD, (A + B) % DEFAULT_MOD]
        for v in cand:
            for h in (hashlib.sha1, hashlib.sha256):
                for enc_v in (btwoc(v), btwoc(v).lstrip(b'\0'), b64text(btwoc(v))):
                    k = h(enc_v).digest()
                    if bytes(x ^ y for x, y in zip(k, enc or b'')) in secrets:
                        raise Violation('weak-exchange', '%s encrypted a key with a value seen on the wire (%d)' % (who, v))


def b64text(b):
    return base64.b64encode(b)


def _b64(s):
    try:
        return base64.b64decode(s)
    except ValueError:
        return None


def _hex(text):
    out = []
    for t in re.findall(r'(?:[0-9a-fA-F]{2}){4,}', text):
        out.append(bytes.fromhex(t))
    return out


def _decodings(tok):
    out = []
    pad = tok + '=' * (-len(tok) % 4)
    for f in (base64.b64decode, base64.urlsafe_b64decode):
        try:
            out.append(f(pad))
        except ValueError:
            pass
    return out


PROP = C24()
