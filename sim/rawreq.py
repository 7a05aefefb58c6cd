"""Requests at a provider's endpoint as a careless, broken or hostile peer
makes them: every request kind, altered at random."""
from .world import DEFAULT_MOD, NS11, NS2, SELECT, b64, btwoc

RT = ['http://rp0.example/done', 'http://rp0.example/done?x=1', 'http://rp0.example/other', 'https://rp1.example:8443/a/b?c=d&e=f', 'http://rp0.example/']
IDS = ['http://id0.example/', 'http://id1.example/', SELECT, SELECT, 'http://op0.example/u/bob']
URLS = ['javascript:alert(1)', 'http://', 'http://[', 'http://[::1]/', 'http://rp0.example:port/', 'http://rp0.example:99999/', 'ftp://rp0.example/', 'rp0.example',
        '//rp0.example/', 'http://rp0.example/done#frag', 'HTTP://RP0.example/done', 'http://*.example/', 'http://*/', 'http://*.com/', 'http://rp0.example',
        'http://rp0.example/a b', 'http://rp0.example/\r\nSet-Cookie: a=b', 'http://rp0.example/\n', 'http://rp0.example/\u00e9', 'http://r\u00e9.example/',
        'http://u:p@rp0.example/done', 'data:text/html,x', 'http://rp0.example\\@evil.example/', 'http:///done', 'http:rp0.example', 'http://rp0.example/%zz',
        'http://rp0.example/?openid.mode=cancel', 'http://evil.example/', 'http://*.rp0.example/', 'http://rp0.example./', 'http://.example/', 'http://a..b/',
        ' http://rp0.example/done', 'http://rp0.example/done ', 'http://rp0.example/"><script>', 'javascript:' + 'x' * 2500, 'http://rp0.example/' + 'y' * 2500,
        'http://rp0.example/?' + 'y' * 2500, 'http://' + 'a' * 300 + '.example/', 'http://rp0.example:/', 'http://rp0.example:80/done', 'http://\x00/', '\t']
ODD = ['', ' ', '\n', 'a\nb', 'a\r\nb', '\x00', '\u00e9', '\U0001f642', 'x' * 300, 'z' * 3000, 'a:b', ':', '%', '&', '=', ',', ',,', '..', '.', 'None', 'true', '0', '-1',
       NS2, NS11, 'http://openid.net/signon/1.0', SELECT, 'AA==', '!', 'AQ==', 'mode', 'sig', 'mode,sig', 'ns', '{HMAC-SHA1}', '<b>', '"', "'", 'a\x0bb', '\u2028', '\ufeff']
MODES = ['associate', 'check_authentication', 'checkid_setup', 'checkid_immediate', 'id_res', 'cancel', 'error', '', 'x', 'openid', 'CHECKID_SETUP', 'mode\n',
         'a' * 100, 'associate ', 'check_authenticatio\u00f1']
FIELDS = ['ns', 'mode', 'identity', 'claimed_id', 'return_to', 'realm', 'trust_root', 'assoc_handle', 'invalidate_handle', 'assoc_type', 'session_type', 'dh_modulus',
          'dh_gen', 'dh_consumer_public', 'signed', 'sig', 'response_nonce', 'op_endpoint', 'foo', 'sreg.required', 'ns.sreg', 'ns.x', 'x.y', 'ns.', 'ns.ns', 'ns.mode', '']
EXT = [{'ns.sreg': 'http://openid.net/extensions/sreg/1.1', 'sreg.required': 'email'}, {'sreg.optional': 'nickname'},
       {'ns.ax': 'http://openid.net/srv/ax/1.0', 'ax.mode': 'fetch_request', 'ax.type.e': 'http://axschema.org/contact/email', 'ax.required': 'e'},
       {'ns.pape': 'http://specs.openid.net/extensions/pape/1.0', 'pape.max_auth_age': '1'}, {'ns.a': 'http://x.example/', 'ns.b': 'http://x.example/', 'a.z': '1'},
       {'ns.a': '', 'a.q': '1'}, {'ns.a.b': 'http://y.example/'}, {'ns.sreg': 'http://other.example/'}, {'ns.mode': 'http://x.example/'}, {'ns.a': NS2},
       {'ns.a': 'http://openid.net/extensions/sreg/1.1', 'ns.sreg': 'http://openid.net/extensions/sreg/1.1'}, {'ns.return_to': 'http://x.example/'},
       {'sreg.': ''}, {'.': 'x'}, {'a..b': 'x'}, {'ns.sreg': 'not a uri', 'sreg.x': 'y'}, {'ns.\u00e9': 'http://x.example/', '\u00e9.a': 'b'}]
NUM = ['', '!', '=', 'A', 'AA==', 'AQ==', 'Ag==', 'Aw==', '/w==', 'gA==', 'AAAA', 'AP8=', '\u00e9', 'A A==', b64(btwoc(DEFAULT_MOD)), b64(btwoc(DEFAULT_MOD - 1)),
       b64(btwoc(DEFAULT_MOD + 2)), b64(btwoc(DEFAULT_MOD * 3)), b64(btwoc(DEFAULT_MOD))[4:], b64((DEFAULT_MOD).to_bytes(128, 'big')), b64(b'\x00' * 128), b64(b'\xff' * 128),
       b64(btwoc(1 << 1024)), b64(btwoc((1 << 512) - 569)), b64(btwoc((1 << 256) - 189)), b64(b'\x00' * 400 + b'\x05'), b64(btwoc(3 ** 700)), b64(btwoc(2 ** 4095 + 1)), 'x' * 2000]


def base(rng):
    """Arguments (without the openid. prefix) of a sensible request."""
    k = rng.random()
    v2 = rng.random() < 0.65
    a = {'ns': NS2} if v2 else (rng.choice([{}, {}, {'ns': NS11}, {'ns': 'http://openid.net/signon/1.0'}]))
    if k < 0.5:
        a['mode'] = rng.choice(['checkid_setup', 'checkid_setup', 'checkid_immediate'])
        a['return_to'] = rng.choice(RT)
        a['identity'] = rng.choice(IDS)
        if v2:
            a['claimed_id'] = a['identity'] if rng.random() < 0.7 else rng.choice(IDS)
        if rng.random() < 0.7:
            a['realm' if v2 else 'trust_root'] = '/'.join(a['return_to'].split('/', 3)[:3]) + '/'
        if rng.random() < 0.3:
            a['assoc_handle'] = ['loot', rng.randrange(3)]
        if v2 and rng.random() < 0.1:
            a.pop('identity')
            a.pop('claimed_id')
    elif k < 0.75:
        a['mode'] = 'associate'
        t = rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
        a['assoc_type'] = t
        a['session_type'] = rng.choice(['DH-' + t[5:], 'DH-' + t[5:], 'no-encryption', 'DH-SHA1'])
        if a['session_type'] != 'no-encryption':
            a['dh_consumer_public'] = b64(btwoc(pow(2, rng.getrandbits(64) + 2, DEFAULT_MOD)))
            if rng.random() < 0.3:
                a['dh_modulus'] = b64(btwoc(DEFAULT_MOD))
                a['dh_gen'] = 'Ag=='
    else:
        a = dict(ref=['out', rng.randrange(4)], mode='check_authentication')
        if rng.random() < 0.3:
            a['invalidate_handle'] = rng.choice([['loot', 0], 'bogus', ['out', 0]])
        if rng.random() < 0.2:
            a.update({'ns': NS2, 'assoc_handle': 'h', 'sig': 'AAAA', 'signed': 'mode,identity', 'identity': 'x'})
    if rng.random() < 0.25:
        a.update(rng.choice(EXT))
    return a


def value(rng, f):
    if f in ('return_to', 'realm', 'trust_root') and rng.random() < 0.8:
        return rng.choice(URLS + RT)
    if f in ('identity', 'claimed_id', 'op_endpoint') and rng.random() < 0.5:
        return rng.choice(URLS + IDS)
    if f.startswith('dh_') and rng.random() < 0.9:
        return rng.choice(NUM)
    if f == 'mode' and rng.random() < 0.8:
        return rng.choice(MODES)
    if f == 'assoc_type' and rng.random() < 0.4:
        return rng.choice(['HMAC-SHA1', 'HMAC-SHA256', 'hmac-sha1', 'HMAC-SHA512', 'HMAC-SHA1\n'])
    if f == 'session_type' and rng.random() < 0.4:
        return rng.choice(['DH-SHA1', 'DH-SHA256', 'no-encryption', 'DH-SHA512', '', 'no-encryption\n'])
    if f == 'signed' and rng.random() < 0.5:
        return rng.choice(['mode,identity,return_to', 'identity', 'ns.sreg,sreg.email', 'a.b.c', '', ',', 'signed,sig', 'mode,mode', 'x\ny', 'mode,a:b', '\u00e9',
                           'assoc_handle', 'response_nonce'])
    if f in ('sig', 'assoc_handle') and rng.random() < 0.3:
        return rng.choice([['out', 0], ['loot', 0], '\u00e9', 'a' * 27 + '=', ''])
    return rng.choice(ODD)


def gen_request(rng, alter=0.8):
    """dict(args=…, drop=…, set=…): resolved against the world when sent."""
    a = base(rng)
    drop, put, extra = [], {}, {}
    if rng.random() < alter:
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            k = rng.random()
            have = [f for f in a if f != 'ref'] or ['mode']
            if k < 0.2:
                drop.append(rng.choice(have + FIELDS))
            elif k < 0.8:
                f = rng.choice(have) if rng.random() < 0.7 else rng.choice(FIELDS)
                put[f] = value(rng, f)
            elif k < 0.9:
                put.update(rng.choice(EXT))
            else:
                extra[rng.choice(['x', 'openid', 'openid_identifier', 'OPENID.mode', '', 'openid.', 'Openid.ns', 'mode', '\u00e9', 'openid.openid.mode'])] = rng.choice(ODD)
    return dict(args=a, drop=drop, put=put, extra=extra)


def build(world, spec):
    """The arguments as the provider's web framework sees them."""
    def res(v):
        return world.handle_ref(v) if isinstance(v, (list, tuple)) else v
    out = {}
    a = dict(spec['args'])
    ref = a.pop('ref', None)
    if ref is not None:
        outs = [x for x in world.answers if x['msg'] is not None and 'openid.sig' in x['msg'].args]
        if outs:
            out.update((k, v) for k, v in outs[ref[1] % len(outs)]['msg'].args.items() if k.startswith('openid.'))
    for k, v in a.items():
        out['openid.' + k] = res(v)
    for k, v in spec['put'].items():
        out['openid.' + k] = res(v)
    for k in spec['drop']:
        out.pop('openid.' + k, None)
    for k, v in spec['extra'].items():
        out[k] = v
    return out
