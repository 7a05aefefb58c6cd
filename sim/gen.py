"""Random deployments shared by the protocol checks."""
from .world import ALL_PAIRS

OP_STORES = ['mem', 'file', 'sqlite', 'mysql', 'pg']
DOCS = ['yadis', 'nego', 'header', 'meta', 'html']
RT_SUFFIX = ['', '', '', '?x=1', '?next=%2Fa%2Fb&lang=cs', '?q=', '?q=a+b%26c%3Dd', '?u=%C3%A9%C4%8D', '/sub?k=v%2Bw', '?a=%5B%5D&b=%25',
             '?openidx=1', '?d.e=f', '?long=' + 'y' * 1900, '/a=b', '/a&b', '?a=b?c', '/p;q=r', '?a=1&b=2&a2=1']


def policy(rng, p_none=0.6):
    if rng.random() < p_none:
        return None
    k = rng.randrange(1, 4)
    return [list(x) for x in rng.sample(ALL_PAIRS, k)]


def gen_op(rng, i, kinds=('lib',), stores=OP_STORES, workers=(1, 2, 3), skew=True):
    kind = rng.choice(kinds)
    c = dict(kind=kind)
    if rng.random() < 0.3:
        c['url'] = rng.choice(['http://op%d.example/openid', 'https://op%d.example/server', 'http://op%d.example:8080/o/p',
                               'http://op%d.example/cgi?x=1', 'http://ops.example/cgi?op=%d', 'http://op%d.example/?go']) % i
    if kind == 'lib':
        c.update(store=rng.choice(stores), workers=rng.choice(workers), policy=policy(rng))
        if rng.random() < 0.4:
            c['per_request'] = True
        n = c['workers']
        c['offsets'] = [rng.choice([0, 0, 1, -1, 30, 3600, -3600]) if skew else 0 for _ in range(n)]
        base = c['offsets'][0]
        c['offsets'] = [base + (rng.choice([0, 0, 0.4]) if j else 0) for j in range(n)]
    else:
        c.update(expires_in=rng.choice([3600, 86400, 1209600]), sign=rng.choice(['all', 'min']),
                 offsets=[rng.choice([0, 0, 1, -30, 3600]) if skew else 0])
        if rng.random() < 0.15:
            c['ns1'] = rng.choice(['http://openid.net/signon/1.0', 'http://openid.net/signon/1.1'])
    return c


def gen_rp(rng, i, stores=OP_STORES + [None], workers=(1, 2, 3), skew=True):
    c = dict(store=rng.choice(stores), workers=rng.choice(workers), policy=policy(rng))
    base = rng.choice([0, 0, 1, -1, 30, 3600, -3600]) if skew else 0
    c['offsets'] = [base + (rng.choice([0, 0, 0.4]) if j else 0) for j in range(c['workers'])]
    c['return_to'] = 'http://rp%d.example/done' % i + rng.choice(RT_SUFFIX)
    if rng.random() < 0.25:
        c['shelf'] = True
    c['realm'] = rng.choice(['http://rp%d.example/' % i, 'http://rp%d.example/done' % i, 'http://*.rp%d.example/' % i])
    return c


def gen_id(rng, i, nops, ver=None, nsvc=None, xri=True, op=None):
    """One identity.  Its first service is at a random provider."""
    n = nsvc or rng.choice([1, 1, 1, 2, 3])
    svcs = []
    for k in range(n):
        v = ver or rng.choice(['2', '2', '2', '1.1', '1.0', '2+1.1', '1.1+1.0', 'op'])
        s = dict(op=rng.randrange(nops) if op is None else op, ver=v, prio=rng.choice([None, 0, 1, 10, 10]))
        if v != 'op' and rng.random() < 0.4:
            s['local'] = 'http://op%d.example/u/%s' % (s['op'], rng.choice(['alice', 'bob', 'a b', 'i%d' % i]))
        svcs.append(s)
    c = dict(doc=rng.choice(DOCS), services=svcs)
    if c['doc'] == 'html' and any(s['ver'] == 'op' for s in svcs):
        c['doc'] = 'yadis'
    if rng.random() < 0.3:
        c['url'] = 'http://id%d.example/%s' % (i, rng.choice(['me', '~u/x', '?user=1', 'a%20b', 'caf%C3%A9', 'p;q']))
    if rng.random() < 0.2:
        c['redirect'] = True
    if xri and rng.random() < 0.12:
        c['xri'] = '=user%d' % i
        c['canonical'] = '=!%d000.1' % (i + 1)
        c['doc'] = 'yadis'
        c.pop('redirect', None)
        for s in svcs:
            s['ver'] = '2' if s['ver'] in ('op', '2+1.1', '1.1+1.0') else s['ver']
    return c


def selectable(ids, k):
    """(index, service) pairs of identities provider k may choose for
    identifier_select: v2 services at k."""
    out = []
    for i, c in enumerate(ids):
        if c.get('xri'):
            continue
        svcs = c['services']
        if c['doc'] == 'html':
            from .docs import html_services
            svcs = html_services(svcs)
        for s in svcs:
            if s['op'] == k and '2' in s['ver'].split('+'):
                out.append((i, s))
    return out


def cohost(rng, ops, rps, p=0.15):
    """Some parties share their worker processes with another one (a site that
    is both provider and relying party, two sites served by one process)."""
    names = []
    for kind, parties in (('op', ops), ('rp', rps)):
        for i, c in enumerate(parties):
            if names and rng.random() < p:
                c['host'] = rng.choice(names)
            names.append('%s%d' % (kind, i))
