"""Independent reading of realms and return addresses."""
import re

URL = re.compile(r'([a-zA-Z][a-zA-Z0-9+.-]*)://([^/?#]*)([^?#]*)(?:\?([^#]*))?(#.*)?\Z', re.S)
PLAIN = re.compile(r"[A-Za-z0-9:/?#\[\]@!$&'()*+,;=._~%-]*\Z")
UNRES = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~'
SUB = "!$&'()*+,;="
DEFAULT = {'http': '80', 'https': '443'}


class Parsed(object):
    pass


def norm_pct(s, keep):
    def f(m):
        c = chr(int(m.group(1), 16))
        return c if c in keep else '%' + m.group(1).upper()
    return re.sub('%([0-9a-fA-F]{2})', f, s)


def dots(path):
    out = []
    segs = path.split('/')[1:]
    for i, s in enumerate(segs):
        last = i == len(segs) - 1
        if s == '.':
            if last:
                out.append('')
        elif s == '..':
            if out:
                out.pop()
            if last:
                out.append('')
        else:
            out.append(s)
    return '/' + '/'.join(out)


def parse(url):
    """None if this is no http(s) URL in a strict reading."""
    m = URL.match(url)
    if not m or not PLAIN.match(url) or re.search('%(?![0-9a-fA-F]{2})', url):
        return None
    p = Parsed()
    p.scheme = m.group(1).lower()
    if p.scheme not in DEFAULT:
        return None
    user, at, hp = m.group(2).rpartition('@')
    p.user = user if at else None
    m2 = re.match(r'(\[[^\]]*\]|[^:]*)(?::([0-9]*))?\Z', hp)
    if not m2 or not m2.group(1):
        return None
    p.host = m2.group(1).lower()
    p.port = m2.group(2) or DEFAULT[p.scheme]
    p.port = str(int(p.port))
    p.path = dots(norm_pct(m.group(3) or '/', UNRES + SUB))
    p.query = m.group(4)
    p.frag = m.group(5)
    p.odd = ('%' in p.host or '[' in p.host or p.user is not None or p.query is not None and not re.match(r'[A-Za-z0-9=&._-]*\Z', p.query)
             or p.query == '' or not re.match(r"(\*\.)?([a-z0-9-]{1,60}\.)*[a-z0-9-]{1,60}\Z", p.host) or not 0 < int(p.port) < 65536
             or '//' in p.path or not re.match(r"[A-Za-z0-9/._~&;=-]*\Z", p.path))
    p.pq = p.path + ('?' + p.query if p.query else '')
    return p


def browser_host(url):
    """(scheme, host, port) a browser sends the user to, or None."""
    u = re.sub('[\t\r\n]', '', url).strip('\x00\x01\x02\x03\x04\x05\x06\x07\x08\x0b\x0c\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f ')
    m = re.match(r'(https?):[/\\]*([^/\\?#]*)', u, re.I)
    if not m:
        return None
    scheme = m.group(1).lower()
    hp = m.group(2).rpartition('@')[2]
    m2 = re.match(r'(\[[^\]]*\]|[^:]*)(?::([0-9]*))?\Z', hp)
    if not m2 or not m2.group(1):
        return None
    host = m2.group(1)
    host = norm_pct(host, UNRES).lower()
    if '%' in host or not all(ord(c) < 128 for c in host):
        return None
    return scheme, host, str(int(m2.group(2) or DEFAULT[scheme]))


def host_inside(rhost, host):
    if rhost.startswith('*.'):
        return host == rhost[2:] or host.endswith(rhost[1:]) and len(host) > len(rhost) - 1
    return host == rhost


def inside(realm, url):
    """True, False, or None where the answer is a matter of taste."""
    r, u = parse(realm), parse(url)
    if r is None or u is None:
        return False if not (realm and url) else None
    if r.frag is not None or '*' in r.host.replace('*.', '', 1 if r.host.startswith('*.') else 0) and r.host != '*':
        return False
    if '*' in u.host:
        return False
    b = browser_host(url)
    if r.host == '*':
        return None
    if not r.odd and b is not None and not (b[0] == r.scheme and b[2] == r.port and host_inside(r.host, b[1])):
        return False
    if r.odd or u.odd:
        return None
    if r.scheme != u.scheme or r.port != u.port or not host_inside(r.host, u.host):
        return False
    if not u.pq.startswith(r.pq):
        return False
    rest = u.pq[len(r.pq):]
    if rest:
        if r.query:
            if rest[0] != '&' and r.pq[-1] != '&':
                return False
        elif r.pq[-1] != '/' and rest[0] not in '/?':
            return False
    if u.frag is not None:
        return None
    return True


def discovery_url(realm):
    """Where the realm's own document is."""
    r = parse(realm)
    if r is None:
        return None
    host = 'www.' + r.host[2:] if r.host.startswith('*.') else r.host
    return same(r, host)


def same(p, host=None):
    return (p.scheme, host or p.host, p.port, p.path, p.query or '')
