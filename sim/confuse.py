"""Values that differ from a given one in a single, easily overlooked way."""


def flip(s, i):
    return s[:i] + s[i].swapcase() + s[i + 1:]


def text(rng, s, limit=None):
    """Another string close to `s` (salts, handles)."""
    letters = [i for i, c in enumerate(s) if c.isascii() and c.isalpha()]
    c = []
    if letters:
        c += [flip(s, rng.choice(letters)), s.swapcase()]
    if s:
        c += [s[:-1], s[1:], s[:-1] + ('0' if s[-1] != '0' else '1'), ('0' if s[0] != '0' else '1') + s[1:]]
        i = rng.randrange(len(s))
        c += [s[:i] + ('-' if s[i] != '-' else '_') + s[i + 1:]]
    c += [s + '0', s + s[:1], 'x' + s, s + '-', '0' + s]
    if s and s.isascii() and s.isdigit():
        c += [str(int(s))]
    c = [x for x in c if x and x != s and (limit is None or len(x) <= limit)]
    return rng.choice(c or ['x'])


def url(rng, u):
    """Another address close to `u`."""
    if '://' not in u:
        return 'http://op.example.com/server'
    scheme, rest = u.split('://', 1)
    host, _, tail = rest.partition('/')
    path, q, query = tail.partition('?')
    c = [('https' if scheme == 'http' else 'http') + '://' + rest]
    letters = [i for i, ch in enumerate(path) if ch.isascii() and ch.isalpha() and '%' not in path[max(0, i - 2):i]]
    if letters:
        p = flip(path, rng.choice(letters))
        c += [scheme + '://' + host + '/' + p + q + query] * 2
    c += [u + ('&z=1' if q else '?z=1'), u + ('&' if q else '?'), scheme + '://' + host + '/' + path + '/' + q + query,
          scheme + '://' + host + ('' if ':' in host else ':81') + '/' + tail, scheme + '://x' + rest, u + 'x', u + '#x']
    if path:
        c += [scheme + '://' + host + '/' + path[:-1] + q + query, scheme + '://' + host + '/' + q + query]
    if query:
        c += [scheme + '://' + host + '/' + path, scheme + '://' + host + '/' + path + '?' + text(rng, query)]
    c = [x for x in c if x != u]
    return rng.choice(c)
