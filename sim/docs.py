"""Identity documents: XRDS and HTML generators with an independent model of
what discovery of them has to yield."""
from html import escape

TYPE = {'2': 'http://specs.openid.net/auth/2.0/signon', 'op': 'http://specs.openid.net/auth/2.0/server',
        '1.1': 'http://openid.net/signon/1.1', '1.0': 'http://openid.net/signon/1.0'}
RP_TYPE = 'http://specs.openid.net/auth/2.0/return_to'
XRDS_CT = 'application/xrds+xml'


def vers(svc):
    return svc['ver'].split('+')


def service_xml(svc, uris):
    """svc: ver '2'|'op'|'1.1'|'1.0'|'2+1.1'.., local, prio, extra types."""
    out = ['<Service%s>' % ('' if svc.get('prio') is None else ' priority="%d"' % svc['prio'])]
    for t in list(vers(svc)) + list(svc.get('extra', ())):
        out.append('<Type>%s</Type>' % escape(TYPE.get(t, t)))
    for u in uris:
        if isinstance(u, (list, tuple)):
            u, p = u
        else:
            p = None
        out.append('<URI%s>%s</URI>' % ('' if p is None else ' priority="%d"' % p, escape(u)))
    if svc.get('local'):
        if '2' in vers(svc):
            out.append('<LocalID>%s</LocalID>' % escape(svc['local']))
        if '1.1' in vers(svc) or '1.0' in vers(svc):
            out.append('<openid:Delegate>%s</openid:Delegate>' % escape(svc['local']))
    out.append('</Service>')
    return ''.join(out)


def xrds(services_xml, canonical=None, pre='', xrds_pre=''):
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<xrds:XRDS xmlns:xrds="xri://$xrds" xmlns="xri://$xrd*($v*2.0)" '
            'xmlns:openid="http://openid.net/xmlns/1.0">%s<XRD>%s%s%s</XRD></xrds:XRDS>' % (
                xrds_pre, pre, '' if canonical is None else '<CanonicalID>%s</CanonicalID>' % escape(canonical), ''.join(services_xml)))


def html(services, uris, extra='', body=''):
    """HTML discovery: the first v2 and the first v1 service only."""
    links = []
    for svc, uri in zip(services, uris):
        v = vers(svc)
        if '2' in v:
            links.append('<link rel="openid2.provider" href="%s">' % escape(uri))
            if svc.get('local'):
                links.append('<link rel="openid2.local_id" href="%s">' % escape(svc['local']))
        if '1.1' in v or '1.0' in v:
            links.append('<link rel="openid.server" href="%s">' % escape(uri))
            if svc.get('local'):
                links.append('<link rel="openid.delegate" href="%s">' % escape(svc['local']))
    return '<!DOCTYPE html><html><head><title>me</title>%s%s</head><body>%s</body></html>' % (extra, ''.join(links), body)


def html_services(services):
    """Services as HTML can express them: at most one v2 and one v1.1."""
    out = []
    for want, t in (('2', '2'), ('1', '1.1')):
        for s in services:
            if any(v.startswith(want) for v in vers(s)):
                out.append(dict(s, ver=t))
                break
    return out
