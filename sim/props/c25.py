"""C25: providers answer every request in a defined way."""
import re
from urllib.parse import urlsplit

from ..gen import OP_STORES, gen_op
from ..kernel import Violation
from ..provider import ProviderWorld
from ..rawreq import gen_request
from ..world import NS2
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec
from .c09 import checkid
from .c14 import where


UNPRINTABLE = re.compile('[\x00-\x1f\x7f\ufffe\uffff\ud800-\udfff]')
PLAIN = re.compile(r'https?://[a-z0-9-]{1,60}(\.[a-z0-9-]{1,60}){1,3}(:[1-9][0-9]{1,3})?/[A-Za-z0-9/?=&._-]*\Z')


def usable(url):
    """An address a browser may be sent to."""
    if url is None or any(ord(c) < 32 or ord(c) == 127 for c in url):
        return False
    try:
        p = urlsplit(url)
        p.port
        return p.scheme in ('http', 'https') and bool(p.hostname)
    except ValueError:
        return False


class C25(Prop):
    id = 'C25'
    runs = {'quick': 5000, 'thorough': 250000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('decoding, handling and encoding any request raises nothing but ProtocolError while decoding or handling, NoReturnToError for a request without a return '
            'address and EncodingError for an error that has nowhere to go; every redirect or form goes to the return address of the request, which is an http or '
            'https address, and an error carries mode=error; direct answers are well-formed key-value documents; an ordinary login and verification afterwards work')
    state_measure = 'hash of (request kind, altered fields, stage reached, answer class, text of the error without values)'
    assumptions = ['the web framework passes text', 'the store works']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        op = gen_op(rng, 0, stores=[OP_STORES[index % 5], 'mem', 'file'], skew=False)
        steps = []
        n = rng.choice([2, 4, 8])

        def one():
            r = dict(s='raw', op=0, spec=gen_request(rng), w=rng.randrange(3))
            if rng.random() < 0.3:
                r['dec'] = {'allow': False}
            if rng.random() < 0.08:
                r['cut'] = round(rng.random(), 3)
            return r
        if rng.random() < 0.5:
            steps.append(dict(s='att_assoc', op=0, type='HMAC-SHA1', session='no-encryption', v2=True))
        for _ in range(n):
            k = rng.random()
            if k < 0.75:
                steps.append(one())
            elif k < 0.85:
                steps.append(dict(s='raw_req', op=0, args=checkid(rng, rng.random() < 0.6), w=rng.randrange(3)))
            elif k < 0.92:
                steps.append(dict(s='par', tasks=[[one() for _ in range(rng.choice([1, 2]))] for _ in range(2)]))
            elif k < 0.96:
                steps.append(dict(s='restart', who='op0', w=rng.randrange(3)))
            else:
                steps.append(dict(s='tick', dt=rng.choice([1, 3600, 1209601])))
        return dict(world=dict(ops=[op]), steps=steps, sched=sched_spec(rng), last=checkid(rng, rng.random() < 0.6))

    shrink_lists = ['steps', 'steps.*.tasks', 'steps.*.tasks.*', 'steps.*.spec.drop']

    def execute(self, plan, env):
        with env.sim(max_steps=2000000) as sim:
            w = ProviderWorld(sim, plan['world'])
            w.run(plan['steps'])
            for r in w.raws:
                env.checks += 1
                self.judge(sim, r)
            # the provider still serves everybody else
            w.do(dict(s='raw_req', op=0, args=plan['last']))
            out = w.answers[-1]
            if out['kind'] == 'error' and not sim.db_gave_up:
                raise Violation('broken-afterwards', 'an ordinary request afterwards failed: %r' % (out['error'],))
            if not sim.db_gave_up:
                if out['msg'] is None or 'openid.sig' not in out['msg'].args:
                    raise Violation('broken-afterwards', 'an ordinary request afterwards was answered with %r' % (out,))
                k = len([a for a in w.answers if a['msg'] is not None and 'openid.sig' in a['msg'].args]) - 1
                w.do(dict(s='verify', n=k))
                v = w.verifies[-1]
                env.checks += 1
                if not v['valid'] and not sim.db_gave_up:
                    raise Violation('broken-afterwards', 'verification of an ordinary answer afterwards: status %s, not confirmed' % (v['status'],))
            w.close()

    def judge(self, sim, r):
        a = r['args']
        mode = a.get('openid.mode')
        rt = a.get('openid.return_to')
        what = 'request %r: ' % (sorted((k, v if len(v) < 200 else v[:80] + '...%d' % len(v)) for k, v in a.items()),)
        web = r['web']
        sim.state(mode if mode in ('associate', 'check_authentication', 'checkid_setup', 'checkid_immediate') else 'other', tuple(sorted(r['step']['spec']['put'])),
                  tuple(sorted(r['step']['spec']['drop'])), r['stage'], r['page'], r['noreturn'], web.code if web else None, str(r.get('text'))[:18])
        sim.probe('raw_' + r['stage'])
        e = r['escaped']
        if r['stage'] == 'encode' and type(e).__name__ == 'EncodingError' and any(UNPRINTABLE.search(v) for v in a.values()):
            return                  # documented: a value that has no encoding
        if e is not None:
            if sim.db_gave_up:
                return
            raise Violation('escaped:%s:%s:%s' % (r['stage'], type(e).__name__, where(e)), what + '%s raised %s: %s' % (r['stage'], type(e).__name__, str(e)[:300]))
        if r['req'] is None and r['error'] is None:
            if any(k.startswith('openid.') and k != 'openid.' for k in a):
                raise Violation('not-openid', what + 'taken for no OpenID request')
            return
        if r['noreturn']:
            if rt:
                raise Violation('no-return', what + 'NoReturnToError although a return address is given')
            return
        if r['page']:
            if PLAIN.match(rt or '') and not any(UNPRINTABLE.search(v) for v in a.values()) and mode in ('checkid_setup', 'checkid_immediate') and a.get('openid.ns') in (None, NS2):
                # nothing wrong with the address: the relying party should hear of the error
                raise Violation('error-not-sent', what + 'error %r not sent to the return address' % r.get('text'))
            return
        if web.code not in (200, 302, 400):
            raise Violation('odd-status', what + 'status %r' % (web.code,))
        m = r['msg']
        if r.get('badloc') is not None:
            raise Violation('bad-location', what + 'redirect to %r' % r['badloc'][:300])
        if m is not None:
            if web.code == 302:
                loc = web.headers['location']
                if any(ord(c) < 32 or ord(c) == 127 for c in loc):
                    raise Violation('bad-location', what + 'redirect to %r' % loc[:300])
            if not rt or not (m.url == rt or m.url.startswith(rt) and (web.code == 302)):
                raise Violation('elsewhere', what + 'answered by %s to %r' % ('redirect' if web.code == 302 else 'form', m.url[:300]))
            if not usable(rt):
                raise Violation('bad-address', what + 'answered by %s to %r' % ('redirect' if web.code == 302 else 'form', m.url[:300]))
            if web.code != 302 and 'openid.ns' not in m.args:
                raise Violation('old-form', what + 'an OpenID 1 relying party was answered by a form')
            if r['error'] is not None:
                if m.args.get('openid.mode') != 'error' or not m.args.get('openid.error'):
                    raise Violation('bad-error', what + 'error %r encoded as %r' % (r.get('text'), m))
            elif m.args.get('openid.mode') not in ('id_res', 'cancel', 'setup_needed'):
                raise Violation('bad-answer', what + 'answered with %r' % (m,))
            return
        body = web.body if isinstance(web.body, bytes) else web.body.encode('utf-8')
        lines = body.decode('utf-8').split('\n')
        if lines[-1] != '' or any(':' not in l for l in lines[:-1]):
            raise Violation('bad-kv', what + 'direct answer %r' % body[:300])
        keys = [l.split(':', 1)[0] for l in lines[:-1]]
        if len(set(keys)) != len(keys):
            raise Violation('bad-kv', what + 'direct answer %r' % body[:300])
        if r['error'] is not None and ('error' not in keys or web.code != 400):
            raise Violation('bad-error', what + 'error %r encoded as %s %r' % (r.get('text'), web.code, body[:200]))


PROP = C25()
