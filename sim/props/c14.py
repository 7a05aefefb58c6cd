"""C14: network failures never escape a relying party as anything undefined."""
from ..gen import OP_STORES, gen_id, gen_op, gen_rp, selectable
from ..kernel import Violation
from ..net import gen_fault
from ..provider import ProviderWorld
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec

STATUS = ('success', 'failure', 'cancel', 'setup_needed')
BOUND = 45                 # three documents with ten redirects each, two association requests and some slack


class C14(Prop):
    id = 'C14'
    runs = {'quick': 9000, 'thorough': 400000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('Consumer.begin returns a request or raises DiscoveryFailure, Consumer.complete returns one of its four responses, each within a '
            'bounded number of requests')
    state_measure = 'hash of (call, fault kinds hit, exchange they hit, result class)'
    assumptions = ['the message carried by the browser is what a provider made', 'the store works']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        nops = rng.choice([1, 2])
        ops = [gen_op(rng, i, kinds=('lib', 'lib', 'ref'), skew=False) for i in range(nops)]
        for o in ops:
            if o['kind'] == 'ref' and rng.random() < 0.5:
                o['assoc'] = [assoc_script(rng) for _ in range(rng.choice([1, 2]))]
                o['cycle'] = rng.random() < 0.5
        rps = [gen_rp(rng, 0, stores=[OP_STORES[index % 5], 'mem', None], skew=False)]
        ids = [gen_id(rng, i, nops) for i in range(rng.choice([1, 2]))]
        steps = []
        for l in range(rng.choice([1, 2, 2, 3])):
            i = rng.randrange(len(ids))
            ident = None
            if rng.random() < 0.08:
                ident = rng.choice(['http://nowhere.example/', 'id0.example', 'http://id0.example/#frag', 'ftp://id0.example/', '', '=nobody', 'xri://=nobody',
                                    'http://', 'http://[', 'http://id0.example:port/', '@x*y', 'http://id0.example/%zz', 'http://id0.example/\u00e9', '://',
                                    'http://[#x', 'http://id0.example/#[', '#', '=user#x', 'xri://[', 'xri://', '=', '=(', '@', 'xri://=(http://[)', '=user0*', '=user0?a', 'http://[::1#/',
                                    'http://id0.example:0/', ' ', '\n', 'http://id0.example/\n', '\u00e9', 'http://\u00e9.example/', 'http://id0.example\\@x/', 'HTTP://ID0.example', 'javascript:x',
                                    'http://' + 'a' * 70 + '.example/', 'http://' + 'a.' * 130 + 'example/', '=' + 'a' * 300, '\x00', 'http://\x00/', 'http://id0.example/?a=[#]', '(=x)', '+x', '$x', '!x'])
            b = dict(s='begin', l=l, rp=0, id=i, sess='s%d' % rng.randrange(2), w=rng.randrange(2), imm=rng.random() < 0.15)
            if ident is not None:
                b['ident'] = ident
            if rng.random() < 0.55:
                b['net'] = faults(rng)
            sel = selectable(ids, ids[i]['services'][0]['op'])
            dec = dict(allow=rng.random() < 0.9)
            if sel:
                j, s = rng.choice(sel)
                dec['identity_of'] = j
                dec['local'] = s.get('local')
            steps += [b, dict(s='op', l=l, dec=dec, w=rng.randrange(2))]
            if rng.random() < 0.25:
                steps.append(dict(s='wipe', who=rng.choice(['rp0', 'op0'])))
            if rng.random() < 0.15:
                steps.append(dict(s='tick', dt=rng.choice([1, 3600, 1209601])))
            d = dict(s='deliver', l=l, w=rng.randrange(2))
            if rng.random() < 0.35:
                d['sess'] = 'other'         # the session was lost: information is discovered again
            if rng.random() < 0.7:
                d['net'] = faults(rng)
            steps.append(d)
        return dict(world=dict(ops=ops, rps=rps, ids=ids), steps=steps, sched=sched_spec(rng))

    shrink_lists = ['steps', 'steps.*.net']

    def execute(self, plan, env):
        with env.sim(max_steps=2000000) as sim:
            w = ProviderWorld(sim, plan['world'])
            for st in plan['steps']:
                if st['s'] == 'op' and 'identity_of' in st['dec']:
                    rec = w.ids[st['dec']['identity_of'] % len(w.ids)]
                    dec = dict(st['dec'])
                    dec['identity'] = dec.get('local') or rec['claimed']
                    dec['claimed'] = rec['claimed']
                    st = dict(st, dec=dec)
                w.do(st)
            self.judge(env, sim, w)
            w.close()

    def judge(self, env, sim, w):
        from openid.yadis.discover import DiscoveryFailure
        for ev in w.events:
            if ev['kind'] not in ('begin', 'complete'):
                continue
            env.checks += 1
            hits = tuple(sorted(set('%s:%s' % (e['fault'], 'post' if e['body'] is not None else 'get') for e in w.net.trace[ev['req0']:ev['req1']] if e['fault'])))
            e = ev['exc']
            n = ev['req1'] - ev['req0']
            sim.state(ev['kind'], hits, ev.get('status'), type(e).__name__, str(ev.get('why'))[:12])
            if n > BOUND:
                raise Violation('too-many-requests', '%s made %d requests' % (ev['kind'], n))
            if ev['kind'] == 'begin':
                if e is not None and not isinstance(e, DiscoveryFailure):
                    raise Violation('escaped:begin:%s:%s' % (type(e).__name__, where(e)), 'starting a login for %r raised %s: %s (faults %s)' % (
                        ev['ident'], type(e).__name__, str(e)[:200], hits))
            else:
                if e is not None:
                    raise Violation('escaped:complete:%s:%s' % (type(e).__name__, where(e)), 'completing a login raised %s: %s (faults %s)' % (
                        type(e).__name__, str(e)[:200], hits))
                if ev['status'] not in STATUS:
                    raise Violation('undefined-status', 'completing a login returned status %r' % (ev['status'],))


def where(e):
    """Innermost library function of a traceback."""
    tb = getattr(e, '__traceback__', None)
    name = '?'
    while tb is not None:
        f = tb.tb_frame.f_code
        if '/openid/' in f.co_filename:
            name = f.co_name
        tb = tb.tb_next
    return name


def faults(rng):
    n = rng.choice([1, 1, 1, 2, 3])
    out = []
    for _ in range(n):
        f = gen_fault(rng, n=rng.choice([0, 0, 1, 1, 2, 3, 4, '*']) if rng.random() < 0.6 else rng.choice([0, 0, 1, '*']),
                      kinds=['refuse', 'lost', 'dup', 'delay', 'status', 'garbage', 'truncate', 'status', 'garbage', 'mutate', 'mutate', 'mutate', 'header', 'elsewhere'])
        if rng.random() < 0.4:
            f['post'] = True
        out.append(f)
    return out


def assoc_script(rng):
    k = rng.random()
    if k < 0.4:
        return dict(do='unsupported', a=rng.choice(['HMAC-SHA1', 'HMAC-SHA256', 'x', None]), s=rng.choice(['DH-SHA1', 'no-encryption', 'DH-SHA256', 'x', None]),
                    code=rng.choice(['unsupported-type', 'unsupported-type', 'x']), ns=rng.random() < 0.8, status=rng.choice([400, 400, 200]))
    return dict(do='ok', drop=rng.choice([[], ['assoc_type'], ['assoc_handle'], ['expires_in'], ['mac_key'], ['dh_server_public'], ['enc_mac_key'],
                                          ['session_type']]),
                set=rng.choice([{}, {'expires_in': rng.choice(['x', '', '-1', '0', '1e5', '9' * 400])}, {'assoc_type': 'x'},
                                {'dh_server_public': rng.choice(['', '!', 'AA==', 'AQ==', 'x' * 2000])},
                                {'enc_mac_key': rng.choice(['', '!', 'AA=='])}, {'mac_key': rng.choice(['', '!', 'AA==', '\u00e9'])},
                                {'session_type': rng.choice(['', 'x', 'no-encryption'])}, {'ns': 'x'}, {'assoc_handle': rng.choice(['', '\u00e9', 'x' * 300])}]))


PROP = C14()
