"""C12: both ends of an association agree on the key."""
import base64

from ..adversary import MODULI
from ..gen import cohost, OP_STORES, gen_id, gen_op, gen_rp
from ..kernel import Violation
from ..net import gen_fault
from ..provider import ProviderWorld
from ..world import ALL_PAIRS, SIZE, btwoc
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec

DEFAULT_ORDER = [('HMAC-SHA256', 'DH-SHA256'), ('HMAC-SHA256', 'no-encryption'), ('HMAC-SHA1', 'DH-SHA1'), ('HMAC-SHA1', 'no-encryption')]


class C12(Prop):
    id = 'C12'
    runs = {'quick': 6000, 'thorough': 250000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('every association a relying party records equals, in handle, secret and type, one its provider issued, with full key length and '
            'at most the granted lifetime; every association an independent client derives from a library provider equals the stored one; '
            'DH values on the wire are in the shortest two\'s complement form; undisturbed exchanges of commonly allowed types succeed')
    state_measure = 'hash of (who, protocol version, types, key-exchange value class, fault kind, outcome)'
    assumptions = ['answers may be cut, duplicated, lost or replaced by junk, but a value inside an answer is not forged']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        nops = rng.choice([1, 1, 2])
        ops = [gen_op(rng, i, kinds=('lib', 'ref'), skew=True) for i in range(nops)]
        lead = [None, None, 'szero', 'pzero', 'shigh', 'phigh']
        for o in ops:
            if o['kind'] == 'ref':
                o['assoc'] = [dict(do='ok', lead=rng.choice(lead), expires_in=rng.choice([1, 60, 3600, 1209600]), name_plain=rng.random() < 0.3)
                              for _ in range(rng.choice([1, 2, 4]))]
                if rng.random() < 0.15:
                    o['assoc'].insert(0, dict(do='unsupported', a=rng.choice(['HMAC-SHA1', 'HMAC-SHA256']), s=rng.choice(['DH-SHA1', 'DH-SHA256', 'no-encryption'])))
                o['cycle'] = True
                if rng.random() < 0.3:
                    # OpenID 1 providers may answer any request in clear
                    o['assoc'][rng.randrange(len(o['assoc']))].update(plain1=True)
        rps = [gen_rp(rng, i, stores=[OP_STORES[index % 5], 'mem', 'file'], skew=True) for i in range(rng.choice([1, 1, 2]))]
        ids = [gen_id(rng, i, nops, xri=False, nsvc=1) for i in range(rng.choice([1, 2]))]
        for c in ids:
            for s in c['services']:
                if s['ver'] == 'op':
                    s['ver'] = '2'
        n = rng.choice([2, 3, 4, 6])
        kinds = [None, None, 'zero', 'high']

        def one(l):
            if rng.random() < 0.35:
                t = rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
                return dict(s='att_assoc', op=rng.randrange(nops), type=t, session=rng.choice(['DH-' + t[5:], 'DH-' + t[5:], 'no-encryption']),
                            v2=rng.random() < 0.6, mod=rng.choice([0, 0, 0, 1, 2]), x=rng.randrange(2, 1 << 200), clead=rng.choice(kinds),
                            slead=rng.choice(kinds), plead=rng.choice(kinds), w=rng.randrange(3))
            b = dict(s='begin', l=l, rp=rng.randrange(len(rps)), id=rng.randrange(len(ids)), sess='s%d' % l, w=rng.randrange(3),
                     dh=[rng.choice(kinds), rng.choice(kinds)])
            k = rng.random()
            if k < 0.4:
                f = gen_fault(rng, n=rng.choice([0, 0, 0, 1]), kinds=['lost', 'dup', 'dup', 'delay', 'status', 'garbage', 'truncate', 'truncate', 'truncate'])
                f['post'] = True
                if f['kind'] == 'truncate' and rng.random() < 0.5:
                    f['frac'] = round(1 - rng.random() * 0.15, 4)
                b['net'] = [f]
            return b
        steps = []
        for l in range(n):
            k = rng.random()
            if k < 0.15:
                steps.append(dict(s='wipe', who='rp%d' % rng.randrange(len(rps))))
            elif k < 0.3:
                steps.append(dict(s='tick', dt=rng.choice([1, 60, 61, 3600, 1209600])))
            elif k < 0.36:
                steps.append(dict(s='cleanup', who=rng.choice(['rp0', 'op0'])))
            if rng.random() < 0.12:
                steps.append(dict(s='par', tasks=[[one(100 + 10 * l + j)] for j in range(2)]))
            else:
                steps.append(one(l))
        cohost(rng, ops, rps)
        return dict(world=dict(ops=ops, rps=rps, ids=ids), steps=steps, sched=sched_spec(rng))

    shrink_lists = ['steps', 'steps.*.tasks', 'steps.*.net']

    def execute(self, plan, env):
        with env.sim(max_steps=2000000) as sim:
            w = ProviderWorld(sim, plan['world'])
            w.run(plan['steps'])
            self.judge(env, sim, w)
            w.close()

    def granted(self, op, handle):
        """What the provider itself holds for a shared handle."""
        if not op.lib:
            r = op.assocs_all.get(handle)
            return [r] if r else []
        out = []
        for r in op.stored:
            if r['handle'] == handle and handle in op.given:
                out.append(dict(secret=r['secret'], type=r['type'], expires_in=op.given[handle]['expires_in']))
        return out

    def judge(self, env, sim, w):
        for rp in w.rps:
            for r in rp.stored:
                env.checks += 1
                op = w.op_by_url.get(r['url'])
                what = '%s recorded association %r (%s) with %s: ' % (rp.name, r['handle'], r['type'], r['url'])
                g = self.granted(op, r['handle']) if op is not None else []
                if not g:
                    raise Violation('unknown-handle', what + 'the provider issued no such association')
                if not any(x['secret'] == r['secret'] and x['type'] == r['type'] for x in g):
                    raise Violation('keys-differ', what + 'the provider holds %s, the relying party %s/%s' % (
                        [(x['type'], x['secret'].hex()) for x in g], r['type'], r['secret'].hex()))
                if len(r['secret']) != SIZE[r['type']]:
                    raise Violation('short-key', what + 'key of %d bytes' % len(r['secret']))
                if r['lifetime'] > max(x['expires_in'] for x in g):
                    raise Violation('lifetime', what + 'recorded for %r s, granted for %r s' % (r['lifetime'], g[0]['expires_in']))
                if not op.lib or r['handle'] in op.given:
                    sess = op.given[r['handle']]['session'] if op.lib else g[0]['session']
                    sim.state('stored', op.lib, r['type'], sess)
        for k in w.loot:
            env.checks += 1
            g = self.granted(k['op'], k['handle'])
            st = k['step']
            sim.state('client', k['type'], k['session'], st.get('mod'), st.get('clead'), st.get('slead'), st.get('plead'))
            if not any(x['secret'] == k['secret'] and x['type'] == k['type'] for x in g):
                raise Violation('keys-differ', 'a client following the specification derived another key for %r (%s, %s) than the provider %s stored: '
                                '%s, %s' % (k['handle'], k['type'], k['session'], k['op'].name, k['secret'].hex(), [x['secret'].hex() for x in g]))
            d = k['reply']
            if 'dh_server_public' in d:
                self.btwoc(d['dh_server_public'], 'dh_server_public of ' + k['op'].name)
            if k['session'] != 'no-encryption' and 'mac_key' in d:
                raise Violation('clear-key', 'clear-text key in the answer to a %s request' % k['session'])
        for k in w.att_log:
            op, st = k['op'], k['step']
            if (st['type'], st['session']) in [tuple(p) for p in op.cfg.get('policy') or DEFAULT_ORDER] and 'assoc_handle' not in k['reply'] \
                    and not sim.db_gave_up:
                raise Violation('no-association', 'provider %s refused a well-formed %s/%s association request: %s %s' % (
                    op.name, st['type'], st['session'], k['status'], k['reply']))
        for op in w.ops:
            for rec in op.direct_log:
                a = rec['args']
                if a.get('openid.mode') == 'associate' and 'openid.dh_consumer_public' in a and 'node' not in a:
                    self.btwoc(a['openid.dh_consumer_public'], 'dh_consumer_public sent to ' + op.name)
        for ev in w.events:
            if ev['kind'] != 'begin' or ev['exc'] is not None or sim.db_gave_up:
                continue
            self.complete(env, sim, w, ev)

    def btwoc(self, v, what):
        raw = base64.b64decode(v)
        if raw != btwoc(int.from_bytes(raw, 'big')):
            raise Violation('encoding', '%s is not the shortest two\'s complement form: %s...' % (what, raw[:4].hex()))

    def complete(self, env, sim, w, ev):
        """An undisturbed exchange of a commonly allowed type succeeds."""
        st = ev['step']
        rp = w.party(ev['rp'])
        if rp.store is None:
            return
        posts = [e for e in w.net.trace[ev['req0']:ev['req1']] if e['body'] is not None and e['src'] == ev['node']]
        op = w.op_by_url.get(ev['server_url'])
        sim.state('begin', op.lib, ev['assoc'] is not None, len(posts), (st.get('net') or [{}])[0].get('kind'))
        if st.get('net') or ev['assoc'] is not None:
            return
        mine = [tuple(p) for p in rp.cfg.get('policy') or DEFAULT_ORDER]
        v1 = not any('/2.0/' in t for t in ev['types'])
        if op.lib:
            theirs = [tuple(p) for p in op.cfg.get('policy') or DEFAULT_ORDER]
            good = mine[0] in theirs or (not v1 and theirs[0] in mine)
        else:
            first = (op.cfg.get('assoc') or [{}])[0]
            if first.get('do') == 'unsupported':
                return
            if v1 and any(b.get('plain1') for b in op.cfg.get('assoc') or ()) and (mine[0][0], 'no-encryption') not in mine:
                return             # the relying party must not accept that
            good = True
        if good and op.lib or good and mine[0] in ALL_PAIRS:
            env.checks += 1
            raise Violation('no-association', 'relying party (types %s) and provider %s (types %s) could associate but did not; %d requests' % (
                mine, op.name, op.cfg.get('policy') if op.lib else 'all', len(posts)))


PROP = C12()
assert MODULI
