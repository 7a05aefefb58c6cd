"""C01: success only for genuine assertions."""
from ..adversary import HostileWorld, gen_edits, judge_success, loss_fault
from .. import confuse
from ..gen import cohost, gen_id, gen_op, gen_rp
from ..kernel import Violation
from ..world import NS2
from .base import FLOW_REAL, FLOW_STUB, Prop, sched_spec

TYPES = ['HMAC-SHA1', 'HMAC-SHA256']


class C01(Prop):
    id = 'C01'
    runs = {'quick': 9000, 'thorough': 250000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    rule = ('every completion reported as success must correspond, field by field over its signed list, to an assertion an '
            'authorised provider put on the wire; mandatory fields signed; provider authorised by the documents of exactly that '
            'identifier; return address equal to the delivery address')
    state_measure = 'hash of (attack kinds tried, status, failure reason class, version, association known, session state)'
    assumptions = ['the direct channel between relying party and provider may lose, duplicate, delay, cut or garble messages but not '
                   'forge protocol answers; identity documents arrive whole or not at all', 'a raised error counts as not successful']
    real = FLOW_REAL
    stub = FLOW_STUB

    def gen(self, rng, tier, index):
        nops = rng.choice([1, 2])
        ops = [gen_op(rng, i, kinds=('lib', 'lib', 'lib', 'ref'), skew=False, workers=(1, 2)) for i in range(nops)]
        evil = dict(kind='ref', evil=True, sign=rng.choice(['all', 'min']), expires_in=86400)
        evil['url'] = rng.choice(['http://evil.example/openid', 'http://op0.example.evil.example/openid', 'http://op0.example/openid#',
                                  'http://evil.example/op0.example/openid'])
        if evil['url'].endswith('#'):
            evil['url'] = 'http://evil.example/openid'
        ops.append(evil)
        ei = len(ops) - 1
        for o in ops:
            if o['kind'] == 'ref' and rng.random() < 0.4:
                # how an independent provider says no
                o['no'] = rng.choice([None, '', 'False', 'no', '0', 'unknown', 'true false', 'error'])
        rps = [gen_rp(rng, i, skew=False, workers=(1, 2)) for i in range(rng.choice([1, 2]))]
        ids = [gen_id(rng, 0, nops, xri=True), gen_id(rng, 1, nops, xri=False, nsvc=1), gen_id(rng, 2, nops, op=ei, nsvc=1, xri=False)]
        for c in ids:
            for s in c['services']:
                if s['ver'] == 'op':
                    s['ver'] = rng.choice(['2', '1.1', 'op'] if c['doc'] != 'html' else ['2', '1.1'])
        if rng.random() < 0.3:
            ids.append(gen_id(rng, 3, nops, xri=False))
        if rng.random() < 0.3:
            # attacker's page delegates to the victim's local identifier or a second identity of the victim's provider
            s = dict(ids[0]['services'][0])
            ids[1]['services'] = [dict(s, local=rng.choice([s.get('local'), 'http://op0.example/u/mallory']))]
        neighbour = False
        if rng.random() < 0.35:
            # the attacker owns a page next to the victim's
            if rng.random() < 0.5:
                ids[2]['url'] = (ids[0].get('url') or 'http://id0.example/') + rng.choice(['~evil', '/x', 'x', '&y=1'])
            else:
                ids[0].setdefault('url', 'http://id0.example/Me/You')
                for _ in range(20):
                    ids[2]['url'] = confuse.url(rng, ids[0]['url'])
                    if '#' not in ids[2]['url'] and not ids[2]['url'].endswith(('?', '&')):
                        break
                else:
                    ids[2]['url'] = ids[0]['url'] + 'x'
            neighbour = True
            ids[2].pop('redirect', None)
            if rng.random() < 0.3:
                ids[0]['url'], ids[2]['url'] = ids[2]['url'], ids[0].get('url') or 'http://id0.example/'
        if rng.random() < 0.35 and evil.get('url'):
            evil['handle'] = None
        id_urls = []
        for i, c in enumerate(ids):
            id_urls.append(c.get('url') or 'http://id%d.example/' % i)
            for s in c['services']:
                if s.get('local'):
                    id_urls.append(s['local'])
                    if rng.random() < 0.4:
                        id_urls.append(confuse.url(rng, s['local']))
        id_urls += [u + '#x' for u in id_urls[:1]]
        op_urls = [o.get('url') or 'http://op%d.example/openid' % i for i, o in enumerate(ops)]
        rp_urls = [r['return_to'] for r in rps] + ['http://evil.example/done', rps[0]['return_to'].split('?')[0] + '/other',
                                                   'https' + rps[0]['return_to'][4:]]

        def edits():
            return gen_edits(rng, id_urls, op_urls, rp_urls)
        steps = []
        kinds = set()
        nl = rng.choice([1, 2, 3, 4])
        for l in range(nl):
            rp = rng.randrange(len(rps))
            b = dict(s='begin', l=l, rp=rp, id=rng.randrange(len(ids)), sess='s%d' % rng.randrange(2), imm=rng.random() < 0.15)
            if rng.random() < 0.08:
                b['anon'] = True
            steps.append(b)
            o = dict(s='op', l=l, dec=dict(allow=rng.random() < 0.9))
            o['dec']['identity'] = rng.choice(id_urls)
            if rng.random() < 0.3:
                o['dec']['claimed'] = rng.choice(id_urls)
            if rng.random() < 0.25:
                o['edits'] = gen_edits(rng, id_urls, op_urls, rp_urls)
            if rng.random() < 0.25:
                # a sloppy (independent) provider leaves fields out of its signature
                o['dec']['unsign'] = rng.sample(['claimed_id', 'identity', 'op_endpoint', 'return_to', 'response_nonce', 'assoc_handle'],
                                                rng.choice([1, 1, 2]))
            # the hostile provider says what it likes
            if rng.random() < 0.4:
                o['dec'].update(force=True, evil=True)
                if neighbour and rng.random() < 0.4:
                    o['dec']['override'] = {'openid.claimed_id': id_urls[0]}
                elif rng.random() < 0.5:
                    o['dec']['override'] = {'openid.' + rng.choice(['claimed_id', 'identity', 'op_endpoint', 'return_to', 'ns']):
                                            rng.choice(id_urls + op_urls + [None])}
            steps.append(o)
            if rng.random() < 0.15:
                steps.append(dict(s='tick', dt=rng.choice([1, 60, 3600, 1209600])))
            for _ in range(rng.choice([1, 1, 2, 3])):
                k = rng.random()
                if k < 0.12:
                    st = dict(s='deliver', l=l)
                elif k < 0.5:
                    st = dict(s='deliver', l=l, edits=edits(), anyway=True)
                    kinds.add('edit')
                elif k < 0.6:
                    st = dict(s='cross', l=l, rp=rng.randrange(len(rps)), sess='s%d' % rng.randrange(3),
                              path=rng.choice(['', '', '/x', '2', ';x', '/']))
                    if rng.random() < 0.2:
                        st['scheme'] = rng.choice(['https', 'http'])
                    if rng.random() < 0.1:
                        st['host'] = rng.choice([':81', '.evil.example', 'x'])
                    if rng.random() < 0.4:
                        st['edits'] = edits()
                    kinds.add('cross')
                else:
                    if rng.random() < 0.5:
                        steps.append(dict(s='att_assoc', op=rng.randrange(nops), type=rng.choice(TYPES), session='no-encryption'))
                        if rng.random() < 0.5:
                            t = rng.choice(TYPES)
                            steps.append(dict(s='att_assoc', op=rng.randrange(nops), type=t, session='DH-' + t[5:]))
                    st = dict(s='forge', l=rng.choice([l, l, 99]), rp=rp, victim=rng.randrange(len(ids)), svc=rng.randrange(3),
                              key=rng.choice(['evil', 'evil', 'loot', 'loot', 'weak', 'none']), handle=rng.choice(['own', 'shared']),
                              ep=rng.choice(['victim', 'evil']), ver=rng.choice([1, 2]), signed=rng.choice(['all', 'min', 'few']),
                              nonce_rt=rng.random() < 0.6, inval=rng.random() < 0.1, n=rng.randrange(3))
                    if rng.random() < 0.2:
                        st['edits'] = edits()
                    kinds.add('forge-' + st['key'])
                if rng.random() < 0.3:
                    st['sess'] = 's%d' % rng.randrange(3)
                if rng.random() < 0.25:
                    st['net'] = [loss_fault(rng)]
                steps.append(st)
            if rng.random() < 0.1:
                steps.append(dict(s='wipe', who=rng.choice(['rp0', 'op0'])))
        if rng.random() < 0.25:
            rng.shuffle(steps)
            steps.sort(key=lambda st: 0 if st['s'] == 'begin' else 1)
        if rng.random() < 0.15:
            i = rng.randrange(len(ids))
            steps.insert(rng.randrange(len(steps)), dict(s='publish', id=i, cfg=dict(services=[dict(op=rng.randrange(nops), ver='2')])))
        cohost(rng, ops, rps)
        return dict(world=dict(ops=ops, rps=rps, ids=ids), steps=steps, kinds=sorted(kinds), sched=sched_spec(rng))

    shrink_lists = ['steps', 'steps.*.edits', 'world.ids']

    def execute(self, plan, env):
        with env.sim() as sim:
            w = HostileWorld(sim, plan['world'])
            w.net.whole_documents = True
            honest = w.s_op

            def s_op(st):
                # only the hostile provider may lie
                lg = w.logins.get(st.get('l', 0))
                if lg and lg['begin']['msg'] is not None:
                    op = w.find_op(lg['begin']['msg'].url)
                    dec = dict(st['dec'])
                    if op is not None and not op.cfg.get('evil'):
                        for k in ('force', 'override', 'evil'):
                            dec.pop(k, None)
                        if dec.get('allow'):
                            # an honest provider lets a user choose only identities of its own
                            own = sorted(c for c in w.claims if c[1] == op.url and c[3] == 'v2')
                            if own:
                                c = own[len(dec.get('identity') or '') % len(own)]
                                dec['identity'], dec['claimed'] = c[2], c[0]
                    st = dict(st, dec=dec)
                return honest(st)
            w.s_op = s_op
            w.run(plan['steps'])
            for ev in w.events:
                if ev['kind'] != 'complete':
                    continue
                env.checks += 1
                sim.probe('status_%s' % (ev['status'] or 'raised'))
                st = ev['step']
                sim.state(st['s'], st.get('key'), st.get('handle'), st.get('ep'), ev['status'], str(ev.get('why'))[:22],
                          ev['msg'].args.get('openid.ns') == NS2, ev['stale'], type(ev['exc']).__name__,
                          tuple(sorted((e[0], e[1]) for e in st.get('edits') or ())))
                if ev['status'] == 'success':
                    if ev['step'].get('edits') or ev['step']['s'] != 'deliver':
                        sim.probe('success_after_attack')

                    def err(cls, msg):
                        raise Violation(cls, msg)
                    judge_success(w, ev, err)
            w.close()


PROP = C01()
