"""C07: I/O errors in the file store."""
import os
import random

from ..kernel import Node, Violation, SimCrash
from ..stores import StoreWorld, assoc_tuple, modules
from .base import Prop, STORE_REAL, STORE_STUB
from .c04 import URLS, HANDLES

NONE = None


class C07(Prop):
    id = 'C07'
    runs = {'quick': 9000, 'thorough': 600000}
    rule = ('a run is a seeded history of file-store operations in which chosen system calls fail (or keep failing), '
            'with an audit after every failed operation and at the end; non-trivial: at least one call judged; distinct by event digest')
    state_measure = 'distinct (operation, failing system call, error, reported/raised, outcome old/new) tuples'
    real = STORE_REAL[:1] + ['openid.store.nonce', 'openid.association', 'openid.kvform']
    stub = STORE_STUB[:3]
    assumptions = ['errors are those POSIX allows for the call (e.g. ENOSPC never on unlink)',
                   'temporary files may remain if removing them fails too']

    def gen(self, rng, tier, index):
        urls = rng.sample(URLS, rng.choice([1, 1, 2]))
        handles = rng.sample(HANDLES, rng.choice([1, 2, 3]))
        ops = []
        win = rng.random() < 0.12
        rate = rng.choice([0.2, 0.4, 0.7])
        expiring = rng.random() < 0.4
        for _ in range(rng.choice([2, 3, 5, 8, 12])):
            k = rng.random()
            u, h = rng.choice(urls), rng.choice(handles)
            if k < 0.38:
                t = rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
                n = 20 if t == 'HMAC-SHA1' else 32
                op = dict(op='store', url=u, handle=h, type=t, secret=bytes(rng.getrandbits(8) for _ in range(n)).hex(),
                          issued=1500000000 + rng.choice([0, 1, -1, 7]), lifetime=rng.choice([30, 86400]) if expiring else 86400)
            elif k < 0.50:
                op = dict(op='get', url=u, handle=h)
            elif k < 0.58:
                op = dict(op='best', url=u)
            elif k < 0.66:
                op = dict(op='remove', url=u, handle=h)
            elif k < 0.82:
                op = dict(op='nonce', url=u, ts=1500000000 + rng.choice([0, 0, 1, -100]), salt=rng.choice(['a', 'b', 'c']))
            elif k < 0.90:
                op = dict(op='cleanup', how=rng.choice(['cleanup', 'cleanupAssociations', 'cleanupNonces']))
            elif k < 0.95:
                op = dict(op='tick', dt=rng.choice([1, 31]))
            else:
                op = dict(op='reopen')
            if op['op'] != 'tick' and rng.random() < rate:
                fs = [dict(at=rng.randrange(0, 8), kind=rng.choice(['eio', 'eio', 'enospc', 'enospc', 'eacces', 'emfile', 'enoent', 'short', 'torn', 'close_err']),
                           frac=rng.random())]
                if fs[0]['kind'] in ('enospc', 'emfile', 'eacces') and rng.random() < 0.4:
                    fs[0]['sticky'] = True
                if rng.random() < 0.2:
                    fs.append(dict(at=rng.randrange(0, 10), kind=rng.choice(['eio', 'enospc', 'short']), frac=rng.random()))
                op['faults'] = fs
            ops.append(op)
        return dict(ops=ops, win=win, power=rng.randrange(1 << 30) if rng.random() < 0.5 else None)

    def execute(self, plan, env):
        _, _, _, association = modules()
        with env.sim() as sim:
            sim.disk.windows = plan['win']
            w = StoreWorld(sim, 'file')
            node = Node('p')
            sim.set_node(node)
            st = w.open(node)
            poss = {}
            nonces = {}

            def now_poss(key):
                """drop values that have expired"""
                out = set()
                for v in poss.get(key, {NONE}):
                    out.add(NONE if v is not None and v[1] + v[2] <= int(sim.now) else v)
                return out

            def temps():
                with sim.oracle():
                    return sorted(os.listdir(st.temp_dir)) if os.path.isdir(st.temp_dir) else []

            def fail(cls, msg):
                raise Violation(cls, msg)

            def audit(after):
                sim.disk.sticky = None
                sim.ctx.begin_op(None, 'audit')
                env.checks += 1
                for key in sorted(poss):
                    a = st.getAssociation(*key)
                    v = None if a is None else assoc_tuple(a)
                    ok = now_poss(key)
                    if v not in ok:
                        fail('entry-damaged', 'after %s: %r reads back as %r, expected one of %r' % (after, key, v, sorted(map(repr, ok))))
                    if a is not None and a.handle != key[1]:
                        fail('entry-damaged', 'after %s: %r has handle %r' % (after, key, a.handle))
                    poss[key] = {v}
                for key in sorted(nonces):
                    if nonces[key] == {'used'} and st.useNonce(*key):
                        fail('nonce-forgotten', 'after %s: nonce %r accepted again' % (after, key))

            for op in plan['ops']:
                o = op['op']
                if o == 'tick':
                    sim.advance(op['dt'])
                    continue
                before_tmp = temps()
                sim.ctx.begin_op(op.get('faults'), 'p')
                sim.log('op', o, repr(op.get('url')), repr(op.get('handle')))
                fired0 = sum(sim.fault_counts.values())
                err = None
                env.checks += 1
                try:
                    if o == 'store':
                        key = (op['url'], op['handle'])
                        val = (bytes.fromhex(op['secret']), op['issued'], op['lifetime'], op['type'])
                        old = poss.get(key, {NONE})
                        poss[key] = old | {val}
                        if plan['win']:
                            poss[key] = poss[key] | {NONE}
                        st.storeAssociation(op['url'], association.Association(op['handle'], *val))
                        poss[key] = {val}
                    elif o == 'get':
                        key = (op['url'], op['handle'])
                        a = st.getAssociation(*key)
                        v = None if a is None else assoc_tuple(a)
                        if v not in now_poss(key):
                            fail('false-answer', 'get%r returned %r, expected %r (faults %r)' % (key, v, now_poss(key), op.get('faults')))
                    elif o == 'best':
                        a = st.getAssociation(op['url'])
                        live = {k: now_poss(k) for k in poss if k[0] == op['url']}
                        sure = [next(iter(v))[1] for v in live.values() if NONE not in v and len(v) == 1]
                        if a is None:
                            if sure:
                                fail('false-answer', 'fetch by server %r returned None, stored: %r (faults %r)' % (op['url'], live, op.get('faults')))
                        else:
                            if assoc_tuple(a) not in live.get((op['url'], a.handle), ()):
                                fail('false-answer', 'fetch by server %r returned unknown %r' % (op['url'], a.handle))
                            if sure and a.issued < max(sure):
                                fail('false-answer', 'fetch by server %r skipped the most recent association (faults %r)' % (op['url'], op.get('faults')))
                    elif o == 'remove':
                        key = (op['url'], op['handle'])
                        ok = now_poss(key)
                        poss[key] = poss.get(key, {NONE}) | {NONE}
                        r = st.removeAssociation(*key)
                        if r and ok == {NONE}:
                            fail('false-answer', 'remove%r reported success, nothing stored' % (key,))
                        if not r and NONE not in ok:
                            fail('false-answer', 'remove%r reported nothing removed although stored (faults %r)' % (key, op.get('faults')))
                        poss[key] = {NONE}
                    elif o == 'nonce':
                        key = (op['url'], op['ts'], op['salt'])
                        old = nonces.get(key, {'free'})
                        nonces[key] = old | {'used'}
                        r = st.useNonce(*key)
                        if r and old == {'used'}:
                            fail('nonce-forgotten', 'nonce %r accepted twice' % (key,))
                        if not r and old == {'free'}:
                            fail('false-answer', 'nonce %r refused on first use (faults %r)' % (key, op.get('faults')))
                        nonces[key] = {'used'}
                    elif o == 'cleanup':
                        getattr(st, op['how'])()
                    elif o == 'reopen':
                        st2 = w.open(node)
                        st = st2
                except (IOError, OSError) as why:
                    err = why
                fired = sum(sim.fault_counts.values()) - fired0
                hits = [(h.get('point'), h['kind']) for h in sim.ctx.hits]
                sim.log('done', o, type(err).__name__)
                if err is not None and not fired:
                    fail('spurious-error', '%s raised %r without any failing system call' % (o, err))
                if fired:
                    real_hits = fired
                    sim.state(o, hits, err is None)
                    sim.probe('op_survived' if err is None else 'op_raised')
                    only_short = all(k == 'short' for _, k in hits) and sim.disk.sticky is None
                    if err is not None and only_short and not plan['win']:
                        fail('spurious-error', '%s raised %r after a mere short write' % (o, err))
                    left = [t for t in temps() if t not in before_tmp]
                    cleanup_failed = any(p in ('unlink', 'remove') for p, _ in hits) or \
                        (sim.disk.sticky is not None and 'unlink' in (disk_applies(sim.disk.sticky))) or fired > 1
                    if left and not cleanup_failed:
                        fail('temporary-file-left', '%s left %r behind (faults %r)' % (o, left, hits))
                    audit('%s with %r' % (o, hits))
                else:
                    left = [t for t in temps() if t not in before_tmp]
                    if left:
                        fail('temporary-file-left', '%s left %r behind without any fault' % (o, left))
            audit('the history')
            if plan.get('power') is not None:
                # what was reported as done has been done: it outlasts the machine
                sim.count_fault('power_loss')
                sim.disk.power_loss(random.Random(plan['power']))
                st = w.open(node)
                audit('the history and a power loss')
            # and it is fully usable
            a = association.Association('fresh', b'0123456789' * 2, int(sim.now), 100, 'HMAC-SHA1')
            st.storeAssociation('http://fresh.example/', a)
            b = st.getAssociation('http://fresh.example/', 'fresh')
            if b is None or assoc_tuple(b) != assoc_tuple(a):
                fail('unusable', 'store does not work after the error condition ended')
            if not st.useNonce('http://fresh.example/', int(sim.now), 'fresh'):
                fail('unusable', 'nonces do not work after the error condition ended')


def disk_applies(kind):
    from .. import disk
    return ['unlink'] if disk.applies(kind, 'unlink') else []


PROP = C07()
