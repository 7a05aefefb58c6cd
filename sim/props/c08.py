"""C08: SQL stores under database errors."""
import os
import shutil
import sqlite3

from ..kernel import Node, Violation
from .. import db
from ..stores import StoreWorld, assoc_tuple, modules, SKEW
from .base import Prop, STORE_REAL, STORE_STUB
from .c04 import URLS, HANDLES

KINDS = ['op_error', 'op_error', 'op_error_after', 'commit_error', 'commit_lost', 'conn_lost', 'rollback_error']


class C08(Prop):
    id = 'C08'
    runs = {'quick': 9000, 'thorough': 600000}
    rule = ('a run is a seeded history of SQL-store operations by one or two processes in which chosen statements, commits or '
            'rollbacks fail; after every failed operation the durable database content is read back from a copy; '
            'non-trivial: at least one call judged; distinct by event digest')
    state_measure = 'distinct (store class, operation, failing call, error kind, raised/returned, old/new durable) tuples'
    real = ['openid.store.sqlstore (SQLite, MySQL and PostgreSQL classes)', 'openid.association', 'SQLite engine']
    stub = STORE_STUB[:2] + STORE_STUB[3:4]
    assumptions = ['a connection reported lost is usable again on the next call (reconnecting driver or pool)',
                   'a rollback that reports an error has still discarded the transaction',
                   'another process may see "database is locked" while a failed commit keeps its transaction open']

    def gen(self, rng, tier, index):
        kind = ['sqlite', 'mysql', 'pg'][index % 3]
        urls = rng.sample(URLS, rng.choice([1, 1, 2]))
        handles = rng.sample(HANDLES, rng.choice([1, 2, 3]))
        rate = rng.choice([0.25, 0.45, 0.7])
        expiring = rng.random() < 0.4
        nodes = rng.choice([1, 1, 2])
        ops = []
        for _ in range(rng.choice([2, 3, 5, 8, 12])):
            k = rng.random()
            u, h = rng.choice(urls), rng.choice(handles)
            if k < 0.34:
                t = rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
                n = 20 if t == 'HMAC-SHA1' else 32
                op = dict(op='store', url=u, handle=h, type=t, secret=bytes(rng.getrandbits(8) for _ in range(n)).hex(),
                          issued=1500000000 + rng.choice([0, 1, -1, 7]), lifetime=rng.choice([30, 86400]) if expiring else 86400)
            elif k < 0.45:
                op = dict(op='get', url=u, handle=h)
            elif k < 0.54:
                op = dict(op='best', url=u)
            elif k < 0.64:
                op = dict(op='remove', url=u, handle=h)
            elif k < 0.82:
                op = dict(op='nonce', url=u, ts=1500000000 + rng.choice([0, 0, 1, -100]), salt=rng.choice(['a', 'b']))
            elif k < 0.88:
                op = dict(op='cleanup', how=rng.choice(['cleanupNonces', 'cleanupAssociations', 'cleanup']))
            elif k < 0.92:
                op = dict(op='restart')
            else:
                op = dict(op='tick', dt=rng.choice([1, 31, 31, 600, SKEW + 1]))
            op['node'] = rng.randrange(nodes)
            if op['op'] not in ('tick', 'restart') and rng.random() < rate:
                fs = [dict(at=rng.randrange(0, 5), kind=rng.choice(KINDS))]
                if rng.random() < 0.3:
                    fs.append(dict(at=fs[0]['at'] + rng.choice([1, 1, 2]), kind=rng.choice(KINDS)))
                if rng.random() < 0.3:
                    for x in fs:
                        x['exc'] = rng.choice(['InternalError', 'DatabaseError', 'InterfaceError', 'DataError', 'ProgrammingError'])
                op['faults'] = fs
            ops.append(op)
        return dict(kind=kind, nodes=nodes, ops=ops)

    def execute(self, plan, env):
        _, _, sq, association = modules()
        kind = plan['kind']
        with env.sim() as sim:
            w = StoreWorld(sim, kind)
            nodes = [Node('p%d' % i) for i in range(plan['nodes'])]
            stores = {}
            conns = {}

            def opened(i):
                if i not in stores:
                    stores[i] = w.open(nodes[i])
                    conns[i] = w.server.conns[-1]
                return stores[i]
            model = {}            # (url, handle) -> value, exactly what is durable
            nonces = {}           # key -> True if durable
            ncopy = [0]

            def live(v):
                return v is not None and v[1] + v[2] > int(sim.now)

            def durable(keys, nkeys):
                """Content of the database as another client would find it."""
                ncopy[0] += 1
                p = os.path.join(sim.root, 'audit%d.db' % ncopy[0])
                with sim.oracle():
                    shutil.copyfile(w.path + '.db', p)
                    srv = db.Server(sim, p)
                    aud = Node('audit')
                    saved, w.server = w.server, srv
                    try:
                        st = w._sql(aud)
                    finally:
                        w.server = saved
                    try:
                        out = {}
                        for k in keys:
                            a = st.getAssociation(*k)
                            out[k] = None if a is None else assoc_tuple(a)
                        nout = {}
                        for k in nkeys:
                            if abs(k[1] - sim.now) <= SKEW:
                                nout[k] = not st.useNonce(*k)
                    finally:
                        srv.close()
                        os.unlink(p)
                return out, nout

            def fail(cls, msg):
                raise Violation(cls, msg)

            for op in plan['ops']:
                o, i = op['op'], op['node']
                if o == 'tick':
                    sim.advance(op['dt'])
                    continue
                if o == 'restart':
                    w.died(nodes[i])
                    nodes[i].restart()
                    stores.pop(i, None)
                    conns.pop(i, None)
                    continue
                sim.set_node(nodes[i])
                st = opened(i)
                sim.ctx.begin_op(op.get('faults'), nodes[i].name)
                sim.log('op', o, repr(op.get('url')), repr(op.get('handle')))
                fired0 = sum(sim.fault_counts.values())
                err = None
                env.checks += 1
                key = val = None
                r = None
                if o in ('store', 'get', 'remove'):
                    key = (op['url'], op['handle'])
                if o == 'nonce':
                    key = (op['url'], op['ts'], op['salt'])
                others_busy = any(c.real.in_transaction for j, c in conns.items() if j != i and j in stores)
                try:
                    if o == 'store':
                        val = (bytes.fromhex(op['secret']), op['issued'], op['lifetime'], op['type'])
                        st.storeAssociation(op['url'], association.Association(op['handle'], *val))
                    elif o == 'get':
                        r = st.getAssociation(*key)
                    elif o == 'best':
                        r = st.getAssociation(op['url'])
                    elif o == 'remove':
                        r = st.removeAssociation(*key)
                    elif o == 'nonce':
                        r = st.useNonce(*key)
                    else:
                        r = getattr(st, op['how'])()
                except sqlite3.Error as why:
                    err = why
                fired = sum(sim.fault_counts.values()) - fired0
                hits = [(h.get('point'), h['kind']) for h in sim.ctx.hits]
                sim.log('done', o, type(err).__name__, repr(r) if isinstance(r, (bool, int)) else '')
                if err is not None and not fired:
                    if others_busy and 'locked' in str(err):
                        sim.probe('locked_out')
                        continue
                    fail('spurious-error', '%s raised %r although the database did not fail it' % (o, err))
                if conns[i].real.in_transaction and not any(p in ('db.commit', 'db.rollback') for p, _ in hits):
                    fail('transaction-open', '%s (%r, faults %r) left its transaction open, which locks all others out' % (o, err, hits))
                # --- what is durable now
                mkeys = sorted(set(model) | ({key} if o in ('store', 'get', 'remove') else set()))
                nkeys = sorted(set(nonces) | ({key} if o == 'nonce' else set()))
                if fired or err is not None or o == 'nonce':
                    dur, ndur = durable(mkeys, nkeys)
                else:
                    dur, ndur = None, None
                old = model.get(key) if o in ('store', 'get', 'remove') else None
                old = old if live(old) else None
                # --- the reported result
                if err is None:
                    if o == 'store':
                        model[key] = val
                    elif o == 'get':
                        v = None if r is None else assoc_tuple(r)
                        if v != old:
                            fail('false-answer', 'get%r returned %r, stored %r (faults %r)' % (key, v, old, hits))
                    elif o == 'best':
                        cand = [v for (u, h), v in model.items() if u == op['url'] and live(v)]
                        if not cand:
                            if r is not None:
                                fail('false-answer', 'fetch by server returned %r, nothing stored' % (assoc_tuple(r),))
                        elif r is None or model.get((op['url'], r.handle)) != assoc_tuple(r) or \
                                r.issued != max(v[1] for v in cand):
                            fail('false-answer', 'fetch by server %r returned %r, stored %r (faults %r)' % (
                                op['url'], r and assoc_tuple(r), cand, hits))
                    elif o == 'remove':
                        if bool(r) != (old is not None) and (old is not None or model.get(key) is None):
                            fail('false-answer', 'remove%r reported %r, stored %r (faults %r)' % (key, r, old, hits))
                        model[key] = None
                    elif o == 'nonce':
                        inwin = abs(key[1] - sim.now) <= SKEW
                        was = bool(nonces.get(key))
                        if not inwin:
                            if r:
                                fail('false-answer', 'nonce %r outside the window accepted' % (key,))
                        else:
                            if r and was:
                                fail('nonce-forgotten', 'nonce %r accepted twice' % (key,))
                            if r and not ndur[key]:
                                fail('nonce-not-durable', 'nonce %r reported as used but not recorded (faults %r)' % (key, hits))
                            if not r and not was:
                                fail('false-answer', 'nonce %r reported as already used, it was not (faults %r)' % (key, hits))
                            nonces[key] = True
                    expect = {k: model.get(k) if live(model.get(k)) else None for k in mkeys}
                    alt = expect
                else:
                    expect = {k: model.get(k) if live(model.get(k)) else None for k in mkeys}
                    alt = dict(expect)
                    if o == 'store':
                        alt[key] = val if live(val) else None
                    elif o == 'remove':
                        alt[key] = None
                if dur is not None:
                    for k in mkeys:
                        if dur[k] not in (expect[k], alt[k]):
                            fail('not-atomic', 'after %s (%r, faults %r): %r is durably %r, expected %r%s' % (
                                o, err, hits, k, dur[k], expect[k], '' if alt is expect else ' or %r' % (alt[k],)))
                    for k, used in ndur.items():
                        if nonces.get(k) and not used:
                            fail('nonce-forgotten', 'after %s: nonce %r is no longer recorded' % (o, k))
                        if used and not nonces.get(k) and not (o == 'nonce' and k == key and err is not None):
                            fail('not-atomic', 'after %s (%r, faults %r): nonce %r recorded' % (o, err, hits, k))
                        if used:
                            nonces[k] = True
                    if o in ('store', 'remove') and err is not None:
                        if expect[key] != alt[key]:
                            sim.state(kind, o, hits, 'new' if dur[key] == alt[key] else 'old')
                        if dur[key] == alt[key] and (o == 'store' or old is not None):
                            model[key] = val if o == 'store' else alt[key]
                        # neither outcome may change when the next call begins
                if fired:
                    sim.state(kind, o, hits, err is None)
                    sim.probe('op_raised' if err is not None else 'op_survived')
            # every store object still works and sees the durable truth
            sim.ctx.begin_op(None, 'final')
            for i in sorted(stores):
                if i >= len(nodes):
                    continue
                sim.set_node(nodes[i])
                for j, c in conns.items():
                    if j != i:
                        c.real.rollback()
                st = stores[i]
                env.checks += 1
                for k in sorted(model):
                    a = st.getAssociation(*k)
                    v = None if a is None else assoc_tuple(a)
                    want = model[k] if live(model[k]) else None
                    if v != want:
                        fail('leftovers', 'store object %d reads %r as %r, durable value is %r' % (i, k, v, want))
                for k in sorted(nonces):
                    if nonces[k] and abs(k[1] - sim.now) <= SKEW and st.useNonce(*k):
                        fail('nonce-forgotten', 'nonce %r accepted again at the end' % (k,))
                a = association.Association('fresh', b'0123456789' * 2, int(sim.now), 100, 'HMAC-SHA1')
                st.storeAssociation('http://fresh.example/', a)
                b = st.getAssociation('http://fresh.example/', 'fresh')
                if b is None or assoc_tuple(b) != assoc_tuple(a):
                    fail('unusable', 'store object does not work after the error')
                if not st.useNonce('http://fresh.example/', int(sim.now), 'fresh%d' % i):
                    fail('unusable', 'nonces do not work after the error')


PROP = C08()
