"""C04: every association store is a map with expiry (sequential histories)."""
import random

from ..kernel import Node, Violation
from ..stores import StoreWorld, AssocModel, assoc_tuple, modules
from .. import confuse
from .base import Prop, STORE_REAL, STORE_STUB

URLS = ['http://op.example.com/server', 'https://op.example.com/server', 'http://op.example.com/Server',
        'http://op.example.com/server/', 'http://op.example.com:8080/server?a=b&c=%20d', 'http://op.example.com',
        'http://localhost/|normal', 'http://localhost/|dumb', 'http://\u017elu\u0165.example/\u00e9?x=\u20ac',
        'http://a-b.c_d/x y', 'http://op.example.com.evil.org/server', 'http://www.op.example.com/server',
        "http://q'uote.example/--;", 'http://op.example.com/%s',
        'http://' + 'long-name.' * 22 + 'example/', 'http://' + 'long-name.' * 22 + 'example/2']
HANDLES = ['h', 'H', 'hh', 'handle-1', 'handle-10', '{HMAC-SHA1}{4f2a}{ab+/=}', '{HMAC-SHA256}{4f2a}{ab+/=}', '..', '.',
           '../../x', 'a/b', 'a:b', 'x' * 255, '~!@#$%^&*()', "o'h", '"', '0', 'None', '-', '_', '%s', 'handle-1-']


def gen_assoc(rng, now):
    t = rng.choice(['HMAC-SHA1', 'HMAC-SHA256'])
    n = 20 if t == 'HMAC-SHA1' else 32
    if rng.random() < 0.15:
        n = rng.choice([1, 16, 64, 128])
    k = rng.random()
    if k < 0.1:
        secret = bytes([0]) * n
    elif k < 0.2:
        secret = bytes([255]) * n
    elif k < 0.3:
        secret = bytes([10]) * n
    else:
        secret = bytes(rng.getrandbits(8) for _ in range(n))
    issued = int(now) + rng.choice([0, 0, 0, -1, 1, -100, -3600, 100])
    lifetime = rng.choice([1, 10, 60, 600, 3600, 3600, 86400, 14 * 86400, 0, 101])
    if rng.random() < 0.08:
        # a clock that was far off when it was issued
        issued = rng.choice([1, 86400, 99999999, 999999999, 1000000001])
        lifetime = int(now) - issued + rng.choice([-1, 0, 1, 10, 3600, 86400])
    return dict(type=t, secret=secret.hex(), issued=issued, lifetime=lifetime)


class C04(Prop):
    id = 'C04'
    runs = {'quick': 14000, 'thorough': 400000}
    rule = ('a run is one seeded history of store/fetch/remove/clean-up calls, clock moves and restarts on one store kind, '
            'compared call by call with a map model; distinct by event digest')
    state_measure = 'distinct (store kind, operation, expiry/tie/presence situation, outcome) tuples'
    real = STORE_REAL
    stub = STORE_STUB
    assumptions = ['removing an expired entry may report either outcome', 'an entry expiring in the current second counts either way in clean-up',
                   'handles use the characters the protocol allows (printable ASCII without spaces)']

    def gen(self, rng, tier, index):
        kind = ['file', 'mem', 'sqlite', 'file', 'mysql', 'pg'][index % 6]
        urls = rng.sample(URLS, rng.choice([1, 2, 3, 5]))
        handles = rng.sample(HANDLES, rng.choice([1, 2, 3, 5]))
        if rng.random() < 0.4:
            # values that differ in one small way only
            urls += [confuse.url(rng, rng.choice(urls)) for _ in range(rng.choice([0, 1, 2]))]
            handles += [confuse.text(rng, rng.choice(handles), 255) for _ in range(rng.choice([1, 2]))]
        now = rng.choice([1500000000.0] * 6 + [1000000010.0, 2000000000.0]) + rng.choice([0, 0.5, 0.999])
        plan_ops = []
        t0 = now
        for _ in range(rng.choice([4, 8, 14, 25])):
            k = rng.random()
            u = rng.choice(urls)
            h = rng.choice(handles)
            if k < 0.34:
                plan_ops.append(dict(op='store', url=u, handle=h, **gen_assoc(rng, now)))
            elif k < 0.52:
                plan_ops.append(dict(op='get', url=u, handle=h))
            elif k < 0.68:
                plan_ops.append(dict(op='best', url=u))
            elif k < 0.76:
                plan_ops.append(dict(op='remove', url=u, handle=h))
            elif k < 0.84:
                plan_ops.append(dict(op='cleanup', how=rng.choice(['cleanupAssociations', 'cleanupAssociations', 'cleanup', 'cleanupNonces'])))
            elif k < 0.95:
                dt = rng.choice([0.5, 1, 9, 10, 11, 59, 60, 61, 600, 3600, 86400])
                now += dt
                plan_ops.append(dict(op='tick', dt=dt))
            else:
                plan_ops.append(dict(op='restart'))
        return dict(kind=kind, t0=t0, ops=plan_ops, clients=rng.choice([1, 1, 2]), probe_all=rng.random() < 0.5)

    def execute(self, plan, env):
        kind = plan['kind']
        _, _, _, association = modules()
        with env.sim(t0=plan['t0']) as sim:
            w = StoreWorld(sim, kind)
            nodes = [Node('p%d' % i) for i in range(plan['clients'])]
            stores = [w.open(n) for n in nodes]
            model = AssocModel()
            maybe_gone = set()       # expired entries a fetch may have collected
            turn = 0

            def check_obj(a, url, handle, val, what):
                if not isinstance(a, association.Association):
                    raise Violation('wrong-result', '%s returned %r' % (what, a))
                got = assoc_tuple(a)
                if a.handle != handle or got != val or type(a.secret) is not bytes:
                    raise Violation('wrong-association', 'store=%s %s returned handle %r %r, expected %r %r' % (
                        kind, what, a.handle, got, handle, val))

            def do_get(st, url, handle):
                now = sim.now
                want = model.get(url, handle, now)
                raw = model.m.get((url, handle))
                a = st.getAssociation(url, handle)
                env.checks += 1
                what = 'getAssociation(%r, %r)' % (url, handle)
                sim.log('get', repr(url), repr(handle), None if a is None else a.handle)
                if raw is not None and want is None:
                    sim.state(kind, 'get', 'expired', a is None)
                    if kind != 'mem':
                        maybe_gone.add((url, handle))
                    if a is not None:
                        check_obj(a, url, handle, raw, what)
                        env.finding('expired-returned', kind, 'store=%s %s returned an association that expired %d s ago' % (
                            kind, what, int(now) - raw[1] - raw[2]))
                    return
                sim.state(kind, 'get', want is None, len(model.m))
                if want is None:
                    if a is not None:
                        raise Violation('ghost-association', 'store=%s %s returned %r %r, nothing is stored there' % (
                            kind, what, a.handle, assoc_tuple(a)))
                elif a is None:
                    raise Violation('lost-association', 'store=%s %s returned None, expected %r' % (kind, what, want))
                else:
                    check_obj(a, url, handle, want, what)

            def do_best(st, url):
                now = sim.now
                want = model.best(url, now)
                a = st.getAssociation(url)
                env.checks += 1
                what = 'getAssociation(%r)' % (url,)
                sim.log('best', repr(url), None if a is None else a.handle)
                if kind != 'mem':
                    for (u, h), v in model.m.items():
                        if u == url and model.expired(v, now):
                            maybe_gone.add((u, h))
                sim.state(kind, 'best', None if want is None else len(want),
                          sum(1 for (u, h), v in model.m.items() if u == url and model.expired(v, now)))
                if want is None:
                    if a is not None:
                        raw = model.m.get((url, a.handle))
                        if raw is not None and model.expired(raw, now):
                            raise Violation('expired-returned', 'store=%s %s returned expired %r' % (kind, what, a.handle))
                        raise Violation('ghost-association', 'store=%s %s returned %r' % (kind, what, a.handle))
                    return
                if a is None:
                    raise Violation('lost-association', 'store=%s %s returned None, expected one of %r' % (kind, what, want))
                for h, v in want:
                    if a.handle == h:
                        check_obj(a, url, h, v, what)
                        return
                raise Violation('not-most-recent', 'store=%s %s returned %r %r, most recently issued: %r' % (
                    kind, what, a.handle, assoc_tuple(a), want))

            for op in plan['ops']:
                turn += 1
                i = turn % len(nodes)
                sim.set_node(nodes[i])
                st = stores[i]
                o = op['op']
                if o == 'store':
                    val = (bytes.fromhex(op['secret']), op['issued'], op['lifetime'], op['type'])
                    a = association.Association(op['handle'], val[0], val[1], val[2], val[3])
                    sim.log('store', repr(op['url']), repr(op['handle']), val[1], val[2])
                    r = st.storeAssociation(op['url'], a)
                    if r is not None:
                        raise Violation('wrong-result', 'storeAssociation returned %r' % (r,))
                    # the caller keeps using its object: the store must not alias it
                    a.secret = b'changed'
                    a.lifetime = 1
                    a.issued = 1
                    model.store(op['url'], op['handle'], val)
                    maybe_gone.discard((op['url'], op['handle']))
                elif o == 'get':
                    do_get(st, op['url'], op['handle'])
                elif o == 'best':
                    do_best(st, op['url'])
                elif o == 'remove':
                    key = (op['url'], op['handle'])
                    raw = model.m.get(key)
                    r = st.removeAssociation(*key)
                    env.checks += 1
                    sim.log('remove', repr(key), bool(r))
                    sim.state(kind, 'remove', raw is not None, bool(r))
                    if raw is None:
                        if r:
                            raise Violation('wrong-result', 'store=%s removeAssociation%r returned %r, nothing is stored' % (kind, key, r))
                    elif not model.expired(raw, sim.now):
                        if not r:
                            raise Violation('wrong-result', 'store=%s removeAssociation%r returned %r for a present association' % (kind, key, r))
                    if raw is not None and model.expired(raw, sim.now) and not r and kind != 'mem' and key not in maybe_gone:
                        # collected by the call, or still there
                        maybe_gone.add(key)
                    else:
                        model.m.pop(key, None)
                        maybe_gone.discard(key)
                elif o == 'cleanup':
                    how = op['how']
                    if how == 'cleanup' and not hasattr(st, 'cleanup'):
                        how = 'cleanupAssociations'
                    r = getattr(st, how)()
                    if how == 'cleanupNonces':
                        continue
                    env.checks += 1
                    now = int(sim.now)
                    sure, opt = 0, 0
                    for key in list(model.m):
                        v = model.m[key]
                        if v[1] + v[2] < now:
                            if key in maybe_gone:
                                opt += 1
                            else:
                                sure += 1
                            del model.m[key]
                            maybe_gone.discard(key)
                        elif v[1] + v[2] == now:
                            opt += 1
                            maybe_gone.add(key)
                    sim.log('cleanup', how)
                    sim.state(kind, 'cleanup', sure, opt)
                    if how == 'cleanupAssociations' and not (sure <= r <= sure + opt):
                        raise Violation('cleanup-count', 'store=%s cleanupAssociations() returned %r, expected %d..%d' % (
                            kind, r, sure, sure + opt))
                elif o == 'tick':
                    sim.advance(op['dt'])
                elif o == 'restart':
                    if kind != 'mem':
                        w.died(nodes[i])
                        nodes[i].restart()
                        sim.set_node(nodes[i])
                        stores[i] = w.open(nodes[i])
                        sim.probe('restart')
            # full audit
            st = stores[0]
            sim.set_node(nodes[0])
            for (u, h) in sorted(model.m):
                do_get(st, u, h)
            if plan['probe_all']:
                for u in sorted(set(u for u, _ in model.m)):
                    do_best(st, u)
            w.close()


PROP = C04()
