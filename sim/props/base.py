"""Common base of the property checks."""


class Prop(object):
    id = None
    runs = {'quick': 2000, 'thorough': 200000}
    budget = {'quick': 40.0, 'thorough': 1500.0}
    assumptions = []
    rule = ''
    state_measure = ''
    real = []
    stub = []
    shrink_lists = ['ops']

    def gen(self, rng, tier, index):
        raise NotImplementedError

    def execute(self, plan, env):
        raise NotImplementedError


def sched_spec(rng):
    """Swarm over scheduling strategies."""
    k = rng.random()
    if k < 0.55:
        return {'mode': 'random', 'seed': rng.randrange(1 << 30),
                'p': rng.choice([0.05, 0.1, 0.2, 0.35, 0.5, 0.8])}
    return {'mode': 'pct', 'seed': rng.randrange(1 << 30), 'd': rng.choice([1, 2, 3, 4]),
            'horizon': rng.choice([8, 15, 30, 60, 120])}


STORE_REAL = ['openid.store.filestore', 'openid.store.memstore', 'openid.store.sqlstore', 'openid.store.nonce',
              'openid.association', 'openid.kvform', 'SQLite engine']
STORE_STUB = ['wall clock', 'entropy', 'system-call layer (wrapped real calls in a scratch directory)',
              'DB-API connection (wrapper around sqlite3; SQL dialect shim for MySQL/PostgreSQL)',
              'thread scheduler']


FLOW_REAL = ['openid.consumer.consumer', 'openid.consumer.discover', 'openid.yadis.*', 'openid.server.server', 'openid.server.trustroot',
             'openid.message', 'openid.association', 'openid.dh', 'openid.cryptutil', 'openid.store.*', 'openid.extensions.*',
             'openid.fetchers (wrapper and interface)', 'OpenSSL', 'lxml', 'SQLite engine']
FLOW_STUB = ['wall clock', 'entropy', 'thread scheduler', 'HTTP transport (simulated hosts behind the fetcher interface)', 'browser',
             'web application glue of both parties', 'independent reference provider (where a plan uses one)',
             'system-call layer (wrapped real calls in a scratch directory)', 'DB-API connection (wrapper around sqlite3)']
