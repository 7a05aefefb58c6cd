"""Stores under simulation: construction, restart and reference models."""
import os

from . import db, kernel

KINDS = ('file', 'mem', 'sqlite', 'mysql', 'pg')
SKEW = 5 * 60 * 60


def modules():
    db.install_driver_stubs()
    from openid.store import filestore, memstore, sqlstore
    from openid import association
    return filestore, memstore, sqlstore, association


class StoreWorld(object):
    """One shared persistent (or in-memory) store and its client processes."""

    def __init__(self, sim, kind, name='store'):
        self.sim = sim
        self.kind = kind
        self.path = os.path.join(sim.root, name)
        self.mem = None
        self.server = None
        fs, ms, sq, _ = modules()
        self.fs, self.ms, self.sq = fs, ms, sq
        if kind in ('sqlite', 'mysql', 'pg'):
            self.server = db.Server(sim, self.path + '.db')
            with sim.oracle():
                admin = kernel.Node('dba')
                s = self._sql(admin)
                s.createTables()
                self.server.drop_node(admin)
        elif kind == 'mem':
            self.mem = ms.MemoryStore()

    def _sql(self, node):
        conn = self.server.connect(node, 'sqlite' if self.kind == 'sqlite' else self.kind)
        cls = {'sqlite': self.sq.SQLiteStore, 'mysql': self.sq.MySQLStore, 'pg': self.sq.PostgreSQLStore}[self.kind]
        return cls(conn)

    def open(self, node):
        """A store object in process `node`."""
        if self.kind == 'file':
            return self.fs.FileOpenIDStore(self.path)
        if self.kind == 'mem':
            return self.mem
        return self._sql(node)

    def wipe(self):
        """The operator lost the store (replaced by an empty one)."""
        import shutil
        if self.kind == 'file':
            with self.sim.oracle():
                shutil.rmtree(self.path, ignore_errors=True)
        elif self.kind == 'mem':
            self.mem = self.ms.MemoryStore()
        else:
            self.server.close()
            for suffix in ('', '-journal', '-wal'):
                try:
                    os.unlink(self.path + '.db' + suffix)
                except OSError:
                    pass
            admin = kernel.Node('dba')
            with self.sim.oracle():
                s = self._sql(admin)
                s.createTables()
                self.server.drop_node(admin)

    def died(self, node):
        if self.server is not None:
            self.server.drop_node(node)

    def close(self):
        if self.server is not None:
            self.server.close()


class AssocModel(object):
    """Reference model of the association part of a store: a map."""

    def __init__(self):
        self.m = {}      # (url, handle) -> tuple(secret, issued, lifetime, type)

    def store(self, url, handle, val):
        self.m[(url, handle)] = val

    def expired(self, val, now):
        return val[1] + val[2] <= int(now)

    def get(self, url, handle, now):
        v = self.m.get((url, handle))
        if v is None or self.expired(v, now):
            return None
        return v

    def best(self, url, now):
        """(max issued, set of acceptable (handle, val)) or None"""
        c = [(v[1], h, v) for (u, h), v in self.m.items() if u == url and not self.expired(v, now)]
        if not c:
            return None
        top = max(x[0] for x in c)
        return [(h, v) for i, h, v in c if i == top]


def assoc_tuple(a):
    """Observable content of an Association object (and strict type checks)."""
    return (bytes(a.secret), int(a.issued), int(a.lifetime), a.assoc_type)
