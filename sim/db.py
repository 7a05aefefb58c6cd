"""Simulated database seam.

The SQL stores take any DB-API connection.  The simulator hands them a wrapper
around a *real* SQLite connection (one per simulated process, all on the same
database file), in which every call is a fault and scheduling point.

  op_error       the statement fails with OperationalError, not executed
  op_error_after the statement is executed, then the connection reports an error
  commit_error   commit() fails; the transaction is still open and not committed
  commit_lost    commit() succeeds but the client sees OperationalError
  conn_lost      statement fails and the server has rolled the transaction back
  crash_before/crash_after   the client process dies (server rolls back)

`dialect` lets MySQLStore and PostgreSQLStore run their own statements: the
SQL text is translated on the way in (%s placeholders, ENGINE clauses, BYTEA,
key prefix lengths) and PostgreSQL's "current transaction is aborted" rule is
modelled.
"""
import re
import sqlite3
import sys
import types

from . import kernel


class Server(object):
    """The database server process: the file plus who holds open transactions."""

    def __init__(self, sim, path):
        self.sim = sim
        self.path = path
        self.conns = []
        self.busy_timeout = 5.0

    def connect(self, node, dialect='sqlite'):
        c = Conn(self, node, dialect)
        self.conns.append(c)
        return c

    def drop_node(self, node):
        """The client process died: the server rolls back and disconnects."""
        for c in list(self.conns):
            if c.node is node:
                c.hard_close()

    def close(self):
        for c in list(self.conns):
            c.hard_close()


_STUBS = {}


def install_driver_stubs():
    """psycopg2/MySQLdb are not installed; the store code only needs Binary()
    and the exception classes (taken from the connection)."""
    for name in ('psycopg2', 'psycopg', 'MySQLdb'):
        if name in sys.modules:
            continue
        m = types.ModuleType(name)
        m.Binary = sqlite3.Binary
        for e in ('IntegrityError', 'OperationalError', 'ProgrammingError',
                  'InternalError', 'DatabaseError', 'Error'):
            setattr(m, e, getattr(sqlite3, e))
        sys.modules[name] = m
        _STUBS[name] = m


def translate(sql, dialect):
    if dialect == 'sqlite':
        return sql
    sql = sql.replace('%s', '?').replace('%%', '%')
    sql = re.sub(r'ENGINE\s*=\s*InnoDB', '', sql)
    sql = re.sub(r'server_url\(\d+\)', 'server_url', sql)
    sql = sql.replace('BYTEA', 'BLOB')
    sql = re.sub(r',\s*CONSTRAINT secret_length_constraint CHECK \(LENGTH\(secret\) <= 128\)',
                 ', CHECK (LENGTH(secret) <= 128)', sql)
    return sql


def error(f, text):
    """The driver's exception; which class it has is part of the fault."""
    return getattr(sqlite3, f.get('exc') or 'OperationalError')(text)


class Cursor(object):
    def __init__(self, conn):
        self.c = conn
        self.cur = conn.real.cursor()
        self.rows = []       # drivers fetch the whole result at once
        conn.cursors.append(self.cur)

    def execute(self, sql, args=()):
        return self.c._execute(self, sql, args)

    def executemany(self, sql, seq):
        for a in seq:
            self.execute(sql, a)

    def fetchall(self):
        self.c._fetch()
        r, self.rows = self.rows, []
        return r

    def fetchone(self):
        self.c._fetch()
        return self.rows.pop(0) if self.rows else None

    def fetchmany(self, n=1):
        self.c._fetch()
        r, self.rows = self.rows[:n], self.rows[n:]
        return r

    def __iter__(self):
        return iter(self.fetchall())

    @property
    def rowcount(self):
        return self.cur.rowcount

    @property
    def description(self):
        return self.cur.description

    @property
    def lastrowid(self):
        return self.cur.lastrowid

    def close(self):
        self.cur.close()
        if self.cur in self.c.cursors:
            self.c.cursors.remove(self.cur)


class Conn(object):
    IntegrityError = sqlite3.IntegrityError
    OperationalError = sqlite3.OperationalError
    ProgrammingError = sqlite3.ProgrammingError
    InternalError = sqlite3.InternalError
    DatabaseError = sqlite3.DatabaseError
    Error = sqlite3.Error
    Warning = sqlite3.Warning
    InterfaceError = sqlite3.InterfaceError
    DataError = sqlite3.DataError
    NotSupportedError = sqlite3.NotSupportedError

    def __init__(self, server, node, dialect):
        self.server = server
        self.sim = server.sim
        self.node = node
        self.inc = node.incarnation
        self.dialect = dialect
        self.real = sqlite3.connect(server.path, timeout=0, check_same_thread=False)
        self.real.execute('PRAGMA synchronous=OFF')
        self.aborted = False         # PostgreSQL: transaction is aborted
        self.closed = False
        self.cursors = []

    def hard_close(self):
        if not self.closed:
            self.closed = True
            for c in self.cursors:
                try:
                    c.close()
                except sqlite3.Error:
                    pass
            try:
                self.real.rollback()
            except sqlite3.Error:
                pass
            self.real.close()
        if self in self.server.conns:
            self.server.conns.remove(self)

    def _alive(self):
        if self.sim.finished or not self.node.alive or self.inc != self.node.incarnation:
            raise kernel.SimCrash('dead db client')

    def _pre(self, kind, detail):
        self._alive()
        f = self.sim.point('db.' + kind, detail)
        if f is not None and f['kind'] == 'crash_before':
            self.sim.count_fault('crash')
            self.server.drop_node(self.node)
            self.sim.crash()
        return f

    def _post(self, f):
        if f is not None and f['kind'] == 'crash_after':
            self.sim.count_fault('crash')
            self.server.drop_node(self.node)
            self.sim.crash()

    def _wait_busy(self, fn):
        """SQLITE_BUSY: a real client waits up to its busy timeout."""
        s = self.sim
        waited = 0.0
        while True:
            try:
                return fn()
            except sqlite3.OperationalError as why:
                if 'locked' not in str(why):
                    raise
                s.probe('db_busy')
                if s.task is None or waited >= self.server.busy_timeout or s.in_oracle:
                    s.db_gave_up = True
                    raise
                others = [c for c in self.server.conns
                          if c is not self and not c.closed and c.real.in_transaction]
                if not others:
                    s.db_gave_up = True
                    raise
                s.log('db-busy', self.node.name)
                s.block(timeout=0.5)
                waited += 0.5
                self._alive()

    def cursor(self):
        self._alive()
        return Cursor(self)

    def _execute(self, cur, sql, args):
        verb = sql.strip().split(None, 1)[0].upper()
        f = self._pre('exec', verb)
        k = f['kind'] if f else None
        if k == 'op_error':
            self.sim.count_fault('db_op_error')
            if self.dialect == 'pg':
                self.aborted = True
            raise error(f, 'simulated: server error')
        if k == 'conn_lost':
            self.sim.count_fault('db_conn_lost')
            self.real.rollback()
            raise error(f, 'simulated: server closed the connection')
        if self.aborted:
            raise sqlite3.InternalError('current transaction is aborted, commands ignored until end of transaction block')
        try:
            self._wait_busy(lambda: cur.cur.execute(translate(sql, self.dialect), args))
            cur.rows = cur.cur.fetchall()
        except sqlite3.Error:
            if self.dialect == 'pg':
                self.aborted = True
            raise
        if k == 'op_error_after':
            self.sim.count_fault('db_op_error_after')
            if self.dialect == 'pg':
                self.aborted = True
            raise error(f, 'simulated: server error')
        self._post(f)
        return cur

    def _fetch(self):
        f = self._pre('fetch', '')
        k = f['kind'] if f else None
        if k in ('op_error', 'op_error_after'):
            self.sim.count_fault('db_fetch_error')
            if self.dialect == 'pg':
                self.aborted = True
            raise error(f, 'simulated: server error')
        if k == 'conn_lost':
            self.sim.count_fault('db_conn_lost')
            self.real.rollback()
            raise error(f, 'simulated: server closed the connection')
        self._post(f)

    def commit(self):
        f = self._pre('commit', '')
        k = f['kind'] if f else None
        if k in ('commit_error', 'op_error'):
            self.sim.count_fault('db_commit_error')
            raise error(f, 'simulated: commit failed')
        if k == 'conn_lost':
            self.sim.count_fault('db_conn_lost')
            self.real.rollback()
            raise error(f, 'simulated: server closed the connection')
        if self.aborted:
            # PostgreSQL turns COMMIT of an aborted transaction into ROLLBACK
            self.aborted = False
            self.real.rollback()
            return
        self._wait_busy(self.real.commit)
        if k in ('commit_lost', 'op_error_after'):
            self.sim.count_fault('db_commit_lost')
            raise error(f, 'simulated: connection lost after commit')
        self._post(f)

    def rollback(self):
        f = self._pre('rollback', '')
        k = f['kind'] if f else None
        if k in ('op_error', 'conn_lost', 'rollback_error'):
            self.sim.count_fault('db_rollback_error')
            self.real.rollback()
            self.aborted = False
            raise error(f, 'simulated: server closed the connection')
        self.real.rollback()
        self.aborted = False
        self._post(f)

    def close(self):
        self.hard_close()
