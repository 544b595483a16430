"""The real sqlite3 module with a statement hook (for concrete replays)."""
import sqlite3 as _real
from sqlite3 import *   # noqa
from sqlite3 import dbapi2, Connection as _Connection, Cursor as _Cursor

sqlite_version_info = _real.sqlite_version_info
sqlite_version = _real.sqlite_version
PARSE_DECLTYPES = _real.PARSE_DECLTYPES
PARSE_COLNAMES = _real.PARSE_COLNAMES

OMITTED = frozenset()     # built-in SQL functions that a simulated SQLite build lacks


def _missing(*a):
    raise RuntimeError('no such function')


class Hooks:
    on_statement = None
    statements = 0


HOOKS = Hooks()


def _kind(sql):
    w = sql.split(None, 1)
    return w[0].lower().rstrip(';') if w else ''


def _hook(con, sql):
    HOOKS.statements += 1
    if HOOKS.on_statement is not None:
        HOOKS.on_statement(con, sql, _kind(sql))


class Cursor(_Cursor):
    def execute(self, sql, *a):
        _hook(self.connection, sql)
        return super().execute(sql, *a)

    def executemany(self, sql, seq):
        con = self.connection

        def gen():
            for x in seq:
                _hook(con, sql)
                yield x
        return super().executemany(sql, gen())


class Connection(_Connection):
    def cursor(self, factory=None):
        return super().cursor(factory or Cursor)

    def execute(self, sql, *a):
        return self.cursor().execute(sql, *a)

    def executemany(self, sql, *a):
        return self.cursor().executemany(sql, *a)


def connect(database, *a, factory=None, **k):
    con = _real.connect(database, *a, factory=factory or Connection, **k)
    for name in OMITTED:      # overridden: calling them is an error
        for n in (-1, 1, 2):
            con.create_function(name, n, _missing)
    return con


def reset_environment():
    HOOKS.on_statement = None
    HOOKS.statements = 0
