"""A small SQL engine with (optionally) symbolic cells.

It implements the part of Python's ``sqlite3`` module and of the SQLite
dialect that Toron uses.  Table cells may hold symbolic values from
``core``; conditions over them are decided by the path explorer.  The
SQL text that is executed is whatever the code under test passes in.

The engine has no dependency on z3: with concrete cells it is an
ordinary (slow) SQL interpreter, which is how it is validated against
the real SQLite (see tools/validate_engine.py).
"""
import functools
import itertools
import json as _json
import os
import stat
import weakref
import math as _math
import re
import sqlite3 as real
import urllib.parse

from .sqlparse import parse_script, SqlSyntaxError, SqlUnsupported

try:
    from . import core
    from .core import SNum, SBool, SAtom, Unsupported
except ImportError:              # concrete-only use without z3
    core = None

    class _No:
        pass

    class SNum(_No):
        pass

    class SBool(_No):
        pass

    class SAtom(_No):
        pass

    class Unsupported(BaseException):
        pass

Error = real.Error
DatabaseError = real.DatabaseError
IntegrityError = real.IntegrityError
OperationalError = real.OperationalError
ProgrammingError = real.ProgrammingError
InterfaceError = real.InterfaceError
InternalError = real.InternalError
DataError = real.DataError
NotSupportedError = real.NotSupportedError
Warning = real.Warning
PARSE_DECLTYPES = real.PARSE_DECLTYPES
PARSE_COLNAMES = real.PARSE_COLNAMES
sqlite_version = real.sqlite_version
sqlite_version_info = real.sqlite_version_info
OMITTED = frozenset()     # built-in SQL functions that a simulated SQLite build lacks
version = '2.6.0'
apilevel = '2.0'
paramstyle = 'qmark'
threadsafety = 3
Binary = memoryview

_real_isinstance = isinstance
SYM = (SNum, SBool, SAtom)

# ----------------------------------------------------------------------
# hooks used by harnesses
# ----------------------------------------------------------------------


class Hooks:
    """Per-path environment: fault injection and statistics."""
    on_statement = None      # callable(conn, sql, kind) -- may raise
    statements = 0
    images = {}              # image id (stored in the file) -> State


HOOKS = Hooks()


def reset_environment():
    HOOKS.on_statement = None
    HOOKS.statements = 0
    HOOKS.images = {}


_converters = {}
_adapters = {}


def register_converter(name, func):
    _converters[name.upper()] = func


def register_adapter(cls, func):
    _adapters[cls] = func


def adapt(x):
    return x


def enable_callback_tracebacks(flag):
    pass


class Row:
    def __init__(self, cursor, data):
        self._d = data
        self._n = [d[0].lower() for d in cursor.description]

    def keys(self):
        return list(self._n)

    def __getitem__(self, i):
        if _real_isinstance(i, str):
            try:
                return self._d[self._n.index(i.lower())]
            except ValueError:
                raise IndexError('No item with that key') from None
        return self._d[i]

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(self._d)

    def __eq__(self, o):
        return _real_isinstance(o, Row) and self._d == o._d and self._n == o._n

    def __hash__(self):
        return hash(self._d)


# ----------------------------------------------------------------------
# three-valued logic and values
# ----------------------------------------------------------------------

def is_sym(v):
    return _real_isinstance(v, SYM)


def t_not(a):
    if a is None:
        return None
    if a is True or a is False:
        return not a
    return ~a


def t_and(a, b):
    if a is False or b is False:
        return False
    if a is None or b is None:
        o = b if a is None else a
        if o is None or o is True:
            return None
        return False if not bool(o) else None
    if a is True:
        return b
    if b is True:
        return a
    return a & b


def t_or(a, b):
    if a is True or b is True:
        return True
    if a is None or b is None:
        o = b if a is None else a
        if o is None or o is False:
            return None
        return True if bool(o) else None
    if a is False:
        return b
    if b is False:
        return a
    return a | b


def decide(t):
    if t is None:
        return False
    return bool(t)


_num_prefix = re.compile(r'\s*[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)')
_num_full = re.compile(r'\s*[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)\s*$')


def text_to_num_prefix(s):
    m = _num_prefix.match(s)
    if not m:
        return 0
    t = m.group().strip()
    if re.fullmatch(r'[+-]?\d+', t):
        return int(t)
    return float(t)


def to_number(v):
    """Value in numeric context."""
    if v is None:
        return None
    if _real_isinstance(v, SAtom):
        v = v.concretize()
    if _real_isinstance(v, SBool):
        return v.as_num()
    if _real_isinstance(v, str):
        return text_to_num_prefix(v)
    if _real_isinstance(v, bytes):
        return text_to_num_prefix(v.decode('utf-8', 'replace'))
    return v


def to_bool(v):
    """Value -> three-valued truth."""
    if v is None or v is True or v is False or _real_isinstance(v, SBool):
        return v
    if _real_isinstance(v, SNum):
        return v != 0
    return to_number(v) != 0


def from_bool(t):
    if t is True:
        return 1
    if t is False:
        return 0
    if _real_isinstance(t, SBool):
        return t.as_num()
    return t


def vclass(v):
    if v is None:
        return 0
    if _real_isinstance(v, (int, float, SNum, SBool)):
        return 1
    if _real_isinstance(v, (str, SAtom)):
        return 2
    return 3


def v_eq(a, b):
    """Equality of two non-NULL values (no affinity)."""
    ca, cb = vclass(a), vclass(b)
    if ca != cb:
        return False
    r = a == b
    if r is NotImplemented:
        return False
    return r


def v_lt(a, b):
    ca, cb = vclass(a), vclass(b)
    if ca != cb:
        return ca < cb
    if ca == 0:
        return False
    if ca == 2 and _real_isinstance(a, str) and _real_isinstance(b, str):
        return a.encode('utf-8', 'surrogatepass') < b.encode('utf-8', 'surrogatepass')
    return a < b


def v_same(a, b):
    """IS semantics (NULL equals NULL)."""
    if a is None or b is None:
        return a is None and b is None
    return v_eq(a, b)


def cmp_key(a, b):
    if decide(v_same(a, b)):
        return 0
    return -1 if decide(v_lt(a, b)) else 1


def affinity_of(decl):
    if decl is None:
        return None
    d = decl.upper()
    if 'INT' in d:
        return 'INTEGER'
    if 'CHAR' in d or 'CLOB' in d or 'TEXT' in d:
        return 'TEXT'
    if 'BLOB' in d or d == '':
        return 'BLOB'
    if 'REAL' in d or 'FLOA' in d or 'DOUB' in d:
        return 'REAL'
    return 'NUMERIC'


def num_to_text(v):
    if _real_isinstance(v, SNum):
        raise Unsupported('symbolic number converted to text')
    if _real_isinstance(v, float):
        s = repr(v)
        m = '%.15g' % v
        if float(m) == v:
            s = m
            if '.' not in s and 'e' not in s and 'n' not in s:
                s += '.0'
        return s
    return str(v)


def apply_affinity(v, aff):
    """Storage conversion."""
    if v is None or aff is None or aff == 'BLOB':
        return v
    if aff == 'TEXT':
        if _real_isinstance(v, (int, float, SNum)):
            return num_to_text(v)
        return v
    # numeric affinities
    if _real_isinstance(v, SAtom):
        if not any(_num_full.match(s) for s in v.uni):
            return v
        v = v.concretize()
    if _real_isinstance(v, str):
        if not _num_full.match(v):
            return v
        t = v.strip()
        v = int(t) if re.fullmatch(r'[+-]?\d+', t) and abs(int(t)) < 2**63 else float(t)
    if _real_isinstance(v, bytes):
        return v
    if aff == 'REAL':
        if _real_isinstance(v, SNum):
            return core.sym_float(v)
        return float(v)
    # INTEGER / NUMERIC: integral reals become integers
    if _real_isinstance(v, SNum):
        if v.kind == 'int':
            return v
        if aff == 'INTEGER':
            if decide(v.is_integer()):
                return core.mk_num(core.z3.ToInt(v.e), 'int')
            return v
        return SNum(v.e, 'num')
    if _real_isinstance(v, float) and v == v and abs(v) < 2**63 and v == int(v):
        return int(v)
    return v


class NoCase(str):
    """An affinity that also carries COLLATE NOCASE."""
    explicit = False


def nocase_aff(aff, explicit=False):
    a = NoCase(aff or 'BLOB')
    a.explicit = explicit
    return a


class Binary(str):
    """An affinity with an explicit COLLATE BINARY."""


def fold(v):
    if _real_isinstance(v, SAtom):
        low = [fold(u) for u in v.uni]
        uni = tuple(sorted(set(low)))
        e = core.z3.IntVal(uni.index(low[-1]))
        for i in range(len(low) - 2, -1, -1):
            e = core.z3.If(v.e == i, core.z3.IntVal(uni.index(low[i])), e)
        return SAtom(e, uni)
    if type(v) is str:
        return v.translate(_ASCII_LOWER)
    if vclass(v) == 2 and is_sym(v):
        raise Unsupported('COLLATE NOCASE on a symbolic text')
    return v


_ASCII_LOWER = {c: c + 32 for c in range(65, 91)}


def folded(v, aff):
    return fold(v) if _real_isinstance(aff, NoCase) else v


def collates_nocase(affa, affb):
    for x in (affa, affb):
        if _real_isinstance(x, Binary):
            return False
        if _real_isinstance(x, NoCase) and x.explicit:
            return True
    for x in (affa, affb):
        if x is not None:
            return _real_isinstance(x, NoCase)
    return False


def compare(op, a, b, affa=None, affb=None):
    if a is None or b is None:
        return None
    if collates_nocase(affa, affb):
        a, b = fold(a), fold(b)
    num = ('INTEGER', 'REAL', 'NUMERIC')
    if affa in num and affb not in num:
        b = apply_affinity(b, 'NUMERIC') if vclass(b) == 2 else b
    elif affb in num and affa not in num:
        a = apply_affinity(a, 'NUMERIC') if vclass(a) == 2 else a
    elif affa == 'TEXT' and affb is None and vclass(b) == 1:
        b = apply_affinity(b, 'TEXT')
    elif affb == 'TEXT' and affa is None and vclass(a) == 1:
        a = apply_affinity(a, 'TEXT')
    if op == '=':
        return v_eq(a, b)
    if op == '!=':
        return t_not(v_eq(a, b))
    if op == '<':
        return v_lt(a, b)
    if op == '>':
        return v_lt(b, a)
    if op == '<=':
        return t_not(v_lt(b, a))
    if op == '>=':
        return t_not(v_lt(a, b))
    raise Unsupported(op)


# ----------------------------------------------------------------------
# schema objects
# ----------------------------------------------------------------------

class Column:
    __slots__ = ('name', 'type', 'aff', 'notnull', 'default', 'default_text', 'checks', 'pk', 'nocase')

    def __init__(self, d):
        self.name = d['name']
        self.type = d['type']
        self.aff = affinity_of(d['type'])
        self.notnull = d['notnull']
        self.default = d['default']
        self.default_text = d['default_text']
        self.checks = list(d['check'])
        self.pk = 0
        if d.get('collate') not in (None, 'BINARY'):
            if d['collate'] != 'NOCASE':
                raise SqlUnsupported('COLLATE ' + d['collate'])
            self.aff = nocase_aff(self.aff)

    def copy(self):
        c = Column.__new__(Column)
        for s in ('name', 'type', 'aff', 'notnull', 'default', 'default_text', 'checks', 'pk'):
            setattr(c, s, getattr(self, s))
        c.checks = list(self.checks)
        return c


class Table:
    def __init__(self, name):
        self.name = name
        self.cols = []
        self.rowid_col = None      # index of INTEGER PRIMARY KEY column
        self.autoinc = False
        self.seq = 0
        self.uniques = []          # list of lists of column names (constraints)
        self.checks = []
        self.fks = []
        self.rows = {}             # rowid -> list of values
        self.sql = None

    def clone(self):
        t = Table(self.name)
        t.cols = self.cols
        t.rowid_col = self.rowid_col
        t.autoinc = self.autoinc
        t.seq = self.seq
        t.uniques = self.uniques
        t.checks = self.checks
        t.fks = self.fks
        t.rows = dict(self.rows)
        t.sql = self.sql
        return t

    def clone_schema(self):
        t = self.clone()
        t.cols = [c.copy() for c in self.cols]
        t.uniques = [list(u) for u in self.uniques]
        t.checks = list(self.checks)
        t.fks = [dict(f, cols=list(f['cols']), rcols=list(f['rcols']) if f['rcols'] else None) for f in self.fks]
        return t

    def col_index(self, name):
        n = name.lower()
        for i, c in enumerate(self.cols):
            if c.name.lower() == n:
                return i
        return None


class State:
    """Committed content of one database (shallow-copyable)."""

    def __init__(self):
        self.tables = {}
        self.indexes = {}          # name -> dict(name, table, cols, unique)
        self.triggers = {}         # name -> dict
        self.pragmas = {'application_id': 0, 'user_version': 0, 'synchronous': 2}

    def copy(self):
        s = State.__new__(State)
        s.tables = dict(self.tables)
        s.indexes = dict(self.indexes)
        s.triggers = dict(self.triggers)
        s.pragmas = dict(self.pragmas)
        return s

    def same(self, o):
        return (self.tables == o.tables and self.indexes == o.indexes
                and self.triggers == o.triggers and self.pragmas == o.pragmas)

    def deep(self):
        """Independent copy (for backup / vacuum into)."""
        s = self.copy()
        s.tables = {k: t.clone() for k, t in self.tables.items()}
        return s


class Database:
    """A database file or memory image shared by connections.

    A database file on disk holds a SQLite-like header (with the
    application id and user version at their real offsets) followed by
    the number of a committed image kept in HOOKS.images, so that file
    copies, renames and deletions behave as they do with real files."""

    def __init__(self, fd=None):
        self.state = State()
        self.writer = None         # connection holding an open write transaction
        self.fd = fd
        self.image = None

    def flush(self):
        """Write the committed state to the file."""
        if self.fd is None:
            return
        self.image = next(_image_seq)
        HOOKS.images[self.image] = self.state.copy()
        p = self.state.pragmas
        head = bytearray(100)
        head[:16] = b'SQLite format 3\x00'
        head[60:64] = (p['user_version'] & 0xffffffff).to_bytes(4, 'big')
        head[68:72] = (p['application_id'] & 0xffffffff).to_bytes(4, 'big')
        os.pwrite(self.fd, bytes(head) + self.image.to_bytes(8, 'big'), 0)

    def refresh(self):
        """Pick up a newer image written through another handle."""
        if self.fd is None or self.writer is not None:
            return
        data = os.pread(self.fd, 4096, 0)
        if len(data) == 0:
            if self.image is not None:
                self.state = State()
                self.image = None
            return
        if len(data) < 108 or not data.startswith(b'SQLite format 3\x00'):
            raise DatabaseError('file is not a database')
        image = int.from_bytes(data[100:108], 'big')
        if image != self.image:
            if image not in HOOKS.images:
                raise DatabaseError('database disk image is malformed')
            self.state = HOOKS.images[image].copy()
            self.image = image


_image_seq = itertools.count(1)
_open_files = weakref.WeakValueDictionary()     # (dev, ino) -> Database


class _Raise(Exception):
    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind


# ----------------------------------------------------------------------
# query evaluation
# ----------------------------------------------------------------------

class Col:
    """One column of an intermediate relation."""
    __slots__ = ('alias', 'name', 'aff', 'decl', 'hidden', 'lname')

    def __init__(self, alias, name, aff=None, decl=None, hidden=False):
        self.alias = alias
        self.name = name
        self.lname = name.lower()
        self.aff = aff
        self.decl = decl
        self.hidden = hidden


class Rel:
    __slots__ = ('cols', 'rows')

    def __init__(self, cols, rows):
        self.cols = cols
        self.rows = rows


class Env:
    __slots__ = ('cols', 'row', 'parent', 'group', 'win', 'ctes', 'lookup', 'aliases')

    def __init__(self, cols, row, parent=None, group=None, lookup=None):
        self.cols = cols
        self.row = row
        self.parent = parent
        self.group = group
        self.win = None
        self.lookup = lookup if lookup is not None else {}
        self.aliases = None


AGGS = {'count', 'sum', 'total', 'avg', 'min', 'max', 'group_concat', 'string_agg', 'json_group_array', 'json_group_object'}


def is_agg_call(e):
    return e[0] == 'func' and e[1] in AGGS and not (e[1] in ('min', 'max') and e[2] is not None and len(e[2]) > 1)


def has_agg(e):
    if not _real_isinstance(e, tuple):
        if _real_isinstance(e, list):
            return any(has_agg(x) for x in e)
        return False
    if not e:
        return False
    if e[0] in ('scalar', 'exists', 'subq', 'core', 'window'):
        return False
    if e[0] == 'func' and is_agg_call(e):
        return True
    if e[0] == 'in':
        return has_agg(e[1]) or (e[2][0] == 'list' and has_agg(e[2][1]))
    return any(has_agg(x) for x in e[1:])


@functools.lru_cache(None)
def is_builtin(name, nargs):
    """Whether the installed SQLite has this function (that the engine does not implement)."""
    try:
        real_connection().execute('EXPLAIN SELECT "%s"(%s)' % (name.replace('"', '""'), ', '.join(['NULL'] * nargs)))
    except real.Error as err:
        return 'no such function' not in str(err)
    return True


@functools.lru_cache(None)
def parses(sql):
    """Whether the installed SQLite accepts the syntax of this statement."""
    try:
        real_connection().execute('EXPLAIN ' + sql)
    except real.Error as err:
        return not any(x in str(err) for x in ('syntax error', 'unrecognized token', 'incomplete input', 'one statement'))
    except Exception:
        return False
    return True


def real_connection():
    return REAL_CONNECT(':memory:')


REAL_CONNECT = real.connect


def find_windows(e, out):
    if _real_isinstance(e, list):
        for x in e:
            find_windows(x, out)
    elif _real_isinstance(e, tuple) and e:
        if e[0] in ('scalar', 'exists', 'subq', 'core'):
            return
        if e[0] == 'window':
            out.append(e)
            return
        for x in e[1:]:
            find_windows(x, out)


class Exec:
    """Executes one statement on a connection."""

    def __init__(self, conn, params):
        self.conn = conn
        self.params = params
        self.ctes = {}

    # -- expressions ---------------------------------------------------
    def lookup(self, env, tbl, name):
        key = (tbl, name)
        e = env
        while e is not None:
            idx = e.lookup.get(key, -2)
            if idx == -2:
                idx = self._find(e.cols, tbl, name)
                e.lookup[key] = idx
            if idx is not None:
                return e, idx
            e = e.parent
        return None, None

    def _find(self, cols, tbl, name):
        ln = name.lower()
        lt = tbl.lower() if tbl else None
        hits = [i for i, c in enumerate(cols)
                if c.lname == ln and (lt is None or (c.alias is not None and c.alias == lt))]
        if not hits:
            return None
        if len(hits) > 1:
            vis = [i for i in hits if not cols[i].hidden]
            if len(vis) == 1:
                return vis[0]
            if not vis:
                return hits[0]
            if lt is None:
                raise OperationalError(f'ambiguous column name: {name}')
            return vis[0]
        return hits[0]

    def aff(self, e, env):
        k = e[0]
        if k == 'ref':
            en, i = self.lookup(env, e[1], e[2])
            if en is None:
                al = env.aliases
                if al and e[1] is None and e[2].lower() in al and al[e[2].lower()] is not e:
                    return self.aff(al[e[2].lower()], env)
                return None
            return en.cols[i].aff
        if k == 'cast':
            return affinity_of(e[2])
        if k == 'collate':
            a = self.aff(e[1], env)
            return nocase_aff(a, True) if e[2] == 'NOCASE' else Binary(a or 'BLOB')
        return None

    def ev(self, e, env):
        k = e[0]
        if k == 'lit':
            return e[1]
        if k == 'ref':
            en, i = self.lookup(env, e[1], e[2])
            if en is None:
                if env is not None and e[1] is None and env.aliases:
                    a = env.aliases.get(e[2].lower())
                    if a is not None:
                        return self.ev(a, env)
                if e[3]:
                    return e[2]          # misquoted string literal
                full = f'{e[1]}.{e[2]}' if e[1] else e[2]
                raise OperationalError(f'no such column: {full}')
            row = en.row
            if row is None:
                return None
            return row[i]
        if k == 'param':
            p = self.params
            if _real_isinstance(p, dict):
                raise ProgrammingError('Binding 1 has no name, but you supplied a dictionary (which has only names).')
            if e[1] >= len(p):
                raise ProgrammingError('Incorrect number of bindings supplied.')
            return p[e[1]]
        if k == 'nparam':
            p = self.params
            if not _real_isinstance(p, dict):
                order = self.named_order
                i = order.index(e[1])
                return p[i]
            if e[1] not in p:
                raise ProgrammingError(f'You did not supply a value for binding parameter :{e[1]}.')
            return p[e[1]]
        if k == 'cmp':
            return from_bool(self.ev_cmp(e, env))
        if k in ('and', 'or', 'not', 'is', 'in', 'between', 'like', 'glob', 'exists'):
            return from_bool(self.truth(e, env))
        if k == 'bin':
            return self.ev_bin(e, env)
        if k == 'neg':
            v = to_number(self.ev(e[1], env))
            return None if v is None else -v
        if k == 'bitnot':
            v = to_number(self.ev(e[1], env))
            return None if v is None else ~int(v)
        if k == 'func':
            if is_agg_call(e):
                return self.ev_agg(e, env)
            return self.ev_func(e, env)
        if k == 'window':
            en = env
            while en is not None and (en.win is None or id(e) not in en.win):
                en = en.parent
            if en is None:
                raise OperationalError('misuse of window function')
            return en.win[id(e)]
        if k == 'case':
            base = self.ev(e[1], env) if e[1] is not None else None
            for c, r in e[2]:
                if e[1] is not None:
                    t = compare('=', base, self.ev(c, env), self.aff(e[1], env), self.aff(c, env))
                else:
                    t = self.truth(c, env)
                if decide(t):
                    return self.ev(r, env)
            return self.ev(e[3], env) if e[3] is not None else None
        if k == 'cast':
            return self.ev_cast(self.ev(e[1], env), e[2])
        if k == 'scalar':
            rel = self.query(e[1], env)
            if len([c for c in rel.cols if not c.hidden]) != 1:
                raise OperationalError(f'sub-select returns {len(rel.cols)} columns - expected 1')
            return rel.rows[0][0] if rel.rows else None
        if k == 'collate':
            if e[2] not in ('BINARY', 'NOCASE'):
                raise SqlUnsupported('COLLATE ' + e[2])
            return self.ev(e[1], env)
        if k == 'raise':
            raise _Raise(e[1], self.ev(e[2], env) if e[2] is not None else None)
        if k == 'row':
            raise OperationalError('row value misused')
        raise SqlUnsupported(f'expression {k}')

    def truth(self, e, env):
        k = e[0]
        if k == 'and':
            a = self.truth(e[1], env)
            if a is False:
                return False
            return t_and(a, self.truth(e[2], env))
        if k == 'or':
            a = self.truth(e[1], env)
            if a is True:
                return True
            return t_or(a, self.truth(e[2], env))
        if k == 'not':
            return t_not(self.truth(e[1], env))
        if k == 'cmp':
            return self.ev_cmp(e, env)
        if k == 'is':
            if e[1][0] == 'row':
                r = True
                for x, y in zip(e[1][1], e[2][1]):
                    r = t_and(r, v_same(self.ev(x, env), self.ev(y, env)))
            else:
                a, b = self.ev(e[1], env), self.ev(e[2], env)
                if a is None or b is None:
                    r = a is None and b is None
                else:
                    r = compare('=', a, b, self.aff(e[1], env), self.aff(e[2], env))
            return t_not(r) if e[3] else r
        if k == 'between':
            v = self.ev(e[1], env)
            av = self.aff(e[1], env)
            return t_and(compare('>=', v, self.ev(e[2], env), av, self.aff(e[2], env)),
                         compare('<=', v, self.ev(e[3], env), av, self.aff(e[3], env)))
        if k == 'in':
            return self.ev_in(e, env)
        if k == 'exists':
            return bool(self.query(e[1], env).rows)
        if k == 'like':
            a, b = self.ev(e[1], env), self.ev(e[2], env)
            if a is None or b is None:
                return None
            a, b = self._text(a), self._text(b)
            rx = ''.join('.*' if c == '%' else '.' if c == '_' else re.escape(c) for c in b)
            return re.fullmatch(rx, a, re.S | re.I | re.A) is not None
        if k == 'glob':
            a, b = self.ev(e[1], env), self.ev(e[2], env)
            if a is None or b is None:
                return None
            import fnmatch
            return fnmatch.fnmatchcase(self._text(a), self._text(b))
        return to_bool(self.ev(e, env))

    def _text(self, v):
        if _real_isinstance(v, SAtom):
            return v.concretize()
        if _real_isinstance(v, bytes):
            return v.decode('utf-8', 'replace')
        if _real_isinstance(v, str):
            return v
        return num_to_text(v)

    def ev_cmp(self, e, env):
        op, l, r = e[1], e[2], e[3]
        if l[0] == 'row' or r[0] == 'row':
            return self.ev_rowcmp(op, l, r, env)
        return compare(op, self.ev(l, env), self.ev(r, env), self.aff(l, env), self.aff(r, env))

    def row_values(self, e, env):
        if e[0] == 'row':
            return [self.ev(x, env) for x in e[1]]
        if e[0] == 'scalar':
            rel = self.query(e[1], env)
            n = len(rel.cols)
            return rel.rows[0] if rel.rows else [None] * n
        return [self.ev(e, env)]

    def ev_rowcmp(self, op, l, r, env):
        a, b = self.row_values(l, env), self.row_values(r, env)
        if len(a) != len(b):
            raise OperationalError('row value misused')
        if op in ('=', '!='):
            t = True
            la, ra = ([self.aff(x, env) for x in q[1]] if q[0] == 'row' else [None] * len(a) for q in (l, r))
            for x, y, p, q in zip(a, b, la, ra):
                t = t_and(t, compare('=', x, y, p, q))
            return t if op == '=' else t_not(t)
        strict = op[0]
        for x, y in zip(a[:-1], b[:-1]):
            eq = compare('=', x, y)
            if eq is None:
                return None
            if not decide(eq):
                return compare(strict, x, y)
        return compare(op, a[-1], b[-1])

    def ev_in(self, e, env):
        left = e[1]
        if e[2][0] == 'list':
            v = self.ev(left, env)
            la = self.aff(left, env)
            if v is None and e[2][1]:
                return None
            res = False
            for x in e[2][1]:
                t = compare('=', v, self.ev(x, env), la, None)
                res = t_or(res, t)
                if res is True:
                    return True
            return res
        rel = self.query(e[2][1], env)
        vals = [self.ev(x, env) for x in left[1]] if left[0] == 'row' else [self.ev(left, env)]
        affs = [self.aff(x, env) for x in left[1]] if left[0] == 'row' else [self.aff(left, env)]
        vis = [i for i, c in enumerate(rel.cols) if not c.hidden]
        if len(vis) != len(vals):
            raise OperationalError(f'sub-select returns {len(vis)} columns - expected {len(vals)}')
        res = False
        for row in rel.rows:
            t = True
            for v, a, i in zip(vals, affs, vis):
                t = t_and(t, compare('=', v, row[i], a, rel.cols[i].aff))
                if t is False:
                    break
            res = t_or(res, t)
            if res is True:
                return True
        return res

    def ev_bin(self, e, env):
        op = e[1]
        a, b = self.ev(e[2], env), self.ev(e[3], env)
        if a is None or b is None:
            return None
        if op == '||':
            return self._text(a) + self._text(b)
        if op == '->>' and _real_isinstance(a, str) and _real_isinstance(b, str):
            return self.fn_json_extract(a, b if b[:1] == '$' else '$."%s"' % b)
        if op in ('->', '->>'):
            raise SqlUnsupported('JSON operators')
        a, b = to_number(a), to_number(b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if decide(b == 0):
                return None
            ia, ib = self._is_int(a), self._is_int(b)
            if ia and ib:
                q = abs(a) // abs(b)
                neg = decide(a < 0) != decide(b < 0)
                return -q if neg else q
            if is_sym(a) or is_sym(b):
                return a / b
            return float(a) / float(b)
        if op == '%':
            a, b = int(a), int(b)
            if b == 0:
                return None
            return int(_math.fmod(a, b))
        a, b = int(a), int(b)
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '<<':
            return a << b
        if op == '>>':
            return a >> b
        raise SqlUnsupported(op)

    def _is_int(self, v):
        if _real_isinstance(v, SNum):
            if v.kind == 'int':
                return True
            if v.kind == 'num':
                return decide(v.is_integer())
            return False
        return _real_isinstance(v, int)

    def ev_cast(self, v, typ):
        if v is None:
            return None
        aff = affinity_of(typ)
        if aff == 'TEXT':
            return v if _real_isinstance(v, SAtom) else self._text(v)
        if aff == 'BLOB':
            if _real_isinstance(v, bytes):
                return v
            return self._text(v).encode()
        n = to_number(v)
        if aff == 'REAL':
            return core.sym_float(n) if _real_isinstance(n, SNum) else float(n)
        if aff == 'INTEGER':
            if _real_isinstance(n, SNum):
                return n.__trunc__()
            return int(n)
        return apply_affinity(n, 'NUMERIC')

    def ev_func(self, e, env):
        name, args = e[1], e[2]
        if name in ('coalesce', 'ifnull'):
            for a in args:
                v = self.ev(a, env)
                if v is not None:
                    return v
            return None
        if name == 'iif':
            return self.ev(args[1], env) if decide(self.truth(args[0], env)) else (
                self.ev(args[2], env) if len(args) > 2 else None)
        vals = [self.ev(a, env) for a in (args or [])]
        fn = self.conn.functions.get((name, len(vals))) or self.conn.functions.get((name, -1))
        if fn is not None:
            try:
                r = fn(*vals)
            except Exception:
                raise OperationalError('user-defined function raised exception')
            return bind_value(r)
        f = getattr(self, 'fn_' + name, None)
        if f is None or name in OMITTED:
            if name not in OMITTED and is_builtin(name, len(vals)):
                raise SqlUnsupported('function ' + name)
            raise OperationalError(f'no such function: {e[1]}')
        return f(*vals)

    def fn_typeof(self, v):
        if v is None:
            return 'null'
        if _real_isinstance(v, SNum):
            if v.kind == 'num':
                w = v.is_integer()
                if w is True or w is False:
                    return 'integer' if w else 'real'
                return SAtom(core.z3.If(w.e, core.z3.IntVal(0), core.z3.IntVal(1)), ('integer', 'real'))
            return 'integer' if v.kind == 'int' else 'real'
        if _real_isinstance(v, float):
            return 'real'
        if _real_isinstance(v, int):
            return 'integer'
        return 'text' if vclass(v) == 2 else 'blob'

    def fn_abs(self, v):
        v = to_number(v)
        return None if v is None else abs(v)

    def fn_length(self, v):
        if v is None:
            return None
        if _real_isinstance(v, bytes):
            return len(v)
        return len(self._text(v))

    def fn_lower(self, v):
        return None if v is None else re.sub('[A-Z]', lambda m: m.group().lower(), self._text(v))

    def fn_upper(self, v):
        return None if v is None else re.sub('[a-z]', lambda m: m.group().upper(), self._text(v))

    def fn_trim(self, v, chars=' '):
        return None if v is None or chars is None else self._text(v).strip(self._text(chars))

    def fn_ltrim(self, v, chars=' '):
        return None if v is None or chars is None else self._text(v).lstrip(self._text(chars))

    def fn_rtrim(self, v, chars=' '):
        return None if v is None or chars is None else self._text(v).rstrip(self._text(chars))

    def fn_likely(self, v):
        return v

    fn_unlikely = fn_likely

    def fn_concat(self, *vals):
        return ''.join(self._text(v) for v in vals if v is not None)

    def fn_unicode(self, v):
        return ord(self._text(v)[0]) if v is not None and self._text(v) else None

    def fn_char(self, *vals):
        return ''.join(chr(v) for v in vals)

    def fn_json_array_length(self, v):
        if v is None:
            return None
        o = self._json(v)
        return len(o) if _real_isinstance(o, list) else 0

    def fn_hex(self, v):
        if _real_isinstance(v, bytes):
            return v.hex().upper()
        return self._text(v).encode().hex().upper()

    def fn_nullif(self, a, b):
        if a is None:
            return None
        return None if decide(compare('=', a, b)) else a

    def fn_min(self, *vals):
        if any(v is None for v in vals):
            return None
        r = vals[0]
        for v in vals[1:]:
            if decide(v_lt(v, r)):
                r = v
        return r

    def fn_max(self, *vals):
        if any(v is None for v in vals):
            return None
        r = vals[0]
        for v in vals[1:]:
            if decide(v_lt(r, v)):
                r = v
        return r

    def fn_round(self, v, n=0):
        v = to_number(v)
        if v is None or n is None:
            return None
        if _real_isinstance(v, SNum):
            raise Unsupported('ROUND of a symbolic value')
        q = 10 ** n
        return float(_math.floor(abs(v) * q + 0.5) / q * (1 if v >= 0 else -1))

    def fn_log2(self, v):
        v = to_number(v)
        if v is None:
            return None
        if _real_isinstance(v, SNum):
            raise Unsupported('LOG2 of a symbolic value')
        return _math.log2(v) if v > 0 else None

    def fn_substr(self, s, a, n=None):
        s = self._text(s)
        a = int(a)
        i = a - 1 if a > 0 else len(s) + a
        return s[i:] if n is None else s[i:i + int(n)]

    def fn_replace(self, s, a, b):
        if s is None or a is None or b is None:
            return None
        return self._text(s).replace(self._text(a), self._text(b))

    def fn_instr(self, s, a):
        return self._text(s).find(self._text(a)) + 1

    def fn_last_insert_rowid(self):
        return self.conn.last_rowid

    def fn_changes(self):
        return self.conn.last_changes

    def fn_total_changes(self):
        return self.conn.total_changes

    def fn_sqlite_version(self):
        return sqlite_version

    def fn_random(self):
        raise SqlUnsupported('random()')

    def _json(self, v):
        return _json.loads(self._text(v))

    def fn_json_valid(self, v):
        if v is None:
            return None
        try:
            obj = _json.loads(self._text(v), parse_constant=_bad_const)
            return 1
        except ValueError:
            return 0

    def fn_json(self, v):
        if v is None:
            return None
        try:
            return _json.dumps(self._json(v), separators=(',', ':'), ensure_ascii=False)
        except ValueError:
            raise OperationalError('malformed JSON')

    def fn_json_type(self, v, path=None):
        if v is None:
            return None
        try:
            o = self._json(v)
        except ValueError:
            raise OperationalError('malformed JSON')
        if path is not None:
            ok, o = json_path(o, path)
            if not ok:
                return None
        return json_type(o)

    def fn_json_extract(self, v, path):
        if v is None:
            return None
        try:
            o = self._json(v)
        except ValueError:
            raise OperationalError('malformed JSON')
        ok, o = json_path(o, path)
        if not ok:
            return None
        return json_sql(o)

    def fn_json_object(self, *a):
        return _json.dumps({a[i]: a[i + 1] for i in range(0, len(a), 2)}, separators=(',', ':'), ensure_ascii=False)

    def fn_json_array(self, *a):
        return _json.dumps(list(a), separators=(',', ':'), ensure_ascii=False)

    def fn_quote(self, v):
        if v is None:
            return 'NULL'
        if _real_isinstance(v, bytes):
            return "X'" + v.hex().upper() + "'"
        if _real_isinstance(v, str):
            return "'" + v.replace("'", "''") + "'"
        return num_to_text(v)

    # -- aggregates
    def ev_agg(self, e, env):
        name, args, distinct, filt = e[1], e[2], e[3], e[4]
        en = env
        while en is not None and en.group is None:
            en = en.parent
        if en is None:
            raise OperationalError(f'misuse of aggregate function {name.upper()}()')
        return self.aggregate(name, args, distinct, filt, en.group, en)

    def aggregate(self, name, args, distinct, filt, rows, env):
        vals = []
        for row in rows:
            sub = Env(env.cols, row, env.parent, None, env.lookup)
            sub.win = env.win
            if filt is not None and not decide(self.truth(filt, sub)):
                continue
            if args is None or not args:
                vals.append(1)
            elif name == 'json_group_object':
                vals.append((self.ev(args[0], sub), self.ev(args[1], sub)))
            else:
                vals.append(self.ev(args[0], sub))
        if name == 'count' and (args is None or not args):
            return len(vals)
        if name == 'json_group_array':
            return _json.dumps(vals, separators=(',', ':'))
        if name == 'json_group_object':
            return _json.dumps(dict(vals), separators=(',', ':'))
        vals = [v for v in vals if v is not None]
        if distinct:
            vals = distinct_values([folded(v, self.aff(args[0], env)) for v in vals])
        if name == 'count':
            return len(vals)
        if name in ('group_concat', 'string_agg'):
            if not vals:
                return None
            sep = ','
            if len(args) > 1:
                sep = self._text(self.ev(args[1], Env(env.cols, rows[0], env.parent, None, env.lookup)))
            return sep.join(self._text(v) for v in vals)
        if name in ('sum', 'total', 'avg'):
            nums = [to_number(v) for v in vals]
            if not nums:
                return 0.0 if name == 'total' else None
            if any(is_sym(x) for x in nums):
                s = 0
                for x in nums:
                    s = s + x
                if name == 'sum':
                    if _real_isinstance(s, SNum) and s.kind != 'int' and all(
                            self._maybe_int(x) for x in nums):
                        return SNum(s.e, 'num')
                    return s
                if name == 'total':
                    return core.sym_float(s) if _real_isinstance(s, SNum) else float(s)
                return s / len(nums)
            if all(_real_isinstance(x, int) for x in nums):
                s = sum(nums)
            else:
                s = kahan_sum([float(x) for x in nums])
            if name == 'sum':
                return s
            if name == 'total':
                return float(s)
            return float(s) / len(nums)
        if name in ('min', 'max'):
            if not vals:
                return None
            r = vals[0]
            for v in vals[1:]:
                if decide(v_lt(v, r) if name == 'min' else v_lt(r, v)):
                    r = v
            return r
        raise SqlUnsupported(name)

    def _maybe_int(self, x):
        if _real_isinstance(x, SNum):
            return x.kind in ('int', 'num')
        return _real_isinstance(x, int)

    # -- relations -------------------------------------------------------
    def query(self, q, env=None):
        k = q[0]
        if k == 'core':
            return self.core(q, env, None)
        if k == 'ordered':
            return self.ordered(q, env)
        if k == 'compound':
            return self.compound(q, env)
        if k == 'values':
            rows = [[self.ev(x, env) for x in r] for r in q[1]]
            n = len(rows[0])
            if any(len(r) != n for r in rows):
                raise OperationalError('all VALUES must have the same number of terms')
            return Rel([Col(None, f'column{i+1}') for i in range(n)], rows)
        if k == 'withq':
            save = dict(self.ctes)
            try:
                for nm, cols, sub in q[1]:
                    self.ctes[nm.lower()] = (cols, sub, dict(self.ctes))
                return self.query(q[2], env)
            finally:
                self.ctes = save
        raise SqlUnsupported(k)

    def compound(self, q, env):
        op = q[1]
        a = self.query(q[2], env)
        b = self.query(q[3], env)
        if len(a.cols) != len(b.cols):
            raise OperationalError(f'SELECTs to the left and right of {op} do not have the same number of result columns')
        if op == 'UNION ALL':
            return Rel(a.cols, a.rows + b.rows)
        if op == 'UNION':
            return Rel(a.cols, sort_if_concrete(distinct_rows(a.rows + b.rows)))
        if op == 'EXCEPT':
            rows = [r for r in distinct_rows(a.rows) if not any(rows_same(r, s) for s in b.rows)]
            return Rel(a.cols, sort_if_concrete(rows))
        rows = [r for r in distinct_rows(a.rows) if any(rows_same(r, s) for s in b.rows)]
        return Rel(a.cols, sort_if_concrete(rows))

    def ordered(self, q, env):
        body, order, limit, offset = q[1], q[2], q[3], q[4]
        if body[0] == 'core':
            rel = self.core(body, env, order)
        else:
            rel = self.query(body, env)
            if order:
                keyed = []
                for r in rel.rows:
                    en = Env(rel.cols, r, env)
                    keyed.append(([self.order_val(e, en, r) for e, d, n in order], r))
                rel = Rel(rel.cols, [r for k, r in sort_keyed(keyed, order)])
        rows = rel.rows
        if offset is not None:
            o = self.ev(offset, env)
            rows = rows[int(o or 0):]
        if limit is not None:
            n = self.ev(limit, env)
            if n is not None and int(n) >= 0:
                rows = rows[:int(n)]
        return Rel(rel.cols, rows)

    def order_val(self, e, en, out_row):
        if e[0] == 'lit' and _real_isinstance(e[1], int) and not _real_isinstance(e[1], bool):
            if not 1 <= e[1] <= len(out_row):
                raise OperationalError('ORDER BY term out of range')
            return out_row[e[1] - 1]
        return folded(self.ev(e, en), self.aff(e, en)) if e[0] in ('ref', 'collate') else self.ev(e, en)

    def core(self, q, env, order):
        _, distinct, cols, frm, where, group, having = q
        if frm is not None:
            src = self.source(frm, env, where)
        else:
            src = Rel([], [[]])
        lookup = {}
        aliases = {c[2].lower(): c[1] for c in cols if c[0] == 'col' and c[2]}
        if where is not None:
            rows = []
            for r in src.rows:
                en = Env(src.cols, r, env, None, lookup)
                en.aliases = aliases
                if decide(self.truth(where, en)):
                    rows.append(r)
        else:
            rows = src.rows
        # expand result columns
        outs, ocols = [], []
        for c in cols:
            if c[0] == 'star':
                t = c[1].lower() if c[1] else None
                found = False
                for i, sc in enumerate(src.cols):
                    if (t is None and sc.hidden) or (t is not None and (sc.alias != t or sc.hidden == 2)) or sc.lname == '\x00rowid':
                        continue
                    found = True
                    outs.append(('idx', i))
                    ocols.append(Col(None, sc.name, sc.aff, sc.decl))
                if not found:
                    raise OperationalError(f'no such table: {c[1]}' if c[1] else 'no tables specified')
            else:
                e, alias, text = c[1], c[2], c[3]
                aff = decl = None
                if e[0] == 'ref':
                    en0 = Env(src.cols, None, env, None, lookup)
                    en1, i = self.lookup(en0, e[1], e[2])
                    if en1 is not None:
                        aff = en1.cols[i].aff
                        if en1 is en0:
                            decl = en1.cols[i].decl
                        if alias is None:
                            alias = en1.cols[i].name if en1.cols[i].lname != '\x00rowid' else e[2]
                elif e[0] == 'cast':
                    aff = affinity_of(e[2])
                elif e[0] == 'collate':
                    aff = self.aff(e, Env(src.cols, None, env, None, lookup))
                elif e[0] == 'scalar':
                    pass
                outs.append(('expr', e))
                ocols.append(Col(None, alias if alias is not None else text, aff, decl))
        grouped = bool(group) or any(o[0] == 'expr' and has_agg(o[1]) for o in outs) or (
            having is not None and has_agg(having)) or (order is not None and any(has_agg(o[0]) for o in order))
        if having is not None and not group and not grouped:
            raise OperationalError('a GROUP BY clause is required before HAVING')
        envs = []
        if grouped:
            if group:
                gexprs = []
                for g in group:
                    if g[0] == 'lit' and _real_isinstance(g[1], int):
                        g = outs[g[1] - 1][1] if outs[g[1] - 1][0] == 'expr' else ('lit', None)
                    gexprs.append(g)
                keys = []
                for r in rows:
                    en = Env(src.cols, r, env, None, lookup)
                    en.aliases = aliases
                    keys.append([folded(self.ev(g, en), self.aff(g, en)) for g in gexprs])
                groups = group_rows(keys, rows)
            else:
                groups = [rows]
            for g in groups:
                en = Env(src.cols, self.rep_row(g, outs, src, env, lookup), env, g, lookup)
                en.aliases = aliases
                if having is not None and not decide(self.truth(having, en)):
                    continue
                envs.append(en)
        else:
            wins = []
            for o in outs:
                if o[0] == 'expr':
                    find_windows(o[1], wins)
            if order:
                for o in order:
                    find_windows(o[0], wins)
            for r in rows:
                en = Env(src.cols, r, env, None, lookup)
                en.aliases = aliases
                envs.append(en)
            if wins:
                self.eval_windows(wins, envs)
        result = []
        for en in envs:
            result.append([en.row[o[1]] if o[0] == 'idx' else self.ev(o[1], en) for o in outs])
        if order:
            if distinct:
                keep = distinct_rows(fold_rows(result, ocols), list(zip(result, envs)))
            else:
                keep = list(zip(result, envs))
            keyed = []
            oalias = {c.lname: i for i, c in enumerate(ocols)}
            expl = {c[2].lower() for c in cols if c[0] == 'col' and c[2]}
            for row, en in keep:
                ks = []
                for e, d, n in order:
                    if e[0] == 'ref' and e[1] is None and (
                            e[2].lower() in expl or (e[2].lower() in oalias and self.lookup(en, None, e[2])[0] is None)):
                        i = oalias[e[2].lower()]
                        ks.append(folded(row[i], ocols[i].aff))
                    else:
                        ks.append(self.order_val(e, en, row))
                keyed.append((ks, row))
            result = [r for k, r in sort_keyed(keyed, order)]
        elif distinct:
            result = distinct_rows(fold_rows(result, ocols), result)
        return Rel(ocols, result)

    def rep_row(self, g, outs, src, env, lookup):
        if not g:
            return None if not src.cols else [None] * len(src.cols)
        for o in outs:
            if o[0] == 'expr' and o[1][0] == 'func' and o[1][1] in ('min', 'max') and is_agg_call(o[1]):
                best, bv = None, None
                for r in g:
                    v = self.ev(o[1][2][0], Env(src.cols, r, env, None, lookup))
                    if v is None:
                        continue
                    if best is None or decide(v_lt(v, bv) if o[1][1] == 'min' else v_lt(bv, v)):
                        best, bv = r, v
                return best if best is not None else g[0]
        return g[0]

    def eval_windows(self, wins, envs):
        for en in envs:
            en.win = {}
        for w in wins:
            func, part, order = w[1], w[2], w[3]
            keys = [[folded(self.ev(p, en), self.aff(p, en)) for p in part] for en in envs]
            groups = group_rows(keys, list(range(len(envs))))
            for g in groups:
                if order:
                    ks = [([self.ev(o[0], envs[i]) for o in order], i) for i in g]
                    ks = sort_keyed(ks, order)
                    g = [i for k, i in ks]
                if func[1] == 'row_number':
                    for n, i in enumerate(g):
                        envs[i].win[id(w)] = n + 1
                    continue
                if func[1] in ('lag', 'lead'):
                    for n, i in enumerate(g):
                        a = [self.ev(x, envs[i]) for x in func[2][1:]]
                        m = n - (a[0] if a else 1) * (1 if func[1] == 'lag' else -1)
                        envs[i].win[id(w)] = self.ev(func[2][0], envs[g[m]]) if 0 <= m < len(g) else a[1] if len(a) > 1 else None
                    continue
                if func[1] in ('rank', 'dense_rank'):
                    okeys = [k for k, i in ks] if order else [[] for i in g]
                    rank = dense = 0
                    for n, i in enumerate(g):
                        if n == 0 or not rows_same(okeys[n], okeys[n - 1]):
                            rank, dense = n + 1, dense + 1
                        envs[i].win[id(w)] = rank if func[1] == 'rank' else dense
                    continue
                if func[1] == 'first_value':
                    for i in g:
                        envs[i].win[id(w)] = self.ev(func[2][0], envs[g[0]])
                    continue
                if func[1] not in AGGS:
                    raise SqlUnsupported('window function ' + func[1])
                if order:
                    # cumulative frame up to the last peer
                    okeys = [k for k, i in ks]
                    for n, i in enumerate(g):
                        m = n
                        while m + 1 < len(g) and rows_same(okeys[m + 1], okeys[n]):
                            m += 1
                        envs[i].win[id(w)] = self.aggregate(
                            func[1], func[2], func[3], func[4], [envs[j].row for j in g[:m + 1]], envs[i])
                    continue
                v = self.aggregate(func[1], func[2], func[3], func[4], [envs[j].row for j in g], envs[g[0]])
                for i in g:
                    envs[i].win[id(w)] = v

    # -- FROM
    def source(self, f, env, where=None):
        k = f[0]
        if k == 'src':
            node, alias = f[1], f[2]
            if node[0] == 'table':
                schema, nm = node[1]
                rel = self.table_rel(schema, nm, env)
                a = (alias or nm).lower()
            elif node[0] == 'subq':
                rel = self.query(node[1], env)
                a = alias.lower() if alias else None
            else:
                rel = self.table_func(node[1], node[2], env)
                a = (alias or node[1][1]).lower()
            return Rel([Col(a, c.name, c.aff, c.decl, c.hidden) for c in rel.cols], rel.rows)
        if k == 'join':
            _, kind, l, r, on, using = f
            L = self.source(l, env)
            right_lateral = self._is_lateral(r)
            if not right_lateral:
                R = self.source(r, env)
            else:
                # table-valued function whose arguments may use left columns
                R = None
            rows = []
            hidden = []
            if R is None:
                lk = {}
                for lr in L.rows:
                    en = Env(L.cols, lr, env, None, lk)
                    Ri = self.source(r, en)
                    R = Ri
                    matched = False
                    for rr in Ri.rows:
                        row = lr + rr
                        if on is None or decide(self.truth(on, Env(L.cols + Ri.cols, row, env))):
                            rows.append(row)
                            matched = True
                    if kind == 'left' and not matched:
                        rows.append(lr + [None] * len(Ri.cols))
                if R is None:
                    R = Rel([Col(None, c) for c in ()], [])
                return Rel(L.cols + R.cols, rows)
            cols = L.cols + R.cols
            if using is not None:
                if using == 'NATURAL':
                    rn = {c.lname for c in R.cols if not c.hidden}
                    using = [c.name for c in L.cols if not c.hidden and c.lname in rn]
                pairs = []
                newR = list(R.cols)
                for u in using:
                    li = self._find(L.cols, None, u)
                    ri = self._find(R.cols, None, u)
                    if li is None or ri is None:
                        raise OperationalError(f'cannot join using column {u} - column not present in both tables')
                    pairs.append((li, ri))
                    c = R.cols[ri]
                    newR[ri] = Col(c.alias, c.name, c.aff, c.decl, True)
                cols = L.cols + newR
            lk = {}
            for lr in L.rows:
                matched = False
                for rr in R.rows:
                    if using is not None:
                        t = True
                        for li, ri in pairs:
                            t = t_and(t, compare('=', lr[li], rr[ri], L.cols[li].aff, R.cols[ri].aff))
                            if t is False:
                                break
                        ok = decide(t)
                    elif on is not None:
                        ok = decide(self.truth(on, Env(cols, lr + rr, env, None, lk)))
                    else:
                        ok = True
                    if ok:
                        rows.append(lr + rr)
                        matched = True
                if kind == 'left' and not matched:
                    rows.append(lr + [None] * len(R.cols))
            return Rel(cols, rows)
        raise SqlUnsupported(k)

    def _is_lateral(self, r):
        return r[0] == 'src' and r[1][0] == 'tfunc'

    def table_rel(self, schema, nm, env):
        ln = nm.lower()
        if schema is None and ln in self.ctes:
            cols, sub, saved = self.ctes[ln]
            save = self.ctes
            self.ctes = saved
            try:
                rel = self.query(sub, None)
            finally:
                self.ctes = save
            if cols is not None:
                if len(cols) != len(rel.cols):
                    raise OperationalError(f'table {nm} has {len(rel.cols)} values for {len(cols)} columns')
                rel = Rel([Col(None, n, c.aff, c.decl) for n, c in zip(cols, rel.cols)], rel.rows)
            return rel
        if ln in ('sqlite_master', 'sqlite_schema', 'sqlite_temp_master', 'sqlite_temp_schema'):
            st = self.conn.state('temp' if 'temp' in ln or schema == 'temp' else 'main')
            rows = []
            for t in st.tables.values():
                rows.append(['table', t.name, t.name, 0, t.sql])
                if t.autoinc and t.name != 'sqlite_sequence' and not any(r[1] == 'sqlite_sequence' for r in rows):
                    rows.append(['table', 'sqlite_sequence', 'sqlite_sequence', 0, 'CREATE TABLE sqlite_sequence(name,seq)'])
            for ix in st.indexes.values():
                rows.append(['index', ix['name'], ix['table'], 0, ix.get('sql')])
            for tr in st.triggers.values():
                rows.append(['trigger', tr['name'], tr['table'], 0, tr.get('sql')])
            return Rel([Col(None, n, 'TEXT', 'TEXT') for n in ('type', 'name', 'tbl_name', 'rootpage', 'sql')], rows)
        if ln == 'sqlite_sequence':
            st = self.conn.state('main')
            rows = [[t.name, t.seq] for t in st.tables.values() if t.autoinc and t.seq]
            return Rel([Col(None, 'name'), Col(None, 'seq')], rows)
        if ln.startswith('pragma_'):
            return self.table_func((None, nm), [], env)
        t, sch = self.conn.find_table(schema, nm)
        cols = [Col(None, c.name, c.aff, c.type) for c in t.cols]
        if t.rowid_col is None:
            cols.append(Col(None, '\x00rowid', 'INTEGER', None, 2))
            for alias in ('rowid', '_rowid_', 'oid'):
                if t.col_index(alias) is None:
                    cols.append(Col(None, alias, 'INTEGER', None, 2))
            extra = len(cols) - len(t.cols)
            rows = [r + [rid] * extra for rid, r in sorted(t.rows.items())]
        else:
            extra = 0
            for alias in ('rowid', '_rowid_', 'oid'):
                if t.col_index(alias) is None:
                    cols.append(Col(None, alias, 'INTEGER', None, 2))
                    extra += 1
            rows = [r + [rid] * extra for rid, r in sorted(t.rows.items())]
        return Rel(cols, rows)

    def table_func(self, qn, args, env):
        name = qn[1].lower()
        vals = [self.ev(a, env) for a in args]
        if name in OMITTED:
            raise OperationalError(f'no such table: {name}')
        if name == 'json_each':
            cols = [Col(None, n) for n in ('key', 'value', 'type', 'atom', 'id', 'parent', 'fullkey', 'path')]
            if vals[0] is None:
                return Rel(cols, [])
            try:
                o = self._json(vals[0])
            except ValueError:
                raise OperationalError('malformed JSON')
            rows = []
            items = o.items() if _real_isinstance(o, dict) else enumerate(o) if _real_isinstance(o, list) else [(None, o)]
            for n, (k, v) in enumerate(items):
                jv = json_sql(v)
                rows.append([k, jv, json_type(v), None if _real_isinstance(v, (dict, list)) else jv, n, None, None, '$'])
            return Rel(cols, rows)
        if name == 'pragma_function_list':
            names = {k[3:] for k in dir(self) if k.startswith('fn_')} | AGGS | {'coalesce', 'ifnull', 'iif'} | {
                k[0] for k in self.conn.functions}
            return Rel([Col(None, 'name')], [[n] for n in sorted(names)])
        if name == 'pragma_table_info':
            cols, rows = self.conn.table_info(None, vals[0] if vals else None)
            return Rel([Col(None, c) for c in cols], rows)
        raise OperationalError(f'no such table: {qn[1]}')

    # -- DML ---------------------------------------------------------------
    def run_dml(self, st):
        if st[0] == 'with':
            for nm, cols, sub in st[1]:
                self.ctes[nm.lower()] = (cols, sub, dict(self.ctes))
            st = st[2]
        if st[0] == 'insert':
            return self.do_insert(st)
        if st[0] == 'update':
            return self.do_update(st)
        if st[0] == 'delete':
            return self.do_delete(st)
        raise SqlUnsupported(st[0])

    def new_env(self, t, row, alias=None):
        return Env([Col((alias or t.name).lower(), c.name, c.aff, c.type) for c in t.cols], row)

    def check_row(self, t, row, sch):
        for i, c in enumerate(t.cols):
            if c.notnull and row[i] is None and i != t.rowid_col:
                raise IntegrityError(f'NOT NULL constraint failed: {t.name}.{c.name}')
        env = None
        for c in t.cols:
            for e, text in c.checks:
                env = env or self.new_env(t, row)
                if self.truth_is_false(e, env):
                    raise IntegrityError(f'CHECK constraint failed: {text}')
        for e, text in t.checks:
            env = env or self.new_env(t, row)
            if self.truth_is_false(e, env):
                raise IntegrityError(f'CHECK constraint failed: {text}')

    def truth_is_false(self, e, env):
        t = self.truth(e, env)
        if t is None:
            return False
        return not bool(t)

    def unique_sets(self, t, sch):
        for u in t.uniques:
            yield u, None
        st = self.conn.state(sch)
        for ix in st.indexes.values():
            if ix['unique'] and ix['table'].lower() == t.name.lower():
                yield ix['cols'], ix

    def conflicts(self, t, row, sch, skip=None):
        """Yield (rowid, columns) of rows violating a uniqueness constraint."""
        for names, ix in self.unique_sets(t, sch):
            idx = [t.col_index(n) for n in names]
            nocase = ix['nocase'] if ix else [_real_isinstance(t.cols[i].aff, NoCase) for i in idx]
            vals = [row[i] for i in idx]
            if any(v is None for v in vals):
                continue
            for rid, other in t.rows.items():
                if rid == skip:
                    continue
                eq = True
                for i, v, nc in zip(idx, vals, nocase):
                    if other[i] is None:
                        eq = False
                        break
                    eq = t_and(eq, v_eq(fold(v), fold(other[i])) if nc else v_eq(v, other[i]))
                    if eq is False:
                        break
                if eq is not False and decide(eq):
                    yield rid, names
                    break

    def coerce_row(self, t, row):
        return [apply_affinity(v, c.aff) for v, c in zip(row, t.cols)]

    def fire(self, timing, event, t, sch, old, new, changed=None):
        for s in ('temp', 'main'):
            for tr in list(self.conn.state(s).triggers.values()):
                if tr['table'].lower() != t.name.lower() or tr['timing'] != timing or tr['event'] != event:
                    continue
                if tr['tschema'] not in (None, sch):
                    continue
                if tr['ofcols'] and changed is not None and not ({c.lower() for c in tr['ofcols']} & changed):
                    continue
                cols, row = [], []
                if new is not None:
                    cols += [Col('new', c.name, c.aff, c.type) for c in t.cols]
                    row = row + list(new)
                if old is not None:
                    cols += [Col('old', c.name, c.aff, c.type) for c in t.cols]
                    row = row + list(old)
                env = Env(cols, row)
                ex = Exec(self.conn, ())
                ex.trigger_env = env
                if tr['when'] is not None and not decide(ex.truth(tr['when'], env)):
                    continue
                for st in tr['body']:
                    if st[0] == 'select':
                        ex.query(st[1], env)
                    else:
                        raise SqlUnsupported('DML in trigger body')

    def do_insert(self, st):
        _, conflict, tn, cols, src, upsert, ret = st
        if tn[1].lower() == 'sqlite_sequence':
            for name, seq in self.query(src, None).rows:
                self.conn.writable('main', name).seq = seq
            return 1, None
        t, sch = self.conn.find_table(*tn)
        names = cols if cols is not None else [c.name for c in t.cols]
        idx = []
        for n in names:
            i = t.col_index(n)
            if i is None:
                if n.lower() in ('rowid', '_rowid_', 'oid'):
                    raise SqlUnsupported('insert into rowid')
                raise OperationalError(f'table {t.name} has no column named {n}')
            idx.append(i)
        if src is None:
            rows = [[]]
            idx = []
        else:
            rel = self.query(src, None)
            vis = [i for i, c in enumerate(rel.cols) if not c.hidden]
            if len(vis) != len(idx):
                if cols is None:
                    raise OperationalError(f'table {t.name} has {len(t.cols)} columns but {len(vis)} values were supplied')
                raise OperationalError(f'{len(vis)} values for {len(idx)} columns')
            rows = [[r[i] for i in vis] for r in rel.rows]
        count = 0
        returned = []
        for vals in rows:
            t = self.conn.writable(sch, t.name)
            row = [None] * len(t.cols)
            given = set(idx)
            for i, v in zip(idx, vals):
                row[i] = v
            for i, c in enumerate(t.cols):
                if i not in given and c.default is not None:
                    row[i] = self.ev(c.default, None) if c.default[0] != 'ref' else c.default[2]
            row = self.coerce_row(t, row)
            # BEFORE triggers see the row (rowid is -1 when not given; not modelled)
            self.fire('BEFORE', 'INSERT', t, sch, None, row)
            rid = row[t.rowid_col] if t.rowid_col is not None else None
            if rid is not None:
                if _real_isinstance(rid, SNum):
                    rid = rid.__index__()
                if not _real_isinstance(rid, int):
                    raise IntegrityError('datatype mismatch')
            else:
                m = max(t.rows) if t.rows else 0
                if t.autoinc:
                    m = max(m, t.seq)
                rid = m + 1 if (t.rows or t.autoinc) else 1
            if t.rowid_col is not None:
                row[t.rowid_col] = rid
            try:
                self.check_row(t, row, sch)
            except IntegrityError as err:
                if conflict == 'IGNORE' and 'CHECK' not in str(err):
                    continue
                raise
            # uniqueness
            hit = None
            if rid in t.rows:
                hit = (rid, [t.cols[t.rowid_col].name] if t.rowid_col is not None else ['rowid'])
            done = False
            while True:
                if hit is None:
                    hit = next(self.conflicts(t, row, sch), None)
                if hit is None:
                    break
                ups = self._match_upsert(upsert, hit[1])
                if ups is not None:
                    if ups[1] is not None:
                        self._do_upsert(t, sch, hit[0], row, ups)
                        count += 1
                    done = True
                    break
                if conflict == 'REPLACE':
                    self.delete_row(sch, t.name, hit[0])
                    t = self.conn.writable(sch, t.name)
                    hit = None
                    continue
                if conflict == 'IGNORE':
                    done = True
                    break
                if conflict in ('ROLLBACK', 'FAIL'):
                    raise SqlUnsupported('INSERT OR ' + conflict)
                raise IntegrityError('UNIQUE constraint failed: ' + ', '.join(
                    f'{t.name}.{t.cols[t.col_index(n)].name if t.col_index(n) is not None else n}' for n in hit[1]))
            if done:
                continue
            t.rows[rid] = row
            if t.autoinc and rid > t.seq:
                t.seq = rid
            self.conn.last_rowid = rid
            count += 1
            if ret:
                returned.append(row)
            self.fire('AFTER', 'INSERT', t, sch, None, row)
        return count, self._returning(t, ret, returned)

    def _returning(self, t, ret, rows):
        if not ret:
            return None
        src = ('core', False, ret, None, None, [], None)
        cols = [Col(t.name.lower(), c.name, c.aff, c.type) for c in t.cols]
        out, ocols = [], None
        for r in rows:
            line, oc = [], []
            en = Env(cols, r)
            for c in ret:
                if c[0] == 'star':
                    line += r
                    oc += [Col(None, x.name, x.aff, x.type) for x in t.cols]
                else:
                    line.append(self.ev(c[1], en))
                    oc.append(Col(None, c[2] or c[3]))
            out.append(line)
            ocols = oc
        return Rel(ocols or [], out)

    def _match_upsert(self, upsert, names):
        low = {n.lower() for n in names}
        for u in upsert:
            if u[0] is None or {n.lower() for n in u[0]} == low:
                return u
        return None

    def _do_upsert(self, t, sch, rid, excluded, ups):
        old = t.rows[rid]
        cols = [Col(t.name.lower(), c.name, c.aff, c.type) for c in t.cols] + [
            Col('excluded', c.name, c.aff, c.type, True) for c in t.cols]
        env = Env(cols, list(old) + list(excluded))
        if ups[2] is not None and not decide(self.truth(ups[2], env)):
            return
        new = self._apply_sets(t, old, ups[1], env)
        self.update_row(sch, t.name, rid, new, {n.lower() for n, _ in ups[1]})

    def _apply_sets(self, t, old, sets, env):
        new = list(old)
        for target, e in sets:
            if _real_isinstance(target, list):
                vals = self.row_values(e, env)
                if len(vals) != len(target):
                    raise OperationalError(f'{len(target)} columns assigned {len(vals)} values')
                for n, v in zip(target, vals):
                    i = t.col_index(n)
                    if i is None:
                        raise OperationalError(f'no such column: {n}')
                    new[i] = v
            else:
                i = t.col_index(target)
                if i is None:
                    raise OperationalError(f'no such column: {target}')
                new[i] = self.ev(e, env)
        return self.coerce_row(t, new)

    def do_update(self, st):
        _, conflict, tn, alias, sets, frm, where, ret = st
        if tn[1].lower() == 'sqlite_sequence':
            n = 0
            for name, t in list(self.conn.state('main').tables.items()):
                env = Env([Col('sqlite_sequence', 'name'), Col('sqlite_sequence', 'seq')], [t.name, t.seq], None, None, {})
                if t.autoinc and (where is None or decide(self.truth(where, env))):
                    if [x for x, _ in sets] not in (['seq'], [['seq']]) or frm is not None:
                        raise SqlUnsupported('update of sqlite_sequence')
                    v = self.ev(sets[0][1], env)
                    self.conn.writable('main', name).seq = 0 if v is None else v
                    n += 1
            return n, None
        t, sch = self.conn.find_table(*tn)
        base = [Col((alias or t.name).lower(), c.name, c.aff, c.type) for c in t.cols]
        ridcols = [Col((alias or t.name).lower(), a, 'INTEGER', None, 2)
                   for a in ('rowid', '_rowid_', 'oid') if t.col_index(a) is None]
        for target, _e in sets:
            for n in (target if _real_isinstance(target, list) else [target]):
                if t.col_index(n) is None:
                    raise OperationalError(f'no such column: {n}')
        extra = self.source(frm, None) if frm is not None else None
        plans = []
        lk = {}
        for rid, row in sorted(t.rows.items()):
            r0 = list(row) + [rid] * len(ridcols)
            if extra is None:
                env = Env(base + ridcols, r0, None, None, lk)
                if where is None or decide(self.truth(where, env)):
                    plans.append((rid, env))
            else:
                for er in extra.rows:
                    env = Env(base + ridcols + extra.cols, r0 + er, None, None, lk)
                    if where is None or decide(self.truth(where, env)):
                        plans.append((rid, env))
                        break
        changed = set()
        for target, _e in sets:
            changed |= {n.lower() for n in (target if _real_isinstance(target, list) else [target])}
        news = [(rid, self._apply_sets(t, t.rows[rid], sets, env)) for rid, env in plans]
        returned = []
        n = 0
        for rid, new in news:
            try:
                self.update_row(sch, t.name, rid, new, changed, conflict)
            except IntegrityError as err:
                if conflict == 'IGNORE' and 'UNIQUE' in str(err):
                    continue
                raise
            returned.append(new)
            n += 1
        return n, self._returning(t, ret, returned)

    def update_row(self, sch, name, rid, new, changed, conflict=None):
        t = self.conn.writable(sch, name)
        old = t.rows[rid]
        self.fire('BEFORE', 'UPDATE', t, sch, old, new, changed)
        newrid = rid
        if t.rowid_col is not None:
            newrid = new[t.rowid_col]
            if _real_isinstance(newrid, SNum):
                newrid = newrid.__index__()
                new[t.rowid_col] = newrid
            if not _real_isinstance(newrid, int):
                raise IntegrityError('datatype mismatch')
        self.check_row(t, new, sch)
        while True:
            hit = None
            if newrid != rid and newrid in t.rows:
                hit = (newrid, [t.cols[t.rowid_col].name])
            else:
                hit = next(self.conflicts(t, new, sch, skip=rid), None)
            if hit is None:
                break
            if conflict == 'REPLACE':
                self.delete_row(sch, name, hit[0])
                t = self.conn.writable(sch, name)
                continue
            raise IntegrityError('UNIQUE constraint failed: ' + ', '.join(
                f'{t.name}.{t.cols[t.col_index(n)].name}' for n in hit[1]))
        if self.conn.foreign_keys:
            self._fk_parent_update(sch, t, old, new)
            t = self.conn.writable(sch, name)
        del t.rows[rid]
        t.rows[newrid] = new
        self.fire('AFTER', 'UPDATE', t, sch, old, new, changed)

    def _fk_parent_update(self, sch, t, old, new):
        for ct in list(self.conn.state(sch).tables.values()):
            for fk in ct.fks:
                if fk['table'].lower() == t.name.lower() and fk['on_update'] not in ('NO ACTION', 'RESTRICT'):
                    raise SqlUnsupported('ON UPDATE ' + fk['on_update'])

    def do_delete(self, st):
        _, tn, alias, where, ret = st
        if tn[1].lower() == 'sqlite_sequence':
            n = 0
            for name, t in list(self.conn.state('main').tables.items()):
                env = Env([Col('sqlite_sequence', 'name'), Col('sqlite_sequence', 'seq')], [t.name, t.seq], None, None, {})
                if t.autoinc and t.seq and (where is None or decide(self.truth(where, env))):
                    self.conn.writable('main', name).seq = 0
                    n += 1
            return n, None
        t, sch = self.conn.find_table(*tn)
        base = [Col((alias or t.name).lower(), c.name, c.aff, c.type) for c in t.cols]
        ridcols = [Col((alias or t.name).lower(), a, 'INTEGER', None, 2)
                   for a in ('rowid', '_rowid_', 'oid') if t.col_index(a) is None]
        ids = []
        lk = {}
        for rid, row in sorted(t.rows.items()):
            env = Env(base + ridcols, list(row) + [rid] * len(ridcols), None, None, lk)
            if where is None or decide(self.truth(where, env)):
                ids.append(rid)
        returned = [t.rows[r] for r in ids]
        n = 0
        for rid in ids:
            if rid in self.conn.find_table(sch, t.name)[0].rows:
                self.delete_row(sch, t.name, rid)
                n += 1
        return n, self._returning(t, ret, returned)

    def delete_row(self, sch, name, rid):
        t = self.conn.writable(sch, name)
        old = t.rows[rid]
        self.fire('BEFORE', 'DELETE', t, sch, old, None)
        t = self.conn.writable(sch, name)
        if rid not in t.rows:
            return
        del t.rows[rid]
        if self.conn.foreign_keys:
            for ct in list(self.conn.state(sch).tables.values()):
                for fk in ct.fks:
                    if fk['table'].lower() != t.name.lower():
                        continue
                    act = fk['on_delete']
                    if act in ('NO ACTION', 'RESTRICT'):
                        continue
                    pidx = self._parent_idx(t, fk)
                    cidx = [ct.col_index(c) for c in fk['cols']]
                    for crid in sorted(ct.rows):
                        cur = self.conn.state(sch).tables[ct.name.lower()]
                        if crid not in cur.rows:
                            continue
                        crow = cur.rows[crid]
                        eq = True
                        for ci, pi in zip(cidx, pidx):
                            if crow[ci] is None:
                                eq = False
                                break
                            eq = t_and(eq, v_eq(crow[ci], old[pi]))
                        if eq is False or not decide(eq):
                            continue
                        if act == 'CASCADE':
                            self.delete_row(sch, ct.name, crid)
                        elif act == 'SET NULL':
                            new = list(crow)
                            for ci in cidx:
                                new[ci] = None
                            self.update_row(sch, ct.name, crid, new, {c.lower() for c in fk['cols']})
                        else:
                            raise SqlUnsupported('ON DELETE ' + act)
        self.fire('AFTER', 'DELETE', t, sch, old, None)

    def _parent_idx(self, t, fk):
        if fk['rcols']:
            return [t.col_index(c) for c in fk['rcols']]
        if t.rowid_col is not None:
            return [t.rowid_col]
        return [i for i, c in enumerate(t.cols) if c.pk]


def _bad_const(x):
    raise ValueError(x)


def json_type(o):
    if o is None:
        return 'null'
    if o is True:
        return 'true'
    if o is False:
        return 'false'
    if _real_isinstance(o, int):
        return 'integer'
    if _real_isinstance(o, float):
        return 'real'
    if _real_isinstance(o, str):
        return 'text'
    return 'object' if _real_isinstance(o, dict) else 'array'


def json_sql(o):
    if o is True:
        return 1
    if o is False:
        return 0
    if _real_isinstance(o, (dict, list)):
        return _json.dumps(o, separators=(',', ':'), ensure_ascii=False)
    return o


def json_path(o, path):
    if not path.startswith('$'):
        raise OperationalError(f'bad JSON path: {path!r}')
    for m in re.finditer(r'\."((?:[^"\\]|\\.)*)"|\.([^.\[]+)|\[(\d+)\]', path[1:]):
        key = m.group(1) if m.group(1) is not None else m.group(2)
        if key is not None:
            if not _real_isinstance(o, dict) or key not in o:
                return False, None
            o = o[key]
        else:
            i = int(m.group(3))
            if not _real_isinstance(o, list) or i >= len(o):
                return False, None
            o = o[i]
    return True, o


def kahan_sum(xs):
    # SQLite >= 3.43 uses Kahan-Babuska summation
    s = c = 0.0
    for x in xs:
        t = s + x
        if abs(s) >= abs(x):
            c += (s - t) + x
        else:
            c += (x - t) + s
        s = t
    return s + c


def norm_key(v):
    if v is None:
        return (0,)
    if _real_isinstance(v, (int, float)):
        return (1, v)
    if _real_isinstance(v, str):
        return (2, v.encode('utf-8', 'surrogatepass'))
    return (3, bytes(v))


def rows_same(a, b):
    t = True
    for x, y in zip(a, b):
        t = t_and(t, v_same(x, y))
        if t is False:
            return False
    return decide(t)


def group_rows(keys, rows):
    """Partition *rows* by key (IS semantics)."""
    if not any(is_sym(v) for k in keys for v in k):
        d = {}
        for k, r in zip(keys, rows):
            d.setdefault(tuple(norm_key(v) for v in k), []).append(r)
        return [d[k] for k in sorted(d)]
    groups = []
    for k, r in zip(keys, rows):
        for gk, g in groups:
            if rows_same(k, gk):
                g.append(r)
                break
        else:
            groups.append((k, [r]))
    if not any(is_sym(v) and not _real_isinstance(v, SAtom) for k in keys for v in k):
        groups.sort(key=functools.cmp_to_key(lambda a, b: row_cmp(a[0], b[0])))
    return [g for k, g in groups]


def row_cmp(a, b):
    for x, y in zip(a, b):
        c = cmp_key(x, y)
        if c:
            return c
    return 0


def fold_rows(rows, cols):
    if not any(_real_isinstance(c.aff, NoCase) for c in cols):
        return rows
    return [[folded(v, c.aff) for v, c in zip(r, cols)] for r in rows]


def distinct_rows(rows, payload=None):
    payload = payload if payload is not None else rows
    if not any(is_sym(v) for r in rows for v in r):
        seen, out = set(), []
        for r, p in zip(rows, payload):
            k = tuple(norm_key(v) for v in r)
            if k not in seen:
                seen.add(k)
                out.append(p)
        return out
    kept, out = [], []
    for r, p in zip(rows, payload):
        if not any(rows_same(r, s) for s in kept):
            kept.append(r)
            out.append(p)
    return out


def distinct_values(vals):
    return [r[0] for r in distinct_rows([[v] for v in vals])]


def sort_if_concrete(rows):
    if any(is_sym(v) for r in rows for v in r):
        return rows
    return sorted(rows, key=lambda r: tuple(norm_key(v) for v in r))


def sort_keyed(keyed, order):
    def cmp(a, b):
        for (x, y, o) in zip(a[0], b[0], order):
            c = cmp_key(x, y)
            if c:
                if o[2] and (x is None or y is None):
                    return c if o[2] == 'FIRST' else -c
                return -c if o[1] else c
        return 0
    return sorted(keyed, key=functools.cmp_to_key(cmp))


# ----------------------------------------------------------------------
# DB-API objects
# ----------------------------------------------------------------------

def bind_value(v):
    if v is None or _real_isinstance(v, (SNum, SAtom)):
        return v
    if _real_isinstance(v, SBool):
        return v.as_num()
    t = type(v)
    if t is bool:
        return int(v)
    if t is int:
        if not -2**63 <= v < 2**63:
            raise OverflowError('Python int too large to convert to SQLite INTEGER')
        return v
    if t is float:
        return None if v != v else v
    if t is str:
        v.encode('utf-8')          # surrogates are rejected like in sqlite3
        return v
    if t is bytes:
        return v
    if t in _adapters:
        return bind_value(_adapters[t](v))
    if _real_isinstance(v, (bytearray, memoryview)):
        return bytes(v)
    if hasattr(v, '__conform__'):
        r = v.__conform__(real.PrepareProtocol)
        if r is not None:
            return bind_value(r)
    if _real_isinstance(v, int):
        return int(v)
    if _real_isinstance(v, float):
        return float(v)
    if _real_isinstance(v, str):
        return str(v)
    try:
        return bytes(memoryview(v))
    except TypeError:
        pass
    raise ProgrammingError(f"Error binding parameter: type '{t.__name__}' is not supported")


def params_of(params):
    if _real_isinstance(params, dict) or (hasattr(params, 'keys') and hasattr(params, '__getitem__')):
        return {k: bind_value(params[k]) for k in params.keys()}
    return [bind_value(v) for v in params]


DML = ('insert', 'update', 'delete')


@functools.lru_cache(maxsize=4096)
def count_params(sql):
    from .sqlparse import tokenize
    n = 0
    names = []
    for t in tokenize(sql):
        if t[0] == 'param':
            if t[1] == '?':
                n += 1
            elif t[1][0] == '?':
                n = max(n, int(t[1][1:]))
            elif t[1][1:] not in names:
                names.append(t[1][1:])
    return n, tuple(names)


class Cursor:
    def __init__(self, connection):
        self.connection = connection
        self.arraysize = 1
        self.description = None
        self.rowcount = -1
        self.lastrowid = None
        self.row_factory = connection.row_factory
        self._rows = None
        self._pos = 0
        self._closed = False

    def _check(self):
        if self._closed:
            raise ProgrammingError('Cannot operate on a closed cursor.')
        self.connection._check()

    def close(self):
        self._closed = True
        self._rows = None

    def execute(self, sql, params=()):
        self._check()
        self._rows = None
        rel, n, kind = self.connection._run(sql, params)
        self._finish(rel, n, kind)
        return self

    def _finish(self, rel, n, kind):
        if kind in DML:
            self.rowcount = n
            self.lastrowid = self.connection.last_rowid
        else:
            self.rowcount = -1
        if rel is None:
            self.description = None
            self._rows = []
            self._pos = 0
            return
        vis = [i for i, c in enumerate(rel.cols) if not c.hidden]
        self.description = tuple((rel.cols[i].name, None, None, None, None, None, None) for i in vis)
        convs = []
        for i in vis:
            d = rel.cols[i].decl
            f = None
            if d and self.connection.detect_types & PARSE_DECLTYPES:
                key = d.split()[0].split('(')[0].upper() if d.strip() else ''
                f = _converters.get(key)
            convs.append(f)
        self._rows = (rel.rows, vis, convs)
        self._pos = 0

    def executemany(self, sql, seq):
        self._check()
        self._rows = None
        total = 0
        for p in seq:
            rel, n, kind = self.connection._run(sql, p)
            total += n
        self.rowcount = total
        self._rows = []
        self._pos = 0
        return self

    def executescript(self, script):
        self._check()
        con = self.connection
        if con.in_transaction:
            con._commit()
        for st in _parse(script):
            con._exec(st, (), script, True)
        self._rows = []
        self._pos = 0
        return self

    def _make(self, raw, vis, convs):
        out = []
        for i, f in zip(vis, convs):
            v = raw[i]
            if f is not None and v is not None:
                if _real_isinstance(v, SAtom):
                    v = v.concretize()
                if _real_isinstance(v, str):
                    v = f(v.encode('utf-8'))
                elif _real_isinstance(v, bytes):
                    v = f(v)
                else:
                    v = f(num_to_text(v).encode())
            if _real_isinstance(v, SNum) and v.kind == 'num':
                v = SNum(v.e, 'real')
            out.append(v)
        row = tuple(out)
        if self.row_factory is not None:
            return self.row_factory(self, row)
        return row

    def fetchone(self):
        self._check()
        if not self._rows:
            return None
        rows, vis, convs = self._rows
        if self._pos >= len(rows):
            return None
        r = rows[self._pos]
        self._pos += 1
        return self._make(r, vis, convs)

    def fetchmany(self, size=None):
        out = []
        for _ in range(size or self.arraysize):
            r = self.fetchone()
            if r is None:
                break
            out.append(r)
        return out

    def fetchall(self):
        self._check()
        out = []
        while True:
            r = self.fetchone()
            if r is None:
                return out
            out.append(r)

    def __iter__(self):
        return self

    def __next__(self):
        r = self.fetchone()
        if r is None:
            raise StopIteration
        return r


def _parse(sql):
    try:
        return parse_script(sql)
    except SqlSyntaxError as e:
        if parses(sql):
            raise SqlUnsupported(f'{e} in {sql[:200]}')
        raise OperationalError(str(e)) from None


class Connection:
    def __init__(self, database=':memory:', timeout=5.0, detect_types=0, isolation_level='',
                 check_same_thread=True, factory=None, cached_statements=128, uri=False, **kw):
        self.detect_types = detect_types
        self.isolation_level = isolation_level
        self.row_factory = None
        self.text_factory = str
        self.functions = {}
        self.foreign_keys = False
        self.last_rowid = 0
        self.last_changes = 0
        self.total_changes = 0
        self._closed = False
        self._readonly = False
        self._txn = None            # (main state before, temp state before, deferred baseline)
        self._savepoints = []
        self._temp = State()
        self._path = ''
        self._pragmas = {'fullfsync': 0, 'foreign_keys': 0}
        self._attached = {}
        database = _fsdecode(database)
        mode = None
        path = database
        if uri and database.startswith('file:'):
            rest = database[5:]
            rest, _, query = rest.partition('?')
            rest, _, _frag = rest.partition('#')
            if rest.startswith('//'):
                host, _, rest2 = rest[2:].partition('/')
                rest = '/' + rest2
            path = urllib.parse.unquote(rest)
            q = dict(urllib.parse.parse_qsl(query))
            mode = q.get('mode')
            if mode == 'memory':
                path = ':memory:'
        if path in ('', ':memory:'):
            self._db = Database()
        else:
            self._path = path
            try:
                if mode == 'ro':
                    fd = os.open(path, os.O_RDONLY)
                else:
                    fl = os.O_RDWR | (os.O_CREAT if mode in (None, 'rwc') else 0)
                    try:
                        fd = os.open(path, fl, 0o644)
                    except PermissionError:
                        fd = os.open(path, os.O_RDONLY)
                        self._readonly = True
                info = os.fstat(fd)
                if stat.S_ISDIR(info.st_mode):
                    os.close(fd)
                    raise OSError('directory')
            except OSError:
                raise OperationalError('unable to open database file') from None
            key = (info.st_dev, info.st_ino)
            db = _open_files.get(key)
            if db is None:
                db = Database(fd)
                weakref.finalize(db, os.close, fd)
                _open_files[key] = db
            elif not self._readonly and mode != 'ro':
                os.dup2(fd, db.fd)      # make sure the shared handle is writable
                os.close(fd)
            else:
                os.close(fd)
            self._db = db
            self._readonly = self._readonly or mode == 'ro'

    # -- plumbing
    def _check(self):
        if self._closed:
            raise ProgrammingError('Cannot operate on a closed database.')

    @property
    def in_transaction(self):
        return self._txn is not None

    def state(self, sch):
        if sch == 'temp':
            return self._temp
        if sch not in (None, 'main'):
            raise OperationalError(f'unknown database {sch}')
        if self._db.writer is not None and self._db.writer is not self:
            return self._db.committed
        return self._db.state

    def find_table(self, schema, name):
        ln = name.lower()
        if schema is not None:
            t = self.state(schema.lower()).tables.get(ln)
            if t is None:
                raise OperationalError(f'no such table: {schema}.{name}')
            return t, schema.lower()
        for s in ('temp', 'main'):
            t = self.state(s).tables.get(ln)
            if t is not None:
                return t, s
        raise OperationalError(f'no such table: {name}')

    def _lock(self, sch):
        if sch == 'temp':
            return
        if self._readonly:
            raise OperationalError('attempt to write a readonly database')
        if self._db.writer is not None and self._db.writer is not self:
            raise OperationalError('database is locked')

    def writable(self, sch, name):
        self._lock(sch)
        st = self.state(sch)
        ln = name.lower()
        t = st.tables[ln]
        if t not in self._fresh:
            t = t.clone()
            st.tables[ln] = t
            self._fresh.add(t)
        return t

    _fresh = frozenset()

    # -- API
    def cursor(self, factory=None):
        self._check()
        return (factory or Cursor)(self)

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)

    def executemany(self, sql, seq):
        return self.cursor().executemany(sql, seq)

    def executescript(self, sql):
        return self.cursor().executescript(sql)

    def commit(self):
        self._check()
        if self.in_transaction:
            self._hook('COMMIT', 'commit')
            self._commit()

    def rollback(self):
        self._check()
        if self.in_transaction:
            self._rollback()

    def close(self):
        if self._closed:
            return
        if self.in_transaction:
            self._rollback()
        self._closed = True

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            self.commit()
        else:
            self.rollback()
        return False

    def create_function(self, name, narg, func, *, deterministic=False):
        self._check()
        self.functions[(name.lower(), narg)] = func

    def create_aggregate(self, *a, **k):
        raise SqlUnsupported('create_aggregate')

    def create_collation(self, *a, **k):
        raise SqlUnsupported('create_collation')

    def set_trace_callback(self, f):
        pass

    def set_progress_handler(self, *a):
        pass

    def set_authorizer(self, *a):
        pass

    def interrupt(self):
        pass

    def backup(self, target, *, pages=-1, progress=None, name='main', sleep=0.25):
        self._check()
        self._hook('-- backup', 'backup')
        if target._readonly:
            raise OperationalError('attempt to write a readonly database')
        self._check_is_db()
        target._db.state = self.state('main').deep()
        target._db.flush()

    def iterdump(self):
        raise SqlUnsupported('iterdump')

    def _hook(self, sql, kind):
        HOOKS.statements += 1
        if HOOKS.on_statement is not None:
            HOOKS.on_statement(self, sql, kind)

    def _check_is_db(self):
        if self._db.fd is not None and self._txn is None:
            self._db.refresh()

    def _run(self, sql, params):
        if not _real_isinstance(sql, str):
            raise TypeError('execute() argument 1 must be str')
        sts = _parse(sql)
        if len(sts) > 1:
            raise ProgrammingError('You can only execute one statement at a time.')
        if not sts:
            return None, 0, 'noop'
        n, names = count_params(sql)
        p = params_of(params)
        if _real_isinstance(p, list):
            if len(p) != n + len(names):
                raise ProgrammingError(
                    f'Incorrect number of bindings supplied. The current statement uses {n + len(names)}, '
                    f'and there are {len(p)} supplied.')
        return self._exec(sts[0], p, sql, False, names)

    def _exec(self, st, p, sql, script, names=()):
        kind = st[2][0] if st[0] == 'with' else st[0]
        self._check_is_db()
        self._hook(sql, kind)
        ex = Exec(self, p)
        ex.named_order = list(names)
        if kind in DML:
            if self.isolation_level is not None and not self.in_transaction and not script:
                self._begin()
            n, rel = self._statement(lambda: ex.run_dml(st), check_fk=True)
            self.last_changes = n
            self.total_changes += n
            return rel, n, kind
        if kind == 'select':
            if st[0] == 'with':
                for nm, cols, sub in st[1]:
                    ex.ctes[nm.lower()] = (cols, sub, dict(ex.ctes))
                return ex.query(st[2][1]), 0, kind
            try:
                return ex.query(st[1]), 0, kind
            except _Raise as r:
                raise OperationalError('RAISE() may only be used within a trigger-program')
        if kind == 'begin':
            if self.in_transaction:
                raise OperationalError('cannot start a transaction within a transaction')
            self._begin()
            return None, 0, kind
        if kind == 'commit':
            if not self.in_transaction:
                raise OperationalError('cannot commit - no transaction is active')
            self._commit()
            return None, 0, kind
        if kind == 'rollback':
            if not self.in_transaction:
                raise OperationalError('cannot rollback - no transaction is active')
            self._rollback()
            return None, 0, kind
        if kind == 'savepoint':
            auto = not self.in_transaction
            if auto:
                self._begin()
            self._savepoints.append((st[1].lower(), self._db.state.copy(), self._temp.copy(), auto))
            return None, 0, kind
        if kind in ('release', 'rollback_to'):
            nm = st[1].lower()
            idx = [i for i, s in enumerate(self._savepoints) if s[0] == nm]
            if not idx:
                raise OperationalError(f'no such savepoint: {st[1]}')
            i = idx[-1]
            s = self._savepoints[i]
            if kind == 'release':
                if s[3]:
                    self._commit()
                else:
                    del self._savepoints[i:]
            else:
                self._db.state, self._temp = s[1].copy(), s[2].copy()
                self._fresh = set()
                del self._savepoints[i + 1:]
            return None, 0, kind
        if kind == 'pragma':
            return self._pragma(st), 0, kind
        if kind == 'vacuum':
            return self._vacuum(ex, st), 0, kind
        if kind in ('attach', 'detach'):
            raise SqlUnsupported(kind)
        if kind == 'noop':
            return None, 0, kind
        self._statement(lambda: self._ddl(ex, st, sql))
        return None, 0, kind

    # -- transactions
    def _begin(self):
        self._txn = (self._db.state.copy(), self._temp.copy(), self._fk_count(True) if self.foreign_keys else 0)
        self._fresh = set()

    def _become_writer(self):
        if self._db.writer is None and self._txn is not None:
            self._db.committed = self._txn[0]
            self._db.writer = self

    def _commit(self):
        if self.foreign_keys and self._fk_count(True) > self._txn[2]:
            raise IntegrityError('FOREIGN KEY constraint failed')
        dirty = self._db.writer is self
        self._end()
        if dirty:
            self._db.flush()

    def _end(self):
        self._txn = None
        self._savepoints = []
        self._fresh = set()
        if self._db.writer is self:
            self._db.writer = None

    def _rollback(self):
        if self._db.writer is self or self._db.writer is None:
            self._db.state = self._txn[0]
        self._temp = self._txn[1]
        self._end()

    def _statement(self, fn, check_fk=False):
        before, tbefore = self._db.state.copy(), self._temp.copy()
        self._fresh = set()
        auto = self._txn is None
        imm0 = def0 = 0
        if self.foreign_keys and check_fk:
            imm0 = self._fk_count(False)
            if auto:
                def0 = self._fk_count(True)
        try:
            r = fn()
            if self.foreign_keys and check_fk:
                if self._fk_count(False) > imm0 or (auto and self._fk_count(True) > def0):
                    raise IntegrityError('FOREIGN KEY constraint failed')
            if self._fresh and (not before.same(self._db.state)):
                if auto:
                    self._db.flush()
                else:
                    self._become_writer()
            return r
        except _Raise as err:
            if err.kind == 'FAIL':
                raise IntegrityError(str(err)) from None
            self._db.state, self._temp = before, tbefore
            self._fresh = set()
            if err.kind == 'ROLLBACK' and self._txn is not None:
                self._rollback()
            if err.kind == 'IGNORE':
                raise SqlUnsupported('RAISE(IGNORE)')
            raise IntegrityError(str(err)) from None
        except BaseException:
            if self._db.writer is None or self._db.writer is self:
                self._db.state = before
            self._temp = tbefore
            self._fresh = set()
            raise

    def _fk_count(self, deferred):
        """Number of foreign-key violations of (non-)deferred constraints."""
        n = 0
        st = self.state('main')
        for t in st.tables.values():
            for fk in t.fks:
                if fk['deferred'] != deferred:
                    continue
                n += len(list(self._fk_violations(st, t, fk)))
        return n

    def _fk_violations(self, st, t, fk):
        parent = st.tables.get(fk['table'].lower())
        cidx = [t.col_index(c) for c in fk['cols']]
        if parent is not None:
            if fk['rcols']:
                pidx = [parent.col_index(c) for c in fk['rcols']]
            elif parent.rowid_col is not None:
                pidx = [parent.rowid_col]
            else:
                pidx = [i for i, c in enumerate(parent.cols) if c.pk]
        for rid, row in t.rows.items():
            vals = [row[i] for i in cidx]
            if any(v is None for v in vals):
                continue
            if parent is None:
                yield rid
                continue
            if pidx == [parent.rowid_col] and _real_isinstance(vals[0], (int, str)):
                v = apply_affinity(vals[0], 'INTEGER')
                if v not in parent.rows:
                    yield rid
                continue
            for prow in parent.rows.values():
                eq = True
                for v, pi in zip(vals, pidx):
                    eq = t_and(eq, compare('=', prow[pi], v, parent.cols[pi].aff, None))
                if decide(eq):
                    break
            else:
                yield rid

    # -- pragma
    def table_info(self, schema, name):
        cols = ('cid', 'name', 'type', 'notnull', 'dflt_value', 'pk')
        try:
            t, _ = self.find_table(schema, str(name))
        except OperationalError:
            if str(name).lower() in ('sqlite_master', 'sqlite_schema'):
                return cols, [[i, n, 'TEXT', 0, None, 0] for i, n in enumerate(('type', 'name', 'tbl_name', 'rootpage', 'sql'))]
            return cols, []
        return cols, [[i, c.name, c.type, int(c.notnull), c.default_text, c.pk] for i, c in enumerate(t.cols)]

    def _pragma(self, st):
        _, schema, name, value, is_set = st
        one = lambda n, v: Rel([Col(None, n)], [[v]])
        if name == 'table_info':
            cols, rows = self.table_info(schema, value)
            return Rel([Col(None, c) for c in cols], rows)
        if name == 'foreign_keys':
            if value is None:
                return one(name, int(self.foreign_keys))
            if not self.in_transaction:
                self.foreign_keys = str(value).lower() in ('1', 'on', 'true', 'yes')
            return None
        if name in ('application_id', 'user_version'):
            if value is None:
                return one(name, self.state('main').pragmas[name])
            self._lock('main')

            def f():
                s = self.state('main')
                s.pragmas = dict(s.pragmas)
                v = int(value) & 0xffffffff
                s.pragmas[name] = v - (1 << 32) if v >= 1 << 31 else v
                self._fresh.add(object())
            self._statement(f)
            return None
        if name == 'foreign_key_check':
            rows = []
            s = self.state('main')
            for t in s.tables.values():
                for k, fk in enumerate(t.fks):
                    for rid in self._fk_violations(s, t, fk):
                        rows.append([t.name, rid, fk['table'], k])
            return Rel([Col(None, c) for c in ('table', 'rowid', 'parent', 'fkid')], rows)
        if name in ('integrity_check', 'quick_check'):
            return one(name, 'ok')
        if name == 'database_list':
            return Rel([Col(None, c) for c in ('seq', 'name', 'file')], [[0, 'main', self._path]])
        if name == 'defer_foreign_keys':
            raise SqlUnsupported('PRAGMA defer_foreign_keys')
        if name in ('index_list',):
            rows = []
            for i, ix in enumerate(x for x in self.state('main').indexes.values() if x['table'].lower() == str(value).lower()):
                rows.append([i, ix['name'], int(ix['unique']), 'c', 0])
            return Rel([Col(None, c) for c in ('seq', 'name', 'unique', 'origin', 'partial')], rows)
        # plain settings: remembered, no effect on the model
        if value is None:
            return one(name, self._pragmas.get(name, 2 if name == 'synchronous' else 0))
        self._pragmas[name] = value
        if name in ('journal_mode',):
            return one(name, value)
        return None

    def _vacuum(self, ex, st):
        if self.in_transaction:
            raise OperationalError('cannot VACUUM from within a transaction')
        if st[2] is None:
            return None
        path = _fsdecode(ex.ev(st[2], None))
        try:
            fd = os.open(path, os.O_RDWR | os.O_CREAT, 0o644)
        except OSError:
            raise OperationalError(f'unable to open database: {path}') from None
        try:
            if os.fstat(fd).st_size != 0:
                raise OperationalError('output file already exists')
            db = Database(fd)
            db.state = self.state('main').deep()
            db.flush()
        finally:
            os.close(fd)
        hook = getattr(HOOKS, 'after_vacuum', None)
        if hook is not None:
            hook(path, db)
        return None

    # -- DDL
    def _sch(self, schema, temp=False):
        if temp or schema == 'temp':
            return 'temp'
        return 'main'

    def _ddl(self, ex, st, sql):
        kind = st[0]
        if kind == 'create_table':
            _, temp, ine, (schema, nm), cols, cons = st
            sch = self._sch(schema, temp)
            self._lock(sch)
            s = self.state(sch)
            if nm.lower() in s.tables:
                if ine:
                    return
                raise OperationalError(f'table {nm if nm.isidentifier() else chr(34)+nm+chr(34)} already exists')
            t = Table(nm)
            t.sql = ' '.join(sql.split())
            for d in cols:
                if t.col_index(d['name']) is not None:
                    raise OperationalError(f'duplicate column name: {d["name"]}')
                c = Column(d)
                t.cols.append(c)
                if d['pk']:
                    c.pk = 1
                    if d['type'].upper() == 'INTEGER':
                        t.rowid_col = len(t.cols) - 1
                        t.autoinc = d['autoinc']
                    else:
                        t.uniques.append([d['name']])
                if d['unique']:
                    t.uniques.append([d['name']])
                if d['fk']:
                    t.fks.append(d['fk'])
            for con in cons:
                if con[0] == 'unique':
                    t.uniques.append(con[1])
                elif con[0] == 'check':
                    t.checks.append((con[1], con[2]))
                elif con[0] == 'fk':
                    t.fks.append(con[1])
                elif con[0] == 'pk':
                    if len(con[1]) == 1 and t.cols[t.col_index(con[1][0])].type.upper() == 'INTEGER':
                        t.rowid_col = t.col_index(con[1][0])
                    else:
                        t.uniques.append(con[1])
                    for k, n in enumerate(con[1]):
                        t.cols[t.col_index(n)].pk = k + 1
            s.tables[nm.lower()] = t
            self._fresh.add(t)
            return
        if kind == 'create_as':
            _, temp, ine, (schema, nm), q = st
            sch = self._sch(schema, temp)
            self._lock(sch)
            s = self.state(sch)
            if nm.lower() in s.tables:
                if ine:
                    return
                raise OperationalError(f'table {nm} already exists')
            rel = ex.query(q)
            t = Table(nm)
            for c in rel.cols:
                if c.hidden:
                    continue
                aff = {'INTEGER': 'INT', 'TEXT': 'TEXT', 'REAL': 'REAL', 'NUMERIC': 'NUM'}.get(c.aff, '')
                t.cols.append(Column({'name': c.name, 'type': aff, 'notnull': False, 'default': None,
                                      'default_text': None, 'check': []}))
            vis = [i for i, c in enumerate(rel.cols) if not c.hidden]
            for n, r in enumerate(rel.rows):
                t.rows[n + 1] = [r[i] for i in vis]
            s.tables[nm.lower()] = t
            self._fresh.add(t)
            return
        if kind == 'create_index':
            _, unique, ine, (schema, nm), tbl, exprs, where = st
            sch = schema or ('temp' if tbl.lower() in self._temp.tables else 'main')
            self._lock(sch)
            s = self.state(sch)
            if nm.lower() in s.indexes:
                if ine:
                    return
                raise OperationalError(f'index {nm} already exists')
            t = s.tables.get(tbl.lower())
            if t is None:
                raise OperationalError(f'no such table: {sch}.{tbl}')
            if where is not None and unique:
                raise SqlUnsupported('partial unique index')
            names, nocase = [], []
            for e in exprs:
                coll = None
                if e[0] == 'collate' and e[2] in ('NOCASE', 'BINARY'):
                    coll, e = e[2], e[1]
                if e[0] == 'lit' and _real_isinstance(e[1], str):
                    e = ('ref', None, e[1], True)
                if e[0] != 'ref':
                    raise SqlUnsupported('expression index')
                i = t.col_index(e[2])
                if i is None:
                    raise OperationalError(f'table {t.name} has no column named {e[2]}')
                names.append(t.cols[i].name)
                nocase.append(coll == 'NOCASE' if coll else _real_isinstance(t.cols[i].aff, NoCase))
            if unique:
                rows = list(t.rows.values())
                idx = [t.col_index(n) for n in names]
                keys = [[fold(r[i]) if nc else r[i] for i, nc in zip(idx, nocase)] for r in rows]
                keys = [k for k in keys if all(v is not None for v in k)]
                if len(distinct_rows(keys)) != len(keys):
                    raise IntegrityError('UNIQUE constraint failed: ' + ', '.join(f'{t.name}.{n}' for n in names))
            s.indexes[nm.lower()] = {'name': nm, 'table': t.name, 'cols': names, 'nocase': nocase, 'unique': unique, 'sql': ' '.join(sql.split())}
            self._fresh.add(object())
            return
        if kind == 'create_trigger':
            _, temp, ine, (schema, nm), timing, ev, ofcols, tbl, when, body = st
            sch = self._sch(schema, temp)
            self._lock(sch)
            s = self.state(sch)
            if nm.lower() in s.triggers:
                if ine:
                    return
                raise OperationalError(f'trigger {nm} already exists')
            t, tsch = self.find_table(*tbl)
            s.triggers[nm.lower()] = {'name': nm, 'table': t.name, 'tschema': tsch, 'timing': timing, 'event': ev,
                                      'ofcols': ofcols, 'when': when, 'body': body, 'sql': ' '.join(sql.split())}
            self._fresh.add(object())
            return
        if kind == 'drop':
            _, what, (schema, nm), ife = st
            ln = nm.lower()
            attr = {'TABLE': 'tables', 'INDEX': 'indexes', 'TRIGGER': 'triggers'}.get(what)
            if attr is None:
                raise SqlUnsupported('DROP ' + what)
            for sch in ([schema] if schema else ['temp', 'main']):
                s = self.state(sch)
                coll = getattr(s, attr)
                if ln in coll:
                    self._lock(sch)
                    if what == 'TABLE':
                        if self.foreign_keys and sch == 'main' and any(
                                fk['table'].lower() == ln for t in s.tables.values() for fk in t.fks if t.name.lower() != ln):
                            # implicit DELETE FROM
                            for rid in sorted(coll[ln].rows):
                                ex.delete_row(sch, nm, rid)
                        s.indexes = {k: v for k, v in s.indexes.items() if v['table'].lower() != ln}
                        s.triggers = {k: v for k, v in s.triggers.items() if v['table'].lower() != ln}
                    del getattr(s, attr)[ln]
                    self._fresh.add(object())
                    return
            if not ife:
                full = f'{schema}.{nm}' if schema else nm
                raise OperationalError(f'no such {what.lower()}: {full}')
            return
        if kind.startswith('alter'):
            return self._alter(ex, st)
        raise SqlUnsupported(kind)

    def _alter(self, ex, st):
        kind, (schema, nm) = st[0], st[1]
        t, sch = self.find_table(schema, nm)
        self._lock(sch)
        s = self.state(sch)
        t = t.clone_schema()
        if kind == 'alter_add':
            d = st[2]
            if t.col_index(d['name']) is not None:
                raise OperationalError(f'duplicate column name: {d["name"]}')
            if d['pk']:
                raise OperationalError('Cannot add a PRIMARY KEY column')
            if d['unique']:
                raise OperationalError('Cannot add a UNIQUE column')
            c = Column(d)
            dv = apply_affinity(ex.ev(c.default, None), c.aff) if c.default is not None else None
            if c.notnull and dv is None and t.rows:
                raise OperationalError('Cannot add a NOT NULL column with default value NULL')
            t.cols.append(c)
            if d['fk']:
                t.fks.append(d['fk'])
            t.rows = {k: r + [dv] for k, r in t.rows.items()}
            for r in t.rows.values():
                for e, text in c.checks:
                    if ex.truth_is_false(e, ex.new_env(t, r)):
                        raise OperationalError('CHECK constraint failed')
            s.tables[t.name.lower()] = t
        elif kind == 'alter_drop':
            i = t.col_index(st[2])
            if i is None:
                raise OperationalError(f'no such column: "{st[2]}"')
            name = t.cols[i].name
            if t.cols[i].pk:
                raise OperationalError(f'cannot drop PRIMARY KEY column: "{name}"')
            if len(t.cols) == 1:
                raise OperationalError(f'cannot drop column "{name}": no other columns exist')
            for ix in s.indexes.values():
                if ix['table'].lower() == t.name.lower() and name.lower() in [c.lower() for c in ix['cols']]:
                    raise OperationalError(f'error in index {ix["name"]} after drop column: no such column: {name}')
            if any(name.lower() in [c.lower() for c in u] for u in t.uniques):
                raise OperationalError(f'cannot drop UNIQUE column: "{name}"')
            for e, text in t.checks:
                if _refs(e, name):
                    raise OperationalError(f'error in table {t.name} after drop column: no such column: {name}')
            del t.cols[i]
            if t.rowid_col is not None and t.rowid_col > i:
                t.rowid_col -= 1
            t.rows = {k: r[:i] + r[i + 1:] for k, r in t.rows.items()}
            s.tables[t.name.lower()] = t
        elif kind == 'alter_rename_col':
            a, b = st[2], st[3]
            i = t.col_index(a)
            if i is None:
                raise OperationalError(f'no such column: "{a}"')
            j = t.col_index(b)
            if j is not None and j != i:
                raise OperationalError(f'error in table {t.name} after rename: duplicate column name: {b}')
            old = t.cols[i].name
            t.cols[i].name = b
            for c in t.cols:
                c.checks = [(_rename(e, old, b), _rename_text(x, old, b)) for e, x in c.checks]
            t.checks = [(_rename(e, old, b), _rename_text(x, old, b)) for e, x in t.checks]
            t.uniques = [[b if n.lower() == old.lower() else n for n in u] for u in t.uniques]
            for fk in t.fks:
                fk['cols'] = [b if n.lower() == old.lower() else n for n in fk['cols']]
            s.tables[t.name.lower()] = t
            for k, o in list(s.tables.items()):
                if any(fk['table'].lower() == t.name.lower() and fk['rcols'] for fk in o.fks):
                    o = o.clone_schema()
                    for fk in o.fks:
                        if fk['table'].lower() == t.name.lower() and fk['rcols']:
                            fk['rcols'] = [b if n.lower() == old.lower() else n for n in fk['rcols']]
                    s.tables[k] = o
            for k, ix in list(s.indexes.items()):
                if ix['table'].lower() == t.name.lower():
                    s.indexes[k] = dict(ix, cols=[b if n.lower() == old.lower() else n for n in ix['cols']])
        elif kind == 'alter_rename':
            new = st[2]
            if new.lower() in s.tables and new.lower() != t.name.lower():
                raise OperationalError(f'there is already another table or index with this name: {new}')
            old = t.name
            del s.tables[old.lower()]
            t.name = new
            s.tables[new.lower()] = t
            legacy = str(self._pragmas.get('legacy_alter_table', 0)).lower() in ('1', 'on', 'true')
            for k, o in list(s.tables.items()):
                if any(fk['table'].lower() == old.lower() for fk in o.fks) and (not legacy or self.foreign_keys):
                    o = o.clone_schema()
                    for fk in o.fks:
                        if fk['table'].lower() == old.lower():
                            fk['table'] = new
                    s.tables[k] = o
            for k, ix in list(s.indexes.items()):
                if ix['table'].lower() == old.lower():
                    s.indexes[k] = dict(ix, table=new)
            for ss in (s, self._temp):
                for k, tr in list(ss.triggers.items()):
                    if tr['table'].lower() == old.lower():
                        ss.triggers[k] = dict(tr, table=new)
        self._fresh.add(object())


def _refs(e, name):
    if _real_isinstance(e, (list, tuple)):
        if len(e) == 4 and e and e[0] == 'ref' and _real_isinstance(e[2], str) and e[2].lower() == name.lower():
            return True
        return any(_refs(x, name) for x in e)
    return False


def _rename(e, old, new):
    if _real_isinstance(e, tuple):
        if len(e) == 4 and e[0] == 'ref' and _real_isinstance(e[2], str) and e[2].lower() == old.lower():
            return ('ref', e[1], new, e[3])
        return tuple(_rename(x, old, new) for x in e)
    if _real_isinstance(e, list):
        return [_rename(x, old, new) for x in e]
    return e


def _rename_text(text, old, new):
    q = '"' + new.replace('"', '""') + '"'
    oq = '"' + old.replace('"', '""') + '"'
    if oq in text:
        return text.replace(oq, q)
    return re.sub(r'(?<![\w"])' + re.escape(old) + r'(?![\w"])', lambda m: q, text)


def _fsdecode(p):
    import os
    return os.fsdecode(p)


def connect(database, timeout=5.0, detect_types=0, isolation_level='', check_same_thread=True,
            factory=None, cached_statements=128, uri=False, **kw):
    return (factory or Connection)(database, timeout=timeout, detect_types=detect_types,
                                   isolation_level=isolation_level, check_same_thread=check_same_thread,
                                   cached_statements=cached_statements, uri=uri)
