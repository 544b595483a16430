"""Recursive-descent parser for the SQLite dialect subset used by Toron.

The AST is made of tuples ('kind', ...).  Anything outside the subset
raises SqlUnsupported, which makes a check inconclusive (never "held").
"""
import re
from functools import lru_cache


class SqlSyntaxError(Exception):
    pass


class SqlUnsupported(BaseException):
    pass


_TOKEN = re.compile(r"""
    (?P<ws>\s+|--[^\n]*|/\*.*?\*/)
  | (?P<blob>[xX]'(?:[0-9a-fA-F]{2})*')
  | (?P<str>'(?:[^']|'')*')
  | (?P<qid>"(?:[^"]|"")*"|`(?:[^`]|``)*`|\[[^\]]*\])
  | (?P<num>0[xX][0-9a-fA-F]+|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)
  | (?P<id>[A-Za-z_\x80-\U0010ffff][A-Za-z0-9_$\x80-\U0010ffff]*)
  | (?P<param>\?\d*|[:@$][A-Za-z_][A-Za-z0-9_]*)
  | (?P<op>\|\||<>|<=|>=|==|!=|<<|>>|->>|->|[-+*/%<>=(),.;&|~])
""", re.X | re.S)

KEYWORDS = set('''ABORT ALL ALTER AND AS ASC AUTOINCREMENT BEFORE BEGIN BETWEEN BY CASCADE CASE
CHECK COLLATE COMMIT CONFLICT CONSTRAINT CREATE CROSS DEFAULT DEFERRABLE DELETE DESC DISTINCT DROP
EACH ELSE END ESCAPE EXCEPT EXISTS FOR FOREIGN FROM GLOB GROUP HAVING IN INDEX INNER INSERT INTERSECT
INTO IS ISNULL JOIN LEFT LIKE LIMIT NATURAL NOT NOTNULL NULL OFFSET ON OR ORDER OUTER PRIMARY REFERENCES
SELECT SET TABLE THEN TO TRANSACTION TRIGGER UNION UNIQUE UPDATE USING VALUES VIEW WHEN WHERE WITH'''.split())


def tokenize(sql):
    pos, out = 0, []
    n = len(sql)
    while pos < n:
        m = _TOKEN.match(sql, pos)
        if not m:
            if sql[pos] == "'" or sql[pos] == '"':
                raise SqlSyntaxError(f'unrecognized token: "{sql[pos:]}"')
            raise SqlSyntaxError(f'unrecognized token: "{sql[pos]}"')
        pos = m.end()
        k = m.lastgroup
        t = m.group()
        if k == 'ws':
            continue
        if k == 'str':
            out.append(('str', t[1:-1].replace("''", "'")))
        elif k == 'blob':
            out.append(('blob', bytes.fromhex(t[2:-1])))
        elif k == 'qid':
            q = t[0]
            if q == '[':
                v = t[1:-1]
            else:
                v = t[1:-1].replace(q + q, q)
            out.append(('qid', v, q))
        elif k == 'num':
            if re.fullmatch(r'\d+', t):
                out.append(('num', int(t)))
            elif t[:2] in ('0x', '0X'):
                out.append(('num', int(t, 16)))
            else:
                out.append(('num', float(t)))
        elif k == 'id':
            u = t.upper()
            out.append(('id', t, u))
        else:
            out.append((k, t))
    return out


class Parser:
    def __init__(self, sql):
        self.sql = sql
        self.toks = tokenize(sql)
        self.i = 0
        self.nparam = 0

    # -- token helpers
    def peek(self, k=0):
        j = self.i + k
        return self.toks[j] if j < len(self.toks) else ('eof', '')

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def is_kw(self, *words, k=0):
        t = self.peek(k)
        return t[0] == 'id' and t[2] in words

    def accept_kw(self, *words):
        if self.is_kw(*words):
            self.i += 1
            return True
        return False

    def accept_seq(self, *words):
        for k, w in enumerate(words):
            if not self.is_kw(w, k=k):
                return False
        self.i += len(words)
        return True

    def expect_kw(self, *words):
        for w in words:
            if not self.accept_kw(w):
                self.fail()

    def is_op(self, *ops, k=0):
        t = self.peek(k)
        return t[0] == 'op' and t[1] in ops

    def accept_op(self, *ops):
        if self.is_op(*ops):
            return self.next()[1]
        return None

    def expect_op(self, op):
        if not self.accept_op(op):
            self.fail()

    def fail(self):
        t = self.peek()
        if t[0] == 'eof':
            raise SqlSyntaxError('incomplete input')
        raise SqlSyntaxError(f'near "{t[1]}": syntax error')

    def name(self):
        t = self.next()
        if t[0] == 'id':
            if t[2] in KEYWORDS and t[2] not in ('ABORT', 'ASC', 'BEFORE', 'BEGIN', 'BY', 'CASCADE', 'CONFLICT', 'CROSS',
                                                 'DESC', 'EACH', 'END', 'FOR', 'GLOB', 'INNER', 'LEFT', 'LIKE', 'NATURAL',
                                                 'OFFSET', 'OUTER', 'TRIGGER', 'VIEW'):
                self.i -= 1
                self.fail()
            return t[1]
        if t[0] == 'qid':
            return t[1]
        if t[0] == 'str':
            return t[1]
        self.i -= 1
        self.fail()

    def qname(self):
        """[schema .] name"""
        a = self.name()
        if self.accept_op('.'):
            return (a.lower(), self.name())
        return (None, a)

    # -- statements
    def statements(self):
        out = []
        while True:
            while self.accept_op(';'):
                pass
            if self.peek()[0] == 'eof':
                return out
            self.nparam = 0
            st = self.statement()
            out.append(st)
            if self.peek()[0] != 'eof' and not self.is_op(';'):
                self.fail()

    def statement(self):
        if self.is_kw('SELECT', 'VALUES'):
            return ('select', self.select())
        if self.is_kw('WITH'):
            ctes = self.with_clause()
            if self.is_kw('INSERT', 'REPLACE'):
                return ('with', ctes, self.insert())
            if self.is_kw('UPDATE'):
                return ('with', ctes, self.update())
            if self.is_kw('DELETE'):
                return ('with', ctes, self.delete())
            return ('with', ctes, ('select', self.select()))
        if self.is_kw('INSERT', 'REPLACE'):
            return self.insert()
        if self.is_kw('UPDATE'):
            return self.update()
        if self.is_kw('DELETE'):
            return self.delete()
        if self.is_kw('CREATE'):
            return self.create()
        if self.is_kw('DROP'):
            self.next()
            kind = self.next()
            if kind[0] != 'id' or kind[2] not in ('TABLE', 'INDEX', 'TRIGGER', 'VIEW'):
                self.i -= 1
                self.fail()
            ife = self.accept_seq('IF', 'EXISTS')
            return ('drop', kind[2], self.qname(), ife)
        if self.is_kw('ALTER'):
            return self.alter()
        if self.accept_kw('BEGIN'):
            mode = None
            if self.is_kw('DEFERRED', 'IMMEDIATE', 'EXCLUSIVE'):
                mode = self.next()[2]
            self.accept_kw('TRANSACTION')
            return ('begin', mode)
        if self.accept_kw('COMMIT') or self.accept_kw('END'):
            self.accept_kw('TRANSACTION')
            return ('commit',)
        if self.accept_kw('ROLLBACK'):
            self.accept_kw('TRANSACTION')
            if self.accept_kw('TO'):
                self.accept_kw('SAVEPOINT')
                return ('rollback_to', self.name())
            return ('rollback',)
        if self.accept_kw('SAVEPOINT'):
            return ('savepoint', self.name())
        if self.accept_kw('RELEASE'):
            self.accept_kw('SAVEPOINT')
            return ('release', self.name())
        if self.accept_kw('PRAGMA'):
            return self.pragma()
        if self.accept_kw('VACUUM'):
            schema = None
            if not self.is_kw('INTO') and self.peek()[0] in ('id', 'qid'):
                schema = self.name()
            into = None
            if self.accept_kw('INTO'):
                into = self.expr()
            return ('vacuum', schema, into)
        if self.accept_kw('ATTACH'):
            self.accept_kw('DATABASE')
            e = self.expr()
            self.expect_kw('AS')
            return ('attach', e, self.name())
        if self.accept_kw('DETACH'):
            self.accept_kw('DATABASE')
            return ('detach', self.name())
        if self.accept_kw('ANALYZE', 'REINDEX'):
            while self.peek()[0] != 'eof' and not self.is_op(';'):
                self.next()
            return ('noop',)
        self.fail()

    def pragma(self):
        schema, nm = self.qname()
        nm = nm.lower()
        if self.accept_op('='):
            neg = self.accept_op('-')
            t = self.next()
            v = t[1]
            return ('pragma', schema, nm, -v if neg else v, True)
        if self.accept_op('('):
            t = self.next()
            self.expect_op(')')
            return ('pragma', schema, nm, t[1], False)
        return ('pragma', schema, nm, None, False)

    def with_clause(self):
        self.expect_kw('WITH')
        if self.accept_kw('RECURSIVE'):
            raise SqlUnsupported('WITH RECURSIVE')
        ctes = []
        while True:
            nm = self.name()
            cols = None
            if self.accept_op('('):
                cols = [self.name()]
                while self.accept_op(','):
                    cols.append(self.name())
                self.expect_op(')')
            self.expect_kw('AS')
            if self.accept_kw('NOT'):
                self.expect_kw('MATERIALIZED')
            else:
                self.accept_kw('MATERIALIZED')
            self.expect_op('(')
            q = self.select_or_with()
            self.expect_op(')')
            ctes.append((nm, cols, q))
            if not self.accept_op(','):
                return ctes

    def select_or_with(self):
        if self.is_kw('WITH'):
            ctes = self.with_clause()
            return ('withq', ctes, self.select())
        return self.select()

    def select(self):
        left = self.select_core()
        while self.is_kw('UNION', 'EXCEPT', 'INTERSECT'):
            op = self.next()[2]
            if op == 'UNION' and self.accept_kw('ALL'):
                op = 'UNION ALL'
            right = self.select_core()
            left = ('compound', op, left, right)
        order = []
        limit = offset = None
        if self.accept_seq('ORDER', 'BY'):
            while True:
                e = self.expr()
                desc = False
                if self.accept_kw('ASC'):
                    pass
                elif self.accept_kw('DESC'):
                    desc = True
                nulls = None
                if self.accept_kw('NULLS'):
                    nulls = self.next()[2]
                order.append((e, desc, nulls))
                if not self.accept_op(','):
                    break
        if self.accept_kw('LIMIT'):
            limit = self.expr()
            if self.accept_kw('OFFSET'):
                offset = self.expr()
            elif self.accept_op(','):
                offset, limit = limit, self.expr()
        if order or limit is not None:
            return ('ordered', left, order, limit, offset)
        return left

    def select_core(self):
        if self.accept_kw('VALUES'):
            rows = []
            while True:
                self.expect_op('(')
                rows.append(self.expr_list())
                self.expect_op(')')
                if not self.accept_op(','):
                    break
            return ('values', rows)
        self.expect_kw('SELECT')
        distinct = False
        if self.accept_kw('DISTINCT'):
            distinct = True
        else:
            self.accept_kw('ALL')
        cols = []
        while True:
            if self.accept_op('*'):
                cols.append(('star', None))
            elif self.peek()[0] in ('id', 'qid') and self.is_op('.', k=1) and self.is_op('*', k=2):
                t = self.name()
                self.next()
                self.next()
                cols.append(('star', t))
            else:
                start = self.i
                e = self.expr()
                text = self.text_of(start, self.i)
                alias = None
                if self.accept_kw('AS'):
                    alias = self.name()
                elif self.peek()[0] in ('qid', 'str') or (self.peek()[0] == 'id' and self.peek()[2] not in KEYWORDS):
                    alias = self.name()
                cols.append(('col', e, alias, text))
            if not self.accept_op(','):
                break
        frm = None
        where = having = None
        group = []
        if self.accept_kw('FROM'):
            frm = self.from_clause()
        if self.accept_kw('WHERE'):
            where = self.expr()
        if self.accept_seq('GROUP', 'BY'):
            group = self.expr_list()
        if self.accept_kw('HAVING'):
            having = self.expr()
        return ('core', distinct, cols, frm, where, group, having)

    def text_of(self, a, b):
        out = []
        for t in self.toks[a:b]:
            if t[0] == 'qid':
                out.append(f'{t[2]}{t[1]}{t[2]}')
            elif t[0] == 'str':
                out.append(f"'{t[1]}'")
            else:
                out.append(str(t[1]))
        return ''.join(out)

    def from_clause(self):
        src = self.table_ref()
        while True:
            if self.accept_op(','):
                src = ('join', 'inner', src, self.table_ref(), None, None)
                continue
            natural = False
            kind = None
            save = self.i
            if self.accept_kw('NATURAL'):
                natural = True
            if self.accept_kw('LEFT'):
                self.accept_kw('OUTER')
                kind = 'left'
                self.expect_kw('JOIN')
            elif self.accept_kw('INNER') or self.accept_kw('CROSS'):
                kind = 'inner'
                self.expect_kw('JOIN')
            elif self.accept_kw('JOIN'):
                kind = 'inner'
            elif self.is_kw('RIGHT', 'FULL') and self.is_kw('JOIN', 'OUTER', k=1):
                raise SqlUnsupported('RIGHT/FULL JOIN')
            else:
                self.i = save
                return src
            right = self.table_ref()
            on = using = None
            if self.accept_kw('ON'):
                on = self.expr()
            elif self.accept_kw('USING'):
                self.expect_op('(')
                using = [self.name()]
                while self.accept_op(','):
                    using.append(self.name())
                self.expect_op(')')
            if natural:
                using = 'NATURAL'
            src = ('join', kind, src, right, on, using)

    def table_ref(self):
        if self.accept_op('('):
            if self.is_kw('SELECT', 'VALUES', 'WITH'):
                q = self.select_or_with()
                self.expect_op(')')
                node = ('subq', q)
            else:
                node = self.from_clause()
                self.expect_op(')')
                return node
        else:
            nm = self.qname()
            if self.is_op('(') :
                self.next()
                args = [] if self.is_op(')') else self.expr_list()
                self.expect_op(')')
                node = ('tfunc', nm, args)
            else:
                node = ('table', nm)
        alias = None
        if self.accept_kw('AS'):
            alias = self.name()
        elif self.peek()[0] == 'qid' or (self.peek()[0] == 'id' and self.peek()[2] not in KEYWORDS
                                         and self.peek()[2] not in ('INDEXED', 'RETURNING', 'RIGHT', 'FULL')):
            alias = self.name()
        if self.accept_kw('INDEXED'):
            self.expect_kw('BY')
            self.name()
        return ('src', node, alias)

    def insert(self):
        conflict = None
        if self.accept_kw('REPLACE'):
            conflict = 'REPLACE'
        else:
            self.expect_kw('INSERT')
            if self.accept_kw('OR'):
                conflict = self.next()[2]
        self.expect_kw('INTO')
        tbl = self.qname()
        if self.accept_kw('AS'):
            self.name()
        cols = None
        if self.accept_op('('):
            cols = [self.name()]
            while self.accept_op(','):
                cols.append(self.name())
            self.expect_op(')')
        if self.accept_seq('DEFAULT', 'VALUES'):
            src = None
        else:
            src = self.select_or_with()
        upsert = []
        while self.accept_seq('ON', 'CONFLICT'):
            target = None
            if self.accept_op('('):
                target = [self.name()]
                while self.accept_op(','):
                    target.append(self.name())
                self.expect_op(')')
            self.expect_kw('DO')
            if self.accept_kw('NOTHING'):
                upsert.append((target, None, None))
            else:
                self.expect_kw('UPDATE')
                self.expect_kw('SET')
                sets = self.set_list()
                where = self.expr() if self.accept_kw('WHERE') else None
                upsert.append((target, sets, where))
        ret = self.returning()
        return ('insert', conflict, tbl, cols, src, upsert, ret)

    def returning(self):
        if self.accept_kw('RETURNING'):
            cols = []
            while True:
                if self.accept_op('*'):
                    cols.append(('star', None))
                else:
                    start = self.i
                    e = self.expr()
                    text = self.text_of(start, self.i)
                    alias = self.name() if self.accept_kw('AS') else None
                    cols.append(('col', e, alias, text))
                if not self.accept_op(','):
                    return cols
        return None

    def set_list(self):
        sets = []
        while True:
            if self.accept_op('('):
                names = [self.name()]
                while self.accept_op(','):
                    names.append(self.name())
                self.expect_op(')')
                self.expect_op('=')
                sets.append((names, self.expr()))
            else:
                nm = self.name()
                self.expect_op('=')
                sets.append((nm, self.expr()))
            if not self.accept_op(','):
                return sets

    def update(self):
        self.expect_kw('UPDATE')
        conflict = None
        if self.accept_kw('OR'):
            conflict = self.next()[2]
        tbl = self.qname()
        alias = None
        if self.accept_kw('AS'):
            alias = self.name()
        self.expect_kw('SET')
        sets = self.set_list()
        frm = self.from_clause() if self.accept_kw('FROM') else None
        where = self.expr() if self.accept_kw('WHERE') else None
        ret = self.returning()
        return ('update', conflict, tbl, alias, sets, frm, where, ret)

    def delete(self):
        self.expect_kw('DELETE')
        self.expect_kw('FROM')
        tbl = self.qname()
        alias = None
        if self.accept_kw('AS'):
            alias = self.name()
        where = self.expr() if self.accept_kw('WHERE') else None
        ret = self.returning()
        return ('delete', tbl, alias, where, ret)

    def create(self):
        start = self.i
        self.expect_kw('CREATE')
        temp = self.accept_kw('TEMP') or self.accept_kw('TEMPORARY')
        unique = self.accept_kw('UNIQUE')
        if self.accept_kw('TABLE'):
            ine = self.accept_seq('IF', 'NOT', 'EXISTS')
            nm = self.qname()
            if self.accept_kw('AS'):
                return ('create_as', temp, ine, nm, self.select_or_with())
            return self.create_table(temp, ine, nm)
        if self.accept_kw('INDEX'):
            ine = self.accept_seq('IF', 'NOT', 'EXISTS')
            nm = self.qname()
            self.expect_kw('ON')
            tbl = self.name()
            self.expect_op('(')
            cols = []
            while True:
                e = self.expr()
                self.accept_kw('ASC') or self.accept_kw('DESC')
                cols.append(e)
                if not self.accept_op(','):
                    break
            self.expect_op(')')
            where = self.expr() if self.accept_kw('WHERE') else None
            return ('create_index', unique, ine, nm, tbl, cols, where)
        if self.accept_kw('TRIGGER'):
            ine = self.accept_seq('IF', 'NOT', 'EXISTS')
            nm = self.qname()
            timing = 'BEFORE'
            if self.accept_kw('BEFORE'):
                timing = 'BEFORE'
            elif self.accept_kw('AFTER'):
                timing = 'AFTER'
            elif self.accept_kw('INSTEAD'):
                raise SqlUnsupported('INSTEAD OF trigger')
            ev = self.next()[2]
            ofcols = None
            if ev == 'UPDATE' and self.accept_kw('OF'):
                ofcols = [self.name()]
                while self.accept_op(','):
                    ofcols.append(self.name())
            self.expect_kw('ON')
            tbl = self.qname()
            self.accept_seq('FOR', 'EACH', 'ROW')
            when = self.expr() if self.accept_kw('WHEN') else None
            self.expect_kw('BEGIN')
            body = []
            while not self.is_kw('END'):
                body.append(self.statement())
                self.expect_op(';')
            self.expect_kw('END')
            return ('create_trigger', temp, ine, nm, timing, ev, ofcols, tbl, when, body)
        self.fail()

    def create_table(self, temp, ine, nm):
        self.expect_op('(')
        cols, cons = [], []
        while True:
            if self.is_kw('CONSTRAINT', 'PRIMARY', 'UNIQUE', 'CHECK', 'FOREIGN'):
                cons.append(self.table_constraint())
            else:
                if cons:
                    self.fail()
                cols.append(self.column_def())
            if not self.accept_op(','):
                break
        self.expect_op(')')
        opts = []
        while self.is_kw('WITHOUT', 'STRICT', 'ROWID') or self.is_op(','):
            opts.append(self.next()[1].upper())
        if 'STRICT' in opts or 'WITHOUT' in opts:
            raise SqlUnsupported('table options')
        return ('create_table', temp, ine, nm, cols, cons)

    def column_def(self):
        nm = self.name()
        typ = []
        while self.peek()[0] == 'id' and self.peek()[2] not in (
                'CONSTRAINT', 'PRIMARY', 'NOT', 'NULL', 'UNIQUE', 'CHECK', 'DEFAULT', 'COLLATE', 'REFERENCES', 'GENERATED', 'AS'):
            typ.append(self.next()[1])
            if self.accept_op('('):
                while not self.accept_op(')'):
                    self.next()
        d = {'name': nm, 'type': ' '.join(typ), 'notnull': False, 'default': None, 'check': [],
             'pk': False, 'autoinc': False, 'unique': False, 'fk': None, 'collate': None,
             'default_text': None}
        while True:
            if self.accept_kw('CONSTRAINT'):
                self.name()
            if self.accept_seq('PRIMARY', 'KEY'):
                d['pk'] = True
                self.accept_kw('ASC') or self.accept_kw('DESC')
                if self.accept_kw('AUTOINCREMENT'):
                    d['autoinc'] = True
                self.conflict_clause()
            elif self.accept_seq('NOT', 'NULL'):
                d['notnull'] = True
                self.conflict_clause()
            elif self.accept_kw('NULL'):
                pass
            elif self.accept_kw('UNIQUE'):
                d['unique'] = True
                self.conflict_clause()
            elif self.accept_kw('CHECK'):
                self.expect_op('(')
                s = self.i
                e = self.expr()
                d['check'].append((e, self.text_of(s, self.i)))
                self.expect_op(')')
            elif self.accept_kw('DEFAULT'):
                s = self.i
                if self.accept_op('('):
                    s = self.i
                    d['default'] = self.expr()
                    d['default_text'] = self.text_of(s, self.i)
                    self.expect_op(')')
                else:
                    if self.accept_op('-'):
                        d['default'] = ('lit', -self.next()[1])
                    else:
                        self.accept_op('+')
                        d['default'] = self.primary()
                    d['default_text'] = self.text_of(s, self.i)
            elif self.accept_kw('COLLATE'):
                d['collate'] = self.name().upper()
            elif self.is_kw('REFERENCES'):
                d['fk'] = self.fk_clause([nm])
            elif self.is_kw('GENERATED', 'AS'):
                raise SqlUnsupported('generated column')
            else:
                return d

    def conflict_clause(self):
        if self.accept_seq('ON', 'CONFLICT'):
            raise SqlUnsupported('column ON CONFLICT clause')

    def fk_clause(self, cols):
        self.expect_kw('REFERENCES')
        tbl = self.name()
        rcols = None
        if self.accept_op('('):
            rcols = [self.name()]
            while self.accept_op(','):
                rcols.append(self.name())
            self.expect_op(')')
        on_delete = on_update = 'NO ACTION'
        deferred = False
        while True:
            if self.accept_kw('ON'):
                ev = self.next()[2]
                act = self.next()[2]
                if act in ('SET', 'NO'):
                    act += ' ' + self.next()[2]
                if ev == 'DELETE':
                    on_delete = act
                else:
                    on_update = act
            elif self.accept_kw('NOT'):
                self.expect_kw('DEFERRABLE')
                if self.accept_kw('INITIALLY'):
                    self.next()
            elif self.accept_kw('DEFERRABLE'):
                if self.accept_kw('INITIALLY'):
                    deferred = self.next()[2] == 'DEFERRED'
            else:
                return {'cols': cols, 'table': tbl, 'rcols': rcols, 'on_delete': on_delete,
                        'on_update': on_update, 'deferred': deferred}

    def table_constraint(self):
        if self.accept_kw('CONSTRAINT'):
            self.name()
        if self.accept_seq('PRIMARY', 'KEY'):
            c = self.paren_names()
            self.conflict_clause()
            return ('pk', c)
        if self.accept_kw('UNIQUE'):
            c = self.paren_names()
            self.conflict_clause()
            return ('unique', c)
        if self.accept_kw('CHECK'):
            self.expect_op('(')
            s = self.i
            e = self.expr()
            t = self.text_of(s, self.i)
            self.expect_op(')')
            return ('check', e, t)
        if self.accept_seq('FOREIGN', 'KEY'):
            c = self.paren_names()
            return ('fk', self.fk_clause(c))
        self.fail()

    def paren_names(self):
        self.expect_op('(')
        c = [self.name()]
        while self.accept_op(','):
            c.append(self.name())
        self.expect_op(')')
        return c

    def alter(self):
        self.expect_kw('ALTER')
        self.expect_kw('TABLE')
        tbl = self.qname()
        if self.accept_kw('ADD'):
            self.accept_kw('COLUMN')
            return ('alter_add', tbl, self.column_def())
        if self.accept_kw('DROP'):
            self.accept_kw('COLUMN')
            return ('alter_drop', tbl, self.name())
        self.expect_kw('RENAME')
        if self.accept_kw('TO'):
            return ('alter_rename', tbl, self.name())
        self.accept_kw('COLUMN')
        a = self.name()
        self.expect_kw('TO')
        return ('alter_rename_col', tbl, a, self.name())

    # -- expressions
    def expr_list(self):
        out = [self.expr()]
        while self.accept_op(','):
            out.append(self.expr())
        return out

    def expr(self):
        return self.p_or()

    def p_or(self):
        e = self.p_and()
        while self.accept_kw('OR'):
            e = ('or', e, self.p_and())
        return e

    def p_and(self):
        e = self.p_not()
        while self.accept_kw('AND'):
            e = ('and', e, self.p_not())
        return e

    def p_not(self):
        if self.is_kw('NOT') and not self.is_kw('EXISTS', k=1):
            self.next()
            return ('not', self.p_not())
        if self.is_kw('NOT') and self.is_kw('EXISTS', k=1):
            self.next()
            return ('not', self.p_not())
        return self.p_eq()

    def p_eq(self):
        e = self.p_rel()
        while True:
            op = self.accept_op('=', '==', '!=', '<>')
            if op:
                r = self.p_rel()
                e = ('cmp', {'==': '=', '<>': '!='}.get(op, op), e, r)
                continue
            if self.accept_kw('IS'):
                neg = self.accept_kw('NOT')
                if self.accept_seq('DISTINCT', 'FROM'):
                    neg = not neg
                r = self.p_rel()
                e = ('is', e, r, neg)
                continue
            if self.accept_kw('ISNULL'):
                e = ('is', e, ('lit', None), False)
                continue
            if self.accept_kw('NOTNULL'):
                e = ('is', e, ('lit', None), True)
                continue
            if self.is_kw('NOT') and self.is_kw('NULL', k=1):
                self.i += 2
                e = ('is', e, ('lit', None), True)
                continue
            neg = False
            if self.is_kw('NOT') and self.is_kw('IN', 'BETWEEN', 'LIKE', 'GLOB', k=1):
                self.next()
                neg = True
            if self.accept_kw('IN'):
                if self.accept_op('('):
                    if self.is_kw('SELECT', 'VALUES', 'WITH'):
                        r = ('subq', self.select_or_with())
                    elif self.is_op(')'):
                        r = ('list', [])
                    else:
                        r = ('list', self.expr_list())
                    self.expect_op(')')
                else:
                    nm = self.qname()
                    if self.accept_op('('):
                        args = [] if self.is_op(')') else self.expr_list()
                        self.expect_op(')')
                        node = ('tfunc', nm, args)
                    else:
                        node = ('table', nm)
                    r = ('subq', ('core', False, [('star', None)], ('src', node, None), None, [], None))
                e = ('in', e, r)
            elif self.accept_kw('BETWEEN'):
                lo = self.p_rel()
                self.expect_kw('AND')
                hi = self.p_rel()
                e = ('between', e, lo, hi)
            elif self.accept_kw('LIKE'):
                e = ('like', e, self.p_rel())
            elif self.accept_kw('GLOB'):
                e = ('glob', e, self.p_rel())
            else:
                return e
            if neg:
                e = ('not', e)

    def p_rel(self):
        e = self.p_bit()
        while True:
            op = self.accept_op('<', '<=', '>', '>=')
            if not op:
                return e
            e = ('cmp', op, e, self.p_bit())

    def p_bit(self):
        e = self.p_add()
        while True:
            op = self.accept_op('<<', '>>', '&', '|')
            if not op:
                return e
            e = ('bin', op, e, self.p_add())

    def p_add(self):
        e = self.p_mul()
        while True:
            op = self.accept_op('+', '-')
            if not op:
                return e
            e = ('bin', op, e, self.p_mul())

    def p_mul(self):
        e = self.p_cat()
        while True:
            op = self.accept_op('*', '/', '%')
            if not op:
                return e
            e = ('bin', op, e, self.p_cat())

    def p_cat(self):
        e = self.p_unary()
        while True:
            op = self.accept_op('||', '->', '->>')
            if not op:
                return e
            e = ('bin', op, e, self.p_unary())

    def p_unary(self):
        op = self.accept_op('-', '+', '~')
        if op:
            e = self.p_unary()
            if op == '-' and e[0] == 'lit' and isinstance(e[1], (int, float)):
                return ('lit', -e[1])
            return e if op == '+' else ('neg' if op == '-' else 'bitnot', e)
        e = self.primary()
        while self.accept_kw('COLLATE'):
            e = ('collate', e, self.name().upper())
        return e

    def primary(self):
        t = self.peek()
        if t[0] == 'num':
            self.next()
            return ('lit', t[1])
        if t[0] == 'str':
            self.next()
            return ('lit', t[1])
        if t[0] == 'blob':
            self.next()
            return ('lit', t[1])
        if t[0] == 'param':
            self.next()
            if t[1] == '?':
                self.nparam += 1
                return ('param', self.nparam - 1)
            if t[1][0] == '?':
                n = int(t[1][1:])
                self.nparam = max(self.nparam, n)
                return ('param', n - 1)
            return ('nparam', t[1][1:])
        if self.accept_op('('):
            if self.is_kw('SELECT', 'VALUES', 'WITH'):
                q = self.select_or_with()
                self.expect_op(')')
                return ('scalar', q)
            es = self.expr_list()
            self.expect_op(')')
            if len(es) == 1:
                return es[0]
            return ('row', es)
        if t[0] == 'id':
            u = t[2]
            if u == 'NULL':
                self.next()
                return ('lit', None)
            if u in ('TRUE', 'FALSE') and not self.is_op('.', k=1):
                self.next()
                return ('lit', 1 if u == 'TRUE' else 0)
            if u in ('CURRENT_TIMESTAMP', 'CURRENT_DATE', 'CURRENT_TIME'):
                raise SqlUnsupported(u)
            if u == 'CAST' and self.is_op('(', k=1):
                self.i += 2
                e = self.expr()
                self.expect_kw('AS')
                typ = self.next()[1]
                while not self.is_op(')'):
                    typ += ' ' + str(self.next()[1])
                self.expect_op(')')
                return ('cast', e, typ)
            if u == 'EXISTS' and self.is_op('(', k=1):
                self.i += 2
                q = self.select_or_with()
                self.expect_op(')')
                return ('exists', q)
            if u == 'NOT' and self.is_kw('EXISTS', k=1):
                self.next()
                return ('not', self.primary())
            if u == 'CASE':
                self.next()
                base = None
                if not self.is_kw('WHEN'):
                    base = self.expr()
                whens = []
                while self.accept_kw('WHEN'):
                    c = self.expr()
                    self.expect_kw('THEN')
                    whens.append((c, self.expr()))
                els = self.expr() if self.accept_kw('ELSE') else None
                self.expect_kw('END')
                return ('case', base, whens, els)
            if u == 'RAISE' and self.is_op('(', k=1):
                self.i += 2
                kind = self.next()[2]
                msg = None
                if self.accept_op(','):
                    msg = self.expr()
                self.expect_op(')')
                return ('raise', kind, msg)
            if self.is_op('(', k=1) and (u not in KEYWORDS or u in ('REPLACE', 'GLOB', 'LIKE')):
                self.i += 2
                distinct = False
                args = []
                if self.accept_op('*'):
                    args = None
                elif not self.is_op(')'):
                    distinct = self.accept_kw('DISTINCT')
                    args = self.expr_list()
                if self.accept_seq('ORDER', 'BY'):
                    raise SqlUnsupported('aggregate ORDER BY')
                self.expect_op(')')
                filt = None
                if self.is_kw('FILTER') and self.is_op('(', k=1):
                    self.i += 2
                    self.expect_kw('WHERE')
                    filt = self.expr()
                    self.expect_op(')')
                node = ('func', u.lower(), args, distinct, filt)
                if self.accept_kw('OVER'):
                    self.expect_op('(')
                    part, order = [], []
                    if self.accept_seq('PARTITION', 'BY'):
                        part = self.expr_list()
                    if self.accept_seq('ORDER', 'BY'):
                        while True:
                            e = self.expr()
                            desc = False
                            if self.accept_kw('DESC'):
                                desc = True
                            else:
                                self.accept_kw('ASC')
                            order.append((e, desc, None))
                            if not self.accept_op(','):
                                break
                    if not self.is_op(')'):
                        raise SqlUnsupported('window frame')
                    self.expect_op(')')
                    return ('window', node, part, order)
                return node
        if t[0] in ('id', 'qid'):
            quoted = t[0] == 'qid'
            if not quoted and t[2] in KEYWORDS:
                # a few keywords are allowed as identifiers
                nm = self.name()
            else:
                self.next()
                nm = t[1]
            if self.is_op('.') and self.peek(1)[0] in ('id', 'qid'):
                self.next()
                n2 = self.next()[1]
                if self.is_op('.') and self.peek(1)[0] in ('id', 'qid'):
                    self.next()
                    n3 = self.next()[1]
                    return ('ref', n2, n3, False)
                return ('ref', nm, n2, False)
            return ('ref', None, nm, quoted and t[2] == '"')
        self.fail()


@lru_cache(maxsize=4096)
def parse_script(sql):
    return Parser(sql).statements()
