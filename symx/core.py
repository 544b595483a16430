"""Symbolic execution core.

Real Python functions are executed on proxy values that wrap z3 terms.
Each time execution needs the truth of a symbolic condition, the solver
is asked which outcomes are feasible under the current path condition;
when both are, execution forks (by deterministic re-execution with a
recorded decision prefix).  Assertions are discharged by asking the
solver whether the negated assertion is satisfiable on the path.
"""
import itertools
import time
from fractions import Fraction

import z3

_real_isinstance = isinstance
_real_int = int
_real_float = float
_real_str = str
_real_bool = bool
_real_round = round


class SymxError(BaseException):
    """Base of engine control exceptions (never caught by `except Exception`)."""


class PathAbort(SymxError):
    """The current path is infeasible / excluded by an assumption."""


class Unsupported(SymxError):
    """The encoding does not cover something the code did."""


class Inconclusive(SymxError):
    """The solver gave no verdict."""


class CounterExample(SymxError):
    def __init__(self, label, detail, model):
        super().__init__(label)
        self.label = label
        self.detail = detail
        self.model = model


_CTX = None


def ctx():
    if _CTX is None:
        raise RuntimeError('no active symbolic context')
    return _CTX


def active():
    return _CTX is not None


class Stats:
    FIELDS = ('paths', 'decisions', 'forks', 'queries', 'proved', 'trivial',
              'aborted', 'solver_s', 'unknown', 'sql_statements', 'functions')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.functions = set()

    def merge(self, other):
        for f in self.FIELDS:
            if f == 'functions':
                self.functions |= other.functions
            else:
                setattr(self, f, getattr(self, f) + getattr(other, f))


class Ctx:
    """State of one path."""

    def __init__(self, prefix, stats, timeout_ms=20000, max_decisions=20000):
        self.prefix = prefix
        self.taken = []
        self.pending = []            # alternative prefixes discovered on this path
        self.stats = stats
        self.solver = z3.Solver()
        self.timeout_ms = timeout_ms
        self.solver.set('timeout', timeout_ms)
        self.pc = []
        self.cache = {}
        self.keep = []               # keep AST references alive (ids are cached)
        self.model = None
        self.max_decisions = max_decisions
        self.inputs = {}             # name -> (kind, z3 expr or concrete, decode)
        self.observations = []
        self.checks = 0
        self.partial = 0
        self.seq = itertools.count()
        self.fresh_funcs = {}

    # -- solver access ------------------------------------------------
    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        return r

    def add(self, cond):
        self.solver.add(cond)
        self.pc.append(cond)

    def assume(self, cond):
        """Restrict the path (harness precondition)."""
        if _real_isinstance(cond, SBool):
            cond = cond.e
        if cond is True:
            return
        if cond is False:
            raise PathAbort()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort()
        self.add(cond)
        if self.model is not None and z3.is_true(self.model.eval(cond, model_completion=True)):
            return
        self.model = None
        r = self._check()
        if r == z3.unsat:
            raise PathAbort()
        if r == z3.unknown:
            self.stats.unknown += 1
            raise Inconclusive(f'assume: {self.solver.reason_unknown()}')
        self.model = self.solver.model()

    def decide(self, cond):
        """Return the truth of *cond*, forking if both are feasible."""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = False
        base = cond
        while z3.is_not(base):
            base = base.arg(0)
            neg = not neg
        key = base.get_id()
        hit = self.cache.get(key)
        if hit is not None:
            return hit != neg
        pos = len(self.taken)
        if pos >= self.max_decisions:
            raise Unsupported('decision bound exceeded on one path')
        self.stats.decisions += 1
        if pos < len(self.prefix):
            val, forced = self.prefix[pos]
            self.taken.append((val, forced))
            if not forced:
                self.add(cond if val else z3.Not(cond))
                self.model = None
        else:
            val, forced = self._branch(cond)
        self.keep.append(base)
        self.cache[key] = (val != neg)
        return val

    def _branch(self, cond):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                self.stats.unknown += 1
                raise Inconclusive(f'path condition: {self.solver.reason_unknown()}')
            self.model = self.solver.model()
        mv = self.model.eval(cond, model_completion=True)
        known = True if z3.is_true(mv) else (False if z3.is_false(mv) else None)
        if known is None:
            # algebraic values etc.: ask for both
            rt = self._check(cond)
            if rt == z3.unknown:
                self.stats.unknown += 1
                raise Inconclusive(f'branch: {self.solver.reason_unknown()}')
            if rt == z3.sat:
                self.model = self.solver.model()
                known = True
            else:
                known = False
        other = z3.Not(cond) if known else cond
        r = self._check(other)
        if r == z3.unknown:
            self.stats.unknown += 1
            raise Inconclusive(f'branch: {self.solver.reason_unknown()}')
        if r == z3.unsat:
            self.taken.append((known, True))
            return known, True
        # genuine fork: continue with the model's side, queue the other
        self.stats.forks += 1
        self.pending.append(self.taken + [(not known, False)])
        self.taken.append((known, False))
        self.add(cond if known else z3.Not(cond))
        return known, False

    # -- assertions ---------------------------------------------------
    def prove(self, cond, label, detail=None):
        """Discharge `pc -> cond`; raise CounterExample if refuted."""
        if _real_isinstance(cond, SBool):
            cond = cond.e
        self.checks += 1
        if cond is True:
            self.stats.proved += 1
            self.stats.trivial += 1
            return
        if cond is not False:
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                self.stats.proved += 1
                self.stats.trivial += 1
                return
            neg = z3.Not(cond)
            r = self._check(neg)
        else:
            neg = z3.BoolVal(True)
            r = self._check()
        if r == z3.unsat:
            if cond is False:
                raise PathAbort()
            self.stats.proved += 1
            return
        if r == z3.unknown:
            # second opinion with a fresh, non-incremental solver
            s = z3.Solver()
            s.set('timeout', self.timeout_ms * 3)
            s.add(*self.pc)
            s.add(neg)
            t = time.perf_counter()
            r = s.check()
            self.stats.solver_s += time.perf_counter() - t
            self.stats.queries += 1
            if r == z3.unsat:
                self.stats.proved += 1
                return
            if r == z3.unknown:
                self.stats.unknown += 1
                raise Inconclusive(f'{label}: {s.reason_unknown()}')
        raise CounterExample(label, detail, self.nice_model(neg))

    def nice_model(self, neg):
        """Find a model of pc & neg, preferring small dyadic numbers."""
        reals = [e for (k, e, d) in self.inputs.values() if k == 'real']
        ints = [e for (k, e, d) in self.inputs.values() if k == 'int']
        for scale, bound in ((1, 8), (1, 64), (8, 16), (64, 1024), (1024, 1 << 20)):
            s = z3.Solver()
            s.set('timeout', 4000)
            s.add(*self.pc)
            s.add(neg)
            for e in reals:
                s.add(z3.IsInt(e * scale), e <= bound, e >= -bound)
            t = time.perf_counter()
            r = s.check()
            self.stats.solver_s += time.perf_counter() - t
            self.stats.queries += 1
            if r == z3.sat:
                return s.model()
            if not reals:
                break
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        s.add(*self.pc)
        s.add(neg)
        r = s.check()
        if r != z3.sat:
            raise Inconclusive('model extraction')
        return s.model()

    def path_model(self):
        """A model of the path condition (nice if possible)."""
        return self.nice_model(z3.BoolVal(True))

    def input_values(self, model):
        out = {}
        for name, (kind, e, decode) in self.inputs.items():
            if not z3.is_expr(e):
                out[name] = e
                continue
            v = model.eval(e, model_completion=True)
            out[name] = decode(v)
        return out

    def fresh(self, sort, hint='v'):
        return z3.Const(f'{hint}!{next(self.seq)}', sort)

    def concretize_int(self, e, lo=None, hi=None, limit=64):
        """Fork over the feasible integer values of *e*."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(limit):
            if self.model is None and len(self.taken) >= len(self.prefix):
                r = self._check()
                if r == z3.unsat:
                    raise PathAbort()
                if r == z3.unknown:
                    raise Inconclusive('concretize')
                self.model = self.solver.model()
            # deterministic choice on re-execution comes from the prefix:
            # choose the smallest feasible value if cheap, else model value
            pos = len(self.taken)
            v = self._next_value(e, pos)
            if self.decide(e == v):
                return v
        raise Unsupported('too many values while concretizing an integer')

    def concretize_real(self, x):
        """Pin a symbolic real to one value (the path becomes partial)."""
        e = z3.simplify(x.e)
        if not z3.is_rational_value(e) and not z3.is_int_value(e):
            pos = len(self.taken)
            if pos < len(self.prefix):
                tag, v = self.prefix[pos]
                assert tag == 'r', 'non-deterministic re-execution'
            else:
                m = self.nice_model(z3.BoolVal(True))
                w = m.eval(e, model_completion=True)
                if not z3.is_rational_value(w) and not z3.is_int_value(w):
                    raise Unsupported('irrational value at a C boundary')
                v = str(w.as_fraction()) if z3.is_rational_value(w) else str(w.as_long())
            self.taken.append(('r', v))
            self.partial += 1
            f = Fraction(v)
            self.add(e == z3.Q(f.numerator, f.denominator))
            self.model = None
        else:
            f = e.as_fraction() if z3.is_rational_value(e) else Fraction(e.as_long())
        if x.kind == 'int' or (x.kind == 'num' and f.denominator == 1):
            return _real_int(f)
        return _real_float(f)

    def _next_value(self, e, pos):
        # Values must be chosen deterministically across re-executions:
        # record them in the prefix stream as ('v', value).
        if pos < len(self.prefix):
            tag, v = self.prefix[pos]
            assert tag == 'v', 'non-deterministic re-execution'
            self.taken.append((tag, v))
            return v
        v = self.model.eval(e, model_completion=True)
        v = v.as_long()
        self.taken.append(('v', v))
        return v


def set_ctx(c):
    global _CTX
    _CTX = c


# ----------------------------------------------------------------------
# helpers
# ----------------------------------------------------------------------

def to_frac(x):
    if _real_isinstance(x, Fraction):
        return x
    if _real_isinstance(x, _real_float):
        if x != x or x in (_real_float('inf'), _real_float('-inf')):
            raise Unsupported('NaN/infinity mixed with a symbolic number')
        f = Fraction(x)
        if f.denominator > 4096:
            # A constant that is the double nearest to a simple rational
            # (1/3, 0.1, ...) stands for that rational in the real model.
            g = f.limit_denominator(100000)
            if _real_float(g) == x:
                return g
        return f
    return Fraction(x)


def real_val(x):
    f = to_frac(x)
    return z3.Q(f.numerator, f.denominator)


def is_sym(x):
    return _real_isinstance(x, (SNum, SBool, SAtom))


def num_expr(x):
    """z3 arith expr for python number or symbolic; None if not a number."""
    if _real_isinstance(x, SNum):
        return x.e
    if _real_isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if _real_isinstance(x, (_real_bool, _real_int)):
        return z3.IntVal(_real_int(x))
    if _real_isinstance(x, (_real_float, Fraction)):
        return real_val(x)
    return None


def num_kind(x):
    if _real_isinstance(x, SNum):
        return x.kind
    if _real_isinstance(x, (SBool, _real_bool, _real_int)):
        return 'int'
    return 'real'


def _coerce2(a, b):
    if a.is_int() and not b.is_int():
        a = z3.ToReal(a)
    elif b.is_int() and not a.is_int():
        b = z3.ToReal(b)
    return a, b


def mk_num(e, kind):
    e = z3.simplify(e)
    if kind == 'int' and z3.is_int_value(e):
        return e.as_long()
    return SNum(e, kind)


class SBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __invert__(self):
        return mk_bool(z3.Not(self.e))

    def __and__(self, o):
        if _real_isinstance(o, SBool):
            return mk_bool(z3.And(self.e, o.e))
        if o is True or o is False:
            return self if o else False
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if _real_isinstance(o, SBool):
            return mk_bool(z3.Or(self.e, o.e))
        if o is True or o is False:
            return True if o else self
        return NotImplemented

    __ror__ = __or__

    def __eq__(self, o):
        if _real_isinstance(o, SBool):
            return mk_bool(self.e == o.e)
        if o is True or o is False:
            return mk_bool(self.e if o else z3.Not(self.e))
        n = num_expr(o)
        if n is not None:
            a, b = _coerce2(num_expr(self), n)
            return mk_bool(a == b)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if r is True or r is False else ~r

    def __hash__(self):
        return hash(bool(self))

    def as_num(self):
        return mk_num(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 'int')

    def __add__(self, o):
        return self.as_num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.as_num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.as_num() - o

    def __rsub__(self, o):
        return o - self.as_num()

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return f'<SBool {_short(self.e)}>'


def mk_bool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def _short(e):
    s = str(e)
    return s if len(s) < 60 else s[:57] + '...'


class SNum:
    """Symbolic number.  kind: 'int', 'real' (Python float, modelled as an
    exact real), or 'num' (SQLite NUMERIC: integer when integral)."""
    __slots__ = ('e', 'kind', '__weakref__')

    def __init__(self, e, kind):
        self.e = e
        self.kind = kind

    # arithmetic
    def _bin(self, o, f, kind=None):
        n = num_expr(o)
        if n is None:
            return NotImplemented
        a, b = _coerce2(self.e, n)
        k = kind or ('int' if self.kind == 'int' and num_kind(o) == 'int' else 'real')
        if k == 'real' and a.is_int():
            a, b = z3.ToReal(a), z3.ToReal(b)
        return mk_num(f(a, b), k)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if _real_isinstance(o, (list, tuple, _real_str)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        n = num_expr(o)
        if n is None:
            return NotImplemented
        return _div(self.e, n)

    def __rtruediv__(self, o):
        n = num_expr(o)
        if n is None:
            return NotImplemented
        return _div(n, self.e)

    def __floordiv__(self, o):
        n = num_expr(o)
        if n is None:
            return NotImplemented
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        return _floordiv(o, self)

    def __mod__(self, o):
        return self - _floordiv(self, o) * o

    def __rmod__(self, o):
        return o - _floordiv(o, self) * self

    def __divmod__(self, o):
        q = _floordiv(self, o)
        return q, self - q * o

    def __rdivmod__(self, o):
        q = _floordiv(o, self)
        return q, o - q * self

    def __pow__(self, o):
        if _real_isinstance(o, _real_int) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported('symbolic power')

    def __neg__(self):
        return mk_num(-self.e, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        if ctx().decide(self.e >= 0):
            return self
        return -self

    def __trunc__(self):
        if self.e.is_int():
            return self
        if ctx().decide(self.e >= 0):
            return mk_num(z3.ToInt(self.e), 'int')
        return mk_num(-z3.ToInt(-self.e), 'int')

    def __floor__(self):
        if self.e.is_int():
            return self
        return mk_num(z3.ToInt(self.e), 'int')

    def __ceil__(self):
        if self.e.is_int():
            return self
        return mk_num(-z3.ToInt(-self.e), 'int')

    def __round__(self, ndigits=None):
        if self.kind == 'int':
            return self
        scale = 1
        if ndigits:
            scale = Fraction(10) ** ndigits
        x = self.e if not self.e.is_int() else z3.ToReal(self.e)
        x = x * real_val(scale)
        fl = z3.ToInt(x)
        d = x - z3.ToReal(fl)
        half = z3.Q(1, 2)
        up = z3.Or(d > half, z3.And(d == half, fl % 2 != 0))
        r = z3.If(up, fl + 1, fl)
        if ndigits is None:
            return mk_num(r, 'int')
        return mk_num(z3.ToReal(r) / real_val(scale), 'real')

    def is_integer(self):
        if self.e.is_int():
            return True
        return mk_bool(z3.IsInt(self.e))

    # conversions at C boundaries
    def __index__(self):
        if self.kind != 'int':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ctx().concretize_int(self.e)

    def __int__(self):
        t = self.__trunc__()
        return t.__index__() if _real_isinstance(t, SNum) else t

    def __float__(self):
        return ctx().concretize_real(self)

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __hash__(self):
        if self.kind == 'int':
            return hash(self.__index__())
        return hash(ctx().concretize_real(self))

    # comparisons
    def _cmp(self, o, f):
        n = num_expr(o)
        if n is None:
            return NotImplemented
        if _real_isinstance(o, _real_float) and (o != o or o in (_real_float('inf'), -_real_float('inf'))):
            return NotImplemented
        a, b = _coerce2(self.e, n)
        return mk_bool(f(a, b))

    def __eq__(self, o):
        if o is self:
            return True
        if _real_isinstance(o, _real_float) and (o != o or abs(o) == _real_float('inf')):
            return False
        n = num_expr(o)
        if n is None:
            return False
        a, b = _coerce2(self.e, n)
        return mk_bool(a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if r is True or r is False else ~r

    def __lt__(self, o):
        if _real_isinstance(o, _real_float) and abs(o) == _real_float('inf'):
            return o > 0
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        if _real_isinstance(o, _real_float) and abs(o) == _real_float('inf'):
            return o > 0
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        if _real_isinstance(o, _real_float) and abs(o) == _real_float('inf'):
            return o < 0
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        if _real_isinstance(o, _real_float) and abs(o) == _real_float('inf'):
            return o < 0
        return self._cmp(o, lambda a, b: a >= b)

    # bit operations: exact with a constant, else concretize
    def _mask(self, m):
        """self & m for a constant m >= 0: the runs of one bits of m."""
        out, lo = 0, 0
        while m >> lo:
            if not (m >> lo) & 1:
                lo += 1
                continue
            hi = lo
            while (m >> hi) & 1:
                hi += 1
            out = self // (1 << lo) % (1 << (hi - lo)) * (1 << lo) + out
            lo = hi
        return out

    def __and__(self, o):
        if self.kind == 'int' and type(o) in (_real_int, bool):
            return self._mask(o) if o >= 0 else self - self._mask(~o)
        return self.__index__() & o

    __rand__ = __and__

    def __or__(self, o):
        if self.kind == 'int' and type(o) in (_real_int, bool):
            return self + o - (self & o)
        return self.__index__() | o

    __ror__ = __or__

    def __xor__(self, o):
        if self.kind == 'int' and type(o) in (_real_int, bool):
            return self + o - (self & o) * 2
        return self.__index__() ^ o

    __rxor__ = __xor__

    def __invert__(self):
        if self.kind != 'int':
            raise TypeError('bad operand type for unary ~')
        return -self - 1

    def __lshift__(self, o):
        if _real_isinstance(o, _real_int):
            return self * (1 << o)
        return self.__index__() << o

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if _real_isinstance(o, _real_int):
            return self // (1 << o)
        return self.__index__() >> o

    def __rrshift__(self, o):
        return o >> self.__index__()

    @property
    def real(self):
        return self

    def __repr__(self):
        return f'<{self.kind} {_short(self.e)}>'

    def __str__(self):
        return f'<{self.kind} {_short(self.e)}>'

    def __format__(self, spec):
        return str(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')


def _div(a, b):
    if ctx().decide(z3.simplify(b == 0)):
        raise ZeroDivisionError('division by zero')
    if a.is_int():
        a = z3.ToReal(a)
    if b.is_int():
        b = z3.ToReal(b)
    return mk_num(a / b, 'real')


def _floordiv(x, y):
    a, b = num_expr(x), num_expr(y)
    if ctx().decide(z3.simplify(b == 0)):
        raise ZeroDivisionError('integer division or modulo by zero')
    kind = 'int' if num_kind(x) == 'int' and num_kind(y) == 'int' else 'real'
    if kind == 'int':
        if ctx().decide(z3.simplify(b > 0)):
            return mk_num(a / b, 'int')
        return mk_num((-a) / (-b), 'int')
    a = a if not a.is_int() else z3.ToReal(a)
    b = b if not b.is_int() else z3.ToReal(b)
    return mk_num(z3.ToReal(z3.ToInt(a / b)), 'real')


class SAtom:
    """Symbolic string drawn from a finite, sorted universe of strings.

    Stands for a label/category whose only observable structure is
    equality and order with the other strings of the universe; any other
    string operation concretizes (forks over its feasible values)."""
    __slots__ = ('e', 'uni', '__weakref__')

    def __init__(self, e, uni):
        self.e = e
        self.uni = uni       # tuple of sorted strings

    def concretize(self):
        i = ctx().concretize_int(self.e, limit=len(self.uni) + 1)
        return self.uni[i]

    def _code(self, o):
        if _real_isinstance(o, SAtom):
            if o.uni is not self.uni and o.uni != self.uni:
                raise Unsupported('mixing label universes')
            return o.e
        if _real_isinstance(o, _real_str):
            try:
                return z3.IntVal(self.uni.index(o))
            except ValueError:
                return None
        return NotImplemented

    def __eq__(self, o):
        if o is self:
            return True
        c = self._code(o)
        if c is NotImplemented or c is None:
            return False
        return mk_bool(self.e == c)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if r is True or r is False else ~r

    def _ord(self, o, f, strict_below):
        c = self._code(o)
        if c is NotImplemented:
            return NotImplemented
        if c is None:
            # position of a foreign string in the universe order
            import bisect
            k = bisect.bisect_left(self.uni, o)
            return mk_bool(self.e < k) if strict_below else mk_bool(self.e >= k)
        return mk_bool(f(self.e, c))

    def __lt__(self, o):
        return self._ord(o, lambda a, b: a < b, True)

    def __le__(self, o):
        return self._ord(o, lambda a, b: a <= b, True)

    def __gt__(self, o):
        return self._ord(o, lambda a, b: a > b, False)

    def __ge__(self, o):
        return self._ord(o, lambda a, b: a >= b, False)

    def __bool__(self):
        if '' in self.uni:
            return ctx().decide(self.e != self.uni.index(''))
        return True

    def __hash__(self):
        return hash(self.concretize())

    def __len__(self):
        return len(self.concretize())

    def __iter__(self):
        return iter(self.concretize())

    def __getitem__(self, i):
        return self.concretize()[i]

    def __contains__(self, o):
        return o in self.concretize()

    def __add__(self, o):
        return self.concretize() + o

    def __radd__(self, o):
        return o + self.concretize()

    def __mod__(self, o):
        return self.concretize() % o

    def __str__(self):
        return self.concretize()

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def __repr__(self):
        if _CTX is None:
            return f'<atom {_short(self.e)}>'
        return repr(self.concretize())

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        m = getattr(_real_str, name, None)
        if m is None:
            raise AttributeError(f"'str' object has no attribute {name!r}")
        return getattr(self.concretize(), name)


def concretize(x):
    """Deep-concretize atoms and ints inside plain containers."""
    if _real_isinstance(x, TEXT):
        return x.concretize()
    if _real_isinstance(x, SBool):
        return bool(x)
    if _real_isinstance(x, SNum):
        if x.kind == 'int':
            return x.__index__()
        return ctx().concretize_real(x)
    if type(x) is dict:
        return {concretize(k): concretize(v) for k, v in x.items()}
    if type(x) is list:
        return [concretize(v) for v in x]
    if type(x) is tuple:
        return tuple(concretize(v) for v in x)
    if type(x) is set:
        return {concretize(v) for v in x}
    return x


def contains_sym(x, depth=4):
    if is_sym(x):
        return True
    if depth and _real_isinstance(x, dict):
        return any(contains_sym(k, depth - 1) or contains_sym(v, depth - 1) for k, v in x.items())
    if depth and _real_isinstance(x, (list, tuple, set, frozenset)):
        return any(contains_sym(v, depth - 1) for v in x)
    return False


# ----------------------------------------------------------------------
# replacements for builtins shadowed in the modules under test
# ----------------------------------------------------------------------

class _Meta(type):
    def __instancecheck__(cls, obj):
        return sym_isinstance(obj, cls._target)

    def __subclasscheck__(cls, sub):
        return issubclass(getattr(sub, '_target', sub), cls._target)

    def __getattr__(cls, name):
        return getattr(type.__getattribute__(cls, '_target'), name)

    def __eq__(cls, other):
        return cls is other or type.__getattribute__(cls, '_target') is other

    def __hash__(cls):
        return hash(type.__getattribute__(cls, '_target'))


import numbers as _numbers
from collections import abc as _abc


def sym_isinstance(obj, cls):
    if _real_isinstance(obj, SNum):
        cs = cls if type(cls) is tuple else (cls,)
        for c in cs:
            if type(c) is tuple:
                if sym_isinstance(obj, c):
                    return True
                continue
            c = getattr(c, '_target', c)
            if c is object or c is _abc.Hashable:
                return True
            if obj.kind == 'int':
                if c in (_real_int, _numbers.Integral, _numbers.Rational, _numbers.Real, _numbers.Number, _numbers.Complex):
                    return True
            elif c in (_real_float, _numbers.Real, _numbers.Number, _numbers.Complex):
                return True
        return False
    if _real_isinstance(obj, SBool):
        cs = cls if type(cls) is tuple else (cls,)
        return any(getattr(c, '_target', c) in (_real_bool, _real_int, object) for c in cs)
    if _real_isinstance(obj, TEXT):
        cs = cls if type(cls) is tuple else (cls,)
        for c in cs:
            if type(c) is tuple:
                if sym_isinstance(obj, c):
                    return True
                continue
            c = getattr(c, '_target', c)
            if c in (_real_str, object, _abc.Hashable, _abc.Iterable, _abc.Sized,
                     _abc.Container, _abc.Collection, _abc.Sequence, _abc.Reversible):
                return True
        return False
    if type(cls) is tuple:
        cls = tuple(getattr(c, '_target', c) for c in cls)
    else:
        cls = getattr(cls, '_target', cls)
    return _real_isinstance(obj, cls)


from_text = None     # set by symcrc


class sym_int(metaclass=_Meta):
    _target = int

    def __new__(cls, x=0, *a):
        if _real_isinstance(x, SNum):
            return x.__trunc__()
        if _real_isinstance(x, SBool):
            return x.as_num()
        if _real_isinstance(x, TEXT):
            x = x.concretize()
        if type(x) is _real_str and from_text is not None:
            v = from_text(x, *a)
            if v is not None:
                return v
        return _real_int(x, *a)

    from_bytes = _real_int.from_bytes
    to_bytes = _real_int.to_bytes
    bit_length = _real_int.bit_length


class sym_float(metaclass=_Meta):
    _target = float

    def __new__(cls, x=0.0):
        if _real_isinstance(x, SNum):
            return SNum(x.e if not x.e.is_int() else z3.ToReal(x.e), 'real')
        if _real_isinstance(x, SBool):
            return sym_float(x.as_num())
        if _real_isinstance(x, TEXT):
            x = x.concretize()
        return _real_float(x)

    fromhex = _real_float.fromhex


class sym_str(metaclass=_Meta):
    _target = str

    def __new__(cls, x='', *a, **k):
        if _real_isinstance(x, TEXT):
            return x
        return _real_str(x, *a, **k)

    join = _real_str.join
    maketrans = _real_str.maketrans


class sym_bool(metaclass=_Meta):
    _target = bool

    def __new__(cls, x=False):
        return _real_bool(x)


class sym_type(metaclass=_Meta):
    _target = type

    def __new__(cls, obj, *rest):
        if rest:
            return type(obj, *rest)
        if _real_isinstance(obj, SNum):
            return _real_int if obj.kind == 'int' else _real_float
        if _real_isinstance(obj, TEXT):
            return _real_str
        if _real_isinstance(obj, SBool):
            return _real_bool
        return type(obj)


from .symstr import SStr    # noqa: E402
TEXT = (SAtom, SStr)
