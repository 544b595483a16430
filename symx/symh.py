"""Symbolic implementation of the harness API."""
import math

import z3

from . import core, fakesql, symhash, symstr
from .core import SNum, SBool, SAtom, mk_bool, mk_num, num_expr, real_val
from .harness import Base, _plain


def _dec_real(v):
    if z3.is_rational_value(v):
        return str(v.as_fraction())
    if z3.is_int_value(v):
        return str(v.as_long())
    if z3.is_algebraic_value(v):
        return str(v.approx(20).as_fraction())
    return '0'


def _dec_int(v):
    return v.as_long() if (z3.is_int_value(v) or z3.is_bv_value(v)) else 0


class Symbolic(Base):
    symbolic = True

    def __init__(self, bounds, ctx):
        super().__init__(bounds)
        self.ctx = ctx
        self.sql = fakesql

    def _new(self, name):
        if name in self.ctx.inputs:
            raise RuntimeError(f'duplicate input {name}')

    # -- inputs
    def real(self, name, lo=None, hi=None, kind='real'):
        """A float, modelled as an exact real number in [lo, hi]."""
        self._new(name)
        e = z3.Real(name)
        self.ctx.inputs[name] = ('real', e, _dec_real)
        if lo is not None:
            self.ctx.assume(e >= real_val(lo))
        if hi is not None:
            self.ctx.assume(e <= real_val(hi))
        return SNum(e, kind)

    def number(self, name, lo=None, hi=None):
        return self.real(name, lo, hi)

    def int(self, name, lo, hi):
        """A symbolic int in [lo, hi] (not enumerated)."""
        self._new(name)
        e = z3.Int(name)
        self.ctx.inputs[name] = ('int', e, _dec_int)
        self.ctx.assume(z3.And(e >= lo, e <= hi))
        return SNum(e, 'int')

    def word(self, name, width, nonzero=False):
        """A symbolic non-negative int of *width* bits."""
        self._new(name)
        e = z3.BitVec(name, width)
        if nonzero:
            self.ctx.assume(e != 0)
        self.ctx.inputs[name] = ('int', z3.BV2Int(e), _dec_int)
        return SNum(z3.BV2Int(e), 'int')

    def flip(self, a, d, first):
        """The word a with the bits of d, from bit *first* on, inverted."""
        x, y = a.e.arg(0), d.e.arg(0)
        y = z3.ZeroExt(x.size() - y.size() - first, y)
        if first:
            y = z3.Concat(y, z3.BitVecVal(0, first))
        return SNum(z3.BV2Int(x ^ y), 'int')

    def bytes_of(self, a, n):
        return symhash.SBytes(a.e, n)

    def tokens(self):
        """Allow symbolic numbers to be written into text and read back."""
        self.ctx.tokens = []

    def choice(self, name, options):
        """One of *options*; every one is explored (forks)."""
        options = list(options)
        if len(options) == 1:
            self._new(name)
            self.ctx.inputs[name] = ('choice', 0, None)
            return options[0]
        self._new(name)
        e = z3.Int(name)
        self.ctx.inputs[name] = ('choice', e, _dec_int)
        self.ctx.assume(z3.And(e >= 0, e < len(options)))
        return options[self._index(e, len(options))]

    def _index(self, e, n):
        for i in range(n - 1):
            if self.ctx.decide(e == i):
                return i
        return n - 1

    def flag(self, name):
        self._new(name)
        e = z3.Bool(name)
        self.ctx.inputs[name] = ('flag', z3.If(e, z3.IntVal(1), z3.IntVal(0)), _dec_int)
        return self.ctx.decide(e)

    def label(self, name, universe):
        """A symbolic string from a finite universe (forks only when the
        code distinguishes the values)."""
        self._new(name)
        universe = tuple(sorted(universe))
        if len(universe) == 1:
            self.ctx.inputs[name] = ('label', universe[0], None)
            return universe[0]
        e = z3.Int(name)
        self.ctx.inputs[name] = ('label', e, lambda v: universe[_dec_int(v)])
        self.ctx.assume(z3.And(e >= 0, e < len(universe)))
        return SAtom(e, universe)

    def text(self, name, maxlen, alphabet, minlen=0):
        """A symbolic string over *alphabet* with at most *maxlen* characters."""
        self._new(name)
        n = z3.Int(name + '#len')
        self.ctx.assume(z3.And(n >= minlen, n <= maxlen))
        size = maxlen
        for k in range(minlen, maxlen):
            if self.ctx.decide(n == k):
                size = k
                break
        codes = sorted(set(map(ord, alphabet)))
        if codes[-1] > 127:
            self.ctx.wide_text = True
        cs = []
        for k in range(size):
            c = z3.Int(f'{name}[{k}]')
            runs = []
            for x in codes:
                if runs and runs[-1][1] == x - 1:
                    runs[-1][1] = x
                else:
                    runs.append([x, x])
            self.ctx.assume(z3.Or(*[z3.And(c >= lo, c <= hi) for lo, hi in runs]))
            cs.append(c)
        e = symstr.encode(cs)
        self.ctx.inputs[name] = ('text', e if cs else z3.IntVal(e), lambda v: symstr.decode(_dec_int(v)))
        return symstr.SStr(cs) if cs else ''

    # -- statements
    def assume(self, cond):
        self.ctx.assume(cond)

    def check(self, cond, label, detail=None):
        if not isinstance(cond, (bool, SBool)):
            cond = bool(cond)
        self.ctx.prove(cond, label, _safe(detail))

    def eq(self, a, b):
        if isinstance(a, SNum) or isinstance(b, SNum):
            na, nb = num_expr(a), num_expr(b)
            if na is None or nb is None:
                return a == b
            x, y = core._coerce2(na, nb)
            return mk_bool(x == y)
        if isinstance(a, float) and isinstance(b, (int, float)) or isinstance(b, float) and isinstance(a, (int, float)):
            return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
        return a == b

    def le(self, a, b):
        return a <= b

    def lt(self, a, b):
        return a < b

    def lt_strict(self, a, b):
        return a < b

    def floor(self, a):
        return a.__floor__() if isinstance(a, SNum) else math.floor(a)

    def mul(self, a, b):
        return a * b

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        x, y = core._coerce2(num_expr(a), num_expr(b))
        return mk_num(z3.If(c.e, x, y), 'real')

    def is_integer(self, a):
        if isinstance(a, SNum):
            return a.is_integer()
        return a == int(a)

    def observe(self, label, value):
        self.observations.append((label, value))

    def decided(self, cond):
        return bool(cond)


def _safe(x):
    try:
        return _plain_sym(x)
    except Exception:
        return None


def _plain_sym(x):
    if isinstance(x, symstr.SStr):
        return str(x.cs)[:400]
    if isinstance(x, (SNum, SBool, SAtom)):
        return str(x.e)[:400]
    if isinstance(x, dict):
        return [[_plain_sym(k), _plain_sym(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_plain_sym(v) for v in x]
    return _plain(x)


def eval_obs(x, model):
    """Value of an observed structure under a model (plain data)."""
    if isinstance(x, SNum):
        v = model.eval(x.e, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long() if x.kind != 'real' else float(v.as_long())
        if z3.is_rational_value(v):
            f = v.as_fraction()
            if x.kind == 'int' or (x.kind == 'num' and f.denominator == 1):
                return int(f)
            return float(f)
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        return None
    if isinstance(x, SBool):
        return z3.is_true(model.eval(x.e, model_completion=True))
    if isinstance(x, SAtom):
        return x.uni[model.eval(x.e, model_completion=True).as_long()]
    if isinstance(x, symstr.SStr):
        return ''.join(chr(c if isinstance(c, int) else model.eval(c, model_completion=True).as_long()) for c in x.cs)
    if isinstance(x, dict):
        return [[eval_obs(k, model), eval_obs(v, model)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [eval_obs(v, model) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((eval_obs(v, model) for v in x), key=repr)
    return _plain(x)
