"""Symbolic strings: concrete length, symbolic characters.

A text input forks on its length; every character is a solver integer
(code point) constrained to the input's alphabet.  Comparisons, slices,
searches and case mapping become formulas; operations without a symbolic
meaning (hashing, C-level parsing) fork over the feasible values."""
import z3

from . import core
from .core import SBool, SNum, SAtom, mk_bool, ctx

SPACES = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0]
LINES = [10, 11, 12, 13, 28, 29, 30, 0x85]


def code(ch):
    return ch if isinstance(ch, int) else ch


def _b(x):
    if x is True or x is False:
        return z3.BoolVal(x)
    return x


def _and(xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    return True if not out else out[0] if len(out) == 1 else z3.And(*out)


def _or(xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    return False if not out else out[0] if len(out) == 1 else z3.Or(*out)


def _bool(x):
    return x if x is True or x is False else mk_bool(x)


def _dec(x):
    return x if x is True or x is False else ctx().decide(x)


def ceq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return a == b


def cin(a, codes):
    if isinstance(a, int):
        return a in codes
    return _or([a == c for c in codes])


def cbetween(a, lo, hi):
    if isinstance(a, int):
        return lo <= a <= hi
    return z3.And(a >= lo, a <= hi)


def make(cs):
    cs = tuple(cs)
    if all(isinstance(c, int) for c in cs):
        return ''.join(map(chr, cs))
    return SStr(cs)


def chars(s):
    if isinstance(s, SStr):
        return s.cs
    if isinstance(s, SAtom):
        s = s.concretize()
    if isinstance(s, str):
        return tuple(map(ord, s))
    return None


class SStr:
    __slots__ = ('cs', '__weakref__')

    def __init__(self, cs):
        self.cs = tuple(cs)

    # -- forcing
    def concretize(self):
        out = []
        for c in self.cs:
            out.append(c if isinstance(c, int) else ctx().concretize_int(c, limit=300))
        return ''.join(map(chr, out))

    def __hash__(self):
        return hash(self.concretize())

    def __str__(self):
        return self.concretize()

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def __repr__(self):
        if core._CTX is None:
            return '<text>'
        return repr(self.concretize())

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- structure
    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __iter__(self):
        return (make((c,)) for c in self.cs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return make(self.cs[i])
        return make((self.cs[i],))

    def __add__(self, o):
        o = chars(o)
        if o is None:
            return NotImplemented
        return make(self.cs + o)

    def __radd__(self, o):
        o = chars(o)
        if o is None:
            return NotImplemented
        return make(o + self.cs)

    def __mul__(self, n):
        return make(self.cs * n)

    def _match(self, pos, o):
        if pos < 0 or pos + len(o) > len(self.cs):
            return False
        return _and([ceq(self.cs[pos + k], o[k]) for k in range(len(o))])

    def __eq__(self, o):
        if o is self:
            return True
        c = chars(o)
        if c is None:
            return False
        if len(c) != len(self.cs):
            return False
        return _bool(self._match(0, c))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if r is True or r is False else ~r

    def _less(self, o, strict):
        a, b = self.cs, o
        r = len(a) < len(b) if strict else len(a) <= len(b)
        for k in reversed(range(min(len(a), len(b)))):
            x, y = a[k], b[k]
            if isinstance(x, int) and isinstance(y, int):
                r = True if x < y else False if x > y else r
            else:
                r = z3.Or(x < y, z3.And(x == y, _b(r)))
        return r

    def __lt__(self, o):
        c = chars(o)
        return NotImplemented if c is None else _bool(self._less(c, True))

    def __le__(self, o):
        c = chars(o)
        return NotImplemented if c is None else _bool(self._less(c, False))

    def __gt__(self, o):
        r = self.__le__(o)
        return r if r is NotImplemented else (not r) if r is True or r is False else ~r

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else (not r) if r is True or r is False else ~r

    def __contains__(self, o):
        c = chars(o)
        if c is None:
            raise TypeError("'in <string>' requires string as left operand")
        return _dec(_or([self._match(k, c) for k in range(len(self.cs) - len(c) + 1)]))

    # -- str methods
    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return _bool(_or([self[start:end].startswith_raw(x) for x in p]))
        s = self if not start and end is None else SStr(self.cs[start:end])
        return _bool(s._match(0, chars(p)))

    def startswith_raw(self, p):
        return self._match(0, chars(p))

    def endswith(self, p, *a):
        if a:
            return getattr(self.concretize(), 'endswith')(p, *a)
        ps = p if isinstance(p, tuple) else (p,)
        return _bool(_or([self._match(len(self.cs) - len(chars(x)), chars(x)) for x in ps]))

    def find(self, o, start=0, end=None):
        c = chars(o)
        end = len(self.cs) if end is None else end
        for k in range(start, end - len(c) + 1):
            if _dec(self._match(k, c)):
                return k
        return -1

    def rfind(self, o):
        c = chars(o)
        for k in reversed(range(len(self.cs) - len(c) + 1)):
            if _dec(self._match(k, c)):
                return k
        return -1

    def index(self, o, *a):
        k = self.find(o, *a)
        if k < 0:
            raise ValueError('substring not found')
        return k

    def count(self, o):
        c = chars(o)
        n = k = 0
        while k + len(c) <= len(self.cs):
            if _dec(self._match(k, c)):
                n += 1
                k += len(c) or 1
            else:
                k += 1
        return n

    def partition(self, o):
        k = self.find(o)
        if k < 0:
            return self, '', ''
        return make(self.cs[:k]), o, make(self.cs[k + len(o):])

    def rpartition(self, o):
        k = self.rfind(o)
        if k < 0:
            return '', '', self
        return make(self.cs[:k]), o, make(self.cs[k + len(o):])

    def replace(self, old, new, count=-1):
        old, new = chars(old), chars(new)
        if not old:
            raise core.Unsupported('replace of empty string')
        out, k, n = [], 0, 0
        while k < len(self.cs):
            if n != count and k + len(old) <= len(self.cs) and _dec(self._match(k, old)):
                out.extend(new)
                k += len(old)
                n += 1
            else:
                out.append(self.cs[k])
                k += 1
        return make(out)

    def _space(self, c, codes=None):
        return _dec(cin(c, SPACES if codes is None else codes))

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur = []
            cs = self.cs
            k = 0
            while k < len(cs):
                if self._space(cs[k]):
                    if cur:
                        out.append(make(cur))
                        cur = []
                elif not cur and maxsplit >= 0 and len(out) == maxsplit:
                    out.append(make(cs[k:]).rstrip())
                    return out
                else:
                    cur.append(cs[k])
                k += 1
            if cur:
                out.append(make(cur))
            return out
        o = chars(sep)
        cur, k = [], 0
        while k < len(self.cs):
            if (maxsplit < 0 or len(out) < maxsplit) and k + len(o) <= len(self.cs) and _dec(self._match(k, o)):
                out.append(make(cur))
                cur = []
                k += len(o)
            else:
                cur.append(self.cs[k])
                k += 1
        out.append(make(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        return self.concretize().rsplit(sep, maxsplit)

    def splitlines(self, keepends=False):
        out, cur, k = [], [], 0
        while k < len(self.cs):
            c = self.cs[k]
            if self._space(c, LINES):
                end = [c]
                if k + 1 < len(self.cs) and _dec(_and([ceq(c, 13), ceq(self.cs[k + 1], 10)])):
                    end.append(self.cs[k + 1])
                    k += 1
                out.append(make(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(c)
            k += 1
        if cur:
            out.append(make(cur))
        return out

    def lstrip(self, cset=None):
        codes = SPACES if cset is None else chars(cset)
        k = 0
        while k < len(self.cs) and self._space(self.cs[k], codes):
            k += 1
        return make(self.cs[k:])

    def rstrip(self, cset=None):
        codes = SPACES if cset is None else chars(cset)
        k = len(self.cs)
        while k and self._space(self.cs[k - 1], codes):
            k -= 1
        return make(self.cs[:k])

    def strip(self, cset=None):
        r = self.lstrip(cset)
        return r.rstrip(cset)

    def removeprefix(self, p):
        return make(self.cs[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return make(self.cs[:len(self.cs) - len(p)]) if p and self.endswith(p) else self

    def _map(self, lo, hi, d, name):
        if getattr(ctx(), 'wide_text', False):   # outside ASCII case mapping may change the length: fork over the characters
            return getattr(self.concretize(), name)()
        out = []
        for c in self.cs:
            if isinstance(c, int):
                if c > 127:
                    raise core.Unsupported('case mapping outside ASCII')
                out.append(c + d if lo <= c <= hi else c)
            else:
                out.append(z3.If(z3.And(c >= lo, c <= hi), c + d, c))
        return make(out)

    def upper(self):
        return self._map(97, 122, -32, 'upper')

    def lower(self):
        return self._map(65, 90, 32, 'lower')

    def casefold(self):
        return self._map(65, 90, 32, 'casefold')

    def _all(self, f):
        if not self.cs:
            return False
        return _bool(_and([f(c) for c in self.cs]))

    def isspace(self):
        return self._all(lambda c: cin(c, SPACES))

    def isdigit(self):
        return self._all(lambda c: cbetween(c, 48, 57))

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(lambda c: _or([cbetween(c, 65, 90), cbetween(c, 97, 122)]))

    def isalnum(self):
        return self._all(lambda c: _or([cbetween(c, 48, 57), cbetween(c, 65, 90), cbetween(c, 97, 122)]))

    def join(self, xs):
        out = ()
        for i, x in enumerate(xs):
            if i:
                out += self.cs
            out += chars(x)
        return make(out)

    def ljust(self, n, fill=' '):
        return make(self.cs + chars(fill) * max(0, n - len(self.cs)))

    def rjust(self, n, fill=' '):
        return make(chars(fill) * max(0, n - len(self.cs)) + self.cs)

    def encode(self, *a, **k):
        return self.concretize().encode(*a, **k)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if getattr(str, name, None) is None:
            raise AttributeError(f"'str' object has no attribute {name!r}")
        return getattr(self.concretize(), name)


BASE = 1 << 21


def encode(cs):
    """Solver integer that names the string (decoded by `decode`)."""
    e = 0
    for k, c in enumerate(cs):
        e = e + c * BASE ** k
    return e + BASE ** len(cs)


def decode(n):
    out = []
    while n > 1:
        out.append(chr(n % BASE))
        n //= BASE
    return ''.join(out)
