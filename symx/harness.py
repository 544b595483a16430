"""Harness API shared by symbolic and concrete execution.

A scenario is a Python function `scenario(h)` that builds inputs with
`h`, runs real toron code and states assertions with `h.check*`.  In
symbolic mode the inputs are solver variables; in concrete mode (replay
of a counterexample, validation of a path model) they are plain values
and the code runs on the real sqlite3 module.
"""
import contextlib
import math
import os
import shutil
import tempfile
from fractions import Fraction


class AssumptionFailed(Exception):
    pass


class CheckFailed(Exception):
    def __init__(self, label, detail):
        super().__init__(f'{label}: {detail}')
        self.label = label
        self.detail = detail


SCENARIOS = {}


class Scenario:
    def __init__(self, fn, tiers, params, doc):
        self.fn = fn
        self.name = fn.__name__
        self.tiers = tiers
        self.params = params
        self.doc = doc


def scenario(quick=None, thorough=None, tiers=('quick', 'thorough')):
    """Register a scenario; `quick`/`thorough` are its bounds (dicts)."""
    def deco(fn):
        q = dict(quick or {})
        t = dict(q, **(thorough or {}))
        SCENARIOS[fn.__name__] = Scenario(fn, tiers, {'quick': q, 'thorough': t},
                                          (fn.__doc__ or '').strip())
        return fn
    return deco


class Base:
    symbolic = False
    exc = None

    def __init__(self, bounds):
        self.bounds = dict(bounds or {})
        self.observations = []
        self.reached = set()
        self._tmp = None
        self.notes = []

    def bound(self, name):
        return self.bounds[name]

    # -- scratch files
    def scratch(self):
        if self._tmp is None:
            base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
            self._tmp = tempfile.mkdtemp(prefix='symx-', dir=base)
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            for root, dirs, files in os.walk(self._tmp):
                for d in dirs:
                    with contextlib.suppress(OSError):
                        os.chmod(os.path.join(root, d), 0o700)
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def reach(self, label):
        """Record that a program point was reached (vacuity witness)."""
        self.reached.add(label)

    # -- logic usable in both modes
    @staticmethod
    def all_(conds):
        r = True
        for c in conds:
            if c is False:
                return False
            if c is True:
                continue
            r = c if r is True else r & c
        return r

    @staticmethod
    def any_(conds):
        r = False
        for c in conds:
            if c is True:
                return True
            if c is False:
                continue
            r = c if r is False else r | c
        return r

    @staticmethod
    def not_(c):
        if c is True or c is False:
            return not c
        return ~c if not isinstance(c, bool) else not c

    def implies(self, a, b):
        return self.any_([self.not_(a), b])

    def sha256(self, chunks):
        """Digest of a stream of byte strings (real or symbolic)."""
        import hashlib
        if self.symbolic:
            from . import symhash as hashlib_
            h = hashlib_.Hash('sha256')
        else:
            h = hashlib.sha256()
        for c in chunks:
            h.update(c)
        return h.hexdigest()

    def sum_(self, xs):
        t = 0
        for x in xs:
            t = t + x
        return t

    def subset(self, name, items, nonempty=False):
        out = [x for i, x in enumerate(items) if self.flag(f'{name}[{i}]')]
        if nonempty:
            self.assume(bool(out))
        return out

    def older_sqlite(self, version=(3, 26, 0), omitted=()):
        """Context in which `import toron` gives a copy of the package that runs on an older SQLite build."""
        from .older import older
        return older(self.sql, self.symbolic, version, tuple(omitted))

    def check_eq(self, a, b, label, detail=None):
        self.check(self.eq(a, b), label, detail if detail is not None else [a, b])

    def check_same(self, a, b, label):
        """Structural equality of nested plain data (dict/list/tuple/set)."""
        self.check(self.same(a, b), label, [a, b])

    def same(self, a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            return self.all_([self.same(a[k], b[k]) for k in a])
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.all_([self.same(x, y) for x, y in zip(a, b)])
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return set(a) == set(b)
        if a is None or b is None:
            return a is None and b is None
        return self.eq(a, b)

    def permutation(self, name, items):
        """Every order of *items* (by forking)."""
        items = list(items)
        out = []
        while len(items) > 1:
            i = self.choice(f'{name}@{len(out)}', range(len(items)))
            out.append(items.pop(i))
        return out + items


class Concrete(Base):
    """Concrete mode: inputs come from *values*."""

    def __init__(self, bounds, values, sql):
        super().__init__(bounds)
        self.values = values
        self.sql = sql
        self.failures = []

    def _get(self, name, default):
        v = self.values.get(name)
        return default if v is None else v

    def real(self, name, lo=None, hi=None, kind='real'):
        v = self._get(name, None)
        if v is None:
            v = lo if lo is not None else (min(0, hi) if hi is not None else 0)
        v = Fraction(v)
        return float(v)

    def number(self, name, lo=None, hi=None):
        return self.real(name, lo, hi)

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def word(self, name, width, nonzero=False):
        return int(self._get(name, 0))

    def bytes_of(self, a, n):
        return a.to_bytes(n, 'big')

    def tokens(self):
        pass

    def choice(self, name, options):
        options = list(options)
        return options[int(self._get(name, 0))]

    def flag(self, name):
        return bool(int(self._get(name, 0)))

    def label(self, name, universe):
        universe = tuple(sorted(universe))
        return self._get(name, universe[0])

    def text(self, name, maxlen, alphabet, minlen=0):
        return self._get(name, sorted(alphabet)[0] * minlen)

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def check(self, cond, label, detail=None):
        if not cond:
            raise CheckFailed(label, _plain(detail))

    def _num(self, x):
        return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)

    def eq(self, a, b):
        if self._num(a) and self._num(b):
            return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
        return a == b

    def le(self, a, b):
        return a <= b + 1e-7 * max(1.0, abs(a), abs(b))

    def lt(self, a, b):
        return a < b + 1e-7 * max(1.0, abs(a), abs(b))

    def lt_strict(self, a, b):
        return a < b

    def floor(self, a):
        return math.floor(a + 1e-9 * max(1.0, abs(a)))

    def mul(self, a, b):
        return a * b

    def ite(self, c, a, b):
        return a if c else b

    def is_integer(self, a):
        return abs(a - round(a)) <= 1e-7 * max(1.0, abs(a))

    def observe(self, label, value):
        self.observations.append((label, _plain(value)))

    def decided(self, cond):
        return bool(cond)

    def flip(self, a, d, first):
        return a ^ d << first


def _plain(x):
    if isinstance(x, Fraction):
        return float(x)
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, dict):
        return [[_plain(k), _plain(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((_plain(v) for v in x), key=repr)
    if isinstance(x, bytes):
        return x.hex()
    return repr(x)
