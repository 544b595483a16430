"""hashlib for symbolic inputs: a digest stands for the bytes that were hashed.

Two digests are equal exactly if the hashed byte streams are equal, i.e.
the hash function itself is assumed to be free of collisions.  Streams
without symbolic parts are hashed with the real function."""
import hashlib as _real
import types

import z3

from .core import SNum, mk_bool

_known = {}        # (name, hexdigest) -> stream of the concrete digests


class SBytes:
    """A big-endian byte string of fixed length whose value is symbolic."""

    def __init__(self, e, n, reverse=False):
        self.e, self.n, self.reverse = e, n, reverse

    def __len__(self):
        return self.n

    def byte(self, k):
        if self.reverse:
            k = self.n - 1 - k
        return (self.e / (256 ** (self.n - 1 - k))) % 256


def to_bytes(num, length=1, byteorder='big', *, signed=False):
    if num.kind != 'int':
        raise TypeError('to_bytes() of a symbolic real')
    lo, hi = (-(1 << 8 * length - 1), (1 << 8 * length - 1) - 1) if signed else (0, (1 << 8 * length) - 1)
    from .core import ctx
    fits = z3.is_app_of(num.e, z3.Z3_OP_BV2INT) and num.e.arg(0).size() <= 8 * length - bool(signed)
    if fits:
        return SBytes(num.e, length, byteorder == 'little')
    if not ctx().decide(z3.And(num.e >= lo, num.e <= hi)):
        raise OverflowError('int too big to convert')
    e = num.e if not signed else z3.If(num.e < 0, num.e + (1 << 8 * length), num.e)
    return SBytes(e, length, byteorder == 'little')


def bit_length(num):
    from .core import ctx
    n = 0
    while ctx().decide(z3.Or(num.e >= (1 << n), num.e <= -(1 << n))):
        n += 1
        if n > 80:
            raise OverflowError('bit_length() of an unbounded symbolic integer')
    return n


SNum.to_bytes = to_bytes
SNum.bit_length = bit_length


def stream_eq(a, b):
    if sum(map(len, a)) != sum(map(len, b)):
        return False
    if [len(x) for x in a] == [len(x) for x in b]:
        conds = []
        for x, y in zip(a, b):
            if isinstance(x, bytes) and isinstance(y, bytes):
                if x != y:
                    return False
                continue
            rx, ry = getattr(x, 'reverse', ry_default(y)), getattr(y, 'reverse', ry_default(x))
            if rx != ry:
                conds += [bx == by for bx, by in zip(list_bytes(x), list_bytes(y))]
                continue
            vx = x.e if isinstance(x, SBytes) else z3.IntVal(int.from_bytes(x, 'little' if ry else 'big'))
            vy = y.e if isinstance(y, SBytes) else z3.IntVal(int.from_bytes(y, 'little' if rx else 'big'))
            conds.append(vx == vy)
    else:
        fa = [v for x in a for v in list_bytes(x)]
        fb = [v for x in b for v in list_bytes(x)]
        conds = [x == y for x, y in zip(fa, fb)]
    if any(c is False for c in conds):
        return False
    conds = [c for c in conds if c is not True]
    return mk_bool(z3.And(*conds)) if conds else True


def ry_default(other):
    return getattr(other, 'reverse', False)


def list_bytes(x):
    if isinstance(x, SBytes):
        return [x.byte(k) for k in range(x.n)]
    return [z3.IntVal(v) for v in x]


class SDigest:
    """Digest of a stream that has symbolic parts."""

    def __init__(self, name, stream):
        self.name, self.stream = name, list(stream)

    def __eq__(self, o):
        if isinstance(o, SDigest):
            return self.name == o.name and stream_eq(self.stream, o.stream)
        if isinstance(o, (str, bytes)):
            other = _known.get((self.name, o))
            return False if other is None else stream_eq(self.stream, other)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = None

    def __repr__(self):
        return f'<{self.name} digest>'


class Hash:
    def __init__(self, name, data=b'', stream=None):
        self.name = name
        self.stream = list(stream or [])
        self.digest_size = _real.new(name).digest_size
        if data:
            self.update(data)

    def update(self, data):
        if isinstance(data, SBytes):
            self.stream.append(data)
        else:
            self.stream.append(bytes(data))

    def copy(self):
        return Hash(self.name, stream=self.stream)

    def _done(self, hex_):
        if any(isinstance(x, SBytes) for x in self.stream):
            return SDigest(self.name + ('' if hex_ else '/raw'), self.stream)
        h = _real.new(self.name)
        for x in self.stream:
            h.update(x)
        out = h.hexdigest() if hex_ else h.digest()
        _known[self.name + ('' if hex_ else '/raw'), out] = list(self.stream)
        return out

    def hexdigest(self):
        return self._done(True)

    def digest(self):
        return self._done(False)


def module():
    m = types.ModuleType('hashlib')
    for k in dir(_real):
        if not k.startswith('__'):
            setattr(m, k, getattr(_real, k))
    for name in ('sha256', 'sha1', 'md5', 'sha512', 'sha224', 'sha384', 'blake2b', 'blake2s', 'sha3_256'):
        setattr(m, name, lambda data=b'', _n=name, **kw: Hash(_n, data))
    m.new = lambda name, data=b'', **kw: Hash(name, data)
    return m
