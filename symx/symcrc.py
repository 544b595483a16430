"""struct, binascii.crc32 and number formatting for symbolic inputs.

A CRC-32 is a linear function over GF(2) of its input bits, so the
checksum of symbolic bytes is kept as 32 exact linear forms over input
bits.  Equality of two checksums is a linear system, which is handed to
the solver in row-reduced form (an equivalent system, but without the
XOR chains that defeat clause learning).

A symbolic number that is formatted into text becomes one private-use
character standing for its digits; int() of exactly this text gives the
number back."""
import binascii as _binascii
import struct as _struct
import types
import zlib as _zlib

import z3

from . import core
from .core import SNum, Unsupported, ctx, mk_bool
from .symhash import SBytes, to_bytes

# ------------------------------------------------------------- linear forms
# form = (constant bit, frozenset of atoms); an atom is (bit-vector id, bit)
_bvs = {}      # id -> bit-vector expression (kept alive)


def _atom(bv, k):
    _bvs[bv.get_id()] = bv
    return bv.get_id(), k


def _xor(a, b):
    return a[0] ^ b[0], a[1] ^ b[1]


ZERO = (0, frozenset())


def bit_of(e, k):
    """Linear form of bit k of a bit-vector."""
    if z3.is_bv_value(e):
        return (e.as_long() >> k) & 1, frozenset()
    if z3.is_app_of(e, z3.Z3_OP_BXOR):
        out = ZERO
        for c in e.children():
            out = _xor(out, bit_of(c, k))
        return out
    if z3.is_app_of(e, z3.Z3_OP_CONCAT):
        for c in reversed(e.children()):
            if k < c.size():
                return bit_of(c, k)
            k -= c.size()
    if z3.is_app_of(e, z3.Z3_OP_ZERO_EXT):
        return bit_of(e.arg(0), k) if k < e.arg(0).size() else ZERO
    if z3.is_app_of(e, z3.Z3_OP_EXTRACT):
        return bit_of(e.arg(0), k + e.params()[1])
    return 0, frozenset([_atom(e, k)])


def _expr(form):
    e = z3.BoolVal(bool(form[0]))
    for i, k in sorted(form[1]):
        e = z3.Xor(e, z3.Extract(k, k, _bvs[i]) == 1)
    return e


def bits_of(x):
    """Bits of a byte string, first byte first, each byte least significant bit first."""
    if isinstance(x, SCat):
        return [b for p in x.parts for b in bits_of(p)]
    if isinstance(x, SBytes):
        e = x.e if z3.is_app_of(x.e, z3.Z3_OP_BV2INT) else z3.simplify(x.e)
        if z3.is_int_value(e):
            return bits_of(e.as_long().to_bytes(x.n, 'little' if x.reverse else 'big'))
        bv = e.arg(0) if z3.is_app_of(e, z3.Z3_OP_BV2INT) else z3.Int2BV(e, 8 * x.n)
        w = bv.size()
        out = []
        for byte in (range(x.n) if x.reverse else reversed(range(x.n))):
            out += [bit_of(bv, 8 * byte + k) if 8 * byte + k < w else ZERO for k in range(8)]
        return out
    return [((v >> k) & 1, frozenset()) for v in bytes(x) for k in range(8)]


class SCat:
    """Concatenation of byte strings with symbolic parts."""

    def __init__(self, parts):
        self.parts = parts

    def __len__(self):
        return sum(map(len, self.parts))

    def __add__(self, o):
        return SCat(self.parts + (o.parts if isinstance(o, SCat) else [o]))

    def __radd__(self, o):
        return SCat([o] + self.parts)


def join(sep, xs):
    out = SCat([])
    for k, x in enumerate(xs):
        out = out + (sep if k else b'') + x
    return out


SBytes.__add__ = lambda a, b: SCat([a]) + b
SBytes.__radd__ = lambda a, b: b + SCat([a])


class SCrc(SNum):
    """A number given by linear forms of its bits (least significant first)."""
    __slots__ = ('forms', '_e')

    def __init__(self, forms):
        self.forms = list(forms)
        self._e = None
        self.kind = 'int'

    @property
    def e(self):
        if self._e is None:
            bits = [z3.If(_expr(f), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for f in reversed(self.forms)]
            self._e = z3.BV2Int(z3.Concat(*bits) if len(bits) > 1 else bits[0])
        return self._e

    def _forms(self, o):
        if isinstance(o, SCrc):
            return o.forms
        if isinstance(o, int) and o >= 0:
            return [((o >> k) & 1, frozenset()) for k in range(o.bit_length())]
        return None

    def __and__(self, o):
        if isinstance(o, int) and o >= 0:
            return SCrc([f if (o >> k) & 1 else ZERO for k, f in enumerate(self.forms)])
        return SNum.__and__(self, o)

    __rand__ = __and__

    def __xor__(self, o):
        fs = self._forms(o)
        if fs is None:
            raise Unsupported('xor of symbolic numbers')
        n = max(len(fs), len(self.forms))
        return SCrc([_xor(a, b) for a, b in zip(self.forms + [ZERO] * (n - len(self.forms)), fs + [ZERO] * (n - len(fs)))])

    __rxor__ = __xor__

    def __eq__(self, o):
        fs = self._forms(o)
        if fs is None:
            return SNum.__eq__(self, o)
        rows = [f for f in (self ^ o).forms if f != ZERO]
        done = []
        for row in rows:
            for piv, r in done:
                if piv in row[1]:
                    row = _xor(row, r)
            if not row[1]:
                if row[0]:
                    return False
                continue
            piv = min(row[1], key=lambda a: (a[1], a[0]))
            done = [(p, _xor(r, row) if piv in r[1] else r) for p, r in done] + [(piv, row)]
        return mk_bool(z3.And(*[z3.Not(_expr(r)) for _, r in done])) if done else True

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = SNum.__hash__


POLY = 0xEDB88320


def crc32(data, value=0):
    if not isinstance(data, (SBytes, SCat)) and not isinstance(value, SCrc):
        return _binascii.crc32(data, value)
    start = value ^ 0xffffffff
    reg = list(start.forms) if isinstance(start, SCrc) else [((start >> k) & 1, frozenset()) for k in range(32)]
    reg += [ZERO] * (32 - len(reg))
    for b in bits_of(data):
        low = _xor(reg[0], b)
        reg = reg[1:] + [ZERO]
        reg = [_xor(f, low) if (POLY >> k) & 1 else f for k, f in enumerate(reg)]
    return SCrc([_xor(f, (1, frozenset())) for f in reg])


# -------------------------------------------------------------------- struct
SIZES = {'b': 1, 'h': 2, 'i': 4, 'l': 4, 'q': 8}


def pack(fmt, *vals):
    if not any(isinstance(v, SNum) for v in vals):
        return _struct.pack(fmt, *vals)
    order, codes = (fmt[0], fmt[1:]) if fmt[:1] in '<>=!' else ('=', fmt)
    if len(codes) != len(vals) or any(c.lower() not in SIZES for c in codes):
        raise Unsupported(f'struct format {fmt} of symbolic values')
    out = SCat([])
    for c, v in zip(codes, vals):
        n = SIZES[c.lower()]
        if isinstance(v, SNum):
            if v.kind != 'int':
                raise _struct.error('required argument is not an integer')
            try:
                v = to_bytes(v, n, 'little' if order in '<=' else 'big', signed=c.islower())
            except OverflowError:
                raise _struct.error(f"'{c}' format requires a number in range") from None
        else:
            v = _struct.pack(order + c, v)
        out = out + v
    return out if len(out.parts) > 1 else out.parts[0]


class Struct:
    def __init__(self, fmt):
        self.format = fmt
        self._s = _struct.Struct(fmt)
        self.size = self._s.size
        self.unpack, self.unpack_from, self.iter_unpack = self._s.unpack, self._s.unpack_from, self._s.iter_unpack

    def pack(self, *vals):
        return pack(self.format, *vals)


def struct_module():
    m = types.ModuleType('struct')
    m.__dict__.update({k: v for k, v in _struct.__dict__.items() if not k.startswith('__')})
    m.pack, m.Struct = pack, Struct
    return m


def crc_module(base):
    m = types.ModuleType(base.__name__)
    m.__dict__.update({k: v for k, v in base.__dict__.items() if not k.startswith('__')})
    m.crc32 = crc32
    return m


MODULES = {'struct': struct_module, 'binascii': lambda: crc_module(_binascii), 'zlib': lambda: crc_module(_zlib)}

# -------------------------------------------------------------------- tokens
FIRST = 0xF0000


def to_text(num, spec=''):
    toks = getattr(ctx(), 'tokens', None) if core.active() else None
    if toks is None or num.kind != 'int':
        return f'<{num.kind} {core._short(num.e)}>'
    base = spec.lstrip('0123456789') or 'd'
    positive = isinstance(num, SCrc) or z3.is_app_of(num.e, z3.Z3_OP_BV2INT) or bool(num >= 0)
    if base not in ('d', 'x', 'X') or not positive:
        raise Unsupported(f'formatting a symbolic number as {spec!r}')
    toks.append((num, base))
    return chr(FIRST + len(toks) - 1)


def from_text(x, base=10):
    """The number a text stands for, or None if the text has no symbolic part."""
    toks = getattr(ctx(), 'tokens', None) if core.active() else None
    if not toks or not any(FIRST <= ord(c) < FIRST + len(toks) for c in x):
        return None
    if len(x.strip()) != 1:
        raise Unsupported('number in text next to other characters')
    num, kind = toks[ord(x.strip()) - FIRST]
    if (kind == 'd') != (base == 10):
        raise Unsupported('number read in another base than written')
    return num


SNum.__format__ = to_text
SNum.__str__ = to_text
core.from_text = from_text
