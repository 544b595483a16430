"""Bit flags: compact, canonical and lossless."""
from symx.harness import scenario

META = dict(
    title='Bit flags are canonical: equal exactly when they mean the same set',
    statement='Encoding flags to bytes and decoding them again gives the same flags, whatever truthy or falsy values they '
              'were made from. Two flag sequences are equal (with equal hash and equal bytes) exactly when the same '
              'positions are set, trailing zeros never matter, and union, indexing, slicing and iteration agree with the '
              'plain sequence.',
    over=['inputs'],
    text='for every flag sequence up to the bounded length, including sequences that cross byte boundaries',
    why='tests check single examples; canonical form is a relation between all pairs of sequences',
    files=['src/toron/_utils.py'],
    mechanism=[('encoding', 'BitFlags')])


def bits(h, name, n):
    pad = h.choice(f'{name}.pad', h.bound('pads'))
    return [0] * pad + [1 if h.flag(f'{name}{i}') else 0 for i in range(n)]


@scenario(quick=dict(n=3, pads=[0, 6, 8]), thorough=dict(n=4, pads=[0, 5, 7, 8, 14]))
def canonical(h):
    """Two arbitrary flag sequences: round trip, equality, hash, union."""
    from toron._utils import BitFlags
    a, b = bits(h, 'a', h.bound('n')), bits(h, 'b', h.bound('n'))
    x, y = BitFlags(a), BitFlags(*b) if len(b) > 1 else BitFlags(b)
    sa, sb = ({i for i, v in enumerate(s) if v} for s in (a, b))
    h.check({i for i, v in enumerate(x) if v} == sa, 'iteration gives the set positions', [a])
    h.check(len(x) % 8 == 0 and len(x) == len(list(x)) and len(x) <= len(a) + 7, 'length is the number of stored bits', [a])
    z = BitFlags(bytes(x))
    h.check(z == x and hash(z) == hash(x) and bytes(z) == bytes(x), 'bytes round-trip', [a])
    padded = BitFlags(a + [0] * h.choice('extra', [1, 9]))
    h.check(padded == x and hash(padded) == hash(x) and bytes(padded) == bytes(x), 'trailing zeros do not matter', [a])
    h.check((x == y) == (sa == sb), 'equal exactly when the same positions are set', [a, b])
    h.check((bytes(x) == bytes(y)) == (sa == sb), 'equal bytes exactly when the same positions are set', [a, b])
    h.check((hash(x) == hash(y)) == (sa == sb) or sa != sb, 'equal flags hash alike', [a, b])
    h.check(x == tuple(a) and x == a, 'comparison with a plain sequence ignores padding', [a])
    h.check((x == tuple(b)) == (sa == sb), 'comparison with a plain sequence compares positions', [a, b])
    u = x | y
    h.check({i for i, v in enumerate(u) if v} == sa | sb, 'union is elementwise', [a, b])
    h.check(BitFlags(bytes(x) + b'\x00') == x, 'redundant bytes are ignored', [a])
    h.observe('out', [bytes(x).hex(), bytes(u).hex()])


@scenario(quick=dict(n=4), thorough=dict(n=8))
def truthiness(h):
    """Any truthy or falsy values."""
    from toron._utils import BitFlags
    pool = [0, 1, '', 'x', None, 0.0, 2.5, [], [0]]
    vals = [h.choice(f'v{i}', pool) if i < 3 else h.int(f'v{i}', -3, 3) for i in range(h.bound('n'))]
    got = list(BitFlags(vals))
    for i, v in enumerate(vals):
        h.check(bool(i < len(got) and got[i]) == bool(v), 'a flag is set exactly for a true value', [vals])


@scenario(quick=dict(n=4, pads=[0, 6, 8]), thorough=dict(n=5, pads=[0, 6, 13]))
def access(h):
    """Indexing and slicing agree with the tuple of bits."""
    from toron._utils import BitFlags
    x = BitFlags(bits(h, 'a', h.bound('n')))
    t = tuple(x)
    if h.flag('slice'):
        s = slice(h.choice('lo', [None, 1, -3, 9]), h.choice('hi', [None, 2, -1, 12]), h.choice('step', [None, 2, -1]))
        h.check(x[s] == BitFlags(t[s]), 'slicing agrees with the bits', [t, str(s)])
        return
    i = h.int('i', -25, 25)
    try:
        got = x[i]
    except IndexError:
        got = None
    i = int(i)
    h.check(got == (t[i] if -len(t) <= i < len(t) else None), 'indexing agrees with the bits', [t, i])
