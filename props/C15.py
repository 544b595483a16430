"""The fingerprint of an index identifies exactly its set of record ids."""
from symx.harness import scenario
from .common import new_space, index_rows, raises, query, level

META = dict(
    title='An index fingerprint identifies exactly its set of record ids',
    statement='The fingerprint of a strictly increasing sequence of non-negative 64-bit identifiers is the SHA-256 digest of '
              'their 8-byte big-endian encodings, so two sequences have the same fingerprint exactly if they are equal; every '
              'other sequence is refused. Two spaces, whatever their histories, carry the same index fingerprint exactly if '
              'they have the same set of record identifiers, and a link counts as current exactly if the identifiers it maps '
              'are those of the source.',
    over=['inputs', 'histories'],
    text='for every pair of integer sequences and every pair of short histories within the bound',
    why='tests compare a few literal digests; injectivity is about every pair of sequences',
    files=['src/toron/_utils.py', 'src/toron/data_service.py', 'src/toron/space.py'],
    mechanism=[('digest', 'SequenceHash'), ('stored hashes', 'refresh_index_hash_property, other_index_hash')])

REACH = {'sequences': ['equal', 'different', 'refused', 'large'], 'histories': ['equal', 'different'],
         'current': ['current', 'stale']}
TOP = 2 ** 64


def increasing(h, xs):
    prev = -1
    for x in xs:
        if not h.decided(x > prev) or h.decided(x >= TOP):
            return False
        prev = x
    return True


def fingerprint(h, xs, iterable):
    from toron._utils import SequenceHash
    with raises(ValueError) as err:
        if iterable:
            return SequenceHash(xs).get_hexdigest(), err
        s = SequenceHash()
        for x in xs:
            s.add_value(x)
        return s.get_hexdigest(), err
    return None, err


@scenario(quick=dict(n=4), thorough=dict(n=5))
def sequences(h):
    """Two sequences of symbolic integers, given at once or one by one."""
    xs = [h.int(f'x{i}', -2, TOP + 1) for i in range(h.choice('n', range(h.bound('n') + 1)))]
    ys = [h.int(f'y{i}', -2, TOP + 1) for i in range(h.choice('m', range(h.bound('n'))))]
    a, err = fingerprint(h, xs, h.flag('iterable'))
    ok = increasing(h, xs)
    h.check(bool(err) == (not ok), 'exactly the sequences that do not increase strictly within 64 bits are refused')
    if err:
        h.reach('refused')
        return
    h.check(a == h.sha256([x.to_bytes(8, 'big') for x in xs]), 'the fingerprint is the digest of the 8-byte big-endian encodings')
    h.assume(increasing(h, ys))
    b, err = fingerprint(h, ys, True)
    h.check(not err, 'a strictly increasing sequence is accepted')
    same = h.all_([x == y for x, y in zip(xs, ys)]) if len(xs) == len(ys) else False
    h.check((a == b) == same if isinstance(a == b, bool) and isinstance(same, bool) else h.decided(a == b) == h.decided(same),
            'fingerprints are equal exactly if the sequences are')
    h.reach('equal' if h.decided(same) else 'different')
    if xs and h.decided(xs[-1] > 2 ** 63):
        h.reach('large')


ROWS = [('A', 'x'), ('A', 'y'), ('B', 'x')]


def history(h, tag):
    """A space reached by inserting, merging and deleting."""
    node = new_space(rows=ROWS[:h.choice(f'{tag}n', [2, 3])], attrs=())
    for k in range(h.bound('ops')):
        op = h.choice(f'{tag}op{k}', ['none', 'insert', 'delete1', 'delete', 'merge', 'relabel', 'all'])
        rows = index_rows(node)
        if op == 'insert':
            node.insert_index([('Q', f'n{k}')], ['a', 'b'])
        elif op == 'delete1':
            node.delete_index([tuple(rows[0])] if rows else [(9, 'A', 'x')], ['index_id', 'a', 'b'])
        elif op == 'delete':
            node.delete_index(b='x')
        elif op == 'merge' and len(rows) > 1:
            node.update_index([(rows[0][0],) + tuple(rows[1][1:])], ['index_id', 'a', 'b'], merge_on_conflict=True)
        elif op == 'relabel' and rows:
            node.update_index([(rows[0][0], 'R', f'r{k}')], ['index_id', 'a', 'b'])
        elif op == 'all':
            node.delete_index([tuple(r) for r in rows] or [(9, 'A', 'x')], ['index_id', 'a', 'b'])
    return node


def stored(node):
    (val,), = query(node, "SELECT value FROM main.property WHERE key='index_hash'")
    return str(val).strip('"')


@scenario(quick=dict(ops=1), thorough=dict(ops=2))
def histories(h):
    """Two spaces with different histories."""
    a, b = history(h, 'a'), history(h, 'b')
    ids = [sorted(r[0] for r in index_rows(n)) for n in (a, b)]
    ha, hb = stored(a), stored(b)
    h.check((ha == hb) == (ids[0] == ids[1]), 'fingerprints of spaces are equal exactly if their record ids are', ids)
    h.check(ha == h.sha256([i.to_bytes(8, 'big') for i in [0] + ids[0]]), 'the stored fingerprint covers the undefined and all other records')
    h.reach('equal' if ids[0] == ids[1] else 'different')


@scenario(quick=dict(ops=1), thorough=dict(ops=2))
def current(h):
    """A link over a source with a history: current exactly if it maps all records of the source."""
    from toron.data_service import make_get_link_id_func
    src = history(h, 's')
    trg = new_space(('t',), [('T',)], attrs=())
    trg.add_link(src, 'L')
    mapped = sorted(h.subset('mapped', [1, 2, 3, 4]))
    data = [(i, 1, level(1), 1.0) for i in mapped]
    if not data:
        return
    trg.insert_mappings2(src, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L')] + data)
    ids = sorted(r[0] for r in index_rows(src))
    with trg._managed_cursor() as cur:
        with raises(RuntimeError) as err:
            make_get_link_id_func(src.unique_id, trg._dal.LinkRepository(cur), stored(src))
    h.check(bool(err) == (mapped != ids), 'a link is current exactly if it maps the records of the source', [mapped, ids])
    h.reach('stale' if err else 'current')
