"""Matching of mapping data to records (class Mapper)."""
from symx.harness import scenario
from .common import new_space, set_weights, raises, level, messages
from .matching import LABELS, ROWS, ALL, ROWKINDS, weighted, expected, check_messages

META = dict(
    title='Building a mapping matches rows exactly and conserves their values',
    statement='A mapping row with a record identifier matches that record, a row with labels matches the records with those '
              'labels, unless they are more than the limit, overlap records matched at a finer level, or lack a weight; '
              'every other row is skipped as a whole and reported. Each row is split in proportion to the weights, or equally when '
              'there are none, so its full value is kept, and the mapping built in either direction is the sum of the '
              'rows matched on both sides. The mapping is complete if and only if every record of both sides takes part.',
    over=['inputs', 'configurations'],
    text='for every combination of mapping rows, weights and options within the bound',
    why='tests use a few fixed mappings; the rules for overlap, limits and weights interact across rows',
    files=['src/toron/mapper.py', 'src/toron/dal1/repositories.py'],
    mechanism=[('load', 'Mapper.__init__'), ('match', 'Mapper.match_records, _refresh_proportions'),
               ('build', 'Mapper.iter_mappings, is_fully_matched')])

REACH = {'matching': ['missing', 'no match', 'over limit', 'overlap excluded', 'overlap included', 'overlap to one', 'all overlap',
                      'no weight', 'zero weights', 'split', 'single', 'undefined'],
         'building': ['both', 'one side', 'added up', 'undefined pair', 'complete', 'incomplete', 'one-sided match'],
         'levels': ['refused', 'accepted'], 'texts': ['exact']}


def shares(h, pairs):
    """{index_id: share} of a matched row."""
    if any(w is None for _, w in pairs):
        return {i: 1.0 / len(pairs) for i, _ in pairs}
    total = h.sum_(w for _, w in pairs)
    if h.decided(h.eq(total, 0)):
        h.reach('zero weights')
        return {i: 1.0 / len(pairs) for i, _ in pairs}
    return {i: w / total for i, w in pairs}


def matched(mapper, side):
    out = {}
    for run, i, lv, w, p in mapper.con.execute(f'SELECT run_id, index_id, mapping_level, weight_value, proportion FROM {side}_matches ORDER BY rowid'):
        out.setdefault(run - 1, []).append((i, lv, p))
    return out


@scenario(quick=dict(rows=2, presents=2), thorough=dict(rows=3, presents=4))
def matching(h):
    """One side: which records each row matches, and with which shares."""
    from toron.mapper import Mapper
    from toron._utils import BitFlags
    kinds = [h.choice(f'row{k}', ROWKINDS) for k in range(h.bound('rows'))]
    limit, overlapping, *sides = h.choice('options', [(1, False, 'node1'), (3, False, 'node2'), (3, True, 'node1'), (6, True, 'node2')])
    present = h.choice('present', [ALL, (1, 3, 4, 5), (), (2,)][:h.bound('presents')])
    side = sides[0] if h.bound('presents') == 2 else h.choice('side', ['node1', 'node2'])
    node = new_space(LABELS, ROWS, partitions=[{'a'}, {'b'}], attrs=())
    if side == 'node2':      # and rows that match single records at the finest level
        kinds = kinds + [(1, ['', ''], (1, 1)), (None, ['A', 'y'], (1, 1))]
    ws = weighted(h, node, present)
    plain = new_space(('s',), [('S',)], attrs=())
    data = []
    for ident, loc, bits in kinds:
        mine, other = [ident, loc, BitFlags(bits)], [1, [''], BitFlags(1)]
        data.append((mine + other if side == 'node1' else other + mine) + [5.0])
    mapper = Mapper(*((node, plain) if side == 'node1' else (plain, node)), data)
    with messages() as msgs:
        mapper.match_records(side, match_limit=limit, allow_overlapping=overlapping)
    got = matched(mapper, side)
    want = expected(h, kinds, ws, limit, overlapping, counts := {})
    check_messages(h, msgs, counts)
    h.check_same(sorted(got), sorted(want), 'exactly the rows that can be matched are matched')
    for n, pairs in want.items():
        sh = shares(h, pairs)
        h.check_same(sorted(i for i, *_ in got[n]), sorted(sh), 'a row matches exactly its records')
        for i, lv, p in got[n]:
            h.check_eq(p, sh[i], 'the share follows the weights')
            h.check(lv == level(*kinds[n][2]), 'the level is kept', [lv])
        h.check_eq(h.sum_(p for *_, p in got[n]), 1, 'the shares of a row add up to one')
    h.observe('matched', {k: [list(x) for x in sorted((i, lv.hex(), p) for i, lv, p in v)] for k, v in sorted(got.items())})
    mapper.close()


SRC = {0: '-', 1: 'S', 2: 'T'}
PAIRS = [((1, ['']), (None, ['A', 'x'], (1, 1))), ((None, ['S']), (None, ['A', ''], (1, 0))), ((None, ['T']), (None, ['B', ''], (1, 0))),
         ((2, ['']), (None, ['', ''], (0, 0))), ((0, ['']), (0, ['', ''], (1, 1))), ((9, ['']), (1, ['', ''], (1, 1))),
         ((1, ['']), (None, ['D', ''], (1, 0))), ((None, ['T']), (0, ['', ''], (1, 1))), ((1, ['']), (3, ['', ''], (1, 1)))]


@scenario(quick=dict(rows=2, kinds=9), thorough=dict(rows=3, kinds=9))
def building(h):
    """Both sides: the mapping in either direction, totals and completeness."""
    from toron.mapper import Mapper
    from toron._utils import BitFlags
    rows = [h.choice(f'row{k}', PAIRS[:h.bound('kinds')]) for k in range(h.bound('rows'))]
    limit, overlapping = h.choice('options', [(1, False), (5, False), (5, True)])
    full = not overlapping and h.flag('full')     # the remaining records matched one to one
    if full:
        rows = rows + [((2, ['']), (k, ['', ''], (1, 1))) for k in (2, 3, 4, 5)]
    vals = [h.real(f'v{k}', 0, 100) for k in range(len(rows))]
    node1 = new_space(('s',), [('S',), ('T',)], attrs=())
    node2 = new_space(LABELS, ROWS, partitions=[{'a'}], attrs=())
    node1.add_weight_group('wt', make_default=True)
    ws = weighted(h, node2, ALL)
    data = [[i1, l1, BitFlags(1), i2, l2, BitFlags(b2), v] for ((i1, l1), (i2, l2, b2)), v in zip(rows, vals)]
    mapper = Mapper(node1, node2, data)
    mapper.match_records('node1', match_limit=limit, allow_overlapping=overlapping)
    mapper.match_records('node2', match_limit=limit, allow_overlapping=overlapping)
    left = {}
    for n, ((ident, loc), _) in enumerate(rows):
        ids = [ident] if ident is not None else [i for i, s in SRC.items() if s == loc[0]]
        if ids[0] in SRC:
            left[n] = ids[0]
    right = expected(h, [r[1] for r in rows], ws, limit, overlapping)
    both = set(left) & set(right)
    h.reach('both' if both else 'one side')
    fwd, back, total = {}, {}, []
    for n in sorted(both):
        for i, p in shares(h, right[n]).items():
            if left[n] == 0 == i:
                h.reach('undefined pair')
                continue
            lv = level(*rows[n][1][2])
            for d, k in ((fwd, (left[n], i, lv)), (back, (i, left[n], level(1)))):
                h.reach('added up') if k in d else None
                d[k] = d.get(k, 0) + vals[n] * p
            total.append(vals[n] * p)
    for target, want in (('node2', fwd), ('node1', back)):
        got = {tuple(r[:3]): r[3] for r in mapper.iter_mappings(target)}
        h.check_same(sorted((a, b, c.hex()) for a, b, c in got), sorted((a, b, c.hex()) for a, b, c in want), f'{target}: exactly the matched pairs are mapped')
        for k, v in want.items():
            h.check_eq(got[k], v, f'{target}: the mapping is the sum of the matched rows')
    h.check_eq(h.sum_(total), h.sum_(vals[n] for n in both if not (left[n] == 0 and [i for i, _ in right[n]] == [0])) -
               h.sum_(vals[n] * shares(h, right[n])[0] for n in both if left[n] == 0 and len(right[n]) > 1 and 0 in dict(right[n])),
               'the value of every matched row is kept')
    one = {left[n] for n in both} >= {1, 2} and {i for n in both for i, _ in right[n]} >= set(ALL)
    if set(left.values()) >= {1, 2} and {i for v in right.values() for i, _ in v} >= set(ALL) and not one:
        h.reach('one-sided match')
    h.reach('complete' if one else 'incomplete')
    h.check(mapper.is_fully_matched() == one, 'complete exactly when every record of both sides takes part in the mapping')
    if one and all(any(r[1][2]) for r in rows):     # rows without any label cannot be stored (whole-space level)
        node2.add_link(node1, 'L')
        node2.insert_mappings2(node1, 'L', mapper.iter_mappings('node2'), ['other_index_id', 'index_id', 'mapping_level', 'mapping_value'])
        h.check(bool(node2.get_link(node1, 'L').is_locally_complete), 'a complete mapping makes a complete link')
    h.observe('maps', sorted([a, b, c.hex(), v] for a, b, c, v in mapper.iter_mappings('node2')))
    mapper.close()


@scenario()
def levels(h):
    """A row at a level the structure lacks refuses the data."""
    from toron.mapper import Mapper
    from toron._utils import BitFlags
    parts = h.subset('part', [frozenset({'a'}), frozenset({'b'})])
    bits = h.choice('bits', [(1, 1), (1, 0), (0, 1), (0, 0)])
    side = h.choice('side', [0, 1])
    node = new_space(LABELS, ROWS, partitions=parts, attrs=())
    plain = new_space(('s',), [('S',)], attrs=())
    loc = [v if b else '' for v, b in zip(ROWS[0], bits)]
    mine, other = [None, loc, BitFlags(bits)], [1, [''], BitFlags(1)]
    spaces = (plain, node) if side else (node, plain)
    known = bits in ((1, 1), (0, 0)) or frozenset(c for c, b in zip(LABELS, bits) if b) in parts
    with raises(Exception) as err:
        Mapper(*spaces, [(other + mine if side else mine + other) + [h.real('v', 0, 9)]])
    h.check(bool(err) != known, 'only levels of the structure are accepted', repr(err))
    h.reach('accepted' if known else 'refused')


TEXTS = [('oh', 'OH'), ('oh', 'oh '), ('öh', 'ÖH'), ('1', '01'), ('1.0', '1'), ('a"b', "a'b"), ('null', 'None'), ('e\u0301', 'é'), ('true', 'True'), ('%', '_')]


@scenario(quick=dict(texts=10))
def texts(h):
    """Labels are matched as texts, exactly: look-alikes are different records."""
    from toron.mapper import Mapper
    from toron._utils import BitFlags
    p, q = h.choice('texts', TEXTS[:h.bound('texts')])
    if h.flag('swap'):
        p, q = q, p
    u, v = h.real('u', 0, 100), h.real('v', 1, 100)
    w = [h.real(f'w{i}', 1, 50) for i in range(3)]
    rows = [(p, 'x'), (q, 'x'), (p, 'y')]
    node1 = new_space(('s',), [(q,), (p,)], attrs=())
    node2 = new_space(('a', 'b'), rows, partitions=[{'a'}], attrs=())
    node1.add_weight_group('wt', make_default=True)
    set_weights(node2, 'wt', rows, w, default=True)
    mapper = Mapper(node1, node2, [[None, [p], BitFlags(1), None, [p, ''], BitFlags((1, 0)), u],
                                   [None, [q], BitFlags(1), None, [q, 'x'], BitFlags((1, 1)), v]])
    mapper.match_records('node1', match_limit=1)
    mapper.match_records('node2', match_limit=2)
    got = sorted(tuple(r[:2]) + (r[3],) for r in mapper.iter_mappings('node2'))
    mapper.close()
    h.reach('exact')
    h.check_same([r[:2] for r in got], [(1, 2), (2, 1), (2, 3)], 'every text matches only its own records')
    for r, want in zip(got, (v, u * w[0] / (w[0] + w[2]), u * w[2] / (w[0] + w[2]))):
        h.check_eq(r[2], want, 'the value of a row goes to the records with its text')
