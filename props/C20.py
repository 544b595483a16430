"""Merging and deleting index records carries weights and mappings along exactly."""
from symx.harness import scenario
from .common import new_space, set_weights, weights_of, index_rows, raises, snapshot, mappings_of, level, query

META = dict(
    title='Merging adds up, deleting removes: weights and mappings follow',
    statement='Merging index records gives the surviving record the sum of their weights in every group and, for every link, '
              'source record and mapping level, the sum of their mapping values, so group totals and translated totals are '
              'unchanged. Deleting records removes exactly the addressed records with their weights and mappings, and the '
              'proportions of the remaining mappings are rebuilt; ambiguous mappings and the undefined record refuse '
              'deletion. Stored quantities never change.',
    over=['inputs', 'histories'],
    text='for every weight, mapping arrangement, merge pair or chain and deletion within the bound, over both links',
    why='tests merge one fixed pair; sums must hold for every overlap of weights and mappings on either side',
    files=['src/toron/space.py', 'src/toron/data_service.py', 'src/toron/data_models.py'],
    mechanism=[('merge', 'update_index(merge_on_conflict=True), merge_by_index_id'), ('delete', 'delete_index, delete_index_record')])

REACH = {'merge': ['both weighted', 'shared source', 'level differs'], 'delete': ['ambiguous', 'deleted', 'last of source', 'undefined']}
ROWS = [('A', 'x'), ('A', 'y'), ('B', 'x')]


def storage(h, node):
    """The same space in memory, read from a file, or bound to a file."""
    kind = h.choice('storage', h.bound('storage'))
    if kind == 'memory':
        return node
    import os
    from toron.space import read_file, bind_file
    path = os.path.join(h.scratch(), 'space.toron')
    node.to_file(path)
    return read_file(path) if kind == 'read' else bind_file(path, mode='rw')


def make(h, pairs, nw=3):
    node = new_space(rows=ROWS, partitions=[{'a'}], attrs=('k',))
    has = [h.flag(f'has{i}') for i in range(1, nw + 1)] + [True] * (3 - nw)
    w = {i: h.real(f'w{i}', 0, 100) for i in (1, 2, 3) if has[i - 1]}
    set_weights(node, 'wt', ROWS, [w.get(i) for i in (1, 2, 3)])
    w2 = {2: h.real('u2', 0, 100), 3: h.real('u3', 0, 100)}
    set_weights(node, 'w2', ROWS, [None, w2[2], w2[3]])
    src = new_space(('s',), [('S',), ('T',)])
    node.add_link(src, 'L')
    node.add_link(src, 'M')
    maps = {}
    for name in 'LM':
        data = []
        for k, (o, i, lv) in enumerate(pairs[name]):
            v = h.real(f'm{name}{k}', 0.5, 100)
            data.append((o, i, level(*lv), v))
            maps[name, o, i, level(*lv)] = v
        if data:
            node.insert_mappings2(src.unique_id, name, [('other_index_id', 'index_id', 'mapping_level', name)] + data)
    node.insert_quantities2(value_column='v', data=[('A', '', 'u', h.real('q', 0, 9)), ('B', 'x', 'u', 4.0)], columns=['a', 'b', 'k', 'v'])
    return storage(h, node), w, w2, maps


def compare(h, node, labels, w, w2, maps, what):
    h.check({r[0]: tuple(r[1:]) for r in index_rows(node)} == labels, f'{what}: exactly the expected index records remain')
    for name, want in (('wt', w), ('w2', w2)):
        got = weights_of(node, name)
        h.check(set(got) == set(want), f'{what}: weights belong to the expected records', [name, sorted(got), sorted(want)])
        for i in want:
            h.check_eq(got[i], want[i], f'{what}: weights have the expected values', [name, i])
        g = node.get_weight_group(name)
        h.check(bool(g.is_complete) == (set(got) == set(labels)), f'{what}: the completeness flag is current', [name])
    got = {}
    for name in 'LM':
        for o, i, lv, v, p in mappings_of(node, name):
            h.check((name, o, i, bytes(lv)) not in got, f'{what}: one mapping per link, source, record and level')
            got[name, o, i, bytes(lv)] = (v, p)
    h.check(set(got) == set(maps), f'{what}: exactly the expected mappings remain', [sorted(map(repr, got)), sorted(map(repr, maps))])
    for k, v in maps.items():
        h.check_eq(got[k][0], v, f'{what}: mapping values are the expected sums', k)
        total = h.sum_([x for j, x in maps.items() if j[:2] == k[:2]])
        h.check_eq(got[k][1] * total, v, f'{what}: proportions follow the mapping values', k)


@scenario(quick=dict(pool=3, storage=['memory', 'read']), thorough=dict(pool=6, storage=['memory', 'read', 'bind']))
def merge(h):
    """Merging one record into another (or a chain of two) over two links and two weight groups."""
    f, a = (1, 1), (1, 0)
    pool = [
        {'L': [(1, 1, f), (1, 2, f), (2, 3, f)], 'M': [(1, 2, f)]},
        {'L': [(1, 1, a), (1, 2, a), (1, 3, f)], 'M': [(2, 1, f), (2, 3, f)]},
        {'L': [(1, 1, f), (1, 2, a), (2, 2, f)], 'M': []},
        {'L': [(1, 1, f), (2, 1, f), (1, 3, f), (2, 3, f)], 'M': [(1, 3, f)]},
        {'L': [(2, 1, f)], 'M': [(1, 1, f), (1, 2, f), (1, 3, f)]},
        {'L': [(1, 3, f)], 'M': [(2, 3, a)]},
    ][:h.bound('pool')]
    pairs = h.choice('maps', pool)
    node, w, w2, maps = make(h, pairs)
    steps = h.choice('steps', [[(1, 2)], [(2, 1)], [(3, 1)], [(1, 2), (1, 3)]])   # (target, merged)
    before = snapshot(node)
    labels = dict(enumerate(ROWS, 1))
    data = []
    for t, m in steps:
        data.append((t,) + labels[m])
        labels[t] = labels.pop(m)
        for g in (w, w2):
            if m in g:
                h.reach('both weighted') if t in g else None
                g[t] = g.get(t, 0) + g.pop(m)
        for (n, o, i, lv), v in sorted(maps.items(), key=lambda kv: repr(kv[0])):
            if i == m:
                del maps[n, o, i, lv]
                if (n, o, t, lv) in maps:
                    h.reach('shared source')
                elif any(k[:3] == (n, o, t) for k in maps):
                    h.reach('level differs')
                maps[n, o, t, lv] = maps.get((n, o, t, lv), 0) + v
    node.update_index(data, ['index_id', 'a', 'b'], merge_on_conflict=True)
    compare(h, node, labels, w, w2, maps, 'merge')
    after = snapshot(node)
    for t in ('quantity', 'location', 'attribute_group'):
        h.check_same(after[t], before[t], f'merging leaves every {t} as it was')
    h.check_same(set(query(node, 'SELECT DISTINCT other_index_id FROM main.mapping')),
                 {(o,) for _, o, _, _ in maps}, 'mapped source records stay mapped')


@scenario(quick=dict(pool=3, storage=['memory', 'read']), thorough=dict(pool=4, storage=['memory', 'read', 'bind']))
def delete(h):
    """Deleting by rows or criteria."""
    f, a = (1, 1), (1, 0)
    pool = [
        {'L': [(1, 1, f), (1, 2, f), (2, 3, f)], 'M': [(1, 2, f)]},
        {'L': [(1, 1, f), (1, 3, f), (2, 2, f), (2, 3, f)], 'M': [(2, 1, f), (2, 3, f)]},
        {'L': [(1, 1, a), (1, 2, a), (2, 3, f)], 'M': []},
        {'L': [(1, 3, f)], 'M': [(2, 3, f), (2, 1, f)]},
    ][:h.bound('pool')]
    node, w, w2, maps = make(h, h.choice('maps', pool), nw=2)
    labels = dict(enumerate(ROWS, 1))
    how = h.choice('how', [{'a': 'A'}, {'b': 'x'}, {'a': 'B', 'b': 'x'}, {'a': 'Q'}, {'a': '-'}, 'row', 'rows', 'mismatch', 'undefined', 'gone', {}, 'both'])
    before = snapshot(node)
    rows = {'row': [(2, 'A', 'y')], 'rows': [(3, 'B', 'x'), (1, 'A', 'x')], 'mismatch': [(2, 'A', 'x')],
            'undefined': [(2, 'A', 'y'), (0, '-', '-')], 'gone': [(9, 'A', 'x')]}
    if how in ({}, 'both'):
        with raises(TypeError) as err:
            node.delete_index(*([(1, 'A', 'x')], ['index_id', 'a', 'b']) if how else (), **dict(a='A') if how else {})
        h.check(bool(err), 'deleting without rows or criteria, or with both, is refused')
        h.check_same(snapshot(node), before, 'a refused deletion changes nothing')
        return
    if isinstance(how, dict):
        ids = [i for i, r in [(0, ('-', '-'))] + sorted(labels.items()) if all(dict(zip('ab', r))[k] == v for k, v in how.items())]
    else:
        ids = [r[0] for r in rows[how] if labels.get(r[0], ('-', '-')) == r[1:]]
    ambiguous = any(i in ids and lv != level(1, 1) for _, _, i, lv in maps)
    with raises(Exception) as err:
        if isinstance(how, dict):
            node.delete_index(**how)
        else:
            node.delete_index(rows[how], ['index_id', 'a', 'b'])
    h.check(bool(err) == (ambiguous or 0 in ids), 'only ambiguous mappings and the undefined record refuse deletion', repr(err))
    if err:
        h.reach('undefined' if 0 in ids else 'ambiguous')
        h.check_same(snapshot(node), before, 'a refused deletion changes nothing')
        return
    h.reach('deleted') if ids else None
    for i in ids:
        del labels[i]
        w.pop(i, None)
        w2.pop(i, None)
    left = {k: v for k, v in maps.items() if k[2] not in ids}
    if {k[:2] for k in left} != {k[:2] for k in maps}:
        h.reach('last of source')
    compare(h, node, labels, w, w2, left, 'delete')
    after = snapshot(node)
    for t in ('quantity', 'location', 'attribute_group'):
        h.check_same(after[t], before[t], f'deleting index records leaves every {t} as it was')
