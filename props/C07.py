"""The structure table always matches the partition definitions and the index."""
from symx.harness import scenario
from . import history as H
from .common import new_space, index_rows, query, add_quantities, level

META = dict(
    title='The structure always matches partition definitions, columns and index',
    statement='The structure of a space is the set of all unions of its partition definitions, always includes the '
              'whole space, keeps no redundant definition, and each entry carries the granularity of the current '
              'index. Adding, dropping or renaming columns keeps definitions, structure, display order and labels '
              'consistent, adding columns keeps every level that quantities or mappings '
              'use, and dropping one only takes it out of the levels of mappings.',
    over=['histories', 'configurations'],
    text='for every set of partition definitions over the columns within the bound, and every sequence of '
         'index, partition and column operations',
    why='tests check a few definitions; consistency has to survive all combinations of definition and column '
        'changes',
    files=['src/toron/space.py', 'src/toron/data_service.py', 'src/toron/partitions.py', 'src/toron/dal1/schema.py'],
    mechanism=[('structure', 'rebuild_structure_table, refresh_structure_granularity')])

OPS = {
    'insert_index': H.op_insert_index, 'insert_index_ids': H.op_insert_index_ids, 'delete_index': H.op_delete_index,
    'update_index': H.op_update_index, 'partition': H.op_partition,
}
REACH = {'structure_history': sorted(OPS), 'levels_in_use': ['mapping', 'quantity', 'whole space in use', 'wide', 'renamed'], 'levels_after_drop': ['dropped']}


@scenario(quick=dict(steps=2), thorough=dict(steps=3))
def structure_history(h):
    """Every sequence of index and partition operations keeps structure and granularity current."""
    w = H.World(h, weights=False, mapping=False)
    H.run(h, w, OPS, h.bound('steps'), H.inv_structure)


@scenario(quick=dict(cols=3, defs=2), thorough=dict(cols=4, defs=2))
def definitions(h):
    """Any set of partition definitions over n columns, added together or one by one, then one dropped."""
    cols = list('abcd')[:h.bound('cols')]
    rows = [tuple(c + v for c, v in zip(cols, vs)) for vs in ('1111', '1122', '2112', '2221')]
    node = new_space(cols, rows)
    w = type('W', (), {'node': node})()
    defs = [set(h.subset(f'd{k}', cols)) for k in range(h.bound('defs'))]
    if h.flag('together'):
        node.add_partition_definitions(*defs)
    else:
        for d in defs:
            H.expected(lambda: node.add_partition_definition(d))
    H.inv_structure(h, w)
    have = {frozenset(c for c, b in zip(cols, r[2:]) if b) for r in query(node, 'SELECT * FROM main.label_structure')}
    h.check(all(frozenset(d) in have for d in defs), 'every added definition is a partition of the structure')
    drop = h.choice('drop', list(range(len(defs))))
    ok = H.expected(lambda: node.drop_partition_definitions(defs[drop]))
    h.check(ok == (defs[drop] != set(cols)), 'only the whole space cannot be dropped')
    H.inv_structure(h, w)


@scenario(quick=dict(cols=2), thorough=dict(cols=3))
def columns_change(h):
    """Adding or renaming label columns keeps structure, definitions and index consistent."""
    cols = list('abc')[:h.bound('cols')]
    rows = [tuple(c + v for c, v in zip(cols, vs)) for vs in ('111', '122', '212')]
    d = set(h.subset('d', cols, nonempty=True))
    node = new_space(cols, rows, [d])
    w = type('W', (), {'node': node})()
    used = h.flag('used')
    if used:
        add_quantities(node, [rows[0] + ('v', 1.0)], labels=cols)
    for step in range(2):
        op = h.choice(f'op{step}', ['add', 'add2', 'rename', 'swap', 'rename_one', 'none', 'reorder', 'drop'])
        cur = list(node.index_columns)
        if op == 'add':
            H.expected(lambda: node.add_index_columns(f'n{step}'))
        elif op == 'add2':
            node.add_index_columns(f'n{step}', f'm{step}')
        elif op == 'rename':
            node.rename_index_columns({cur[0]: f'r{step}'})
        elif op == 'swap':
            H.expected(lambda: node.rename_index_columns({cur[0]: cur[1], cur[1]: cur[0]}))
        elif op == 'rename_one':
            node.rename_label_column(cur[-1], f'q{step}')
        elif op == 'reorder':
            node.change_label_order(cur[0], 1)
        elif op == 'drop':
            if H.expected(lambda: node.drop_index_columns(cur[0])):
                rows = [r[1:] for r in rows]
                cols = cols[1:]
        H.inv_structure(h, w)
        h.check(len(node.index_columns) == len(set(node.index_columns)), 'label columns are distinct')
        h.check(sorted(node.get_label_columns()) == sorted(node.index_columns), 'display order lists exactly the label columns',
                [node.get_label_columns(), node.index_columns])
        got = [tuple(r[1:len(cols) + 1]) for r in index_rows(node)]
        h.check(got == rows, 'existing labels are kept', got)


@scenario(quick=dict(sizes=2, links=2), thorough=dict(sizes=6, links=2))
def levels_in_use(h):
    """Adding label columns to a space whose quantities and links use some of its levels."""
    n = h.choice('columns', [2, 8, 1, 7, 9, 16][:h.bound('sizes')])
    h.reach('wide') if n >= 8 else None
    cols = [f'c{k}' for k in range(n)]
    rows = [tuple(f'{c}{v}' for c in cols) for v in 'xy'] + [tuple(f'{c}x' if c == 'c0' else f'{c}z' for c in cols)]
    rows = list(dict.fromkeys(rows))
    parts = h.choice('partitions', [[], [{'c0'}], [{'c0'}, {cols[-1]}]]) if n > 1 else []
    node = new_space(cols, rows, parts)
    used = set()
    kinds = ['none', 'whole'] + ['first'] * bool(parts)
    for k in range(h.bound('links')):
        src = new_space(('s',), [('S',)])
        node.add_link(src, f'L{k}')
        kind = h.choice(f'link{k}', kinds)
        bits = {'whole': [1] * n, 'first': [1] + [0] * (n - 1)}.get(kind)
        if bits:
            h.reach('mapping')
            node.insert_mappings2(src.unique_id, f'L{k}', [('other_index_id', 'index_id', 'mapping_level', f'L{k}'), (1, 1, level(*bits), h.real(f'm{k}', 0, 9))])
            used.add(frozenset(c for c, b in zip(cols, bits) if b))
    kind = h.choice('quantity', kinds)
    if kind != 'none':
        h.reach('quantity')
        add_quantities(node, [(rows[0] if kind == 'whole' else rows[0][:1] + ('',) * (n - 1)) + ('v', h.real('q', 0, 9))], labels=cols)
        used.add(frozenset(cols if kind == 'whole' else cols[:1]))
    h.reach('whole space in use') if frozenset(cols) in used else None
    w = type('W', (), {'node': node})()
    more = h.choice('more', [['d'], ['A', 'b']])
    how = h.choice('how', ['together', 'one by one', 'renamed'])
    if how == 'renamed':
        h.reach('renamed')
        node.rename_label_column(cols[0], 'zz')
        used = {frozenset('zz' if c == cols[0] else c for c in u) for u in used}
        cols = ['zz'] + cols[1:]
    if how == 'together':
        node.add_index_columns(*more)
    else:
        for c in more:
            node.add_index_columns(c)
    H.inv_structure(h, w)
    now = list(node.index_columns)
    h.check(now == cols + more, 'new columns are the last', now)
    have = {frozenset(c for c, b in zip(now, r[2:]) if b): tuple(r[2:]) for r in query(node, 'SELECT * FROM main.label_structure')}
    for u in used:
        h.check(u in have, 'a level that is in use stays in the structure', [sorted(u), [sorted(x) for x in have]])
    for (lv,) in query(node, 'SELECT DISTINCT mapping_level FROM main.mapping'):
        h.check(bytes(lv) in {level(*bits) for bits in have.values()}, 'mapping levels are levels of the structure', [bytes(lv).hex()])


@scenario(quick={})
def levels_after_drop(h):
    """Dropping a label column: mappings keep their level, without the dropped column."""
    cols = ['a', 'b', 'c']
    node = new_space(cols, [('A', 'x', '1'), ('B', 'y', '2')], [{'a'}, {'b'}])
    bits = h.choice('bits', [(1, 1, 1), (1, 0, 0), (1, 1, 0)])
    gone = h.choice('gone', [0, 1, 2])
    v = h.real('v', 1, 9)
    src = new_space(('s',), [('S',)])
    node.add_link(src, 'L')
    node.insert_mappings2(src.unique_id, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L'), (1, 1, level(*bits), v)])
    left = [b for k, b in enumerate(bits) if k != gone]
    if not any(left):
        return
    node.drop_index_columns(cols[gone])
    h.reach('dropped')
    h.check(list(node.index_columns) == [c for k, c in enumerate(cols) if k != gone], 'exactly the column is dropped')
    got = query(node, 'SELECT mapping_level, mapping_value FROM main.mapping')
    h.check_same([x for _, x in got], [v], 'the mapping is kept')
    h.check([bytes(lv) for lv, _ in got] == [level(*left)], 'the mapping keeps its level', [[bytes(lv).hex() for lv, _ in got], level(*left).hex()])
