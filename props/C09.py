"""Every mutating operation is all-or-nothing under faults and bad input."""
from symx.harness import scenario
from .common import new_space, set_weights, add_quantities, snapshot, query, level, link_spaces

META = dict(
    title='Every mutating operation is all-or-nothing',
    statement='When an operation fails, because its input is bad, its data source raises, or the database reports '
              'an error at any statement, the stored content is exactly what it was before; when it succeeds, all '
              'of its changes are stored.',
    over=['fault_sequences', 'inputs'],
    text='for every mutating operation, every database statement it runs and every row of its input, failing '
         'there',
    why='tests inject no database faults and only a few bad rows',
    files=['src/toron/space.py', 'src/toron/data_service.py', 'src/toron/dal1/data_connector.py'],
    mechanism=[('transactions', 'managed_transaction')])

L = ['a', 'b']
ROWS = [('A', 'x'), ('A', 'y'), ('B', 'x')]


class Broken(Exception):
    """Raised by a data source."""


def build(part=0):
    node = new_space(L, ROWS, [{'a'}])
    set_weights(node, 'wt', ROWS, [1.0, 2.0, 3.0])
    set_weights(node, 'w2', ROWS[:2], [5.0, 6.0])
    src = new_space(('s',), [('S1',), ('S2',)])
    link_spaces(src, node, 'L', [(1, 1, level(1, 1), 4.0), (1, 2, level(1, part), 6.0), (2, 3, level(1, part), 5.0)])
    node.add_link(src, 'M')
    add_quantities(node, [('A', '', 'v', 8.0), ('B', 'x', 'v', 3.0)])
    return node, src


def rows(h, data):
    """A data source that may fail before any of its rows."""
    stop = h.fault_row
    for i, r in enumerate(data):
        if stop is not None and h.decided(stop == i):
            raise Broken('data source failed')
        yield r


W = L + ['wt']
MAPCOLS = ['other_index_id', 'L', 'index_id', 'a', 'b', 'mapping_level']
Q = L + ['attr', 'value']
OPS = {
    'insert_index': lambda h, n, s: n.insert_index(rows(h, [('C', 'x'), ('C', 'y')]), L),
    'insert_index_weights': lambda h, n, s: n.insert_index(
        rows(h, [('C', 'x', 7.0), ('B', 'x', 9.0)]), W, weights='wt', on_weight_conflict='replace'),
    'insert_index_replace': lambda h, n, s: n.insert_index(
        rows(h, [(1, 'Z', 'x'), (2, 'A', 'z')]), ['index_id'] + L, on_label_conflict='replace'),
    'update_index': lambda h, n, s: n.update_index(rows(h, [(1, 'C', 'x'), (2, 'C', 'y')]), ['index_id'] + L),
    'update_index_merge': lambda h, n, s: n.update_index(
        rows(h, [(1, 'A', 'y'), (1, 'B', 'x')]), ['index_id'] + L, merge_on_conflict=True),
    'delete_index': lambda h, n, s: n.delete_index(rows(h, [(1, 'A', 'x'), (3, 'B', 'x')]), ['index_id'] + L),
    'delete_index_criteria': lambda h, n, s: n.delete_index(a='A'),
    'insert_weights': lambda h, n, s: n.insert_weights(
        'w2', rows(h, [('B', 'x', 1.0), ('A', 'x', 2.0)]), L + ['w2'], on_conflict='replace'),
    'insert_weights_sum': lambda h, n, s: n.insert_weights(
        'wt', rows(h, [('B', 'x', 1.0), ('A', 'x', 2.0)]), W, on_conflict='sum'),
    'update_weights': lambda h, n, s: n.update_weights(
        'w2', rows(h, [(1, 'A', 'x', 1.0), (3, 'B', 'x', 2.0)]), ['index_id'] + L + ['w2']),
    'delete_weights': lambda h, n, s: n.delete_weights('wt', rows(h, [(1, 'A', 'x'), (3, 'B', 'x')]), ['index_id'] + L),
    'delete_weights_criteria': lambda h, n, s: n.delete_weights('wt', a='A'),
    'add_weight_group': lambda h, n, s: n.add_weight_group('w3', selectors=['[attr="v"]'], make_default=True),
    'edit_weight_group': lambda h, n, s: n.edit_weight_group('w2', name='w9', selectors=['[attr="z"]']),
    'drop_weight_group': lambda h, n, s: n.drop_weight_group('wt'),
    'add_link': lambda h, n, s: n.add_link(s, 'N', is_default=True, selectors=['[attr="v"]']),
    'edit_link': lambda h, n, s: n.edit_link(s, 'M', is_default=True, description='d'),
    'drop_link': lambda h, n, s: n.drop_link(s, 'L'),
    'insert_mappings': lambda h, n, s: n.insert_mappings(
        s, 'L', rows(h, [(2, 5.0, 1, 'A', 'x', level(1, 1)), (1, 5.0, 3, 'B', 'x', level(1, 1))]), MAPCOLS),
    'insert_mappings2': lambda h, n, s: n.insert_mappings2(
        s.unique_id, 'L', rows(h, [('other_index_id', 'index_id', 'mapping_level', 'L'), (2, 1, level(1, 1), 5.0),
                                   (1, 3, level(1, 1), 5.0)])),
    'update_mappings': lambda h, n, s: n.update_mappings(
        s, 'L', rows(h, [(1, 9.0, 1, 'A', 'x', level(1, 1)), (2, 5.0, 1, 'A', 'x', level(1, 1))]), MAPCOLS),
    'delete_mappings': lambda h, n, s: n.delete_mappings(
        s, 'L', rows(h, [(1, 4.0, 1, 'A', 'x'), (2, 5.0, 3, 'B', 'x')]), ['other_index_id', 'L', 'index_id', 'a', 'b']),
    'delete_mappings_criteria': lambda h, n, s: n.delete_mappings(s, 'L', a='A'),
    'reify_mappings': lambda h, n, s: n.reify_mappings(s, 'L'),
    'reify_mappings_criteria': lambda h, n, s: n.reify_mappings(s, 'L', a='A'),
    'insert_quantities2': lambda h, n, s: n.insert_quantities2(
        value_column='value', data=rows(h, [('A', 'y', 'u', 1.0), ('A', '', 'v', 2.0)]), columns=Q, on_existing='sum'),
    'insert_quantities2_replace': lambda h, n, s: n.insert_quantities2(
        value_column='value', data=rows(h, [('A', '', 'v', 1.0), ('B', '', 'v', 2.0)]), columns=Q, on_existing='replace'),
    'insert_quantities': lambda h, n, s: n.insert_quantities(
        value='value', attributes=['attr'], data=rows(h, [('A', 'y', 'u', 1.0), ('A', '', 'u', 2.0)]), columns=Q),
    'delete_quantities_without_index': lambda h, n, s: n.delete_quantities_without_index(),
    'delete_unmatched_quantities': lambda h, n, s: n.delete_unmatched_quantities(),
    'add_partition_definitions': lambda h, n, s: n.add_partition_definitions({'b'}),
    'add_partition_definition': lambda h, n, s: n.add_partition_definition({'b'}),
    'drop_partition_definitions': lambda h, n, s: n.drop_partition_definitions({'a'}),
    'add_index_columns': lambda h, n, s: n.add_index_columns('c', 'd'),
    'drop_index_columns': lambda h, n, s: n.drop_index_columns('c', 'd'),
    'rename_index_columns': lambda h, n, s: n.rename_index_columns({'a': 'p', 'b': 'q'}),
    'rename_label_column': lambda h, n, s: n.rename_label_column('a', 'p'),
    'change_label_order': lambda h, n, s: n.change_label_order('a', 1),
    'change_attribute_order': lambda h, n, s: n.change_attribute_order('attr', 1),
    'set_registered_attributes': lambda h, n, s: n.set_registered_attributes(['attr', 'sub']),
    'set_domain': lambda h, n, s: n.set_domain('other'),
    'set_default_weight_group': lambda h, n, s: n.set_default_weight_group(n.get_weight_group('w2')),
}
ORPHANS = ('delete_quantities_without_index', 'delete_unmatched_quantities')
LINKS = ('add_link', 'edit_link', 'drop_link')
REACH = {'statement_fault': sorted(OPS) + ['raised'], 'refused': ['refused']}
ASSUMPTIONS = ['One fault per operation; SQLite itself rolls a transaction back completely and a failing statement has no effect.']


def state(node):
    out = snapshot(node)
    out['property'] = [r for r in out['property'] if r[0] not in ('unique_id', 'created_date')]
    out['link'] = [[x for x in r if x != r[1]] for r in out['link']]
    out['columns'] = list(node.index_columns)
    out['schema'] = sorted(str(r[0]) for r in query(node, "SELECT name FROM main.sqlite_master WHERE type IN ('table', 'index')"))
    return out


def prepare(h, op):
    node, src = build(1 if op.startswith(('delete_index', 'update_index')) or op in ORPHANS else 0)
    if op in ORPHANS:
        node.delete_index(a='A')
    if op == 'drop_index_columns':
        node.add_index_columns('c', 'd')
        node.add_partition_definition({'c'})
        node.change_label_order('c', -2)
    return node, src


@scenario(quick=dict(limit=400), thorough=dict(limit=1000))
def statement_fault(h):
    """For every operation: a failing SQL statement or an interrupt at symbolic position K."""
    op = h.choice('op', sorted(OPS))
    h.reach(op)
    h.fault_row = None
    node, src = prepare(h, op)
    before = state(node)
    twin, tsrc = prepare(h, op)
    OPS[op](h, twin, tsrc)
    after = state(twin)
    kind = h.choice('kind', ['error', 'interrupt'])
    K = h.int('K', 1, h.bound('limit'))
    count = [0]

    def hook(con, sql, k):
        if k == 'rollback' or count[0] < 0:
            return
        count[0] += 1
        if h.decided(K == count[0]):
            count[0] = -1
            if kind == 'interrupt':
                raise KeyboardInterrupt
            raise h.sql.OperationalError('disk I/O error')
    h.sql.HOOKS.on_statement = hook
    failed = False
    try:
        OPS[op](h, node, src)
    except (Exception, KeyboardInterrupt):
        failed = True
    finally:
        h.sql.HOOKS.on_statement = None
    now = state(node)
    if failed:
        h.reach('raised')
        for t in before:
            h.check(h.same(now[t], before[t]), f'a failed operation leaves no change behind: {op}', [t, now[t], before[t]])
        OPS[op](h, node, src)
        now = state(node)
    for t in after:
        h.check(h.same(now[t], after[t]), f'a completed operation has its full effect: {op}', [t, now[t], after[t]])


DATA_OPS = [k for k in sorted(OPS) if any(w in k for w in ('insert', 'update', 'delete'))
            and k not in ORPHANS and not k.endswith('criteria')]


@scenario(quick=dict(), thorough=dict())
def data_fault(h):
    """For every loading operation: the data source fails before a symbolic row."""
    op = h.choice('op', DATA_OPS)
    node, src = prepare(h, op)
    before = state(node)
    h.fault_row = h.int('row', 0, 4)
    try:
        OPS[op](h, node, src)
        return
    except Broken:
        pass
    now = state(node)
    for t in before:
        h.check(h.same(now[t], before[t]), f'a failed load leaves no change behind: {op}', [t, now[t], before[t]])


BAD = {
    'weight negative': lambda n, s, i: n.insert_weights('w2', bad(i, [('B', 'x', 1.0), ('A', 'x', 2.0)], 2, -1.0), L + ['w2'], on_conflict='replace'),
    'weight text': lambda n, s, i: n.insert_weights('w2', bad(i, [('B', 'x', 1.0), ('A', 'x', 2.0)], 2, 'abc'), L + ['w2'], on_conflict='replace'),
    'weight conflict': lambda n, s, i: n.insert_weights('w2', bad(i, [('B', 'x', 1.0), ('B', 'x', 2.0)], 1, 'x'), L + ['w2'], on_conflict='abort'),
    'index conflict': lambda n, s, i: n.insert_index(bad(i, [(7, 'C', 'x'), (8, 'C', 'y')], 0, 1), ['index_id'] + L),
    'index empty label': lambda n, s, i: n.insert_index(bad(i, [('C', 'x'), ('C', 'y')], 0, ''), L),
    'update conflict': lambda n, s, i: n.update_index(bad(i, [(1, 'C', 'x'), (2, 'C', 'y')], 1, 'B'), ['index_id'] + L),
    'update empty label': lambda n, s, i: n.update_index(bad(i, [(1, 'C', 'x'), (2, 'C', 'y')], 2, ''), ['index_id'] + L),
    'quantity label': lambda n, s, i: n.insert_quantities2(value_column='value', data=bad(i, [('A', 'x', 'u', 1.0), ('A', 'y', 'u', 2.0)], 0, 'Q'), columns=Q),
    'quantity partition': lambda n, s, i: n.insert_quantities2(value_column='value', data=bad(i, [('A', 'x', 'u', 1.0), ('A', 'y', 'u', 2.0)], 0, ''), columns=Q),
    'quantity exists': lambda n, s, i: n.insert_quantities2(value_column='value', data=bad(i, [('A', 'x', 'v', 1.0), ('B', 'x', 'u', 2.0)], 2, 'v'), columns=Q),
    'mapping bad': lambda n, s, i: n.insert_mappings2(
        s.unique_id, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L')] + bad(i, [(2, 1, level(1, 1), 5.0), (1, 3, level(1, 1), 5.0)], 1, 99)),
    'mapping duplicate': lambda n, s, i: n.insert_mappings2(
        s.unique_id, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L')] + bad(i, [(2, 1, level(1, 1), 5.0), (1, 3, level(1, 1), 5.0)], 1, 2)),
}


def bad(i, data, col, value):
    """Row *i* of the data gets an unusable value."""
    data = [list(r) for r in data]
    data[i][col] = value
    return [tuple(r) for r in data]


@scenario(quick=dict(), thorough=dict())
def bad_row(h):
    """Data with one unusable row: an operation that raises has stored nothing."""
    op = h.choice('op', sorted(BAD))
    h.fault_row = None
    node, src = prepare(h, op)
    before = state(node)
    i = h.choice('row', [0, 1])
    try:
        BAD[op](node, src, i)
    except Exception as e:
        h.observe('error', type(e).__name__)
        now = state(node)
        for t in before:
            h.check(h.same(now[t], before[t]), f'a rejected load leaves no change behind: {op}', [t, now[t], before[t]])


def foreign_group(n):
    from dataclasses import replace
    return replace(n.get_weight_group('w2'), id=99, name='zz')


REFUSED = {
    'edit_link name': lambda n, s: n.edit_link(s, 'M', is_default=True, name='L'),
    'edit_link unknown': lambda n, s: n.edit_link(s, 'Z', is_default=True),
    'edit_link selectors': lambda n, s: n.edit_link(s, 'M', is_default=True, selectors=[1]),
    'add_link name': lambda n, s: n.add_link(s, 'L', is_default=True),
    'add_link selectors': lambda n, s: n.add_link(s, 'N', is_default=True, selectors=['[k=']),
    'drop_link unknown': lambda n, s: n.drop_link(s, 'Z'),
    'edit_weight_group name': lambda n, s: n.edit_weight_group('w2', description='d', name='wt'),
    'add_weight_group name': lambda n, s: n.add_weight_group('wt', make_default=True),
    'add_weight_group selectors': lambda n, s: n.add_weight_group('w3', make_default=True, selectors=['[k=']),
    'drop_weight_group unknown': lambda n, s: n.drop_weight_group('zz'),
    'set_default_weight_group unknown': lambda n, s: n.set_default_weight_group(foreign_group(n)),
    'rename to one name': lambda n, s: n.rename_index_columns({'a': 'p', 'b': 'p'}),
    'rename to reserved': lambda n, s: n.rename_index_columns({'a': 'p', 'b': 'index_id'}),
    'rename unknown': lambda n, s: n.rename_index_columns({'a': 'p', 'z': 'q'}),
    'rename_label_column taken': lambda n, s: n.rename_label_column('a', 'b'),
    'add_index_columns reserved': lambda n, s: n.add_index_columns('p', 'value'),
    'add_index_columns twice': lambda n, s: n.add_index_columns('p', 'q', 'p'),
    'add_index_columns attribute': lambda n, s: n.add_index_columns('p', 'attr'),
    'drop_index_columns needed': lambda n, s: n.drop_index_columns('b'),
    'drop_index_columns all': lambda n, s: n.drop_index_columns('a', 'b'),
    'drop_index_columns reserved': lambda n, s: n.drop_index_columns('a', 'index_id'),
    'add_partition_definitions unknown': lambda n, s: n.add_partition_definitions({'b'}, {'a', 'z'}),
    'drop_partition_definitions whole': lambda n, s: n.drop_partition_definitions({'a'}, {'a', 'b'}),
    'drop_partition_definitions unknown': lambda n, s: n.drop_partition_definitions({'a'}, {'z'}),
    'set_registered_attributes label': lambda n, s: n.set_registered_attributes(['p', 'a']),
    'set_domain type': lambda n, s: n.set_domain(5),
    'change_label_order unknown': lambda n, s: n.change_label_order('z', 1),
    'change_attribute_order unknown': lambda n, s: n.change_attribute_order('z', 1),
    'insert_weights group': lambda n, s: n.insert_weights('zz', [('A', 'x', 1.0)], L + ['zz']),
    'insert_index column': lambda n, s: n.insert_index([('C', 'x', 1.0)], L + ['zz'], weights='zz'),
    'insert_mappings link': lambda n, s: n.insert_mappings(s, 'Z', [(2, 5.0, 1, 'A', 'x', level(1, 1))], MAPCOLS),
    'insert_quantities column': lambda n, s: n.insert_quantities2(value_column='zz', data=[('A', 'y', 'u', 1.0)], columns=Q),
}


@scenario()
def refused(h):
    """Requests that are refused as a whole: a request that raises has stored nothing and can be followed by others."""
    op = h.choice('op', sorted(REFUSED))
    h.fault_row = None
    node, src = build()
    before = state(node)
    try:
        REFUSED[op](node, src)
    except Exception as e:
        h.reach('refused')
        h.observe('error', type(e).__name__)
        h.check_same(state(node), before, f'a refused request leaves no change behind: {op}')
    node.set_domain('later')
    h.check(node.domain == 'later' and state(node)['index'] == before['index'], 'the space stays usable')
