"""Weight-group completeness flag is always current."""
from symx.harness import scenario
from . import history as H
from .common import set_weights

META = dict(
    title='The completeness flag of a weight group is always current',
    statement='After every sequence of operations, a weight group is marked complete exactly when every index '
              'record has a weight in it, every weight belongs to an existing record, and no weight is negative.',
    over=['histories'],
    text='for every sequence (within the bound) of index and weight operations, including conflict modes and '
         'merges',
    why='tests check the flag after single operations on fixed data',
    files=['src/toron/space.py', 'src/toron/data_service.py', 'src/toron/dal1/repositories.py'],
    mechanism=[('refresh', 'refresh_is_complete after each change')])

OPS = {
    'insert_index': H.op_insert_index, 'insert_index_weights': H.op_insert_index_weights,
    'insert_index_ids': H.op_insert_index_ids, 'delete_index': H.op_delete_index, 'delete_every': H.op_delete_every, 'update_index': H.op_update_index,
    'merge_two': H.op_merge_two, 'insert_weights': H.op_insert_weights, 'update_weights': H.op_update_weights,
    'delete_weights': H.op_delete_weights,
}
REACH = {'weight_history': sorted(OPS), 'many_groups': ['relabel', 'delete', 'insert', 'weighted', 'weights']}


@scenario(quick=dict(steps=2), thorough=dict(steps=3))
def weight_history(h):
    """Every sequence of index and weight operations keeps the flag current."""
    w = H.World(h, mapping=False, weights=h.choice('start', ['full', 'partial']))
    H.run(h, w, OPS, h.bound('steps'), H.inv_weights)


@scenario(quick=dict(steps=2), thorough=dict(steps=3))
def two_groups(h):
    """The flag of one group is not disturbed by operations on another."""
    w = H.World(h, mapping=False)
    set_weights(w.node, 'w2', w.rows0, [1.0, None, None])
    ops = {k: OPS[k] for k in ('insert_index', 'insert_index_weights', 'insert_weights', 'delete_weights', 'delete_index')}

    def w2(w, s):
        row = h.choice(f'{s}.row', [('A', 'y'), ('B', 'x'), ('B', 'z')])
        H.expected(lambda: w.node.insert_weights('w2', [row + (2.0,)], ['a', 'b', 'w2']))

    def drop(w, s):
        w.node.drop_weight_group('w2')
    H.run(h, w, dict(ops, w2=w2, drop=drop), h.bound('steps'), H.inv_weights)


@scenario(quick=dict(groups=2), thorough=dict(groups=3))
def many_groups(h):
    """One operation in a space with several groups, each with any set of weights."""
    w = H.World(h, mapping=False, weights=False)
    names = ['v', 'wt', 'u'][:h.bound('groups')]
    for g in names:
        have = [i if h.flag(f'{g}{i}') else None for i in (1, 2, 3)]
        set_weights(w.node, g, w.rows0, [None if i is None else h.real(f'{g}value{i}', 0, 100) for i in have])
    H.inv_weights(h, w)

    def relabel(w, s):
        rows = h.choice(f'{s}.rows', [[(1, 'A', 'y')], [(3, 'A', 'x')], [(2, 'B', 'x'), (3, 'A', 'x')], [(1, 'A', 'y'), (1, 'B', 'x')], [(2, 'C', 'c')]])
        H.expected(lambda: w.node.update_index(rows, ['index_id', 'a', 'b'], merge_on_conflict=True))
    H.run(h, w, dict(relabel=relabel, delete=H.op_delete_index, insert=H.op_insert_index, weighted=H.op_insert_index_weights,
                     weights=H.op_insert_weights), 1, H.inv_weights)
