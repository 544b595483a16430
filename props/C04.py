"""Links stay normalized: proportions, source hash and completeness."""
from symx.harness import scenario
from . import history as H

META = dict(
    title='Links stay normalized: proportions, source hash and completeness',
    statement='After every sequence of operations on a space, the proportions of each mapped source record sum to '
              'one and follow the mapping values (equal shares for zero totals), mappings refer to existing records'
              ' only, and the recorded source hash and completeness flag of the link describe exactly the stored '
              'mappings.',
    over=['histories', 'inputs'],
    text='for every sequence (within the bound) of index and mapping operations with arbitrary mapping values',
    why='tests run single operations; the invariant has to survive every interaction between index changes '
        'and mapping changes',
    files=['src/toron/space.py', 'src/toron/data_service.py', 'src/toron/dal1/repositories.py', 'src/toron/dal1/schema.py'],
    mechanism=[('refresh', 'refresh_proportions, refresh_other_index_hash, refresh_is_locally_complete')])

OPS = {
    'insert_index': H.op_insert_index, 'delete_index': H.op_delete_index, 'delete_every': H.op_delete_every, 'update_index': H.op_update_index,
    'insert_mapping': H.op_insert_mapping, 'insert_mapping_labeled': H.op_insert_mapping_labeled,
    'update_mapping': H.op_update_mapping, 'delete_mapping': H.op_delete_mapping, 'reify': H.op_reify,
}
REACH = {'mapping_history': sorted(OPS)}


@scenario(quick=dict(steps=2), thorough=dict(steps=3))
def mapping_history(h):
    """Every sequence of index and mapping operations keeps the link normalized."""
    w = H.World(h, weights=False, mlo=1)
    # merging adds proportions, so the exact ratio to the values is only required before a merge
    w.ratios = False
    H.run(h, w, OPS, h.bound('steps'), H.inv_mapping)


@scenario(quick=dict(steps=1), thorough=dict(steps=2))
def mapping_values(h):
    """Mapping operations keep proportions equal to value / total."""
    w = H.World(h, weights=False)
    ops = {k: OPS[k] for k in ('insert_mapping', 'insert_mapping_labeled', 'update_mapping', 'delete_mapping', 'reify',
                               'delete_index')}
    H.run(h, w, ops, h.bound('steps'), H.inv_mapping)
