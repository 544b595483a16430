"""Index identity: unique labels, ids never reused, fixed undefined record, current hash."""
from symx.harness import scenario
from . import history as H
from .common import new_space, index_rows, raises, query, hash_ids

META = dict(
    title='Index records keep their identity: unique labels, ids never reused',
    statement='Index records have distinct combinations of non-empty labels, an identifier is never given to '
              'another record after deletion, and the undefined record always exists unchanged. Relabeling changes '
              'exactly the addressed record and refuses conflicts unless merging is requested. The recorded index '
              'hash always describes the current set of identifiers.',
    over=['histories', 'inputs'],
    text='for every sequence (within the bound) of index operations, and all combinations of labels in '
         'inserted or updated rows',
    why='tests insert and update fixed rows once; identity must survive every history of inserts, merges and '
        'deletes',
    files=['src/toron/space.py', 'src/toron/dal1/repositories.py', 'src/toron/dal1/schema.py'],
    mechanism=[('identity', 'AUTOINCREMENT ids, unique label constraint, undefined record guards'), ('hash', 'refresh_index_hash_property')])

OPS = {
    'insert_index': H.op_insert_index, 'insert_index_ids': H.op_insert_index_ids,
    'insert_index_weights': H.op_insert_index_weights, 'delete_index': H.op_delete_index, 'delete_every': H.op_delete_every,
    'update_index': H.op_update_index, 'merge_two': H.op_merge_two,
}
REACH = {'index_history': sorted(OPS), 'labels_unique': ['duplicate', 'empty', 'inserted']}


@scenario(quick=dict(steps=2), thorough=dict(steps=3))
def index_history(h):
    """Every sequence of index operations keeps the index well formed."""
    w = H.World(h, mapping=False)
    H.run(h, w, OPS, h.bound('steps'), H.inv_index)


@scenario(quick=dict(rows=3), thorough=dict(rows=4))
def labels_unique(h):
    """Rows with arbitrary labels (also empty and dash): stored exactly once, never empty."""
    rows = [tuple(h.label(f'{c}{i}', ['', '-', 'x', 'y']) for c in 'ab') for i in range(h.bound('rows'))]
    node = new_space()
    with raises(ValueError) as err:
        node.insert_index(rows, ['a', 'b'])
    got = [tuple(r[1:]) for r in index_rows(node)]
    want = []
    for r in rows:
        if '' in r:
            h.reach('empty')
            continue
        if r == ('-', '-') or r in want:
            h.reach('duplicate')
            continue
        h.reach('inserted')
        want.append(r)
    h.check(not err, 'duplicate labels are not an error')
    h.check(got == want, 'stored labels are the distinct non-empty input rows in order', [got, want])
    ids = [r[0] for r in index_rows(node)]
    h.check(ids == sorted(ids) and len(set(ids)) == len(ids) and 0 not in ids, 'ids are distinct and increasing')
    if want:
        (val,), = query(node, "SELECT value FROM main.property WHERE key='index_hash'")
        h.check(str(val).strip('"') == hash_ids([0] + ids), 'the stored index hash describes the current index ids')


@scenario(quick={})
def relabel(h):
    """update_index changes exactly the addressed record, whatever the label names are."""
    names = h.choice('names', [('a', 'b'), ('my label', 'order'), ('a"b', 'group')])
    rows = [('A', 'x'), ('A', 'y'), ('B', 'x')]
    node = new_space(names, rows, [{names[0]}])
    i = h.choice('id', [1, 2, 3, 0, 9])
    new = (h.label('new0', ['A', 'B', 'C', '']), h.label('new1', ['x', 'z']))
    merge = h.flag('merge')
    with raises(Exception) as err:
        node.update_index([(i,) + new], ['index_id'] + list(names), merge_on_conflict=merge)
    got = {r[0]: tuple(r[1:]) for r in index_rows(node)}
    want = dict(enumerate(rows, 1))
    if '' in new or i == 9:
        h.check(not err and got == want, 'unusable rows change nothing', [got])
        return
    if i == 0:
        h.check(bool(err) and got == want, 'the undefined record cannot be relabeled')
        return
    clash = [j for j, r in want.items() if r == new and j != i]
    if clash and not merge:
        h.check(bool(err) and got == want, 'a label conflict is refused without merge_on_conflict')
        return
    h.check(not err, 'an update without conflict succeeds', [i, got])
    for j in clash:
        del want[j]
    want[i] = new
    h.check(got == want, 'exactly the addressed record is relabeled', [got, want])
