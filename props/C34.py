"""The legacy node (xNode): stored records, column removal, disaggregation, edges and files."""
import os
from symx.harness import scenario
from .common import raises

META = dict(
    title='The legacy node keeps totals and refuses without damage',
    statement='The legacy xNode class stores index records, weights, partitions and quantities as given and returns them; a refused '
              'operation leaves the content unchanged and the node usable. Removing label columns keeps the totals of weights, '
              'quantities and edge relations per remaining group, static and adaptive disaggregation keep the total of every '
              'attribute, and translation over a complete edge keeps totals too. Saving and loading in memory, in a cache file '
              'or in place gives the same content, and leaves no files behind.',
    over=['inputs', 'histories', 'configurations'],
    text='for every weight, quantity, relation and arrangement of columns, partitions and records within the bound',
    why='tests use fixed tables; the totals of the generated SQL must hold for every overlap and value',
    files=['src/toron/_dal.py', 'src/toron/_schema.py', 'src/toron/xnode.py', 'src/toron/_utils.py'],
    mechanism=[('coarsening', '_remove_index_columns_execute_sql, _coarsen_records_make_sql'),
               ('disaggregation', 'static_disaggregate, adaptive_disaggregate'),
               ('edges', 'add_incoming_edge, _refresh_proportions, translate'),
               ('storage', 'to_file, from_file, open, savepoint')])

REACH = {'crosswalk': ['zero', 'merged'], 'levels': ['unrepresentable', 'levels moved'], 'coarsen': ['removed', 'refused'], 'partitions': ['refused', 'renamed'], 'disaggregate': ['zero weights', 'selected', 'adaptive'],
         'edges': ['complete', 'incomplete', 'even', 'selected', 'incomplete selected'], 'storage': ['cache', 'refused'], 'quantities': ['deleted', 'kept'],
         'refused': ['refused'], 'weight_records': ['partial']}
ROWS = [('A', 'x'), ('A', 'y'), ('B', 'x')]


def q(node, sql, p=()):
    with node._dal._transaction(method=None) as cur:
        cur.execute(sql, p)
        return [list(r) for r in cur.fetchall()]


TABLES = ['edge', 'relation', 'node_index', 'location', 'structure', 'attribute', 'quantity', 'weighting', 'weight', 'property']


def content(node):
    return {t: q(node, f'SELECT * FROM main.{t} ORDER BY 1') for t in TABLES}


def make(cols=('a', 'b'), rows=ROWS, **kw):
    from toron import xNode
    node = xNode(**kw)
    node.add_index_columns(list(cols))
    node.add_index_records([list(cols)] + [list(r) for r in rows])
    return node


def weigh(node, name, rows, values, selectors=None, cols=('a', 'b')):
    node.add_weights([list(cols) + [name]] + [list(r) + [v] for r, v in zip(rows, values)], name, selectors=selectors)


def weights(node, name):
    return {i: v for i, v in q(node, 'SELECT index_id, weight_value FROM main.weight JOIN main.weighting USING (weighting_id) WHERE name=?', (name,))}


def relations(node, uid, name):
    return {(o, i): (v, p) for o, i, v, p in q(
        node, 'SELECT other_index_id, index_id, relation_value, proportion FROM main.relation JOIN main.edge USING (edge_id) '
              'WHERE other_unique_id=? AND name=?', (uid, name))}


def put(total, key, v):
    total[key] = total[key] + v if key in total else v


NAMES = [('a', 'b'), ('b b', 'order'), ('order', 'a')]
QROWS = [('A', 'x', 'u'), ('A', 'x', 'u'), ('A', 'y', 'u'), ('A', '', 'v'), ('B', 'x', 'u'), ('A', 'y', 'v')]
PAIRS = [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3)]


@scenario(quick=dict(names=2, qpool=3, pairs=3), thorough=dict(names=3, qpool=6, pairs=5))
def coarsen(h):
    """Removing a column merges records and adds up everything that is attached to them."""
    cols = h.choice('names', NAMES[:h.bound('names')])
    node = make(cols)
    parts = h.flag('partition')
    if parts:
        node.add_partition_definitions([{cols[0]}])
    has = [h.flag(f'has{i}') for i in (1, 2)] + [True]
    w = {i: h.real(f'w{i}', 0, 100) for i in (1, 2, 3) if has[i - 1]}
    weigh(node, 'w', [ROWS[i - 1] for i in w], w.values(), cols=cols)
    weigh(node, 'v', ROWS, [1.0, 2.0, 4.0], cols=cols)
    quantities = [(r, h.real(f'q{k}', 0, 100)) for k, r in enumerate(QROWS[:h.bound('qpool')]) if k < 2 or h.flag(f'quantity{k}')]
    node.add_quantities([list(cols) + ['k', 'value']] + [[*r, v] for r, v in quantities], 'value')
    rel = [(o, i, h.real(f'r{o}{i}', 0.5, 100), None) for o, i in PAIRS[:h.bound('pairs')] if i == 1 or h.flag(f'pair{o}{i}')]
    node._dal.add_incoming_edge('other', 'e', rel)
    before = content(node)
    old = relations(node, 'other', 'e')
    flags = dict(preserve_structure=h.flag('structure'), preserve_granularity=h.flag('granularity'))
    with raises(Exception) as err:
        node.remove_index_columns([cols[1]], **flags)
    refuse = flags['preserve_granularity'] or (flags['preserve_structure'] and not parts)
    h.check(bool(err) == refuse, 'refused exactly when granularity or partitions would be lost', [refuse, repr(err)])
    if err:
        h.reach('refused')
        h.check_same(content(node), before, 'a refused removal changes nothing')
        return
    h.reach('removed')
    h.check(list(node.index_columns()) == [cols[0]], 'remaining columns')
    h.check([list(r) for r in node.index_records()] == [[0, '-'], [1, 'A'], [3, 'B']], 'merged records', [list(r) for r in node.index_records()])
    new = {0: 0, 1: 1, 2: 1, 3: 3}
    for name, given in (('w', w), ('v', {1: 1.0, 2: 2.0, 3: 4.0})):
        want = {}
        for i, x in given.items():
            put(want, new[i], x)
        got = weights(node, name)
        h.check(set(got) == set(want), 'weights of the merged records', [got, want])
        for i in want:
            h.check_eq(got[i], want[i], 'merged weights are sums', [name, i])
        (done,), = q(node, 'SELECT is_complete FROM main.weighting WHERE name=?', (name,))
        h.check(bool(done) == (len(want) == 2), 'completeness flag of weights', [name, done])
    want = {}
    for (a, b, k), x in quantities:
        put(want, (a, k), x)
    got = {}
    for r in node._dal.get_raw_quantities():
        put(got, (r[cols[0]], r['k']), r['value'])
    h.check(set(got) == set(want), 'quantities of the merged labels', [sorted(got), sorted(want)])
    for k in want:
        h.check_eq(got[k], want[k], 'quantities of merged labels keep their total', k)
    values, props = {}, {}
    for (o, i), (x, p) in old.items():
        put(values, (o, new[i]), x)
        put(props, (o, new[i]), p)
    got = relations(node, 'other', 'e')
    h.check(set(got) == set(values), 'relations of the merged records', [sorted(got), sorted(values)])
    for k in values:
        h.check_eq(got[k][0], values[k], 'relation values are sums', k)
        h.check_eq(got[k][1], props[k], 'proportions are sums', k)
    (done,), = q(node, 'SELECT is_locally_complete FROM main.edge')
    h.check(bool(done) == ({i for _, i in got} == {0, 1, 3}), 'completeness flag of the edge', [done, sorted(got)])


def closure(cols, parts):
    masks = {tuple(c in p for c in cols) for p in parts} | {tuple(False for _ in cols)}
    while True:
        more = {tuple(x or y for x, y in zip(m, n)) for m in masks for n in masks} - masks
        if not more:
            return {tuple(int(x) for x in m) for m in masks}
        masks |= more


@scenario()
def partitions(h):
    """The structure follows partitions, added columns, renamed columns and removed partitions."""
    node = make(('a', 'b', 'c'), [('A', 'x', '1'), ('A', 'y', '1'), ('B', 'x', '2'), ('B', 'x', '1')])
    parts = h.subset('partitions', [('a',), ('b',), ('a', 'b'), ('b', 'c')])
    if parts:
        node.add_partition_definitions([set(p) for p in parts])
    cols = ['a', 'b', 'c']
    want = [set(p) for p in parts] + [set(cols)]

    def check(what):
        h.check(list(node.index_columns()) == cols, what + ': columns', [node.index_columns()])
        got = [tuple(int(x) for x in r) for r in node.structure()]
        h.check(len(got) == len(set(got)) and set(got) == closure(cols, want), what + ': structure is every union of partitions', [got, want])
        for _, g, *bits in q(node, 'SELECT * FROM main.structure'):
            n = {}
            for r in node.index_records():
                if r[0]:
                    put(n, tuple(x for x, b in zip(r[1:], bits) if b), 1)
            from math import log2
            size = sum(n.values())
            h.check(abs(g - (log2(size) - sum(x / size * log2(x) for x in n.values()))) < 1e-9, what + ': granularity is current', [bits, g])
    check('defined')
    step = h.choice('step', ['rename', 'swap', 'remove', 'add column', 'rename, add column', 'remove all', 'records'])
    if 'rename' in step:
        node.rename_index_columns({'a': 'z z'})
        cols[0] = 'z z'
        want = [{'z z' if c == 'a' else c for c in p} for p in want]
        h.reach('renamed')
        check('renamed')
    if step == 'swap':
        before = content(node)
        with raises(Exception) as err:
            node.rename_index_columns(lambda x: {'a': 'b'}.get(x, x))
        h.check(bool(err), 'colliding names are refused')
        h.reach('refused')
        h.check_same(content(node), before, 'a refused renaming changes nothing')
    if step == 'remove' and parts:
        # the minimal generating set: partitions that are unions of others are not stored
        stored = [p for p in want if p != set().union(*[o for o in want if o < p])]
        out = stored[0]
        if out != set(cols):
            node.remove_partition_definitions([set(out)])
            want = [p for p in stored if p != out] + [set(cols)]
            check('removed')
    if 'add column' in step:
        node.add_index_columns(['d'])
        cols.append('d')
        want = want + [set(cols)]
        h.check([r[-1] for r in node.index_records()] == ['-'] * 5, 'a new column is undefined')
        check('column added')
    if step == 'remove all':
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            node.remove_partition_definitions([set(p) for p in want])
        check('whole space stays') if not parts else None
        h.check(tuple(1 for _ in cols) in [tuple(r) for r in node.structure()], 'the whole space cannot be removed')
    if step == 'records':
        node.add_index_records([['c', 'x', 'a', 'b'], ['9', 'ignored', 'C', 'y']])
        h.check(list(node.index_records())[-1][1:] == ('C', 'y', '9'), 'labels go to their columns')
        check('records added')


@scenario(quick=dict(qpool=3), thorough=dict(qpool=5))
def disaggregate(h):
    """Static and adaptive disaggregation keep totals and follow the selected weights."""
    node = make(rows=ROWS + [('B', 'y')])
    node.add_partition_definitions([{'a'}])
    rows = ROWS + [('B', 'y')]
    w = [h.real(f'w{i}', 0, 100) for i in range(4)]
    weigh(node, 'w', rows, w, h.choice('selectors', [None, ['[k]']]))
    weigh(node, 'v', rows, [1.0, 3.0, 2.0, 2.0], ['[k="v"]'])
    if h.flag('incomplete'):
        weigh(node, 'i', rows[:2], [5.0, 7.0], ['[k="u"]'])
    pool = [(('A', '', 'u'), (0, 1)), (('A', '', 'v'), (0, 1)), (('A', 'x', 'u'), (0,)), (('B', '', 'u'), (2, 3)), (('A', 'y', 'v'), (1,))]
    given = [(r, ids, h.real(f'q{k}', 0, 100)) for k, (r, ids) in enumerate(pool[:h.bound('qpool')]) if h.flag(f'quantity{k}')]
    if not given:
        return
    node.add_quantities([['a', 'b', 'k', 'value']] + [[*r, v] for r, _, v in given], 'value')
    where = h.choice('where', [{}, {'k': 'u'}, {'a': 'A'}, {'b': 'x'}])
    fixed = [1.0, 3.0, 2.0, 2.0]
    got = {}
    for i, attrs, v in node._dal.static_disaggregate(**where):
        h.check((i, attrs['k']) not in got, 'one result per record and attributes')
        got[i, attrs['k']] = v
    for k in 'uv':
        use = fixed if k == 'v' else w
        if k == 'v':
            h.reach('selected')
        for n in range(4):
            parts = []
            for (a, b, kk), ids, v in given:
                if kk == k and n in ids and where.get('k', k) == k and where.get('a', rows[n][0]) == rows[n][0] and where.get('b', rows[n][1]) == rows[n][1]:
                    total = h.sum_([use[m] for m in ids])
                    if total == 0:
                        h.reach('zero weights')
                        parts.append(v / len(ids))
                    else:
                        parts.append(v * use[n] / total)
            h.check(((n + 1, k) in got) == bool(parts), 'results exactly where quantities apply', [n + 1, k, sorted(got)])
            if parts:
                h.check_eq(got[n + 1, k], h.sum_(parts), 'each quantity is split by the selected weights', [n + 1, k])
    if where and 'k' not in where:
        return
    total = {}
    for (a, b, k), ids, v in given:
        if where.get('k', k) == k:
            put(total, (a, k), v)
    keys = h.choice('match', [None, ['k'], ['none']])
    got = {}
    for i, attrs, v in node._dal.adaptive_disaggregate(keys, **where):
        put(got, (rows[i - 1][0], attrs['k']), v)
    h.reach('adaptive')
    h.check(set(got) == set(total), 'adaptive results where quantities apply', [sorted(got), sorted(total)])
    for k in total:
        h.check_eq(got[k], total[k], 'adaptive disaggregation keeps totals', k)


@scenario(quick=dict(pairs=4), thorough=dict(pairs=6))
def edges(h):
    """Proportions of every source add up to one; translation follows the matching complete edge."""
    from toron._utils import XQuantityIterator
    node = make()
    pool = [(1, 1), (1, 2), (2, 2), (2, 3), (1, 3), (3, 3)][:h.bound('pairs')]
    rel = [(o, i, h.real(f'r{o}{i}', 0, 100), None) for o, i in pool if h.flag(f'pair{o}{i}')]
    chosen = h.choice('selectors', ['e', 'f', None])
    node._dal.add_incoming_edge('other', 'e', rel, selectors=['[k="v"]'] if chosen == 'e' else None)
    node._dal.add_incoming_edge('other', 'f', [(1, 3, 2.0, None), (2, 1, 1.0, None), (2, 2, 3.0, None)],
                                selectors=['[k="v"]'] if chosen == 'f' else None)
    default = h.choice('default', ['e', 'f', None])
    if default:
        node._dal.edit_incoming_edge('other', default, is_default=True)
    got = relations(node, 'other', 'e')
    want = {(o, i): v for o, i, v, _ in rel}
    h.check(set(got) == set(want) | {(0, 0)}, 'relations as given and for the undefined record', [sorted(got)])
    prop = {(0, 0): 1.0}
    for (o, i), v in want.items():
        h.check_eq(got[o, i][0], v, 'relation values as given', [o, i])
        total = h.sum_([x for (p, _), x in want.items() if p == o])
        if total == 0:
            h.reach('even')
            prop[o, i] = 1.0 / len([1 for p, _ in want if p == o])
        else:
            prop[o, i] = v / total
        h.check_eq(got[o, i][1], prop[o, i], 'proportions follow the relation values', [o, i])
    h.check_eq(got[0, 0][1], 1.0, 'the undefined record maps to itself')
    complete = {i for _, i in want} == {1, 2, 3}
    h.reach('complete' if complete else 'incomplete')
    (done,), = q(node, 'SELECT is_locally_complete FROM main.edge WHERE name=?', ('e',))
    h.check(bool(done) == complete, 'completeness flag', done)
    names = q(node, 'SELECT name FROM main.edge WHERE is_default=1')
    h.check(names == [[default or 'e']], 'one default edge', names)
    qs = [(1, 'u', h.real('q0', 0, 100)), (1, 'v', h.real('q1', 0, 100)), (2, 'u', 8.0), (2, 'v', h.real('q2', 0, 100))]
    with raises(RuntimeError) as err:
        out = list(node._dal.translate(XQuantityIterator('other', [(i, {'k': k}, v) for i, k, v in qs])))
    h.check(bool(err) == (default != 'f' and not complete), 'translation needs a complete default edge', repr(err))
    if err:
        return
    f = {(1, 3): 1.0, (2, 1): 0.25, (2, 2): 0.75}
    total = {}
    for o, k, v in qs:
        use = default or 'e'
        if k == 'v' and chosen == 'f':
            use = 'f'
        elif k == 'v' and chosen == 'e':
            h.reach('selected' if complete else 'incomplete selected')
            use = 'e' if complete else use
        by = f if use == 'f' else prop
        for (p, i), share in by.items():
            if p == o:
                put(total, (i, k), v * share)
    h.check([i for i, _, _ in out] == sorted(i for i, _, _ in out), 'results are ordered by record')
    got = {(i, a['k']): v for i, a, v in out}
    h.check(len(got) == len(out) and set(got) == set(total), 'one result per record and attributes', [sorted(got), sorted(total)])
    for k in total:
        h.check_eq(got[k], total[k], 'quantities are translated by the matching edge', k)


@scenario()
def crosswalk(h):
    """Rows of a crosswalk become relations; ambiguous rows are split by weights; merging columns keeps their totals."""
    import warnings
    from toron.graph import xadd_edge
    left, node = make(('s',), [('S',), ('T',)]), make()
    node.add_partition_definitions([{'a'}])
    w = [h.real('w0', 0, 100), h.real('w1', 0, 100), 3.0]
    weigh(node, 'w', ROWS, w)
    if h.flag('other weighting'):
        weigh(node, 'z', ROWS, [1.0, 1.0, 1.0])
    exact = h.subset('exact', [('S', 'A', 'x'), ('T', 'B', 'x')])
    amb = h.subset('ambiguous', [('S', 'A', ''), ('T', 'A', ''), ('T', '', 'y'), ('S', '', 'x')])
    limit = h.choice('limit', [1, 2])
    rows = [(*r, h.real(f'v{k}', 0.5, 100)) for k, r in enumerate([*exact, *amb])]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        xadd_edge([['s', 'w', 'a', 'b']] + [[s, v, a, b] for s, a, b, v in rows], 'w', left, '-->', node,
                  match_limit=limit, weight_name='w')
    got = relations(node, left._dal.unique_id, 'w')
    levels = {(o, i): lv for o, i, lv in q(node, 'SELECT other_index_id, index_id, mapping_level FROM main.relation')}
    want, kind, taken = {}, {}, set()
    for s, a, b, v in rows:
        ids = [i for i, r in enumerate(ROWS, 1) if a in ('', r[0]) and b in ('', r[1])]
        if len(ids) == 1:
            put(want, ('ST'.index(s) + 1, ids[0]), v)
            kind['ST'.index(s) + 1, ids[0]] = None
            taken.add(ids[0])
    for s, a, b, v in rows:
        ids = [i for i, r in enumerate(ROWS, 1) if a in ('', r[0]) and b in ('', r[1])]
        if len(ids) > 1 and limit > 1 and a:      # partition {b} is not defined
            ids = [i for i in ids if i not in taken]
            total = h.sum_([w[i - 1] for i in ids])
            for i in ids:
                put(want, ('ST'.index(s) + 1, i), v / len(ids) if total == 0 else v * w[i - 1] / total)
                kind['ST'.index(s) + 1, i] = b'\x80'
            if total == 0 and len(ids) > 1:
                h.reach('zero')
    h.check(set(got) == set(want) | {(0, 0)}, 'relations of the matching records', [sorted(got), sorted(want)])
    for k in want:
        h.check_eq(got[k][0], want[k], 'rows are split by the weights of their matches', k)
        h.check((levels[k] and bytes(levels[k])) == kind[k], 'ambiguous relations have their level', [k, repr(levels[k])])
    if not h.flag('merge'):
        return
    new, total = {1: 1, 2: 1, 3: 3}, {}
    mixed = kind.get((1, 1), 0) != kind.get((1, 2), 0) and {(1, 1), (1, 2)} <= set(kind) or \
        kind.get((2, 1), 0) != kind.get((2, 2), 0) and {(2, 1), (2, 2)} <= set(kind)
    before = content(node)
    with raises(Exception) as err:
        node.remove_index_columns(['b'], preserve_granularity=False)
    if err and mixed:        # relations of different levels cannot be merged
        h.check_same(content(node), before, 'a refused removal changes nothing')
        return
    h.check(not err, 'the column can be removed', repr(err))
    h.reach('merged')
    for (o, i), v in want.items():
        put(total, (o, new[i]), v)
    after = relations(node, left._dal.unique_id, 'w')
    h.check(set(after) == set(total) | {(0, 0)}, 'relations of the merged records', [sorted(after), sorted(total)])
    for k in total:
        h.check_eq(after[k][0], total[k], 'merged relations keep their total', k)
        h.check_eq(after[k][1] * h.sum_([v for j, v in total.items() if j[0] == k[0]]), total[k], 'proportions follow the values', k)


LEVEL_ROWS = {'b c': ('', 'x', '1', ''), 'a b': ('A', 'y', '', ''), 'a d': ('B', '', '', 'q'), 'a b c': ('A', 'z', '1', '')}


@scenario()
def levels(h):
    """Removing a column when ambiguous relations use several levels: every row is still split over the records it describes."""
    import warnings
    from toron.graph import xadd_edge
    cols = ('a', 'b', 'c', 'd')
    rows = [('A', 'x', '1', 'p'), ('A', 'x', '2', 'p'), ('B', 'x', '1', 'p'), ('A', 'y', '1', 'p'), ('A', 'y', '2', 'p'), ('A', 'z', '1', 'p'),
            ('A', 'z', '1', 'r'), ('B', 'w', '1', 'q'), ('B', 'w', '2', 'q')]
    left, node = make(('s',), [('S',), ('T',)]), make(cols, rows)
    node.add_partition_definitions([{'a', 'b'}, {'b', 'c'}, {'a', 'd'}])
    w = [h.real(f'w{i}', 0.5, 100) if i < 5 else i + 1.0 for i in range(len(rows))]
    weigh(node, 'w', rows, w, cols=cols)
    first, second = h.choice('first', sorted(LEVEL_ROWS)), h.choice('second', sorted(LEVEL_ROWS))
    given = [(s, LEVEL_ROWS[k], h.real(f'v{s}', 0.5, 100)) for s, k in (('S', first), ('T', second))]
    if first == second:
        return
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        xadd_edge([['s', 'w', *cols]] + [[s, v, *r] for s, r, v in given], 'w', left, '-->', node, match_limit=9, weight_name='w')
    drop = h.choice('drop', ['a', 'c', 'd', None])
    keep = [k for k in range(4) if cols[k] != drop]
    if drop:
        before = content(node)
        with raises(Exception) as err:
            node.remove_index_columns([drop], preserve_structure=False, preserve_granularity=False)
        if err:      # a level is not part of the new structure
            h.reach('unrepresentable')
            h.check_same(content(node), before, 'a refused removal changes nothing')
            return
        h.reach('levels moved')
    recs = {}
    total = {}
    for i, *labels in node.index_records():
        recs[tuple(labels)] = i
    for r, x in zip(rows, w):
        put(total, recs[tuple(r[k] for k in keep)], x)
    want = {}
    for s, r, v in given:
        ids = [i for labels, i in recs.items() if i and all(r[k] in ('', x) for k, x in zip(keep, labels))]
        for i in ids:
            put(want, ('ST'.index(s) + 1, i), v * total[i] / h.sum_([total[j] for j in ids]))
    got = relations(node, left._dal.unique_id, 'w')
    h.check(set(got) == set(want) | {(0, 0)}, 'relations of the records that the rows describe', [sorted(got), sorted(want), drop])
    for k in want:
        h.check_eq(got[k][0], want[k], 'rows are split by the weights of the records they describe', [k, drop])


@scenario()
def storage(h):
    """Files and cached nodes have the content of the node; nothing is left behind."""
    import tempfile
    from toron import xNode
    from toron._dal import dal_class
    tempfile.tempdir = h.scratch()
    try:
        cache = h.flag('cache')
        node = make(cache_to_drive=cache)
        uid = node._dal.unique_id
        weigh(node, 'w', ROWS, [h.real(f'w{i}', 0, 100) for i in range(3)], ['[k]'])
        node.add_quantities([['a', 'b', 'k', 'value'], ['A', '', 'u', h.real('q', 0, 100)], ['A', 'x', 'u', 3]], 'value')
        node._dal.add_incoming_edge('other', 'e', [(1, i, h.real(f'r{i}', 1, 9), None) for i in (1, 2, 3)])
        want = content(node)
        p = os.path.join(h.scratch(), 'n.toron')
        if h.flag('existing'):
            make(('z',), [('1',)])._dal.to_file(p)
        node._dal.to_file(p, fsync=h.flag('fsync'))
        h.check_same(content(node), want, 'saving changes nothing')
        kind = h.choice('load', ['memory', 'cache', 'open'])
        if kind == 'open':
            other = xNode.__new__(xNode)
            other._dal = dal_class.open(p, h.choice('permission', ['readwrite', None]))
        else:
            other = xNode.from_file(p, cache_to_drive=kind == 'cache')
        h.check(other._dal.unique_id == uid, 'the identity is kept')
        h.check(os.path.abspath(other._dal.data_source) == p, 'data source')
        h.check_same(content(other), want, 'the loaded node has the same content')
        other.add_index_records([['a', 'b'], ['C', 'z']])
        h.check(list(other.index_records())[-1] == (4, 'C', 'z'), 'changes are visible')
        h.check_same(content(node), want, 'the original is not affected')
        third = xNode.from_file(p)
        h.check((len(list(third.index_records())) == 5) == (kind == 'open'), 'only a node opened in place changes its file')
        if cache or kind == 'cache':
            h.reach('cache')
        h.check(len(os.listdir(h.scratch())) == 1 + cache + (kind == 'cache'), 'only the file and caches exist', os.listdir(h.scratch()))
        with raises(Exception) as err:
            dal_class.open(p, 'readonly')
        h.check(bool(err), 'a writable file is refused where read-only is required')
        h.reach('refused')
        other._dal.__del__()
        other._dal._cleanup_item = None
        node._dal.__del__()
        node._dal._cleanup_item = None
        h.check(os.listdir(h.scratch()) == ['n.toron'], 'cache files are removed', os.listdir(h.scratch()))
    finally:
        tempfile.tempdir = None


@scenario()
def quantities(h):
    """Quantities are stored per row, filtered by labels and attributes, and deleted exactly."""
    node = make()
    pool = [('A', 'x', 'u', '1'), ('A', 'x', 'v', ''), ('A', '', 'u', ''), ('B', 'x', 'u', '1'), ('A', 'x', 'u', '1')]
    given = [(r, h.real(f'q{k}', 0, 100)) for k, r in enumerate(pool) if h.flag(f'row{k}')]
    if not given:
        return
    extra = h.choice('extra', [[], [('A', 'x', '', '', 4.0)], [('B', 'x', 'u', '', None), ('B', 'x', 'u', '', '')]])
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        node.add_quantities([['a', 'b', 'k', 'j', 'value', '_skip']] + [[*r, v, 'z'] for r, v in given] + [[*r, 'z'] for r in extra], 'value')

    def stored(**where):
        return [((r['a'], r['b'], r.get('k', ''), r.get('j', '')), r['value'], set(r)) for r in node._dal.get_raw_quantities(**where)]

    def same(got, want, what):
        h.check(sorted(x[0] for x in got) == sorted(x[0] for x in want), what, [got, want])
        for key in {x[0] for x in want}:
            h.check_eq(h.sum_([x[1] for x in got if x[0] == key]), h.sum_([x[1] for x in want if x[0] == key]), what + ': values', key)
    same(stored(), given, 'quantities as given')
    where = h.choice('where', [{'a': 'A'}, {'k': 'u'}, {'a': 'A', 'k': 'u'}, {'b': 'x', 'j': '1'}, {'b': ''}, {'none': 'x'}])
    names = ('a', 'b', 'k', 'j')
    match = [x for x in given if all(dict(zip(names, x[0])).get(k, '') == v for k, v in where.items())]
    same(stored(**where), match, 'filtered quantities')
    node._dal.delete_raw_quantities(**where)
    rest = [x for x in given if x not in match]
    h.reach('deleted' if match else 'kept')
    same(stored(), rest, 'exactly the matching quantities are deleted')
    h.check(sorted(q(node, 'SELECT a, b FROM main.location')) == sorted(map(list, {x[0][:2] for x in rest})), 'unused locations are deleted')
    with raises(TypeError) as err:
        node._dal.delete_raw_quantities()
    h.check(bool(err), 'deleting everything by accident is refused')
    same(stored(), rest, 'nothing else is deleted')


@scenario()
def refused(h):
    """A refused operation changes nothing and later operations work and are kept."""
    kind = h.choice('kind', ['memory', 'cache', 'open'])
    import tempfile
    from toron import xNode
    tempfile.tempdir = h.scratch()
    try:
        node = make(cache_to_drive=kind == 'cache')
        weigh(node, 'w', ROWS, [h.real(f'w{i}', 0, 100) for i in range(3)], ['[k]'])
        node.add_quantities([['a', 'b', 'k', 'value'], ['A', '', 'u', h.real('q', 0, 100)]], 'value')
        node._dal.add_incoming_edge('other', 'e', [(1, 1, 1.0, None)])
        if kind == 'open':
            from toron._dal import dal_class
            p = os.path.join(h.scratch(), 'n.toron')
            node._dal.to_file(p)
            node = xNode.__new__(xNode)
            node._dal = dal_class.open(p, 'readwrite')
        before = content(node)
        op = h.choice('op', ['records', 'empty label', 'columns', 'weights', 'weight column', 'edge', 'relation', 'remove', 'rename', 'quantity'])
        with raises(Exception) as err:
            if op == 'records':
                node.add_index_records([['a', 'b'], ['C', 'x'], ['A', 'x']])
            elif op == 'empty label':
                node.add_index_records([['a', 'b'], ['C', 'x'], ['C', '']])
            elif op == 'columns':
                node.add_index_columns(['c', 'index_id'])
            elif op == 'weights':
                weigh(node, 'w', ROWS, [1, 2, 3])
            elif op == 'weight column':
                weigh(node, 'y', ROWS + [('A', 'x')], [1, 2, 3, 4])
            elif op == 'edge':
                node._dal.add_incoming_edge('other', 'e', [(1, 2, 1.0, None)])
            elif op == 'relation':
                node._dal.add_incoming_edge('other', 'f', [(1, 2, 1.0, None), (1, 1, -1.0, None)])
            elif op == 'remove':
                node.remove_index_columns(['b'])
            elif op == 'rename':
                node.rename_index_columns({'a': 'b'})
            elif op == 'quantity':
                node.add_quantities([['a', 'b', 'k', 'value'], ['A', 'x', 'u', 1], ['B', 'x', object(), 1]], 'value')
        h.check(bool(err), 'the operation is refused', op)
        h.reach('refused')
        h.check_same(content(node), before, 'a refused operation changes nothing')
        node.add_index_records([['a', 'b'], ['C', 'z']])
        node._dal.delete_raw_quantities(k='u')
        node._dal.add_incoming_edge('other', 'g', [(1, 1, 1.0, None)])
        p = os.path.join(h.scratch(), 'later.toron')
        node._dal.to_file(p)
        h.check_same(content(xNode.from_file(p)), content(node), 'later changes are saved')
        h.check([list(r) for r in node.index_records()][-1] == [4, 'C', 'z'] and not list(node._dal.get_raw_quantities()), 'later changes are kept')
        if node._dal._cleanup_item is not None:
            node._dal.__del__()
            node._dal._cleanup_item = None
    finally:
        tempfile.tempdir = None


@scenario()
def weight_records(h):
    """Weight records are those of the named weighting only; the completeness flag says whether any is missing."""
    node = make()
    has = [h.flag(f'has{i}') for i in range(3)]
    w = {i + 1: h.real(f'w{i}', 0, 100) for i in range(3) if has[i]}
    if not all(has):
        h.reach('partial')
    first = h.flag('first')
    if first:
        weigh(node, 'v', ROWS[1:], [2.0, 5.0])
    rows = [ROWS[i - 1] for i in w] + ([('A', 'none')] if h.flag('unknown') else [])
    weigh(node, 'w', rows, list(w.values()) + [9.0])
    if not first:
        weigh(node, 'v', ROWS[1:], [2.0, 5.0])
    for name, want in (('w', w), ('v', {2: 2.0, 3: 5.0}), (None, {2: 2.0, 3: 5.0} if first else w)):
        where = h.choice(f'where{name}', [{}, {'a': 'A'}, {'b': 'x'}])
        ids = [0] * (not where) + [i for i, r in enumerate(ROWS, 1) if all(dict(zip('ab', r))[k] == v for k, v in where.items())]
        got = [tuple(r) for r in node._dal.weight_records(name, **where)]
        h.check(sorted(i for i, _ in got) == ids, 'one row per matching record', [name, got, ids])
        for i, v in got:
            if i in want:
                h.check_eq(v, want[i], 'weights of the named weighting', [name, i])
            else:
                h.check(v is None, 'records without a weight have none', [name, i, v])
    for name, want in (('w', w), ('v', {2: 2.0, 3: 5.0})):
        (done,), = q(node, 'SELECT is_complete FROM main.weighting WHERE name=?', (name,))
        h.check(bool(done) == (len(want) == 3), 'completeness flag', [name, done])
