"""Label names, label values and criteria are data, never SQL."""
from symx.harness import scenario
from .common import new_space, set_weights, index_rows, raises, snapshot, query, level, link_spaces, weights_of, mappings_of

META = dict(
    title='Names, labels and criteria are data, never SQL',
    statement='Every operation gives the same result whatever text is used for label columns, weight groups, links and label '
              'values, including quotes, keywords and names of internal columns. A label name is turned into exactly one '
              'delimited identifier that stands for that text, or is refused. Selecting by criteria returns exactly the '
              'records whose labels equal the given values, and criteria that name no label of the space never match.',
    over=['inputs', 'configurations'],
    text='for every label name of the pool and every symbolic text within the bound, compared with plain names',
    why='tests quote one or two odd names in one operation each; the guarantee is about every text in every statement',
    files=['src/toron/dal1/schema.py', 'src/toron/dal1/repositories.py', 'src/toron/dal1/label_manager.py', 'src/toron/dal1/optimizations.py',
           'src/toron/space.py'],
    mechanism=[('quoting', 'format_identifier'), ('criteria', 'filter_by_label, filter_index_ids_by_label, find_by_label')])

REACH = {'exact': ['different'], 'identifier': ['quote', 'nul', 'plain'], 'twin': ['odd'], 'criteria': ['match', 'none', 'unknown']}
PLAIN = ['a', 'b']
ODD = [('a"b', "c'd"), ('select', 'rowid'), ('x;--', 'y, z'), ('quantity_value', 'weight_value'), ('weight_id', 'attribute_group_id'),
       ('name', 'attributes'), ('new', 'excluded'), ('label_index', 'main'), ('ä b', '?'), ('%s', '{x}'), ('""', '"'), ('[k]', '`k`'),
       ('index', ' a'), ('a.b', ':c'), ('mapping_id', 'link_id'), ('1', '-')]
VALUES = {'A': ["A'", '"A"', 'NULL', '%', '?', 'Ä', 'a;--']}


@scenario(quick=dict(maxlen=3), thorough=dict(maxlen=4))
def identifier(h):
    """format_identifier of a symbolic text over quotes, NUL, brackets and letters."""
    from toron.dal1.schema import format_identifier
    t = h.text('t', h.bound('maxlen'), '"\'\x00a] é')
    nul = h.any_([t[i] == '\x00' for i in range(len(t))])
    with raises(Exception) as err:
        out = format_identifier(t)
    h.check(bool(err) == h.decided(nul), 'only NUL characters are refused')
    if err:
        h.reach('nul')
        return
    h.check(h.decided(out[0] == '"') and h.decided(out[-1] == '"') and len(out) >= 2, 'the identifier is delimited')
    body, back, i = out[1:-1], [], 0
    while i < len(body):
        if h.decided(body[i] == '"'):
            h.reach('quote')
            h.check(i + 1 < len(body) and h.decided(body[i + 1] == '"'), 'quotes inside the identifier are doubled')
            i += 1
        back.append(body[i])
        i += 1
    h.check(len(back) == len(t) and all(h.decided(x == y) for x, y in zip(back, t)), 'the identifier stands for exactly the text')
    h.reach('plain')


def drive(h, names, v, big):
    """Every kind of operation on a space with the given label names; value *v* as a label."""
    a, b = names
    out = []
    rows = [(v, 'x'), (v, 'y'), ('B', 'x')]
    node = new_space(names, rows, [{a}], attrs=('k',))
    grp, link = ('w', 'L') if names[0] == 'a' else ("w'", 'L"')
    set_weights(node, grp, rows, [1.0, 3.0, 2.0], labels=names)
    src = new_space(('s',), [('S',), ('T',)])
    node.add_link(src, link)
    cols = ['other_index_id', link, 'index_id', a, b, 'mapping_level']
    node.insert_mappings(src, link, [(1, 2.0, 1, v, 'x', level(1, 0)), (1, 6.0, 2, v, 'y', level(1, 0)), (2, 1.0, 3, 'B', 'x', level(1, 1))], cols)
    node.insert_quantities2(value_column='val', data=[(v, '', 'p', big), ('B', 'x', 'p', 5.0)], columns=[a, b, 'k', 'val'])
    out.append([list(r[:-2]) + [r[-1]] for r in node()])
    out.append(list(node.select_quantities2(header=False)))
    out.append(list(node.select_mappings(src, link, **{a: v})))
    out.append([list(r)[:2] + [r[-1]] for r in node.select_weights(grp, **{b: 'x'})])
    out.append(snapshot(node, skip=('property', 'weight_group', 'link')))
    node.update_index([(2, v, 'z')], ['index_id', a, b])
    node.update_index([(1, v, 'z')], ['index_id', a, b], merge_on_conflict=True)
    node.reify_mappings(src, link, **{a: v})
    node.update_mappings(src, link, [(2, 9.0, 1, v, 'z', level(1, 1))], cols)
    node.update_weights(grp, [(3, 'B', 'x', 4.0)], ['index_id', a, b, grp])
    node.insert_index([(v, 'q', 7.0)], [a, b, grp], weights=grp)
    out.append(snapshot(node, skip=('property', 'weight_group', 'link')))
    node.delete_mappings(src, link, **{a: 'B', b: 'x'})
    node.delete_weights(grp, **{b: 'q'})
    node.delete_index(**{a: 'B'})
    node.add_index_columns('extra')
    node.rename_index_columns({a: b + '2'})
    node.change_label_order(b, -1)
    out.append([node.get_label_columns() == [b, b + '2', 'extra'], list(node.index_columns) == [b + '2', b, 'extra'],
                [sorted({b: 'b', b + '2': 'b2'}.get(x, x) for x in d) for d in node.partition_definitions]])
    node.delete_quantities_without_index()
    out.append(snapshot(node, skip=('property', 'weight_group', 'link')))
    return out


@scenario(quick=dict(names=16, values=3), thorough=dict(names=16, values=7))
def twin(h):
    """The same operations with plain and with odd names and values, on symbolic amounts."""
    k = h.choice('names', range(h.bound('names')))
    v = h.choice('value', ['A'] + VALUES['A'][:h.bound('values')])
    big = h.real('q', 1, 100)
    want = drive(h, PLAIN, 'A', big)
    with raises(Exception) as err:
        got = drive(h, list(ODD[k]), v, big)
    h.check(not err, 'odd names work wherever plain names do', [ODD[k], repr(err)])
    h.reach('odd')

    def plain(x):
        if isinstance(x, (list, tuple)):
            return [plain(y) for y in x]
        if isinstance(x, dict):
            return {key: plain(y) for key, y in x.items()}
        if isinstance(x, str):
            return {v: 'A', "w'": 'w', 'L"': 'L', **{n: p for n, p in zip(ODD[k], PLAIN)}}.get(x, x) if x not in ('B', 'x', 'y', 'z', 'q', 'p') else x
        return x
    h.check_same(plain(got), plain(want), 'odd names give the same results as plain names')


@scenario(quick={})
def criteria(h):
    """Every operation that takes criteria, with label values from a symbolic universe and unknown names."""
    rows = [(h.label(f'a{i}', ['A', 'B']), h.label(f'b{i}', ['x', 'y'])) for i in range(3)]
    for i in range(3):
        for j in range(i):
            h.assume(h.not_(h.all_([rows[i][0] == rows[j][0], rows[i][1] == rows[j][1]])))
    node = new_space(rows=rows, attrs=())
    set_weights(node, 'w', rows, [1.0, 2.0, 3.0])
    src = new_space(('s',), [('S',)])
    node.add_link(src, 'L')
    node.insert_mappings2(src, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L')] + [(1, i, level(1, 1), 1.0) for i in (1, 2, 3)])
    keys = h.choice('keys', [('a',), ('b',), ('a', 'b'), ('zz',), ('a', 'zz')])
    crit = {}
    for c in keys:
        crit[c] = h.label(f'v_{c}', ['A', 'B'] if c == 'a' else ['x', 'y']) if c != 'zz' else h.choice('v_zz', ['zz', 'A', ''])
    if 'zz' in keys:
        h.reach('unknown')
        exp = set()
    else:
        exp = {i for i, (a, b) in enumerate(rows, 1) if all(h.decided(dict(a=a, b=b)[c] == x) for c, x in crit.items())}
        h.reach('match' if exp else 'none')
    op = h.choice('op', ['select_index', 'delete_index', 'select_weights', 'delete_weights', 'select_mappings', 'delete_mappings'])
    before = snapshot(node)
    with raises(Exception) as err:
        if op == 'select_index':
            got = {r[0] for r in node.select_index(**crit)}
        elif op == 'delete_index':
            node.delete_index(**crit)
            got = {1, 2, 3} - {r[0] for r in node.select_index()}
        elif op == 'select_weights':
            got = {int(r[-1]) for r in node.select_weights('w', **crit)}
        elif op == 'delete_weights':
            node.delete_weights('w', **crit)
            got = {1, 2, 3} - set(weights_of(node, 'w'))
        elif op == 'select_mappings':
            got = {r[2] for r in node.select_mappings(src, 'L', **crit)}
        else:
            node.delete_mappings(src, 'L', **crit)
            got = {1, 2, 3} - {m[1] for m in mappings_of(node, 'L')}
    if err:
        h.check('zz' in keys, 'criteria are refused only for unknown labels', repr(err))
        h.check_same(snapshot(node), before, 'refused criteria change nothing')
        return
    if op == 'delete_mappings' and 'zz' not in keys and len(keys) < 2:
        exp = set()         # exact mappings are only deleted by criteria over all labels
    h.check(got == exp, 'exactly the records whose labels equal the criteria are concerned', [op, list(keys), sorted(got), sorted(exp)])


EXACT = ['oh', 'OH', 'oh ', 'Oh', 'öh', 'ÖH']


@scenario(quick=dict(texts=4), thorough=dict(texts=6))
def exact(h):
    """Texts that differ only in letter case or trailing blanks are different texts everywhere."""
    pool = EXACT[:h.bound('texts')]
    p, q = h.label('p', pool), h.label('q', pool)
    if h.decided(p == q):
        return
    h.reach('different')
    v = h.real('q1', 1, 100)
    rows = [(p, 'x'), (q, 'x'), (p, 'y')]
    node = new_space(rows=rows, partitions=[{'a'}], attrs=('k',))
    src = new_space(('s',), [('oh',), ('OH',)])
    g1, g2 = h.choice('groups', [('w', 'W'), ('w ', 'w')])
    with raises(Exception) as err:
        set_weights(node, g1, rows, [1.0, 2.0, 3.0], default=True)
        set_weights(node, g2, rows, [4.0, 5.0, 6.0], default=False)
        for name in (g1, g2):
            node.add_link(src, name)
        for k, name in enumerate((g1, g2)):
            node.insert_mappings(src, name, [(1, 1.0 + k, 1, p, 'x', level(1, 1)), (1, 3.0, 2, q, 'x', level(1, 1)),
                                             (2, 5.0, 3, p, 'y', level(1, 1))],
                                 ['other_index_id', name, 'index_id', 'a', 'b', 'mapping_level'])
        node.insert_quantities2(value_column='val', data=[(p, '', 'm', v), (q, '', 'm', 7.0), (q, '', 'M', 9.0)], columns=['a', 'b', 'k', 'val'])
    h.check(not err, 'texts that differ in case or blanks can be stored side by side', repr(err))
    h.check([r[1:] for r in index_rows(node)] == [list(r) for r in rows], 'all records are stored with their own labels')
    for t, ids in ((p, {1, 3}), (q, {2})):
        h.check({r[0] for r in node.select_index(a=t)} == ids, 'index criteria are compared exactly')
        for k, name in enumerate((g1, g2)):
            h.check_same(sorted(r[-1] for r in node.select_weights(name, a=t)), [float(i + 3 * k) for i in sorted(ids)],
                         'weight groups and weight criteria are compared exactly')
            h.check({r[2] for r in node.select_mappings(src, name, a=t)} == ids, 'mapping criteria are compared exactly')
    for k, name in enumerate((g1, g2)):
        h.check_same([m[:2] + (m[3],) for m in map(tuple, mappings_of(node, name))], [(1, 1, 1.0 + k), (1, 2, 3.0), (2, 3, 5.0)],
                     'links are told apart exactly')
    got = {}
    for loc, name, val in query(node, 'SELECT a, attributes, quantity_value FROM main.quantity JOIN main.label_location USING (_location_id) '
                                      'JOIN main.attribute_group USING (attribute_group_id)'):
        got.setdefault((h.decided(loc == p), 'M' in str(name)), []).append(val)
    h.check_same(got, {(True, False): [v], (False, False): [7.0], (False, True): [9.0]}, 'locations and attributes are told apart exactly')
    mine = {'p': 0, 'q': 0}
    for a, b, _, x in node():
        mine['p' if h.decided(a == p) else 'q'] += x
    h.check_same([mine['p'], mine['q']], [v, 16.0], 'values of a location go to its own records')
    op = h.choice('op', ['delete_index', 'delete_weights', 'drop_group', 'drop_link', 'rename_group', 'update_index'])
    if op == 'delete_index':
        node.delete_index(a=q)
        h.check([r[0] for r in index_rows(node)] == [1, 3], 'exactly the addressed record is deleted')
    elif op == 'delete_weights':
        node.delete_weights(g2, a=q)
        h.check(set(weights_of(node, g2)) == {1, 3} and set(weights_of(node, g1)) == {1, 2, 3}, 'exactly the addressed weights are deleted')
    elif op == 'drop_group':
        node.drop_weight_group(g2)
        h.check(set(weights_of(node, g1)) == {1, 2, 3} and not weights_of(node, g2), 'exactly the addressed weight group is dropped')
    elif op == 'drop_link':
        node.drop_link(src, g2)
        h.check(len(mappings_of(node, g1)) == 3 and not mappings_of(node, g2), 'exactly the addressed link is dropped')
    elif op == 'rename_group':
        node.edit_weight_group(g2, name='z')
        h.check_same(sorted(weights_of(node, 'z').values()), [4.0, 5.0, 6.0], 'exactly the addressed weight group is renamed')
    else:
        node.update_index([(2, p, 'z')], ['index_id', 'a', 'b'])
        h.check([r[1:] for r in index_rows(node)] == [[p, 'x'], [p, 'z'], [p, 'y']], 'a record can be relabeled to the other text')
