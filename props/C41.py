"""Older SQLite builds: fallbacks for missing SQL features give the same results."""
import os
from symx.harness import scenario
from symx.older import JSON, MATH
from .common import new_space, set_weights, add_quantities, level, raises, query, snapshot

META = dict(
    title='Older SQLite builds give the same results',
    statement='On SQLite builds without the JSON functions, the mathematical functions or newer statements (RETURNING, UPDATE FROM, '
              'window functions, renaming and dropping of columns), every operation accepts the same input and gives the same '
              'results and stored data as on a current build. The replacements for renaming and dropping label columns have the '
              'same effect as the operations they replace, including partition definitions, structure, display order and the '
              'rule that identifiers are never reused.',
    over=['inputs', 'configurations'],
    text='for every weight, quantity, relation and arrangement of records within the bound',
    why='the tests run on one SQLite build, where the fallbacks are never used',
    files=['src/toron/dal1/label_manager.py', 'src/toron/dal1/schema.py', 'src/toron/dal1/repositories.py', 'src/toron/data_models.py', 'src/toron/_dal.py'],
    mechanism=[('columns', 'legacy_rename_labels, legacy_drop_labels'),
               ('functions', 'create_toron_check_*, create_log2, find_by_criteria'),
               ('statements', 'DataAccessLayerPre35')])

REACH = {'renamed': ['deleted', 'refused', 'renamed', 'ordered'], 'functions': ['omitted', 'version only', 'refused group'], 'validators': ['accepted', 'refused'],
         'legacy': ['static', 'adaptive', 'adaptive all', 'rename', 'rename all', 'remove first', 'remove', 'refused'],
         'dropped': ['dropped', 'refused', 'deleted', 'ordered']}
LABELS = ['a', 'b', 'c c']
ROWS = [('A', 'x', '1'), ('A', 'y', '2'), ('B', 'y', '2'), ('B', 'z', '3')]


def content(node):
    out = snapshot(node, skip=('property', 'structure'))
    out['structure'] = sorted(list(r[2:]) + [r[1]] for r in query(node, 'SELECT * FROM label_structure'))
    out['columns'] = list(node.index_columns)
    out['display'] = list(node.get_label_columns())
    out['partitions'] = sorted(sorted(p) for p in node.partition_definitions)
    out['attributes'] = sorted(node.get_registered_attributes())
    return out


PARTS = [('a',), ('a', 'b'), ('c c',)]


def build(h, parts, vals, order, out):
    node = new_space(LABELS, ROWS, parts, attrs=('k',))
    set_weights(node, 'w', ROWS, vals, LABELS)
    add_quantities(node, [(*ROWS[0], 'p', vals[0]), (*ROWS[3], 'q', vals[1])], LABELS, ('k',))
    if order:
        node.change_label_order(order, -1)
    if out is not None:
        node.delete_index(index_id=str(out))
    return node


def twins(h):
    parts = h.subset('parts', PARTS)
    vals = [h.real(f'w{i}', 0, 100) for i in range(4)]
    order = h.choice('order', [None, 'c c', 'b'])
    out = h.choice('deleted', [None, 4, 1])
    h.reach('deleted') if out else None
    h.reach('ordered') if order else None
    return [build(h, parts, vals, order, out) for _ in range(2)]


def compare(h, a, b, errors, what):
    h.check(bool(errors[0]) == bool(errors[1]), what + ': refused alike', [repr(e) for e in errors])
    h.reach('refused' if errors[0] else what)
    x, y = content(a), content(b)
    for k in x:
        h.check_same(y[k], x[k], what + ': same content, ' + k)
    cols = list(a.index_columns)
    for node in (a, b):
        node.insert_index([['N'] * len(cols)], cols)
    h.check_same(content(b)['index'], content(a)['index'], what + ': new records get the same identifiers')
    # the triggers and constraints are in place
    for i, node in enumerate((a, b)):
        with raises(Exception) as err:
            query(node, f"INSERT INTO label_index VALUES (NULL{', ?' * len(cols)})", ['N'] * len(cols))
        h.check(bool(err), what + ': labels stay unique', i)
    for node in (a, b):
        node.drop_weight_group('w')
    h.check([list(r) for r in query(b, 'SELECT COUNT(*) FROM weight')] == [[0]],
            what + ': foreign keys are enforced again')


@scenario(quick=dict(names=3), thorough=dict(names=5))
def renamed(h):
    """legacy_rename_labels() against rename_index_columns()."""
    from toron.dal1 import legacy_rename_labels
    a, b = twins(h)
    names = h.choice('names', [{'a': 'n n'}, {'a': 'n', 'c c': 'order'}, {'a': 'b'}, {'b': 'x', 'a': 'x'}, {'b': 'k'}][:h.bound('names')])
    with raises(Exception) as e1:
        a.rename_index_columns(dict(names))
    with raises(Exception) as e2:
        legacy_rename_labels(b, dict(names))
    compare(h, a, b, [e1, e2], 'renamed')


@scenario(quick=dict(names=4), thorough=dict(names=5))
def dropped(h):
    """legacy_drop_labels() against drop_index_columns()."""
    from toron.dal1 import legacy_drop_labels
    a, b = twins(h)
    names = h.choice('names', [['b'], ['c c'], ['a', 'c c'], LABELS, ['a']][:h.bound('names')])
    with raises(Exception) as e1:
        a.drop_index_columns(*names)
    with raises(Exception) as e2:
        legacy_drop_labels(b, *names)
    compare(h, a, b, [e1, e2], 'dropped')


def session(h, vals, sel, crit, parts, fsync):
    """Operations whose storage depends on SQL functions; returns everything that can be seen."""
    out = []

    def do(what, fn):
        with raises(Exception) as err:
            got = fn()
            out.append([what, got if got is None or isinstance(got, (str, int, float, bool)) else [list(r) if isinstance(r, (list, tuple)) else r for r in got]])
        if err:
            out.append([what, 'refused'])
        return None
    attrs = ('k', 'x y')
    node = new_space(('a', 'b'), ROWS2, parts, attrs=attrs, domain='d"d')
    src = new_space(('s',), [('S',), ('T',)], attrs=attrs, domain='d"d')
    with raises(Exception) as err:
        set_weights(node, 'w', ROWS2, vals, default=True)
        set_weights(node, 'v', ROWS2, [1.0, 3.0, 2.0], selectors=sel)
    out.append(['weights', bool(err)])
    do('group', lambda: node.add_weight_group('u', selectors=sel, is_complete=False) and None)
    do('link', lambda: node.add_link(src, 'L', selectors=sel, user_properties={'p': [1, {'q': None}], 'ä': vals and 'ü'}) and None)
    data = [('A', '', 'p', 'm', vals[0]), ('A', 'x', 'q', '', vals[1]), ('C', '', 'p', "o'", vals[2]), ('B', '', 'r', 'n', 2.0)]
    do('quantities', lambda: add_quantities(node, data, ('a', 'b'), attrs) and None)
    linked = [r for r in out if r[0] == 'link'][0][1] != 'refused'
    linked and node.insert_mappings2(src.unique_id, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L')] + [
        (1, 1, level(1, 1), vals[0]), (2, 2, level(1, 1), vals[1]), (1, 3, level(1, 1), 1.0)])
    do('select', lambda: node.select_quantities2(header=True))
    do('select old', lambda: node.select_quantities(header=True))
    do('without', lambda: node.select_quantities_without_index(header=True))
    do('unmatched', lambda: node.select_unmatched_quantities(header=True))
    with raises(Exception) as err:
        with node._managed_cursor() as cur:
            repo = node._dal.AttributeGroupRepository(cur)
            out.append(['criteria', sorted(g.id for g in repo.find_by_criteria(**crit)), list(repo.get_all_attribute_names())])
    if err:
        out.append(['criteria', 'refused'])
    do('register', lambda: node.set_registered_attributes(['k', 'x y', 'new']))
    do('unregister', lambda: node.set_registered_attributes(['new']))
    if not node.get_registered_attributes() == ['k', 'x y', 'new']:
        node.set_registered_attributes(list(attrs))
    with raises(Exception) as err:
        got = {}
        for index, g, v in node._disaggregate():
            key = index.id, g.value if hasattr(g, 'value') and not isinstance(g.value, float) else str(g.attributes)
            put(got, (key[0], str(key[1])), v)
        out.append(['disaggregated', sorted(got), [got[k] for k in sorted(got)]])
    if err:
        out.append(['disaggregated', 'refused'])
    out.append(['granularity', [[None if r[1] is None else round(r[1], 9)] + list(r[2:]) for r in query(node, 'SELECT * FROM label_structure')]])
    path = os.path.join(h.scratch(), f'f{fsync}-{len(os.listdir(h.scratch()))}.toron')
    node.to_file(path, fsync=fsync)
    import toron
    back = toron.read_file(path)
    out.append(['stored', [[t, rows] for t, rows in snapshot(back, skip=('property',)).items() if t not in ('structure', 'link')]])
    out.append(['links', [[r[0]] + list(r[2:]) for r in query(back, 'SELECT link_id, other_unique_id, name, description, selectors, user_properties, is_locally_complete, is_default FROM link')]])
    h.check_same(snapshot(back), snapshot(node), 'a saved file has the same content')
    return out


ROWS2 = [('A', 'x'), ('A', 'y'), ('B', 'x')]
CRITERIA = [{'k': 'p'}, {'x"y': ''}, {'k': 'p', 'zz': ''}, {'k': 'p', 'x y': "o'"}, {'x y': 'm'}, {'zz': 'p'}, {}, {'k"': 'p'}]


@scenario(quick=dict(criteria=3, selectors=5), thorough=dict(criteria=8, selectors=5))
def functions(h):
    """Spaces on a build without JSON and mathematical functions against a current build."""
    vals = [h.real(f'w{i}', 0, 100) for i in range(3)]
    sel = h.choice('selectors', [None, ['[k="p"]'], ['[k'], ['[k]', '[k="q"][x y]'], [1]][:h.bound('selectors')])
    crit = h.choice('criteria', CRITERIA[:h.bound('criteria')])
    parts = h.choice('parts', [(), [('a',)]])
    fsync = h.flag('fsync')
    want = session(h, vals, sel, crit, parts, fsync)
    omitted = h.choice('omitted', [(), JSON, JSON + MATH])
    with h.older_sqlite((3, 26, 0), omitted):
        got = session(h, vals, sel, crit, parts, fsync)
    h.reach('omitted' if omitted else 'version only')
    for x, y in zip(want, got):
        h.reach('refused ' + x[0]) if x[1] == 'refused' or x[1] is True else None
        h.check_same(y, x, f'{x[0]}: same result on the older build')
    h.check(len(want) == len(got), 'same number of results')


TEXTS = ['["a"]', '[]', '["a", 1]', '[null]', '{}', '"a"', '', 'x', '[', '{"a": "b"}', '{"a": 1}', '{"a": "b", "c": ["d"]}', '["a", ["b"]]',
         'null', '1', ' ["a"] ', '{"a": null}', '{"": ""}', "['a']", '{"a": "b"', '[true]', '{"a": {"b": "c"}}', '["\\u00e4", "\\""]']
COLUMNS = [('weight_group', 'selectors', "INSERT INTO weight_group (name, selectors) VALUES ('n', ?)"),
           ('link', 'selectors', "INSERT INTO link (other_unique_id, name, other_index_hash, selectors) VALUES ('u', 'n', 'h', ?)"),
           ('link', 'user_properties', "INSERT INTO link (other_unique_id, name, other_index_hash, user_properties) VALUES ('u', 'n', 'h', ?)"),
           ('attribute_group', 'attributes', 'INSERT INTO attribute_group (attributes) VALUES (?)'),
           ('property', 'value', "INSERT INTO property (key, value) VALUES ('n', ?)")]
OLD = {'selectors': '["old"]', 'attributes': '{"o": "p"}', 'user_properties': '{"o": 1}', 'value': '"old"'}


def store(sql, table, col, text, update):
    from toron import DataSpace
    node = DataSpace()
    bind = text.encode() if isinstance(text, bytes) else text
    with raises(Exception) as err:
        query(node, sql, (OLD[col] if update else bind,))
        if update:
            query(node, f'UPDATE {table} SET {col}=? WHERE {col}=?', (bind, OLD[col]))
    if err:
        return None
    return [r[0] for r in query(node, f"SELECT CAST({col} AS TEXT) FROM {table} WHERE {col} IS NOT NULL")][-1:]


@scenario(quick=dict(texts=23), thorough=dict(texts=23))
def validators(h):
    """Storage accepts exactly well-formed values, with and without the JSON functions."""
    import json
    table, col, sql = h.choice('column', COLUMNS)
    text = h.choice('text', TEXTS[:h.bound('texts')])
    update = h.flag('update')
    want = store(sql, table, col, text, update)
    with h.older_sqlite((3, 26, 0), JSON):
        got = store(sql, table, col, text, update)
    try:
        obj = json.loads(text)
        ok = {'selectors': isinstance(obj, list) and all(isinstance(x, str) for x in obj),
              'attributes': isinstance(obj, dict) and all(isinstance(x, str) for x in obj.values()),
              'user_properties': isinstance(obj, dict), 'value': True}[col]
    except ValueError:
        ok = False
    h.reach('accepted' if ok else 'refused')
    h.check((want is not None) == ok, 'exactly well-formed values are accepted', [table, col, text, want])
    h.check(got == want, 'same result without JSON functions', [table, col, text, want, got])


def xmake(h, cols, rows, parts):
    from toron import xNode
    node = xNode()
    node.add_index_columns(list(cols))
    node.add_index_records([list(cols)] + [list(r) for r in rows])
    if parts:
        node.add_partition_definitions([set(p) for p in parts])
    return node


XTABLES = ['edge', 'relation', 'node_index', 'location', 'structure', 'attribute', 'quantity', 'weighting', 'weight', 'property']


def xcontent(node):
    out = {}
    with node._dal._transaction(method=None) as cur:
        for t in XTABLES:
            cur.execute(f'SELECT * FROM main.{t} ORDER BY 1')
            out[t] = [list(r) for r in cur.fetchall()]
    out['property'] = [r for r in out['property'] if 'unique' not in r[0] and 'date' not in r[0]]
    return out


def xsession(h, cols, parts, w, qs, rel, op, flags):
    rows = [('A', 'x'), ('A', 'y'), ('B', 'x')]
    node = xmake(h, cols, rows, parts)
    node.add_weights([[*cols, 'w']] + [[*r, v] for r, v in zip(rows, w)], 'w', selectors=None)
    node.add_weights([[*cols, 'v']] + [[*r, v] for r, v in zip(rows[:2], [1.0, 4.0])], 'v', selectors=['[k="u"]'])
    node.add_quantities([[*cols, 'k', 'value']] + [[*r, v] for r, v in qs], 'value')
    node._dal.add_incoming_edge('other', 'e', rel)
    out = []
    if op == 'static':
        out.append(sorted([i, a['k'], v] for i, a, v in sorted_rows(node._dal.static_disaggregate())))
    elif op == 'adaptive':
        tot = {}
        for i, a, v in node._dal.adaptive_disaggregate(['k']):
            put(tot, (i, a['k']), v)
        out.append([sorted(tot), [tot[k] for k in sorted(tot)]])
    elif op == 'adaptive all':
        tot = {}
        for i, a, v in node._dal.adaptive_disaggregate():
            put(tot, (i, a['k']), v)
        out.append([sorted(tot), [tot[k] for k in sorted(tot)]])
    else:
        with raises(Exception) as err:
            if op == 'rename':
                node.rename_index_columns({cols[0]: 'n n'})
            elif op == 'rename all':
                node.rename_index_columns(lambda x: 'z ' + x)
            else:
                node.remove_index_columns([cols[0 if op == 'remove first' else 1]], **flags)
        out.append(bool(err))
        left = list(node.index_columns())
        out.append(left)
        with raises(Exception) as err:
            node.add_index_records([left, ['N'] * len(left)])
        out.append(bool(err))
    out.append(xcontent(node))
    return out


def put(total, key, v):
    total[key] = total[key] + v if key in total else v


def sorted_rows(it):
    return sorted(it, key=lambda r: (r[0], r[1]['k']))


VERSIONS = [(3, 34, 0), (3, 32, 0), (3, 26, 0)]     # DAL1 needs 3.26, so older branches cannot be reached


@scenario(quick=dict(pairs=3, names=2), thorough=dict(pairs=4, names=3))
def legacy(h):
    """The legacy node on older versions against the current version."""
    cols = h.choice('cols', [('a', 'b'), ('b b', 'order'), ('x"y', 'a')][:h.bound('names')])
    op = h.choice('op', ['static', 'adaptive', 'adaptive all', 'rename', 'rename all', 'remove first', 'remove'])
    parts = h.choice('parts', [(), [{cols[0]}]])
    w = [h.real(f'w{i}', 0, 100) for i in range(3)]
    qs = [(('A', 'x', 'u'), h.real('q0', 0, 100)), (('A', '', 'v'), h.real('q1', 0, 100))] + [(('A', '', 'u'), 3.0)] * h.flag('third')
    rel = [(o, i, h.real(f'r{o}{i}', 0.5, 100), None) for o, i in [(1, 1), (1, 2), (2, 2), (2, 3)][:h.bound('pairs')]]
    flags = {}
    if op.startswith('remove'):
        flags = dict(preserve_structure=h.flag('structure'), preserve_granularity=h.flag('granularity'))
    want = xsession(h, cols, parts, w, qs, rel, op, flags)
    with h.older_sqlite(h.choice('version', VERSIONS)):
        got = xsession(h, cols, parts, w, qs, rel, op, flags)
    h.reach(op)
    h.reach('refused') if want[0] is True else None
    for k, (x, y) in enumerate(zip(want, got)):
        if isinstance(x, dict):
            for t in x:
                h.check_same(y[t], x[t], f'{op}: same stored data, {t}')
        else:
            h.check_same(y, x, f'{op}: same result, {k}')
