"""Reading quantities out of a space: grouping, caching, pivoting."""
import os

from symx.harness import scenario
from .common import new_space, raises, add_quantities, set_weights

META = dict(
    title='Reading gives every value once; caching and summing do not change it',
    statement='A reader gives one row per record and attribute combination with the sum of its values, under sorted attribute '
              'columns, whether it is cached in memory or on the drive, and leaves no file behind. Summing by attributes, '
              'selecting and pivoting only group the same values: every total is the sum (or mean) of exactly the rows in it.',
    over=['inputs', 'configurations'],
    text='for every combination of rows, attributes, values and options within the bound',
    why='tests read a few fixed rows; grouping errors depend on which attributes and records coincide',
    files=['src/toron/reader.py', 'src/toron/space.py'],
    mechanism=[('read', 'NodeReader, DataSpace.__call__'), ('pivot', 'pivot_reader, format_column')])

REACH = {'leftovers': ['source', 'interrupt', 'translation', 'dropped', 'closed'], 'grouping': ['added up', 'missing attribute', 'drive', 'memory', 'translated', 'empty'],
         'pivot': ['empty cell', 'skipped', 'mean', 'sum', 'tuple column', 'plain column', 'refused'],
         'summing': ['domain', 'selected', 'nothing selected', 'merged']}
ROWS = [('A', 'x'), ('A', 'y'), ('B', 'x')]
CELLS = {0: ('-', '-'), 1: ROWS[0], 2: ROWS[1], 3: ROWS[2]}
ATTRS = [{'k': 'v'}, {'k': 'v', 'm': 'w'}, {'m': 'w', 'k': 'v'}, {'m': 'w'}, {'k': ''}, {'a k': "q'\""}]


def group(h, data):
    out = {}
    for i, attrs, v in data:
        key = (i, tuple(sorted(attrs.items())))
        h.reach('added up') if key in out else None
        out[key] = out.get(key, 0) + v
    return out


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def grouping(h):
    """NodeReader over symbolic rows; memory and drive; after a translation."""
    from toron.reader import NodeReader
    n = h.choice('n', range(h.bound('rows') + 1))
    data = [(h.choice(f'i{k}', [1, 2, 0]), dict(h.choice(f'a{k}', ATTRS)), h.real(f'v{k}', -100, 100)) for k in range(n)]
    drive = h.flag('drive')
    h.reach('drive' if drive else 'memory')
    node = new_space(rows=ROWS, attrs=())
    reader = NodeReader(iter(data), node, cache_to_drive=drive)
    path = reader._current_working_path
    want = group(h, data)
    keys = sorted({k for _, a, _ in data for k in a})
    h.reach('empty') if not data else None
    h.reach('missing attribute') if any(set(a) != set(keys) for _, a, _ in data) else None
    if h.flag('translate'):
        trg = new_space(('z',), [('P',), ('Q',)], attrs=())
        trg.add_link(node, 'L')
        m = {1: [(1, h.real('m', 0.5, 10)), (2, 1.0)], 2: [(2, 1.0)], 3: [(1, 1.0)]}
        trg.insert_mappings2(node, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L')] + [(o, i, b'\x80', w) for o, l in m.items() for i, w in l])
        reader.translate(trg)
        h.reach('translated')
        moved = []
        for (i, a), v in want.items():
            tot = h.sum_(w for _, w in m[i]) if i else 1
            moved += [(j, dict(a), v * (w / tot)) for j, w in m.get(i, [(0, 1)])]
        want, cells, labels = group(h, moved), {0: ('-',), 1: ('P',), 2: ('Q',)}, ['z']
    else:
        cells, labels = CELLS, ['a', 'b']
    h.check(reader.index_columns == labels, 'the index columns are those of the space', reader.index_columns)
    h.check(reader.columns == labels + keys + ['value'], 'columns are the labels, the sorted attributes and the value', reader.columns)
    got = [tuple(r) for r in reader]
    exp = {cells[i] + tuple(dict(a).get(k) for k in keys): v for (i, a), v in want.items()}
    h.check(len(got) == len(exp) and {r[:-1] for r in got} == set(exp), 'one row per record and attribute combination', [[list(r[:-1]) for r in got], [list(k) for k in exp]])
    for r in got:
        h.check_eq(r[-1], exp[r[:-1]], 'each row has the sum of its values')
    h.check((path is not None) == drive and (not drive or os.path.exists(path)), 'the drive is used on request')
    reader.close()
    h.check(not drive or not os.path.exists(path), 'closing a reader removes its file')
    h.observe('rows', sorted([list(map(str, r[:-1])) for r in got]))


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def pivot(h):
    """pivot_reader groups the rows of a reader."""
    from toron.reader import NodeReader, pivot_reader
    data = [(h.choice(f'i{k}', [1, 2]), dict(h.choice(f'a{k}', ATTRS)), h.real(f'v{k}', -100, 100)) for k in range(h.bound('rows'))]
    data.append((1, {'k': 'v', 'm': 'z'}, h.real('v', -100, 100)))
    columns = h.choice('columns', [['k'], ['m', 'k'], ['k', 'm'], ['zz'], ['m']])
    func = h.choice('func', ['sum', 'mean', 'max'])
    node = new_space(rows=ROWS, attrs=())
    reader = NodeReader(iter(data), node)
    with raises(Exception) as err:
        out = [list(r) for r in pivot_reader(reader, columns if h.flag('list') else iter(columns), func)]
    h.check(bool(err) == (func == 'max'), 'only known functions are accepted', repr(err))
    if err:
        h.reach('refused')
        return
    h.reach(func)
    cells = {}
    for (i, a), v in group(h, data).items():
        col = tuple(dict(a).get(c, '') for c in columns)
        if not any(col):
            h.reach('skipped')
            continue
        while col[-1] == '':
            col = col[:-1]
        h.reach('plain column' if len(col) == 1 else 'tuple column')
        cells.setdefault(i, {}).setdefault(col if len(col) > 1 else col[0], []).append(v)
    heads = {c for r in cells.values() for c in r}
    h.check(out[0][:2] == ['a', 'b'] and len(out[0]) == 2 + len(heads) and set(out[0][2:]) == heads, 'one column per combination of pivoted attributes', [out[0], sorted(map(str, heads))])
    h.check(sorted(tuple(r[:2]) for r in out[1:]) == sorted(CELLS[i] for i in cells), 'one row per record with values')
    for r in out[1:]:
        (i,) = [k for k, c in CELLS.items() if c == tuple(r[:2])]
        for head, v in zip(out[0][2:], r[2:]):
            vs = cells[i].get(head)
            if vs is None:
                h.reach('empty cell')
                h.check(v is None, 'a cell without values is empty', [v])
            else:
                h.check_eq(v, h.sum_(vs) if func == 'sum' else h.sum_(vs) / len(vs), f'each cell is the {func} of its values')
    h.observe('out', [[str(x) for x in r[:2]] for r in out])


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def summing(h):
    """space(...) with selectors, summed attributes and caching."""
    data = []
    for k in range(h.bound('rows')):
        lab = h.choice(f'l{k}', [('A', 'x'), ('A', ''), ('B', 'x')])
        data.append(lab + h.choice(f'a{k}', [('v', 'w'), ('v', 'z'), ('u', 'w')]) + (h.real(f'v{k}', -100, 100),))
    if len({r[:4] for r in data}) < len(data):
        return     # refused when loading
    domain = h.choice('domain', [None, 'dom'])
    node = new_space(rows=ROWS, partitions=[{'a'}], attrs=('k', 'm'), domain=domain)
    set_weights(node, 'wt', ROWS, [1.0, 3.0, 2.0], default=True)
    node.insert_quantities2(value_column='value', data=data, columns=['a', 'b', 'k', 'm', 'value'])
    sel = h.choice('selector', [(), ('[k="v"]',), ('[m="w"]', '[k="u"]'), ('[k="none"]',)])
    by = h.choice('by', [None, 'k', ['m'], ('k', 'm'), ['zz']])
    drive = h.flag('drive')
    reader = node(*sel, sum_by_attrs=by, cache_to_drive=drive)
    path = reader._current_working_path
    ok = {(): lambda k, m: True, ('[k="v"]',): lambda k, m: k == 'v', ('[m="w"]', '[k="u"]'): lambda k, m: m == 'w' or k == 'u'}.get(sel, lambda k, m: False)
    want, used = {}, set()
    seen = {}
    for a, b, k, m, v in data:
        if not ok(k, m):
            continue
        attrs = {'k': k, 'm': m}
        if by is not None:
            attrs = {x: y for x, y in attrs.items() if x in ([by] if isinstance(by, str) else by)}
        if domain:
            attrs['domain'] = domain
            h.reach('domain')
        used |= set(attrs)
        for lab, share in [((a, b), 1)] if b else [(('A', 'x'), 0.25), (('A', 'y'), 0.75)]:
            key = lab, tuple(sorted(attrs.items()))
            if seen.setdefault(key, (k, m)) != (k, m):
                h.reach('merged')
            want[key] = want.get(key, 0) + v * share
    h.reach('selected' if want else 'nothing selected')
    keys = sorted(used)
    h.check(reader.columns == ['a', 'b'] + keys + ['value'], 'the columns are the attributes that are kept', reader.columns)
    got = [tuple(r) for r in reader]
    exp = {lab + tuple(dict(a).get(k) for k in keys): v for (lab, a), v in want.items()}
    h.check(len(got) == len(exp) and {r[:-1] for r in got} == set(exp), 'one row per record and combination of kept attributes', [[list(r[:-1]) for r in got], [list(k) for k in exp]])
    for r in got:
        h.check_eq(r[-1], exp[r[:-1]], 'each row has the sum of its values')
    reader.close()
    h.check(not drive or not os.path.exists(path), 'closing a reader removes its file')
    h.observe('rows', sorted([list(map(str, r[:-1])) for r in got]))


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def leftovers(h):
    """Readers on the drive: a source that fails, a translation that fails, a reader that is dropped or closed early."""
    import gc
    import tempfile
    from toron.reader import NodeReader
    drive = h.flag('drive')
    rows = h.choice('n', range(h.bound('rows') + 1))
    fail = h.choice('fail', ['source', 'interrupt', 'translation', 'dropped', 'closed'])
    node = new_space(rows=ROWS, attrs=())
    data = [(h.choice(f'i{k}', [1, 2]), {'k': 'v'}, h.real(f'v{k}', -100, 100)) for k in range(rows)]

    def source():
        yield from data
        if fail == 'source':
            raise RuntimeError('no more')
        if fail == 'interrupt':
            raise KeyboardInterrupt

    def files():
        return sorted(os.listdir(h.scratch()))
    tempfile.tempdir = h.scratch()
    try:
        reader = None
        try:
            reader = NodeReader(source(), node, cache_to_drive=drive)
        except (RuntimeError, KeyboardInterrupt):
            pass
        h.check((reader is None) == (fail in ('source', 'interrupt')), 'a failing source fails the reader')
        if reader is not None:
            h.check(bool(files()) == drive, 'the drive is used on request', files())
            if fail == 'translation':
                before = sorted([r[:-1] for r in NodeReader(iter(data), node)])
                try:
                    reader.translate(new_space(('z',), [('P',)], attrs=()))
                    failed = False
                except Exception:
                    failed = True
                h.check(failed or not rows, 'translation without a link is refused')
                if failed:
                    h.check(reader.index_columns == ['a', 'b'], 'a refused translation leaves the reader as it was')
                    got = list(reader)
                    h.check(sorted(r[:-1] for r in got) == before, 'a refused translation leaves the reader as it was')
            elif h.flag('started'):
                next(reader, None)
            if fail == 'dropped':
                reader = None
                gc.collect()
            else:
                reader.close()
        h.check(files() == [], 'no file is left behind', [fail, files()])
    finally:
        tempfile.tempdir = None
    h.reach(fail)
