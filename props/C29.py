"""Reshaping tabular data keeps every cell."""
from symx.harness import scenario

META = dict(
    title='Reshaping and normalizing tabular input keeps every cell',
    statement='Stacking wide columns yields, for each input row and each stacked column, exactly one output record with the '
              'unstacked values unchanged, and it raises an error if a requested column is missing. Tables given as '
              'sequences or as mappings, with or without separate column names, are read as the same rows.',
    over=['inputs'],
    text='for every header, choice of stacked columns, row length, row kind and cell value within the bounds',
    why='tests use one or two fixed tables in one orientation',
    files=['src/toron/_utils.py'],
    mechanism=[('reshape', 'wide_to_long, wide_to_narrow'), ('normalize', 'normalize_tabular, make_readerlike, make_dictreaderlike')])

COLS = ['A', 'B', 'C', 'D']


def table(h, rows, cols, ragged=False):
    out = []
    for r in range(rows):
        row = [h.real(f'c{r}{c}', -9, 9) for c in cols]
        if ragged and h.flag(f'short{r}'):
            row = row[:-1]
        out.append(tuple(row))
    return out


@scenario(quick=dict(rows=2, cols=3), thorough=dict(rows=3, cols=4))
def stack(h):
    """wide_to_long over every choice of columns to stack (also missing ones), both row kinds."""
    from toron import wide_to_long
    cols = COLS[:h.bound('cols')]
    n = h.choice('rows', range(h.bound('rows') + 1))
    kind = h.choice('kind', ['sequences', 'mappings'])
    data = table(h, n, cols, ragged=kind == 'sequences')
    stacked = h.subset('stack', cols + ['Z'])
    if h.flag('reverse'):
        stacked = stacked[::-1]
    form = h.choice('form', ['list', 'iterator', 'single'])
    arg = stacked
    if form == 'iterator':
        arg = iter(stacked)
    elif form == 'single':
        stacked = stacked[:1]
        arg = stacked[0] if stacked else []
    names = h.choice('names', [(), ('var', 'val')])
    keep = [c for c in cols if c not in stacked]
    if kind == 'sequences':
        source = iter([tuple(cols)] + data)
    else:
        source = [dict(zip(cols, r)) for r in data]
    if kind == 'mappings' and not n:
        h.check(list(wide_to_long(source, arg, *names)) == [], 'no rows give no records')
        return
    try:
        out = list(wide_to_long(source, arg, *names))
    except ValueError:
        h.check('Z' in stacked, 'an error is raised for missing columns only', stacked)
        h.reach('missing')
        return
    h.check('Z' not in stacked, 'a missing column is an error', stacked)
    want = []
    vn = names or ('variable', 'value')
    for r in data:
        d = dict(zip(cols, r))
        for s in stacked:
            want.append(tuple(d.get(k) for k in keep) + (s, d.get(s)))
    if kind == 'sequences':
        h.check(out[0] == tuple(keep) + vn, 'the header lists the kept columns and the new ones', out[0])
        h.check(h.same(out[1:], want), 'one record per row and stacked column', [out, want])
    else:
        h.check(all(list(o) == keep + list(vn) for o in out), 'records have the kept columns and the new ones')
        h.check(h.same([tuple(o.values()) for o in out], want), 'one record per row and stacked column', [out, want])
    h.observe('out', want)


@scenario(quick=dict(rows=2, cols=3), thorough=dict(rows=3, cols=4))
def narrow(h):
    """wide_to_narrow gives the same records as mappings and refuses name collisions."""
    from toron._utils import wide_to_narrow
    cols = COLS[:h.bound('cols')]
    n = h.choice('rows', range(h.bound('rows') + 1))
    data = table(h, n, cols)
    stacked = h.subset('stack', cols + ['Z'])
    var, val = h.choice('names', [('variable', 'value'), ('A', 'value'), ('variable', 'B')])
    source = [tuple(cols)] + data if h.flag('sequences') else [dict(zip(cols, r)) for r in data]
    try:
        out = list(wide_to_narrow(source, stacked, var, val))
    except (ValueError, KeyError) as e:
        h.check(n > 0 and ('Z' in stacked if isinstance(e, KeyError) else var == 'A' or val == 'B'), 'refused only with a reason')
        return
    h.check(n == 0 or not ('Z' in stacked or var == 'A' or val == 'B'), 'missing columns and name collisions are refused', [stacked])
    want = []
    for r in data:
        d = dict(zip(cols, r))
        want += [dict({k: d[k] for k in cols if k not in stacked}, **{var: s, val: d[s]}) for s in stacked]
    h.check(h.same(out, want), 'one record per row and stacked column', [out, want])


@scenario(quick=dict(rows=2, cols=2), thorough=dict(rows=3, cols=3))
def normalize(h):
    """Every accepted shape of a table is read as the same columns and rows."""
    from toron._utils import normalize_tabular, make_readerlike, make_dictreaderlike
    cols = COLS[:h.bound('cols')]
    n = h.choice('rows', range(1, h.bound('rows') + 1))
    data = table(h, n, cols)
    maps = [dict(zip(cols, r)) for r in data]
    order = h.permutation('order', cols)
    shape = h.choice('shape', ['header row', 'columns given', 'mappings', 'mappings with columns'])
    want_cols, want = cols, [list(r) for r in data]
    lazy = iter if h.flag('lazy') else list
    if shape == 'header row':
        rows, c = normalize_tabular(lazy([tuple(cols)] + data))
    elif shape == 'columns given':
        rows, c = normalize_tabular(lazy(data), cols)
    elif shape == 'mappings':
        rows, c = normalize_tabular(lazy(maps))
    else:
        rows, c = normalize_tabular(lazy(maps), order + ['Z'])
        want_cols = order + ['Z']
        want = [[m.get(k) for k in want_cols] for m in maps]
    h.check(list(c) == list(want_cols), 'the columns are those of the input', [c, want_cols])
    h.check(h.same([list(r) for r in rows], want), 'the rows are those of the input', [want])
    if shape in ('header row', 'mappings'):
        src = [tuple(cols)] + data if shape == 'header row' else maps
        got = list(make_readerlike(lazy(src)))
        h.check(list(got[0]) == cols and h.same([list(r) for r in got[1:]], want), 'reader-like rows equal the input')
        got = list(make_dictreaderlike(lazy(src)))
        h.check(h.same([dict(m) for m in got], maps), 'mapping-like rows equal the input')
