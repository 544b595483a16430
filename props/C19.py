"""Inserting index records: labels, identifiers and weights."""
from symx.harness import scenario
from .common import new_space, set_weights, weights_of, index_rows, raises, snapshot, query, mappings_of, link_spaces, level

META = dict(
    title='Inserting index records adds exactly the new labels and weights',
    statement='Inserting index records adds each new combination of labels once, keeps existing records, and with an '
              'identifier addresses that record: different labels are refused, ignored or replaced as requested. Weights '
              'given in the same rows go to the record of the row; an existing weight is refused, ignored or replaced as '
              'requested and empty weight cells are skipped. An operation that raises an error changes nothing, and existing '
              'weights, mappings and quantities of other records stay as they were.',
    over=['inputs', 'configurations'],
    text='for every combination of rows (new, existing, empty or conflicting labels, with or without identifiers and '
         'weights), column order and conflict modes within the bound',
    why='tests cover single rows per mode; repeated rows, mixed modes and weights multiply beyond what examples reach',
    files=['src/toron/space.py', 'src/toron/dal1/repositories.py'],
    mechanism=[('insert', 'DataSpace.insert_index')])

REACH = {'groups': ['abort', 'ignore', 'replace', 'new'],
         'rows': ['new', 'existing', 'empty', 'w-new', 'w-abort', 'w-ignore', 'w-replace'],
         'by_id': ['abort', 'ignore', 'replace', 'same', 'clash']}
ROWS = [('A', 'x'), ('A', 'y')]


def make(h):
    node = new_space(rows=ROWS, partitions=[{'a'}], attrs=('k',))
    pre = {1: h.real('pre', 0, 100)}
    set_weights(node, 'wt', ROWS, [pre[1], None])
    src = new_space(('s',), [('S1',)])
    link_spaces(src, node, 'L', [(1, 1, level(1, 1), h.real('m', 1, 10)), (1, 2, level(1, 1), 1.0)])
    node.insert_quantities2(value_column='v', data=[('A', '', 'u', h.real('q', 0, 9))], columns=['a', 'b', 'k', 'v'])
    return node, pre


def finish(h, node, err, refuse, before, labels, wts):
    h.check(bool(err) == refuse, 'only conflicts in abort mode and invalid rows refuse the operation', repr(err))
    after = snapshot(node)
    if err:
        h.check_same(after, before, 'an operation that raises changes nothing')
        return
    h.check([tuple(r[1:]) for r in index_rows(node)] == labels, 'exactly the new label combinations are added', [labels])
    got = weights_of(node, 'wt')
    h.check(set(got) == set(wts), 'weights exist for exactly the expected records', [sorted(got), sorted(wts)])
    for i in wts:
        h.check_eq(got[i], wts[i], 'each weight has the expected value')
    for t in ('mapping', 'quantity', 'location', 'attribute_group'):
        h.check_same(after[t], before[t], f'inserting index records leaves every {t} as it was')
    (g,) = [g for g in node.weight_groups]
    h.check(bool(g.is_complete) == (set(wts) == set(range(1, len(labels) + 1))), 'the completeness flag is current')
    h.observe('index', index_rows(node))
    h.observe('w', sorted(got.items()))


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def rows(h):
    """Rows without identifiers, optionally with weights, in either column order."""
    node, pre = make(h)
    labels, wts = list(ROWS), dict(pre)
    wmode = h.choice('wmode', ['abort', 'ignore', 'replace'])
    sel = h.choice('weights', ['none', 'wt', 'all'])
    order = h.choice('order', [(0, 1, 2), (2, 1, 0)])
    data, refuse = [], False
    for k in range(h.bound('rows')):
        r = h.choice(f'r{k}', [('A', 'x'), ('A', 'y'), ('C', 'z'), ('', 'z'), ('C', 'x')][:5 - k])
        v = h.choice(f'v{k}', ['real', '', None] if k == 0 else ['real', ''])
        v = h.real(f'w{k}', -5, 100) if v == 'real' else v
        data.append(r + (v,))
        if refuse:
            continue
        if '' in r:
            h.reach('empty')
            continue
        if r in labels:
            h.reach('existing')
        else:
            h.reach('new')
            labels.append(r)
        i = labels.index(r) + 1
        if sel == 'none' or v in ('', None):
            continue
        if i in wts:
            h.reach(f'w-{wmode}')
            if wmode == 'abort':
                refuse = True
            elif wmode == 'replace':
                refuse = h.decided(v < 0)
                wts[i] = v
        else:
            h.reach('w-new')
            refuse = h.decided(v < 0)
            wts[i] = v
    cols = [('a', 'b', 'wt')[i] for i in order]
    data = [tuple(r[i] for i in order) for r in data]
    if sel == 'none':
        cols = [c if c != 'wt' else 'other' for c in cols]
    before = snapshot(node)
    with raises(Exception) as err:
        node.insert_index(data, cols, weights='wt' if sel == 'wt' else None, on_weight_conflict=wmode)
    finish(h, node, err, refuse, before, labels, wts)


@scenario(quick=dict(rows=1), thorough=dict(rows=2))
def groups(h):
    """Rows with weights for two groups: each cell is decided on its own."""
    node = new_space(rows=ROWS, attrs=())
    want = {}
    for g in ('v', 'wt'):
        want[g] = {i: h.real(f'{g}{i}', 0, 100) for i in (1, 2) if h.flag(f'{g} has {i}')}
        set_weights(node, g, ROWS, [want[g].get(1), want[g].get(2)])
    mode = h.choice('mode', ['abort', 'ignore', 'replace'])
    cols = h.choice('columns', [['a', 'b', 'v', 'wt'], ['wt', 'b', 'v', 'a']])
    given = h.choice('weights', [None, ['wt', 'v'], ['v']])
    labels, data, refuse = list(ROWS), [], False
    for k in range(h.bound('rows')):
        r = h.choice(f'r{k}', [('A', 'x'), ('A', 'y'), ('C', 'z')])
        row = dict(zip('ab', r))
        for g in ('v', 'wt'):
            row[g] = h.real(f'{g} new{k}', 0, 100) if h.flag(f'{g} cell{k}') else ''
        data.append([row[c] for c in cols])
        if refuse:
            continue
        if r not in labels:
            labels.append(r)
        i = labels.index(r) + 1
        for g in given or ('v', 'wt'):
            if row[g] == '':
                continue
            if i in want[g]:
                h.reach(mode)
                refuse = refuse or mode == 'abort'
            else:
                h.reach('new')
            if i not in want[g] or mode == 'replace':
                want[g][i] = row[g]
    before = snapshot(node)
    with raises(Exception) as err:
        node.insert_index(data, cols, weights=given, on_weight_conflict=mode)
    h.check(bool(err) == refuse, 'only an existing weight in abort mode refuses the rows', repr(err))
    if err:
        h.check_same(snapshot(node), before, 'an operation that raises changes nothing')
        return
    h.check([tuple(r[1:]) for r in index_rows(node)] == labels, 'exactly the new label combinations are added', [labels])
    for g in ('v', 'wt'):
        h.check_same(weights_of(node, g), want[g], 'every cell goes to its own group and record')
        h.check(bool(node.get_weight_group(g).is_complete) == (set(want[g]) == set(range(1, len(labels) + 1))), 'the completeness flags are current', g)


@scenario(quick={})
def by_id(h):
    """A row with an identifier: labels kept, refused, ignored or replaced; blank identifiers insert."""
    node, pre = make(h)
    labels, wts = list(ROWS), dict(pre)
    lmode = h.choice('lmode', ['abort', 'ignore', 'replace'])
    wmode = h.choice('wmode', ['abort', 'replace'])
    i = h.choice('id', [1, 2, 7, 0, ''])
    r = h.choice('r', [('A', 'x'), ('C', 'z'), ('-', '-')])
    v = h.choice('v', ['real', ''])
    v = h.real('w', 0, 100) if v == 'real' else v
    first = h.flag('second row')
    data = [(i,) + r + (v,)]
    refuse = i == 7
    if i != '' and not refuse:
        cur = ('-', '-') if i == 0 else labels[i - 1]
        if r == cur:
            h.reach('same')
        elif lmode == 'abort':
            h.reach('abort')
            refuse = True
        elif lmode == 'ignore':
            h.reach('ignore')
        else:
            h.reach('replace')
            if i == 0 or r in labels or r == ('-', '-'):
                h.reach('clash')
                refuse = True
            else:
                labels[i - 1] = r
    elif i == '':
        if r not in labels and r != ('-', '-'):
            labels.append(r)
        i = 0 if r == ('-', '-') else labels.index(r) + 1
    if v != '' and not refuse:
        if i == 0:
            refuse = h.decided(v != 0)     # a weight of zero is accepted, not stored
        elif i in wts and wmode == 'abort':
            refuse = True
        else:
            wts[i] = v
    if first and not refuse:
        data.append(('', 'D', 'd', ''))
        labels.append(('D', 'd'))
    before = snapshot(node)
    with raises(Exception) as err:
        node.insert_index(data, ['index_id', 'a', 'b', 'wt'], on_label_conflict=lmode, on_weight_conflict=wmode)
    finish(h, node, err, refuse, before, labels, wts)


@scenario(quick={})
def shapes(h):
    """Column sets: missing label columns, weights that are not in the data, extra columns, a single label column."""
    shape = h.choice('shape', ['missing label', 'missing weight', 'no labels', 'extra', 'one column', 'dicts', 'id only'])
    node, pre = make(h)
    before = snapshot(node)
    labels = list(ROWS)
    if shape == 'missing label':
        call = lambda: node.insert_index([('C',)], ['a'])
    elif shape == 'missing weight':
        call = lambda: node.insert_index([('C', 'z')], ['a', 'b'], weights=['wt'])
    elif shape == 'no labels':
        from toron import DataSpace
        node = DataSpace()
        before = snapshot(node)
        call = lambda: node.insert_index([('C', 'z')], ['a', 'b'])
    elif shape == 'one column':
        node = new_space(('s',), [('S',)])
        node.insert_index([('T',), ('S',), ('U',)], ['s'])
        h.check([tuple(r[1:]) for r in index_rows(node)] == [('S',), ('T',), ('U',)], 'single label columns work')
        return
    elif shape == 'id only':
        w = h.real('w', 0, 9)
        node.insert_index([(2, w)], ['index_id', 'wt'])
        h.check_same(weights_of(node, 'wt'), {1: pre[1], 2: w}, 'rows with only an identifier load weights')
        h.check([tuple(r[1:]) for r in index_rows(node)] == labels, 'labels stay')
        return
    else:
        data = [{'b': 'z', 'x': '1', 'a': 'C'}, {'b': 'y', 'x': '2', 'a': 'A'}]
        node.insert_index(data) if shape == 'dicts' else node.insert_index([list(d.values()) for d in data], ['b', 'x', 'a'])
        h.check([tuple(r[1:]) for r in index_rows(node)] == labels + [('C', 'z')], 'extra columns are ignored')
        return
    with raises(Exception) as err:
        call()
    h.check(bool(err), 'incomplete columns are refused', shape)
    h.check_same(snapshot(node), before, 'an operation that raises changes nothing')


@scenario(quick={})
def copied(h):
    """The weights table of a space, loaded into an empty space, gives the same records and weights."""
    from toron.graph import get_weights
    from toron import DataSpace
    dom = h.choice('domain', [None, 'dom'])
    node = new_space(rows=ROWS + [('C', 'z')], attrs=(), domain=dom)
    vals = {}
    for g in ('w', 'v'):
        vals[g] = [h.real(f'{g}{k}', 0, 100) if h.flag(f'{g} has {k}') else None for k in range(3)]
        set_weights(node, g, ROWS + [('C', 'z')], vals[g], selectors=['[k="x"]'] if g == 'w' else None)
    gone = h.flag('delete the first')
    if gone:
        node.delete_index(a='A', b='x')
    sel = h.choice('weights', [None, 'w', ['v', 'w']])
    table = [list(r) for r in get_weights(node, weights=sel)]
    names = table[0][-2:] if sel is None else [sel] if sel == 'w' else sel
    h.check(sel is not None or set(names) == {'w', 'v'}, 'all weight groups are listed', names)
    h.check(table[0] == ['index_id'] + (['domain'] if dom else []) + ['a', 'b'] + names, 'the header names the columns', table[0])
    want = [[i] + ([dom] if dom else []) + list(r) + [0.0 if i == 0 else vals[g][i - 1] for g in names]
            for i, r in enumerate([('-', '-')] + ROWS + [('C', 'z')]) if not (gone and i == 1)]
    h.check_same(table[1:], want, 'every record is listed once with its weights')
    h.check_same([list(r) for r in get_weights(node, weights=sel, header=False)], want, 'the header can be left out')
    with raises(Exception) as err:
        get_weights(node, weights=['w', 'zzz'])
    h.check(bool(err), 'unknown weight groups are refused')
    twin = DataSpace()
    twin.add_index_columns('a', 'b')
    for g in names:
        twin.add_weight_group(g)
    twin.insert_index([r[1:] for r in table[1:]], table[0][1:])
    h.check([r[1:] for r in index_rows(twin)] == [r[1:] for r in index_rows(node)], 'the same records')
    shift = 1 if gone else 0
    for g in names:
        h.check_same(weights_of(twin, g), {i - shift: v for i, v in weights_of(node, g).items()}, 'the same weights')
