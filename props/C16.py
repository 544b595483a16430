"""Loading quantities: exact records, conflict behaviour, refusals; selecting returns what is stored."""
from symx.harness import scenario
from .common import new_space, raises, snapshot

META = dict(
    title='Loading quantities stores exactly the accepted records',
    statement='Loading stores each quantity under its labels and its non-empty registered attributes, whatever the order '
              'of columns and rows; rows without attributes are skipped, and rows with a foreign domain, unknown labels or '
              'no matching partition refuse the whole load unless explicitly allowed. A quantity that already exists for '
              'the same labels and attributes is refused, ignored, replaced or summed as requested. Selecting quantities '
              'returns exactly the stored records.',
    over=['inputs', 'configurations'],
    text='for every combination of labels, attribute values and quantities in the loaded rows, every conflict mode and '
         'permission flag',
    why='tests load a few fixed tables; which rows collide, are skipped or refuse the load depends on every combination of '
        'labels and attributes',
    files=['src/toron/space.py', 'src/toron/dal1/repositories.py', 'src/toron/data_models.py'],
    mechanism=[('loading', 'DataSpace.insert_quantities2'), ('selecting', 'DataSpace.select_quantities2')])

REACH = {'conflicts': ['abort', 'ignore', 'replace', 'sum', 'new'], 'validation': ['refused', 'skipped', 'stored', 'allowed'],
         'legacy_load': ['skipped', 'bad domain', 'stored']}
ROWS = [('A', 'x'), ('A', 'y'), ('B', 'x')]


def stored(node):
    return list(node.select_quantities2(header=False))


def as_dict(h, rows, nlab, natt):
    out = {}
    for r in rows:
        h.check(len(r) == nlab + natt + 1, 'selected rows have labels, registered attributes and value', r)
        k = (tuple(r[:nlab]), tuple(r[nlab:nlab + natt]))
        h.check(k not in out, 'one stored quantity per labels and attributes', [k])
        out[k] = r[-1]
    return out


@scenario(quick=dict(rows=3), thorough=dict(rows=4))
def conflicts(h):
    """Rows that may collide, loaded in one or two calls, for each on_existing mode."""
    node = new_space(rows=ROWS, partitions=[{'a'}], attrs=('k', 'm'))
    n = h.bound('rows')
    data = []
    for i in range(n):
        place = h.choice(f'p{i}', [('A', 'x'), ('A', '')])
        at = h.choice(f't{i}', [('u', ''), ('u', 'w'), ('', 'u')] if i < 3 else [('u', '')])
        data.append(place + at + (h.real(f'q{i}', -1000, 1000),))
    mode = h.choice('mode', ['abort', 'ignore', 'replace', 'sum'])
    cut = h.choice('cut', [0, 1])
    cols = ['a', 'b', 'k', 'm', 'value']
    node.insert_quantities2(value_column='value', data=data[:cut], columns=cols)
    want = {}
    clash = False
    for i, r in enumerate(data):
        key = (r[:2], tuple(x or None for x in r[2:4]))
        if key not in want:
            h.reach('new')
            want[key] = r[4]
        elif mode == 'abort':
            clash = True
        elif mode == 'replace':
            want[key] = r[4]
        elif mode == 'sum':
            want[key] = want[key] + r[4]
    with raises(Exception) as err:
        node.insert_quantities2(value_column='value', data=data[cut:], columns=cols, on_existing=mode)
    h.reach(mode)
    h.check(bool(err) == clash, 'only a colliding quantity in abort mode refuses the load', [mode])
    if err:
        want = {(r[:2], tuple(x or None for x in r[2:4])): r[4] for r in data[:cut]}
    got = as_dict(h, stored(node), 2, 2)
    h.check(set(got) == set(want), 'stored records have exactly the given labels and attributes', [sorted(map(repr, got))])
    for k in want:
        h.check_eq(got[k], want[k], f'stored values follow the conflict mode {mode}')
    h.observe('got', sorted(map(repr, got)))


@scenario(quick=dict(cells=['', 'A', 'C']), thorough=dict(cells=['', 'A', 'C', '-']))
def validation(h):
    """Labels, attributes, domain, column order and permission flags."""
    dom = h.choice('domain', [None, 'us'])
    node = new_space(rows=ROWS, partitions=[{'a'}], attrs=('k', 'm'), domain=dom)
    order = h.choice('order', [(0, 1, 2, 3, 4), (4, 2, 1, 3, 0)])
    a = h.choice('a', h.bound('cells'))
    b = h.choice('b', ['', 'x', 'z'])
    k = h.choice('k', ['', 'u', None])
    extra = h.choice('extra', ['', 'e'])
    q = h.real('q', -1000, 1000)
    q2 = h.real('q2', -1000, 1000)
    cols = ['a', 'b', 'k', 'extra', 'value']
    rec, ok = [a, b, k, extra, q], ['B', '', 'u', 'e', q2]
    given = h.choice('given', [None, 'us', 'ca'])
    cols = [cols[i] for i in order]
    rows = [[r[i] for i in order] for r in (ok, rec)]
    if given is not None:
        cols.append('domain')
        rows = [r + [given] for r in rows]
    inv_label, inv_part = h.flag('allow_label'), h.flag('allow_partition')
    before = snapshot(node)
    with raises(Exception) as err:
        node.insert_quantities2(value_column='value', data=rows, columns=cols, allow_invalid_label=inv_label,
                                allow_invalid_partition=inv_part)
    bad_domain = given is not None and given != (dom or '')
    matches = [r for r in ROWS + [('-', '-')] if a in ('', r[0]) and b in ('', r[1])]
    bad_label = not matches and not inv_label
    bad_part = (a == '' and b != '') and not inv_part
    refused = bad_domain or (bool(k) and (bad_label or bad_part))
    h.check(bool(err) == refused, 'a load is refused exactly for a foreign domain, unknown labels or a missing partition',
            [rows, dom, inv_label, inv_part])
    if err:
        h.reach('refused')
        h.check(snapshot(node) == before, 'a refused load stores nothing')
        return
    pre = [dom] if dom else []
    want = [pre + ['B', '', 'u', None, q2]]
    if k:
        h.reach('allowed' if not matches or (a == '' and b) else 'stored')
        want.append(pre + [a, b, 'u', None, q])
    else:
        h.reach('skipped')
    rows = [list(r) for r in node.select_quantities2()]
    h.check(rows[0] == (['domain'] if dom else []) + ['a', 'b', 'k', 'm', 'quantity'], 'the header names the columns', rows[0])
    h.check_same(rows[1:], want, 'selecting returns exactly the accepted records')
    h.observe('rows', rows)


@scenario(quick={})
def registered(h):
    """Only registered attributes are stored and returned, in registered order, and the default attribute check."""
    attrs = [['k', 'm'], ['m', 'k'], ['m'], []][h.choice('attrs', range(4))]
    node = new_space(rows=ROWS, partitions=[{'a'}], attrs=())
    node.set_registered_attributes(attrs)
    h.check(list(node.get_registered_attributes()) == attrs, 'registered attributes are kept in order')
    vals = {'k': h.choice('k', ['', 'u']), 'm': h.choice('m', ['', 'w'])}
    q = h.real('q', -100, 100)
    data = [dict(a='A', b='', value=q, **vals)]
    from toron._utils import ToronError
    with raises(Exception) as err:
        node.insert_quantities2(value_column='value', data=data)
    h.check(bool(err) == (not attrs), 'loading needs registered attributes')
    with raises(ToronError) as err:
        got = [list(r) for r in node.select_quantities2(header=False)]
    h.check(bool(err) == (not attrs), 'selecting needs registered attributes')
    if not err:
        has = any(vals[x] for x in attrs)
        h.check_same(got, [['A', ''] + [vals[x] or None for x in attrs] + [q]] if has else [], 'only registered attributes are stored')


@scenario(quick={})
def not_a_number(h):
    """Values that are not numbers never enter the space, whatever the conflict mode."""
    node = new_space(rows=ROWS, partitions=[{'a'}], attrs=('k',))
    v = h.choice('v', ['text', '', None, '12.5', True])
    pre = h.flag('existing')
    mode = h.choice('mode', ['abort', 'ignore', 'replace', 'sum'])
    cols = ['a', 'b', 'k', 'value']
    q = h.real('q', 1, 100)
    if pre:
        node.insert_quantities2(value_column='value', data=[('A', 'x', 'u', q)], columns=cols)
    before = snapshot(node)
    err = None
    try:
        node.insert_quantities2(value_column='value', data=[('A', 'y', 'u', q), ('A', 'x', 'u', v)], columns=cols, on_existing=mode)
    except Exception as e:
        err = e
    if err is not None:
        h.check(snapshot(node) == before, 'a refused load stores nothing')
    vals = [r[-1] for r in stored(node)]
    h.check(all(not isinstance(x, str) and x is not None for x in vals), 'stored quantities are numbers', vals)
    if v in ('12.5', True) and not (pre and mode == 'abort'):
        h.check(err is None, 'numeric values are accepted', repr(err))
    if v in ('text', '', None) and not pre:
        h.check(err is not None, 'values that are not numbers are refused')


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def legacy_load(h):
    """insert_quantities()/select_quantities(): named attributes and the domain filter."""
    dom = h.choice('domain', [None, 'us'])
    node = new_space(rows=ROWS, partitions=[{'a'}], attrs=(), domain=dom)
    rows, want = [], []
    for i in range(h.bound('rows')):
        place = [('A', 'x'), ('A', ''), ('Q', 'q')][i]
        k, m = h.choice(f'k{i}', ['', 'u']), h.choice(f'm{i}', ['', 'w'])
        d = h.choice(f'd{i}', ['us', 'ca']) if dom else 'us'
        q = h.real(f'q{i}', -100, 100)
        rows.append(place + (k, m, q, d))
        if dom and d != dom:
            h.reach('bad domain')
        elif not (k or m):
            h.reach('skipped')
        else:
            h.reach('stored')
            want.append((place, {x: y for x, y in (('k', k), ('m', m)) if y}, q))
    node.insert_quantities(value='value', attributes=['k', 'm'], data=rows, columns=['a', 'b', 'k', 'm', 'value', 'domain'])
    out = [list(r) for r in node.select_quantities()]
    names = sorted({x for _, at, _ in want for x in at})
    pre = ['domain'] if dom else []
    head = out[0]
    h.check(head[:len(pre) + 2] == pre + ['a', 'b'] and head[-1] == 'quantity'
            and sorted(head[len(pre) + 2:-1]) == names, 'the header names the columns', head)
    cols = head[len(pre) + 2:-1]
    exp = [([dom] if dom else []) + list(p) + [at.get(c) for c in cols] + [q] for p, at, q in want]
    h.check_same(out[1:], exp, 'selecting returns exactly the accepted records')
