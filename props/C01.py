"""Disaggregation conserves every total and follows the weights."""
from symx.harness import scenario
from .common import new_space, set_weights, add_quantities, raises

META = dict(
    title='Disaggregation conserves every total and follows the weights',
    statement='Disaggregating quantities gives every index record below a quantity its share in proportion to the '
              'weight group that governs the attributes (equal shares when the weights sum to zero), and the shares'
              ' of each quantity sum to the quantity. The governing weight group is the most specific matching '
              'selector, else the default. A quantity that matches no index record is refused or reported, never '
              'dropped silently.',
    over=['inputs', 'configurations'],
    text='for every weight, quantity value, label arrangement, mix of aggregation levels and selector set '
         'within the bounds',
    why='tests disaggregate a few fixed spaces; conservation and proportionality are statements over all real'
        ' weights and values and all overlaps of levels',
    files=['src/toron/space.py', 'src/toron/data_service.py', 'src/toron/dal1/repositories.py', 'src/toron/selectors.py'],
    mechanism=[('disaggregation', 'DataSpace._disaggregate and data_service.disaggregate_quantity'), ('weight choice', 'make_get_weight_group_id_func')])

REACH = {
    'split_by_weight': ['zero weight', 'positive weight', 'no match'],
    'weight_group_choice': ['selector', 'default', 'tie'],
}

ASSUMPTIONS = ['Weights are finite and non-negative; quantities are finite.']


def split(h, q, ids, weights):
    """Documented split of q over ids (undefined record gets nothing)."""
    real = [i for i in ids if i != 0]
    if not real:
        return {0: q}
    total = h.sum_([weights[i] for i in real])
    out = {0: 0.0} if 0 in ids else {}
    if h.decided(total == 0):
        h.reach('zero weight')
        for i in real:
            out[i] = q / len(real)
    else:
        h.reach('positive weight')
        for i in real:
            out[i] = q * weights[i] / total
    return out


@scenario(quick=dict(rows=3), thorough=dict(rows=4))
def split_by_weight(h):
    """One coarse quantity, symbolic labels, weights and value."""
    n = h.bound('rows')
    second = ['p', 'q', 'r', 's', 't'][:n]
    rows = [(h.label(f'a{i}', ['X', 'Y']), second[i]) for i in range(n)]
    node = new_space(rows=rows, partitions=[{'a'}])
    ws = [h.real(f'w{i}', 0, 1000) for i in range(n)]
    set_weights(node, 'wt', rows, ws)
    q = h.real('q', -1000000, 1000000)
    with raises(Exception) as bad:
        add_quantities(node, [('X', '', 'v', q)])
    ids = [i + 1 for i, (a, _) in enumerate(rows) if a == 'X']
    if bad:
        h.reach('no match')
        h.check(not ids, 'a quantity is refused only when its labels match no index record')
        h.check(not list(node.select_quantities2(header=False)), 'refused data stores nothing')
        return
    h.check(bool(ids), 'a quantity with labels outside the index is refused')
    expect = split(h, q, ids, dict(enumerate(ws, 1)))
    out = {}
    for row in node():
        h.check(row[2] == 'v' and len(row) == 4, 'attributes are kept', row)
        i = second.index(row[1]) + 1
        h.check(i not in out, 'one record per index record and attribute set')
        h.check(row[0] == rows[i - 1][0], 'labels belong to the index record')
        out[i] = row[3]
    h.check(sorted(out) == sorted(expect), 'only matching index records receive values', [sorted(out), ids])
    for i in out:
        h.check_eq(out[i], expect[i], 'each index record receives its weight share')
    h.check_eq(h.sum_(out.values()), q, 'the total is conserved')
    h.observe('out', sorted(out.items()))


@scenario(quick=dict(attrs=['v'], levels=4), thorough=dict(attrs=['v', 'z'], levels=4))
def mixed_levels(h):
    """Quantities at every partition level; totals per attribute conserved."""
    rows = [('X', 'p'), ('X', 'q'), ('Y', 'p')]
    parts = [{'a'}, {'b'}] if h.flag('b_partition') else [{'a'}]
    node = new_space(rows=rows, partitions=parts)
    ws = [h.real(f'w{i}', 0, 1000) for i in range(3)]
    set_weights(node, 'wt', rows, ws)
    places = [('', ''), ('X', ''), ('X', 'p'), ('', 'p')] if len(parts) == 2 else [('', ''), ('X', ''), ('X', 'p'), ('Y', 'p')]
    data, expect = [], {}
    for k, attr in enumerate(h.bound('attrs')):
        for m in h.subset(f'use_{attr}', range(h.bound('levels')), nonempty=True):
            place = places[m]
            q = h.real(f'q_{attr}_{m}', 0, 1000)
            data.append(place + (attr, q))
            ids = [i + 1 for i, r in enumerate(rows) if all(p in ('', l) for p, l in zip(place, r))]
            if place == ('', ''):
                ids.insert(0, 0)
            if len(ids) == 1:
                part = {ids[0]: q}
            else:
                part = split(h, q, ids, dict(enumerate(ws, 1)))
            for i, v in part.items():
                expect[attr, i] = expect.get((attr, i), 0) + v
    add_quantities(node, data)
    out = {}
    for a, b, attr, v in node():
        key = (attr, rows.index((a, b)) + 1 if a != '-' else 0)
        h.check(key not in out, 'one record per index record and attribute set')
        out[key] = v
    h.check(sorted(out) == sorted(expect), 'records exist exactly where values were distributed', [sorted(out)])
    for k in out:
        h.check_eq(out[k], expect[k], 'each record is the sum of its shares')
    h.observe('out', sorted(out.items()))


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def dash_labels(h):
    """Index labels that share the dash of the undefined record: it never takes a share of theirs."""
    n = h.bound('rows')
    rows = [(h.choice(f'a{i}', ['-', 'X']), b) for i, b in enumerate(['p', '-', 'q'][:n])]
    h.assume(('-', '-') not in rows)
    node = new_space(rows=rows, partitions=[{'a'}])
    ws = [h.real(f'w{i}', 0, 1000) for i in range(n)]
    set_weights(node, 'wt', rows, ws)
    place = h.choice('place', [('-', ''), ('X', ''), ('', ''), ('-', 'p'), ('-', '-')])
    q = h.real('q', -1000, 1000)
    with raises(Exception) as bad:
        add_quantities(node, [place + ('v', q)])
    ids = [i for i, r in enumerate([('-', '-')] + rows) if all(p in ('', l) for p, l in zip(place, r))]
    h.check(bool(bad) == (not ids), 'a quantity is refused exactly when its labels match no index record', [place, rows])
    if bad:
        return
    real = [i for i in ids if i]
    total = h.sum_([ws[i - 1] for i in real])
    zero = bool(real) and h.decided(total == 0)
    for row in node():
        i = ([('-', '-')] + rows).index((row[0], row[1]))
        h.check(i in ids, 'only matching index records receive values', [row[:2], place])
        ids.remove(i)
        want = q if not real else 0 if i == 0 else q / len(real) if zero else q * ws[i - 1] / total
        h.check_eq(row[3], want, 'each record receives its share, the undefined record only what nothing else matches')
    h.check(not [i for i in ids if i], 'every matching record receives its share', ids)


@scenario(quick=dict(groups=2), thorough=dict(groups=3))
def weight_group_choice(h):
    """The weight group is picked by greatest unique selector specificity among complete groups."""
    rows = [('X', 'p'), ('X', 'q')]
    node = new_space(rows=rows, partitions=[{'a'}], attrs=('attr', 'sub'))
    pool = {'none': None, 'attr=v': ['[attr="v"]'], 'sub=s': ['[sub="s"]'],
            'both': ['[attr="v"][sub="s"]'], 'either': ['[attr="z"]', '[sub="s"]']}
    spec = {'attr=v': lambda at: 1 if at.get('attr') == 'v' else 0,
            'sub=s': lambda at: 1 if at.get('sub') == 's' else 0,
            'both': lambda at: 2 if at.get('attr') == 'v' and at.get('sub') == 's' else 0,
            'either': lambda at: 1 if at.get('attr') == 'z' or at.get('sub') == 's' else 0,
            'none': lambda at: 0}
    groups = [('default', [1.0, 3.0], 'none', True)]
    set_weights(node, 'default', rows, [1.0, 3.0])
    for g in range(h.bound('groups')):
        name = f'g{g}'
        sel = h.choice(f'sel{g}', sorted(pool))
        complete = h.flag(f'complete{g}')
        w = [float(5 + g), 1.0]
        set_weights(node, name, rows, w if complete else [w[0], None], selectors=pool[sel])
        groups.append((name, w, sel, complete))
    q = h.real('q', 0, 100000)
    attrs = {k: v for k, v in (('attr', h.choice('attr', ['v', 'z', ''])), ('sub', h.choice('sub', ['s', '']))) if v}
    h.assume(bool(attrs))
    node.insert_quantities2(value_column='value', columns=['a', 'b', 'attr', 'sub', 'value'],
                            data=[('X', '', attrs.get('attr', ''), attrs.get('sub', ''), q)])
    levels = {}
    for name, w, sel, complete in groups:
        s = spec[sel](attrs) if complete else 0
        if s:
            levels.setdefault(s, []).append(w)
    w = groups[0][1]
    for s in sorted(levels, reverse=True):
        if len(levels[s]) == 1:
            w = levels[s][0]
            h.reach('selector')
            break
        h.reach('tie')
    else:
        h.reach('default')
    reader = node()
    vi = reader.columns.index('value')
    out = {r[1]: r[vi] for r in reader}
    h.check_eq(out['p'], q * w[0] / sum(w), 'the selected weight group decides the split')
    h.check_eq(out['q'], q * w[1] / sum(w), 'the selected weight group decides the split')


@scenario(quick={})
def incomplete_default_refused(h):
    """An incomplete or missing default weight group stops disaggregation instead of losing data."""
    rows = [('X', 'p'), ('X', 'q')]
    node = new_space(rows=rows, partitions=[{'a'}])
    has = [h.flag('has0'), h.flag('has1')]
    q = h.real('q', 1, 1000)
    if h.flag('group'):
        set_weights(node, 'wt', rows, [1.0 if has[0] else None, 1.0 if has[1] else None])
    else:
        h.assume(not any(has))
    add_quantities(node, [('X', '', 'v', q)])
    with raises(RuntimeError) as err:
        out = list(node())
    h.check(bool(err) == (not all(has)), 'disaggregation is refused exactly when the default weights are incomplete')
    if not err:
        h.check_eq(h.sum_([r[3] for r in out]), q, 'the total is conserved')


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def quantized_disaggregation(h):
    """With quantize=True parts are whole numbers and totals are still exact."""
    n = h.bound('rows')
    rows = [('X', s) for s in 'pqrs'[:n]]
    node = new_space(rows=rows, partitions=[{'a'}])
    ws = [h.real(f'w{i}', 0, 10) for i in range(n)]
    set_weights(node, 'wt', rows, ws)
    q = h.int('q', 0, 6 if n == 2 else 4)
    add_quantities(node, [('X', '', 'v', q)])
    expect = split(h, q * 1.0, list(range(1, n + 1)), dict(enumerate(ws, 1)))
    out = {r[1]: r[3] for r in node(quantize=True)}
    h.check_eq(h.sum_(out.values()), q, 'the total is conserved')
    for i, (_, b) in enumerate(rows, 1):
        h.check(h.is_integer(out[b]), 'whole totals give whole parts', [out[b]])
        h.check(h.all_([h.lt(out[b] - expect[i], 1), h.lt(expect[i] - out[b], 1)]),
                'each part is within one unit of its share')
    h.observe('out', sorted(out.items()))


@scenario(quick={})
def attribute_filter(h):
    """Selecting attributes and summing over attributes keeps exactly the selected totals."""
    rows = [('X', 'p'), ('X', 'q'), ('Y', 'p')]
    node = new_space(rows=rows, partitions=[{'a'}], attrs=('attr', 'sub'), domain=h.choice('domain', [None, 'dom']))
    set_weights(node, 'wt', rows, [h.real(f'w{i}', 0, 10) for i in range(3)])
    combos = [('v', 's'), ('v', 't'), ('z', 's')]
    qs = [h.real(f'q{i}', 0, 1000) for i in range(3)]
    places = [h.choice(f'at{i}', [('X', ''), ('Y', 'p')]) for i in range(3)]
    node.insert_quantities2(value_column='value', columns=['a', 'b', 'attr', 'sub', 'value'],
                            data=[p + c + (q,) for p, c, q in zip(places, combos, qs)])
    sel = h.choice('selector', [(), ('[attr="v"]',), ('[sub="s"]',), ('[attr="z"]', '[sub="t"]'), ('[attr="none"]',)])
    match = {'[attr="v"]': lambda c: c[0] == 'v', '[sub="s"]': lambda c: c[1] == 's', '[attr="z"]': lambda c: c[0] == 'z',
             '[sub="t"]': lambda c: c[1] == 't', '[attr="none"]': lambda c: False}
    chosen = [k for k, c in enumerate(combos) if not sel or any(match[s](c) for s in sel)]
    by = h.choice('sum_by', [None, 'attr', ['sub'], ['attr', 'sub']])
    reader = node(*sel, sum_by_attrs=by)
    cols = reader.columns
    keep = ['attr', 'sub'] if by is None else ([by] if isinstance(by, str) else by)
    expect = {}
    for k in chosen:
        key = tuple(v for name, v in zip(('attr', 'sub'), combos[k]) if name in keep)
        expect[key] = expect.get(key, 0) + qs[k]
    out, seen = {}, set()
    for r in reader:
        d = dict(zip(cols, r))
        key = tuple(d[name] for name in keep)
        full = (d['a'], d['b']) + key
        h.check(full not in seen, 'one record per index record and attribute set')
        seen.add(full)
        out[key] = out.get(key, 0) + d['value']
    h.check(sorted(out) == sorted(expect), 'exactly the selected attribute groups appear', [sorted(out), sorted(expect)])
    for key in out:
        h.check_eq(out[key], expect[key], 'totals of the selected attribute groups are conserved')
