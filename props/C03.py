"""Translation between spaces conserves totals and follows the link's proportions."""
from symx.harness import scenario
from .common import new_space, set_weights, add_quantities, link_spaces, level, raises, query

META = dict(
    title='Translation conserves totals and follows the proportions of the link',
    statement='Translating quantities to another space over a complete link gives every target record the source '
              'value times the proportion of its mapping, so totals are conserved, also over chains of spaces and '
              'through lazy readers. The link used is the most specific matching selector, else the default. A link'
              ' that does not describe the current source records is refused.',
    over=['inputs', 'configurations', 'histories'],
    text='for every mapping value, quantity value, mapping graph and selector set within the bounds, and every'
         ' change of the source after linking',
    why='tests translate small fixed mappings with fixed values',
    files=['src/toron/graph.py', 'src/toron/reader.py', 'src/toron/data_service.py'],
    mechanism=[('translation', 'graph.translate, data_service translate functions'), ('stale check', 'other_index_hash comparison')])

REACH = {
    'conserve_totals': ['zero values', 'positive values', 'split'],
    'stale_link_refused': ['stale', 'current'],
    'links_by_attributes': ['selector', 'default', 'tie'],
    'iterator_links': ['selector', 'default', 'refused'],
    'link_choice': ['selector', 'default', 'tie'],
}

ASSUMPTIONS = ['Mapping values are finite and non-negative; quantities are finite.']


def proportions(h, entries):
    """entries: {(other, index): value} -> {(other, index): documented proportion}."""
    out = {}
    for o in sorted({k[0] for k in entries}):
        part = {k: v for k, v in entries.items() if k[0] == o}
        total = h.sum_(part.values())
        if h.decided(total == 0):
            h.reach('zero values')
            for k in part:
                out[k] = 1 / len(part)
        else:
            h.reach('positive values')
            for k, v in part.items():
                out[k] = v / total
        if len(part) > 1:
            h.reach('split')
    return out


def make_pair(h, n_src, n_trg, **kw):
    srows = [('S', c) for c in 'pqrs'[:n_src]]
    trows = [('T', c) for c in 'uvwx'[:n_trg]]
    src = new_space(rows=srows, partitions=[{'a'}], **kw)
    set_weights(src, 'wt', srows, [1.0] * n_src)
    trg = new_space(labels=('c', 'd'), rows=trows, partitions=[{'c'}])
    return src, trg, srows, trows


@scenario(quick=dict(src=2, trg=2), thorough=dict(src=2, trg=3))
def conserve_totals(h):
    """Complete mapping with symbolic entries and values; quantities at the base level."""
    ns, nt = h.bound('src'), h.bound('trg')
    src, trg, srows, trows = make_pair(h, ns, nt)
    entries, data = {}, []
    undef = h.flag('to_undefined')
    for o in range(1, ns + 1):
        # targets of each source record (0 = undefined record of the target)
        targets = h.subset(f'm{o}', list(range(1, nt + 1)), nonempty=True)
        if undef and o == 1:
            targets = [0] + targets
        for t in targets:
            v = h.real(f'v{o}_{t}', 0, 1000)
            entries[o, t] = v
            data.append((o, t, level(1, 1), v))
    if h.flag('from_undefined'):
        data.append((0, 1, level(1, 1), 3.0))
    link_spaces(src, trg, 'L', data)
    qs = [h.real(f'q{i}', -1000, 1000) for i in range(ns)]
    add_quantities(src, [r + ('v', q) for r, q in zip(srows, qs)])
    prop = proportions(h, entries)
    reader = src() >> trg
    h.check(reader.index_columns == ['c', 'd'], 'the result uses the target labels')
    out = {}
    for c, d, attr, v in reader:
        i = 0 if (c, d) == ('-', '-') else trows.index((c, d)) + 1
        h.check(attr == 'v' and i not in out, 'one record per index record and attribute set')
        out[i] = v
    h.check_eq(h.sum_(out.values()), h.sum_(qs), 'the total is conserved')
    for t in range(0, nt + 1):
        exp = h.sum_([qs[o - 1] * prop[o, i] for o, i in prop if i == t])
        h.check_eq(out.get(t, 0.0), exp, 'each target record receives the mapped share')
    h.observe('out', sorted(out.items()))


@scenario(quick={})
def chained_translation(h):
    """Two translations in a row (with and without an on-drive cache) still conserve totals."""
    src, mid, srows, mrows = make_pair(h, 2, 2)
    trg = new_space(labels=('e',), rows=[('E1',), ('E2',)])
    v = [h.real(f'v{i}', 0, 100) for i in range(3)]
    u = [h.real(f'u{i}', 0, 100) for i in range(3)]
    link_spaces(src, mid, 'L', [(1, 1, level(1, 1), v[0]), (1, 2, level(1, 1), v[1]), (2, 2, level(1, 1), v[2])])
    link_spaces(mid, trg, 'M', [(1, 1, level(1), u[0]), (2, 1, level(1), u[1]), (2, 2, level(1), u[2])])
    qs = [h.real(f'q{i}', 0, 1000) for i in range(2)]
    add_quantities(src, [r + ('v', q) for r, q in zip(srows, qs)])
    reader = src(cache_to_drive=h.flag('cache')) >> mid >> trg
    out = {r[0]: r[2] for r in reader}
    reader.close()
    h.check_eq(h.sum_(out.values()), h.sum_(qs), 'the total is conserved')
    a, b = proportions(h, {(1, 1): v[0], (1, 2): v[1], (2, 2): v[2]}), proportions(h, {(1, 1): u[0], (2, 1): u[1], (2, 2): u[2]})
    m1 = qs[0] * a[1, 1]
    m2 = qs[0] * a[1, 2] + qs[1]
    h.check_eq(out.get('E1', 0.0), m1 + m2 * b[2, 1], 'each target record receives the mapped share')


@scenario(quick=dict(ops=8))
def stale_link_refused(h):
    """A link is used only while it matches the source index; otherwise translation is refused."""
    src, trg, srows, trows = make_pair(h, 2, 2)
    link_spaces(src, trg, 'L', [(1, 1, level(1, 1), 1.0), (2, 2, level(1, 1), 1.0)])
    q = h.real('q', 1, 1000)
    op = h.choice('op', ['nothing', 'insert', 'delete', 'delete_insert', 'merge', 'relabel', 'source_unmapped',
                         'trg_insert', 'trg_delete', 'trg_merge', 'no_link'])
    stale = True
    if op == 'nothing':
        stale = False
    elif op == 'insert':
        src.insert_index([('S', 'z')], ['a', 'b'])
        src.insert_weights('wt', [('S', 'z', 1.0)], ['a', 'b', 'wt'])
    elif op == 'delete':
        src.delete_index(b='q')
    elif op == 'delete_insert':
        src.delete_index(b='q')
        src.insert_index([('S', 'q')], ['a', 'b'])
        src.insert_weights('wt', [('S', 'q', 1.0)], ['a', 'b', 'wt'])
    elif op == 'merge':
        src.update_index([(1, 'S', 'q')], ['index_id', 'a', 'b'], merge_on_conflict=True)
    elif op == 'relabel':
        src.update_index([(1, 'S', 'pp')], ['index_id', 'a', 'b'])
        stale = False
    elif op == 'source_unmapped':
        trg.delete_mappings(src, 'L', [(1, 1.0, 1, 'T', 'u')], ['other_index_id', 'L', 'index_id', 'c', 'd'])
    elif op == 'trg_insert':
        trg.insert_index([('T', 'z')], ['c', 'd'])
        stale = False
    elif op == 'trg_delete':
        trg.delete_index(d='v')
    elif op == 'trg_merge':
        trg.update_index([(1, 'T', 'v')], ['index_id', 'c', 'd'], merge_on_conflict=True)
        stale = False
    elif op == 'no_link':
        trg.drop_link(src, 'L')
    add_quantities(src, [('S', '', 'v', q)])
    reader = src()
    with raises(RuntimeError) as err:
        reader.translate(trg)
    if stale:
        h.reach('stale')
        h.check(bool(err), 'a link that no longer covers the source index is refused')
        return
    h.reach('current')
    h.check(not err, 'a link that covers the source index is accepted')
    h.check_eq(h.sum_([r[3] for r in reader]), q, 'the total is conserved')


@scenario(quick=dict(links=2), thorough=dict(links=3))
def link_choice(h):
    """The link is chosen by greatest unique selector specificity among usable links."""
    src, trg, srows, trows = make_pair(h, 1, 2)
    pool = {'none': None, 'attr=v': ['[attr="v"]'], 'attr=*': ['[attr]'], 'miss': ['[attr="z"]']}
    n = h.bound('links')
    last = h.flag('default last')
    add_default = lambda: link_spaces(src, trg, 'default', [(1, 1, level(1, 1), 1.0), (1, 2, level(1, 1), 3.0)], is_default=True)
    add_default() if not last else None
    cands = []
    for k in range(n):
        sel = h.choice(f'sel{k}', sorted(pool))
        complete = h.flag(f'complete{k}')
        w = [float(4 + k), 1.0] if complete else [1.0, None]
        data = [(1, i + 1, level(1, 1), x) for i, x in enumerate(w) if x is not None]
        link_spaces(src, trg, f'L{k}', data, selectors=pool[sel])
        cands.append((sel, complete, w))
    add_default() if last else None
    q = h.real('q', 0, 1000)
    add_quantities(src, [srows[0] + ('v', q)])
    score = {'attr=v': (1, 1), 'attr=*': (1, 0)}
    levels = {}
    for sel, complete, w in cands:
        if complete and sel in score:
            levels.setdefault(score[sel], []).append(w)
    w = [1.0, 3.0]
    for s in sorted(levels, reverse=True):
        if len(levels[s]) == 1:
            w = levels[s][0]
            h.reach('selector')
            break
        h.reach('tie')
    else:
        h.reach('default')
    out = {r[1]: r[3] for r in src() >> trg}
    h.check_eq(out['u'], q * w[0] / sum(w), 'the selected link decides the proportions')
    h.check_eq(out['v'], q * w[1] / sum(w), 'the selected link decides the proportions')


@scenario(quick=dict(hi=5), thorough=dict(hi=9))
def quantized_translation(h):
    """Quantized translation keeps exact totals and whole parts."""
    src, trg, srows, trows = make_pair(h, 2, 2)
    v = [h.real(f'v{i}', 0, 10) for i in range(3)]
    link_spaces(src, trg, 'L', [(1, 1, level(1, 1), v[0]), (1, 2, level(1, 1), v[1]), (2, 2, level(1, 1), v[2])])
    qs = [h.int('q0', 0, h.bound('hi')), h.int('q1', 0, h.bound('hi'))]
    add_quantities(src, [r + ('v', q) for r, q in zip(srows, qs)])
    mode = h.flag('quantize_reader')
    reader = src(quantize=mode)
    reader.translate(trg, quantize=None if mode else True)
    out = {r[1]: r[3] for r in reader}
    h.check_eq(h.sum_(out.values()), qs[0] + qs[1], 'the total is conserved')
    for d in out:
        h.check(h.is_integer(out[d]), 'whole totals give whole parts')


@scenario(quick={})
def undefined_stays_undefined(h):
    """A quantity held by the undefined record stays there through a translation."""
    src, trg, srows, trows = make_pair(h, 1, 1)
    mid_q = h.real('q', 1, 1000)
    vs = [h.real('v0', 0, 10), h.real('v1', 0, 10)]
    # part of the source goes to the target's undefined record
    link_spaces(src, trg, 'L', [(1, 0, level(1, 1), vs[0]), (1, 1, level(1, 1), vs[1])])
    third = new_space(labels=('e',), rows=[('E1',)])
    data = [(1, 1, level(1), 1.0)]
    if h.flag('from_undefined'):
        data.append((0, 1, level(1), 7.0))
    link_spaces(trg, third, 'M', data)
    add_quantities(src, [srows[0] + ('v', mid_q)])
    r1 = {r[0]: r[3] for r in src() >> trg}
    r2 = {r[0]: r[2] for r in src() >> trg >> third}
    h.check_eq(r1.get('-', 0.0), r2.get('-', 0.0), 'undefined quantities stay undefined')
    h.check_eq(r1.get('T', 0.0), r2.get('E1', 0.0), 'defined quantities follow the mapping')
    h.check_eq(h.sum_(r2.values()), mid_q, 'the total is conserved')


@scenario(quick={})
def iterator_translation(h):
    """graph.translate over a weight iterator conserves totals and refuses incomplete default links."""
    from toron.graph import translate
    src, trg, srows, trows = make_pair(h, 2, 2)
    ws = [h.real(f'w{i}', 0, 100) for i in range(2)]
    set_weights(src, 'ww', srows, ws)
    vs = [h.real(f'v{i}', 0, 100) for i in range(3)]
    full = h.flag('complete')
    data = [(1, 1, level(1, 1), vs[0]), (2, 1, level(1, 1), vs[1])]
    if full:
        data.append((2, 2, level(1, 1), vs[2]))
    link_spaces(src, trg, 'L', data)
    it = translate(src.select_weights('ww'), trg)
    with raises(RuntimeError) as err:
        rows = list(it)
    h.check(bool(err) == (not full), 'an incomplete default link is refused')
    if err:
        return
    h.check_eq(h.sum_([r[-1] for r in rows]), h.sum_(ws), 'the total is conserved')
    p = proportions(h, {(2, 1): vs[1], (2, 2): vs[2]})
    h.check_eq(h.sum_([r[-1] for r in rows if 'u' in r]), ws[0] + ws[1] * p[2, 1], 'each target record receives the mapped share')


@scenario(quick={})
def iterator_links(h):
    """graph.translate: the default link at any place, and links chosen by attributes."""
    from toron.data_models import QuantityIterator, Index
    from toron.graph import translate
    src = new_space(('a',), [('S',), ('T',)], attrs=())
    trg = new_space(('t',), [('X',), ('Y',)], attrs=())
    names = h.permutation('order', ['D', 'L', 'M'])
    vs, full = {}, {}
    for n in names:
        full[n] = h.flag(f'{n} complete')
        vs[n] = [h.real(f'{n}{k}', 1, 9) for k in range(3)]
        rows = [(1, 1, vs[n][0]), (1, 2, vs[n][1])] + [(2, 2, vs[n][2])] * full[n]
        link_spaces(src, trg, n, [(o, i, level(1), v) for o, i, v in rows], selectors={'D': None, 'L': ['[k="z"]'], 'M': ['[k]']}[n], is_default=n == 'D')
    qs = {k: h.real(f'q{k}', 1, 99) for k in (0, 1, 2)}
    attrs = [{'k': 'z'}, {'k': 'y'}, {}]
    data = [(Index(1, 'S'), attrs[k], q) for k, q in qs.items()] + [(Index(2, 'T'), {}, None), (Index(0, '-'), {}, 0.0)]
    it = QuantityIterator(unique_id=src.unique_id, index_hash=query(src, "SELECT value FROM main.property WHERE key='index_hash'")[0][0].strip('"') if h.flag('current') else 'x', domain={},
                          data=data, label_names=['a'], attribute_keys=['k'])
    current = it.index_hash != 'x'
    got = translate(it, trg)
    with raises(RuntimeError) as err:
        rows = list(got.data)
    h.check(bool(err) == (not full['D'] or not current), 'exactly a default link that is incomplete, or of another index, is refused', repr(err))
    if err:
        h.reach('refused')
        return
    used = ['L' if full['L'] else 'M' if full['M'] else 'D', 'M' if full['M'] else 'D', 'D']
    for k, n in enumerate(used):
        h.reach('default' if n == 'D' else 'selector')
        for t in (0, 1):
            part = [q for i, a, q in rows if a == attrs[k] and i.labels == ('XY'[t],)]
            h.check(len(part) == 1 and not h.check_eq(part[0] * (vs[n][0] + vs[n][1]), qs[k] * vs[n][t], 'the share of the link that its attributes select'), 'one record for each mapping')
    h.check(len(rows) == 6 + sum(i.id == 0 for i, _, _ in rows), 'nothing else is returned', len(rows))


@scenario(quick=dict(rows=2, links=2), thorough=dict(rows=3, links=2))
def links_by_attributes(h):
    """Quantities with different attributes, each over the link its own attributes select."""
    src = new_space(('a',), [('S',)], attrs=('k', 'm'))
    src.add_weight_group('w', make_default=True)
    src.insert_weights('w', [('S', 1.0)], ['a', 'w'])
    trg = new_space(('t',), [('X',), ('Y',), ('Z',)], attrs=())
    pool = ['[k]', '[m]', '[k="z"]', '[m="z"]', '[k][m]', '[k="y"]']
    sels = [h.choice(f'sel{n}', pool) for n in range(h.bound('links'))]
    vs = {}
    for n in range(len(sels) + 1):     # the first link is the default; proportions differ for each link
        vs[n] = [h.real(f'v{n}{t}', 1, 9) for t in range(3)]
        link_spaces(src, trg, f'L{n}', [(1, t + 1, level(1), v) for t, v in enumerate(vs[n])], selectors=[sels[n - 1]] if n else None)
    attrs = [{'k': 'z'}, {'m': 'z'}, {'k': 'z', 'm': 'z'}, {'k': 'y'}, {'k': 'z', 'm': 'y'}]
    data = []
    for n in range(h.bound('rows')):
        at = h.choice(f'attributes{n}', attrs)
        h.assume(at not in [d[0] for d in data])
        data.append((at, h.real(f'q{n}', 1, 99)))
    src.insert_quantities2(value_column='v', data=[('S', at.get('k', ''), at.get('m', ''), q) for at, q in data], columns=['a', 'k', 'm', 'v'])
    test = {'[k]': ((1, 0), lambda a: 'k' in a), '[m]': ((1, 0), lambda a: 'm' in a), '[k="z"]': ((1, 1), lambda a: a.get('k') == 'z'),
            '[m="z"]': ((1, 1), lambda a: a.get('m') == 'z'), '[k][m]': ((2, 0), lambda a: len(a) == 2), '[k="y"]': ((1, 1), lambda a: a.get('k') == 'y')}
    reader = src(cache_to_drive=h.flag('cache'))
    reader.translate(trg)
    got = {}
    for r in reader:
        row = dict(zip(reader.columns, r))
        key = (row['t'], row.get('k') or None, row.get('m') or None)
        h.check(key not in got, 'one record per index record and attributes')
        got[key] = r[-1]
    for at, q in data:
        fits = [(test[s][0], n) for n, s in enumerate(sels, 1) if test[s][1](at)]
        best = next((n for sc, n in sorted(fits, reverse=True) if sum(x[0] == sc for x in fits) == 1), 0)
        h.reach('selector' if best else 'tie' if fits else 'default')
        for t, name in enumerate('XYZ'):
            h.check_eq(got[name, at.get('k'), at.get('m')] * h.sum_(vs[best]), q * vs[best][t], 'the link selected by the attributes decides the proportions')
    h.check(len(got) == 3 * len(data), 'nothing else is returned', sorted(map(repr, got)))
    reader.close()
