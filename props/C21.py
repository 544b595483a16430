"""Mapping operations change exactly the addressed mappings."""
from symx.harness import scenario
from .common import new_space, raises, snapshot, mappings_of, level, query, hash_ids

META = dict(
    title='Mapping operations change exactly the addressed mappings',
    statement='Inserting mappings stores every row that names an existing record by identifier and labels at a level of the '
              'structure, skips the others, and refuses duplicates and invalid values as a whole. Updating changes or adds, '
              'deleting removes and reifying makes exact precisely the addressed mappings; other links never change, and '
              'values, proportions, source hash and completeness stay consistent. Selecting lists every selected record '
              'with its mappings, or as disjoint, and names all label columns a mapping leaves open.',
    over=['inputs', 'configurations'],
    text='for every combination of rows, levels, values and criteria within the bound',
    why='tests use one row per outcome; exactness is about combinations of matching, mismatching, ambiguous and repeated rows',
    files=['src/toron/space.py', 'src/toron/dal1/repositories.py', 'src/toron/data_models.py'],
    mechanism=[('write', 'insert_mappings, insert_mappings2, update_mappings, delete_mappings, reify_mappings'),
               ('read', 'select_mappings, BitFlags')])

REACH = {'insert2': ['bad level', 'duplicate', 'inserted', 'undefined'], 'insert': ['skipped', 'inserted', 'bad level', 'duplicate', 'refused value'],
         'update': ['changed', 'added', 'skipped'], 'delete': ['deleted', 'value mismatch', 'ambiguous', 'level mismatch'],
         'reify': ['reified', 'kept', 'clash'], 'select': ['disjoint', 'ambiguous'], 'wide': ['beyond a byte']}
ROWS = [('A', 'x'), ('A', 'y'), ('B', 'x')]
F, A, B = b'\xc0', b'\x80', b'\x40'   # both columns, the first, the second
PRE = [[(1, 1, F)], [(1, 1, A), (1, 2, A)], [(1, 1, F), (2, 1, F), (2, 3, F)], []]


def make(h, pre):
    node = new_space(rows=ROWS, partitions=[{'a'}], attrs=())
    src = new_space(('s',), [('S',), ('T',), ('U',)], attrs=())
    node.add_link(src, 'L')
    node.add_link(src, 'M')
    want = {k: h.real(f'pre{n}', 0.5, 100) for n, k in enumerate(pre)}
    if want:
        node.insert_mappings2(src, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L')] + [k + (v,) for k, v in want.items()])
    other = {(1, 1, F): 3.0, (3, 2, F): 4.0}
    node.insert_mappings2(src, 'M', [('other_index_id', 'index_id', 'mapping_level', 'M')] + [k + (v,) for k, v in other.items()])
    return node, src, want, other


def same(h, node, src, want, other, what, fresh=True):
    for name, exp in (('L', want), ('M', other)):
        got = {(o, i, bytes(lv)): (v, p) for o, i, lv, v, p in mappings_of(node, name)}
        h.check(len(got) == len(mappings_of(node, name)), f'{what}: mappings are unique', name)
        h.check(set(got) == set(exp), f'{what}: exactly the expected mappings exist', [name, sorted(map(repr, got)), sorted(map(repr, exp))])
        for k, v in exp.items():
            h.check_eq(got[k][0], v, f'{what}: mapping values are as expected', [name, repr(k)])
            total = h.sum_([x for j, x in exp.items() if j[0] == k[0]])
            h.check_eq(got[k][1] * total, v if k[0] else 0, f'{what}: proportions follow the values', [name, repr(k)])
        link = node.get_link(src, name)
        if exp or fresh:
            h.check(link.other_index_hash == hash_ids({0} | {k[0] for k in exp}), f'{what}: the source hash covers the mapped sources', name)
            h.check(bool(link.is_locally_complete) == ({k[1] for k in exp} >= {1, 2, 3}), f'{what}: completeness is current', name)


@scenario(quick=dict(rows=2, pre=3), thorough=dict(rows=3, pre=4))
def insert2(h):
    """insert_mappings2: rows of identifiers, level and value."""
    node, src, want, other = make(h, h.choice('pre', PRE[:h.bound('pre')]))
    want, refuse, data = dict(want), False, []
    for k in range(h.bound('rows')):
        o, i = h.choice(f'pair{k}', [(1, 1), (1, 3), (2, 2), (0, 0), (0, 2), (3, 0)])
        lv = h.choice(f'level{k}', [F, A, B])
        v = h.real(f'v{k}', 0.5, 100)
        data.append((o, i, lv, v))
        if lv == B:
            h.reach('bad level')
        elif (o, i) == (0, 0):
            h.reach('undefined')
        elif (o, i, lv) in want:
            h.reach('duplicate')
            refuse = True
        else:
            want[o, i, lv] = v
    before = snapshot(node)
    with raises(Exception) as err:
        node.insert_mappings2(src, 'L', data, ['other_index_id', 'index_id', 'mapping_level', 'L'])
    h.check(bool(err) == refuse, 'only a mapping that exists refuses the rows', repr(err))
    if err:
        h.check_same(snapshot(node), before, 'refused rows change nothing')
        return
    if all(r[2] == B or r[:2] == (0, 0) for r in data):
        h.check_same(snapshot(node), before, 'skipped rows change nothing')
        return
    h.reach('inserted')
    same(h, node, src, want, other, 'insert')
    h.observe('m', sorted((repr(k), v) for k, v in want.items()))


LABELLED = [(1, 'A', 'x'), (2, 'A', 'y'), (3, 'A', 'x'), (9, 'A', 'x'), (0, '-', '-')]


@scenario(quick=dict(rows=2, pre=2, orders=1, more=3, vals=['real', '2.5', None, 'neg', 'x']), thorough=dict(pre=4, orders=2, more=5))
def insert(h):
    """insert_mappings: rows that carry labels for validation, columns after the first three in any order."""
    node, src, want, other = make(h, h.choice('pre', PRE[:h.bound('pre')]))
    want, refuse, data = dict(want), False, []
    order = h.choice('order', [('note', 'mapping_level', 'b', 'a'), ('a', 'b', 'mapping_level', 'note')][:h.bound('orders')])
    for k in range(h.bound('rows')):
        o = h.choice(f'other{k}', [1, 2] if k else [1, 2, 0])
        i, a, b = h.choice(f'addr{k}', LABELLED[:h.bound('more')] if k else LABELLED)
        lv = h.choice(f'level{k}', [F, A, B] if k == 0 else [F, A])
        v = h.choice(f'val{k}', h.bound('vals')) if k == 0 else 'real'
        num = h.real(f'v{k}', 0.5, 100) if v == 'real' else {'2.5': 2.5}.get(v)
        v = num if v == 'real' else -1.0 if v == 'neg' else v
        row = dict(a=a, b=b, mapping_level=lv, note='n')
        data.append((o, v, i) + tuple(row[c] for c in order))
        if refuse:
            continue
        if i == 9 or (i and ROWS[i - 1] != (a, b)):
            h.reach('skipped')
        elif lv == B:
            h.reach('bad level')
        elif (o, i) == (0, 0):
            refuse = True
        elif (o, i, lv) in want:
            h.reach('duplicate')
            refuse = True
        elif num is None:
            h.reach('refused value')
            refuse = True
        else:
            want[o, i, lv] = num
    before = snapshot(node)
    with raises(Exception) as err:
        node.insert_mappings(src, 'L', data, ['other_index_id', 'L', 'index_id', *order])
    h.check(bool(err) == refuse, 'only duplicates, invalid values and undefined-to-undefined refuse the rows', repr(err))
    if err:
        h.check_same(snapshot(node), before, 'refused rows change nothing')
        return
    h.reach('inserted')
    same(h, node, src, want, other, 'insert', fresh=False)


@scenario(quick=dict(rows=2, pre=3), thorough=dict(rows=3, pre=4))
def update(h):
    """update_mappings: change the mapping of a pair or add it."""
    node, src, want, other = make(h, h.choice('pre', PRE[:h.bound('pre')]))
    want, data = dict(want), []
    for k in range(h.bound('rows')):
        o = h.choice(f'other{k}', [1, 2])
        i, a, b = h.choice(f'addr{k}', LABELLED[:4])
        lv = h.choice(f'level{k}', [F, A, B] if k == 0 else [F, A])
        v = h.real(f'v{k}', 0.5, 100)
        data.append((o, v, i, a, b, lv))
        if i == 9 or ROWS[i - 1] != (a, b) or lv == B:
            h.reach('skipped')
            continue
        old = [m for m in want if m[:2] == (o, i)]
        h.reach('changed' if old else 'added')
        for m in old:
            del want[m]
        want[o, i, lv] = v
    node.update_mappings(src, 'L', data, ['other_index_id', 'L', 'index_id', 'a', 'b', 'mapping_level'])
    same(h, node, src, want, other, 'update', fresh=False)


@scenario(quick=dict(pre=3), thorough=dict(pre=4))
def delete(h):
    """delete_mappings by rows or by criteria."""
    pool = [[(1, 1, F), (1, 2, F), (2, 3, F)], [(1, 1, A), (1, 2, A), (2, 2, F)], [(2, 1, F), (2, 3, A), (1, 3, F)],
            [(1, 1, F), (1, 1, A), (1, 2, A), (0, 3, F)]][:h.bound('pre')]
    node, src, want, other = make(h, h.choice('pre', pool))
    want = dict(want)
    if h.flag('by_row'):
        data = []
        for k in range(2):
            o, i = h.choice(f'pair{k}', [(1, 1), (1, 2), (2, 3), (2, 1), (1, 9)])
            a, b = h.choice(f'lab{k}', [None, ('B', 'y')]) or (ROWS[i - 1] if i != 9 else ('A', 'x'))
            v = h.real(f'v{k}', 0.5, 100)
            data.append((o, v, i, a, b))
            found = [m for m in want if m[:2] == (o, i)]
            if len(found) == 2:
                h.assume(False)         # one mapping per pair is assumed by the row form
            if i == 9 or (a, b) != ROWS[i - 1] or not found:
                continue
            if not h.decided(want[found[0]] == v):
                h.reach('value mismatch')
            elif found[0][2] != F:
                h.reach('ambiguous')
            else:
                del want[found[0]]
                h.reach('deleted')
        node.delete_mappings(src, 'L', data, ['other_index_id', 'L', 'index_id', 'a', 'b'])
    else:
        crit = h.choice('crit', [{'a': 'A'}, {'b': 'x'}, {'a': 'A', 'b': 'x'}, {'a': 'B', 'b': 'x'}, {'a': 'Q'}, {}, None])
        if not crit:
            before = snapshot(node)
            with raises(TypeError) as err:
                if crit is None:
                    node.delete_mappings(src, 'L', [(1, 1.0, 1, 'A', 'x')], ['other_index_id', 'L', 'index_id', 'a', 'b'], a='A')
                else:
                    node.delete_mappings(src, 'L')
            h.check(bool(err), 'deleting without rows or criteria, or with both, is refused')
            h.check_same(snapshot(node), before, 'a refused deletion changes nothing')
            return
        used = {F: {'a', 'b'}, A: {'a'}}
        for m in list(want):
            if all(dict(zip('ab', ROWS[m[1] - 1]))[c] == x for c, x in crit.items()):
                if used[m[2]] <= set(crit):
                    del want[m]
                    h.reach('deleted')
                else:
                    h.reach('level mismatch')
        node.delete_mappings(src, 'L', **crit)
    same(h, node, src, want, other, 'delete')


@scenario(quick=dict(pre=4), thorough=dict(pre=6))
def reify(h):
    """reify_mappings: all ambiguous mappings, or those the criteria cover."""
    pool = [[(1, 1, A), (1, 2, A), (2, 3, F)], [(1, 1, F), (1, 1, A), (2, 2, A)], [(0, 1, A), (2, 2, F)], [(1, 1, F), (2, 3, F)],
            [(1, 1, A), (2, 1, F), (2, 3, A)], [(1, 0, F), (1, 1, A)]][:h.bound('pre')]
    node, src, want, other = make(h, h.choice('pre', pool))
    crit = h.choice('crit', [{}, {'a': 'A'}, {'b': 'x'}, {'a': 'A', 'b': 'x'}, {'a': 'Q'}])
    exp, refuse = {}, False
    for m, v in want.items():
        labels = dict(zip('ab', ROWS[m[1] - 1] if m[1] else '--'))
        if m[2] == A and all(labels[c] == x for c, x in crit.items()) and (not crit or 'a' in crit):
            h.reach('reified')
            if (m[0], m[1], F) in want:
                h.reach('clash')
                refuse = True
            m = (m[0], m[1], F)
        elif m[2] == A:
            h.reach('kept')
        exp[m] = v
    before = snapshot(node)
    with raises(Exception) as err:
        node.reify_mappings(src, 'L', **crit)
    h.check(bool(err) == refuse, 'reifying is refused only when the exact mapping exists', repr(err))
    if err:
        h.check_same(snapshot(node), before, 'a refused operation changes nothing')
        return
    same(h, node, src, exp, other, 'reify')


@scenario(quick=dict(pre=4), thorough=dict(pre=5))
def select(h):
    """select_mappings by criteria, with and without header."""
    pool = [[(1, 1, A), (1, 2, A), (2, 3, F)], [(1, 1, F), (2, 1, F)], [], [(1, 1, F), (1, 1, A), (0, 2, F), (3, 0, F)],
            [(3, 3, A), (1, 3, F), (2, 2, F)]][:h.bound('pre')]
    node, src, want, other = make(h, h.choice('pre', pool))
    crit = h.choice('crit', [{}, {'a': 'A'}, {'b': 'x'}, {'a': 'Q'}, {'b': '-'}])
    header = h.flag('header')
    name = h.choice('name', ['L', None, 'M'])
    vals = other if name == 'M' else want
    before = snapshot(node)
    got = list(node.select_mappings(src, name, header, **crit))
    if header:
        h.check(tuple(got[0]) == ('other_index_id', name or 'L', 'index_id', 'a', 'b', 'ambiguous_fields'), 'the header names the columns', got[0])
        got = got[1:]
    exp = []
    for i, r in enumerate(ROWS, 1):
        if all(dict(zip('ab', r))[c] == x for c, x in crit.items()):
            ms = [m for m in vals if m[1] == i]
            exp += [(m[0], vals[m], i) + r + ('b' if m[2] == A else None,) for m in ms] or [(None, None, i) + r + (None,)]
            h.reach('ambiguous' if any(m[2] == A for m in ms) else 'x')
            h.reach('x' if ms else 'disjoint')
    key = lambda r: (r[2], r[0] or 0, r[-1] or '')
    h.check_same(sorted(map(list, got), key=key), sorted(map(list, exp), key=key), 'each selected record is listed with its mappings, or as disjoint')
    h.check([r[2] for r in got] == sorted(r[2] for r in got), 'mappings of a record are listed together')
    h.check_same(snapshot(node), before, 'selecting changes nothing')
    h.observe('rows', sorted(map(list, got), key=key))


@scenario(quick=dict(n=[2, 9, 10]), thorough=dict(n=[1, 2, 7, 8, 9, 10, 16, 17]))
def wide(h):
    """Open label columns are named completely, in every place that lists them, for any number of columns."""
    from toron._utils import BitFlags
    from toron.graph import _get_ambiguous_fields
    from toron.cli.command_mapping import get_ambiguous_field_text
    n = h.choice('n', h.bound('n'))
    names = [f'c{j}' for j in range(n)]
    last = h.choice('last', range(n))
    bits = [int(h.flag(f'bit{j}')) if j in (0, 1) and j < last else int(j == last) for j in range(n)]
    if last > 7:
        h.reach('beyond a byte')
    elif n > 8:
        h.reach('beyond a byte')
    exp = ', '.join(c for c, b in zip(names, bits) if not b) or None
    lv = bytes(BitFlags(bits))
    h.check(_get_ambiguous_fields(lv, names) == exp, 'get_mapping() names all open columns', [bits])
    h.check(get_ambiguous_field_text(lv, names) == exp, 'the command line names all open columns', [bits])
    node = new_space(names, [['A'] * n], [{c for c, b in zip(names, bits) if b}], attrs=())
    src = new_space(('s',), [('S',)], attrs=())
    node.add_link(src, 'L')
    node.insert_mappings2(src, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L'), (1, 1, lv, 1.0)])
    h.check([r[-1] for r in node.select_mappings(src, 'L')] == [exp], 'select_mappings() names all open columns', [bits])
