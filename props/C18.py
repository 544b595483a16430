"""Weight operations change exactly the addressed weights."""
import math

from symx.harness import scenario
from .common import new_space, set_weights, weights_of, raises, snapshot, query

META = dict(
    title='Weight operations change exactly the addressed weights',
    statement='Inserting weights stores each real number under the one index record its labels (and identifier, if given) '
              'name; other rows are skipped, and a weight that already exists is refused, ignored, replaced or summed as '
              'requested. Updating and deleting change exactly the addressed weights, other groups never change, and '
              'negative weights or errors refuse the whole operation. Selecting weights returns every selected index record '
              'with its weight; group names stay unique and dropping a group removes all of it.',
    over=['inputs', 'configurations'],
    text='for every combination of rows, identifiers, values and conflict modes within the bound',
    why='tests use single rows per mode; exactness is about every combination of matching, mismatching and repeated rows',
    files=['src/toron/space.py', 'src/toron/data_models.py', 'src/toron/dal1/repositories.py'],
    mechanism=[('weights', 'insert_weights, update_weights, delete_weights, select_weights, WeightRepository.add_or_resolve'),
               ('groups', 'add_weight_group, edit_weight_group, drop_weight_group, default weight group')])

REACH = {'insert': ['abort', 'ignore', 'replace', 'sum', 'skipped', 'new', 'negative'],
         'update': ['changed', 'added', 'skipped'], 'delete': ['deleted', 'nothing'], 'groups': ['default dropped', 'exists']}
ROWS = [('A', 'x'), ('A', 'y'), ('B', 'x')]
ADDR = [(1, 'A', 'x'), (2, 'A', 'y'), (1, 'A', 'y'), (9, 'A', 'x'), (0, '-', '-')]
LABELS = [(1, 'A', 'x'), (2, 'A', 'y'), (None, 'Q', 'x'), (0, '-', '-')]


def make(h):
    node = new_space(rows=ROWS, attrs=())
    pre = {1: h.real('pre1', 0, 100), 3: h.real('pre3', 0, 100)}
    other = {2: h.real('o2', 0, 100)}
    set_weights(node, 'wt', ROWS, [pre[1], None, pre[3]])
    set_weights(node, 'ot', ROWS, [None, other[2], None])
    return node, pre, other


def same(h, node, want, other, what):
    got = weights_of(node, 'wt')
    h.check(set(got) == set(want), f'{what}: weights exist for exactly the expected records', [sorted(got), sorted(want)])
    for i in want:
        h.check_eq(got[i], want[i], f'{what}: each weight has the expected value', [i])
    h.check_same(weights_of(node, 'ot'), other, 'other weight groups never change')


def number(v):
    if isinstance(v, str):
        try:
            v = float(v)
        except ValueError:
            return None
    if v is None or isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
        return None
    return v


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def insert(h):
    """Rows addressed by labels or by identifier and labels, any value, every conflict mode."""
    node, want, other = make(h)
    mode = h.choice('mode', ['abort', 'ignore', 'replace', 'sum'])
    with_ids = h.flag('ids')
    data, refuse = [], False
    want = dict(want)
    for k in range(h.bound('rows')):
        addr = h.choice(f'addr{k}', ADDR if with_ids else LABELS)
        v = h.choice(f'v{k}', ['real', '2.5', 'x', None, float('nan'), float('inf')] if k == 0 else ['real'])
        v = h.real(f'w{k}', -5, 100) if v == 'real' else v
        data.append((addr if with_ids else addr[1:]) + (v,))
        if refuse:
            continue
        i, n = addr[0], number(v)
        if n is None or i in (None, 0, 9) or ROWS[i - 1] != addr[1:]:
            h.reach('skipped')
            continue
        if h.decided(n < 0):
            h.reach('negative')
            refuse = True
        elif i not in want:
            h.reach('new')
            want[i] = n
        else:
            h.reach(mode)
            refuse = mode == 'abort'
            want[i] = {'replace': n, 'sum': want[i] + n}.get(mode, want[i])
    before = snapshot(node)
    with raises(Exception) as err:
        node.insert_weights('wt', data, ['index_id'] * with_ids + ['a', 'b', 'wt'], on_conflict=mode)
    h.check(bool(err) == refuse, 'only a negative weight or a conflict in abort mode refuses the rows', [mode, with_ids])
    if err:
        h.check_same(snapshot(node), before, 'refused rows change nothing')
        return
    same(h, node, want, other, f'insert {mode}')
    h.observe('w', sorted(weights_of(node, 'wt').items()))


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def update(h):
    """Rows addressed by identifier and labels."""
    node, want, other = make(h)
    data, refuse = [], False
    want = dict(want)
    for k in range(h.bound('rows')):
        addr = h.choice(f'addr{k}', ADDR)
        v = h.real(f'w{k}', -5, 100)
        data.append(addr + (v,))
        i = addr[0]
        if refuse:
            continue
        if i == 9 or (i and ROWS[i - 1] != addr[1:]):
            h.reach('skipped')
            continue
        if i == 0 or h.decided(v < 0):
            refuse = True
        else:
            h.reach('changed' if i in want else 'added')
            want[i] = v
    column = h.choice('column', ['wt', 'val'])
    before = snapshot(node)
    with raises(Exception) as err:
        node.update_weights('wt', data, ['index_id', 'a', 'b', column], value_column=None if column == 'wt' else column)
    h.check(bool(err) == refuse, 'only negative weights and the undefined record refuse the rows')
    if err:
        h.check_same(snapshot(node), before, 'refused rows change nothing')
        return
    same(h, node, want, other, 'update')


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def delete(h):
    """Deleting by rows or by label criteria."""
    node = new_space(rows=ROWS, attrs=())
    want = {i: h.real(f'v{i}', 0, 100) for i in (1, 2, 3) if h.flag(f'weight{i}')}
    other = {i: h.real(f'o{i}', 0, 100) for i in (1, 2)}
    set_weights(node, 'wt', ROWS, [want.get(i) for i in (1, 2, 3)])
    set_weights(node, 'ot', ROWS, [other.get(i) for i in (1, 2, 3)])
    if h.flag('by_row'):
        rows = [h.choice(f'addr{k}', ADDR + [(3, 'B', 'x')]) for k in range(h.bound('rows'))]
        node.delete_weights('wt', rows, ['index_id', 'a', 'b'])
        gone = {r[0] for r in rows if 0 < r[0] < 9 and ROWS[r[0] - 1] == r[1:]}
    else:
        crit = h.choice('crit', [{'a': 'A'}, {'b': 'x'}, {'a': 'A', 'b': 'y'}, {'a': 'Q'}, {'a': 'B', 'b': 'x'}, {}, None])
        before = snapshot(node)
        with raises(TypeError) as err:
            if crit is None:
                node.delete_weights('wt', [(1, 'A', 'x')], ['index_id', 'a', 'b'], a='A')
            else:
                node.delete_weights('wt', **crit)
        h.check(bool(err) == (not crit), 'deleting without rows or criteria, or with both, is refused', repr(err))
        if err:
            h.check_same(snapshot(node), before, 'a refused deletion changes nothing')
            return
        gone = {i for i, r in enumerate(ROWS, 1) if all(dict(zip('ab', r))[k] == v for k, v in crit.items())}
    h.reach('deleted' if gone & set(want) else 'nothing')
    same(h, node, {i: v for i, v in want.items() if i not in gone}, other, 'delete')


@scenario(quick={})
def select(h):
    """Selecting weights by criteria, with and without a domain."""
    dom = h.choice('domain', [None, 'us'])
    node, want, other = make(h)
    if dom:
        node.set_domain(dom)
    crit = h.choice('crit', [{}, {'a': 'A'}, {'b': 'x'}, {'a': 'Q'}, {'a': '-'}])
    name = h.choice('name', ['wt', 'ot'])
    it = node.select_weights(name, **crit)
    h.check(it.columns == ('a', 'b') + ('domain',) * bool(dom) + ('weight', 'value'), 'the columns are named', it.columns)
    vals = want if name == 'wt' else other
    exp = [list(r) + [dom] * bool(dom) + [name, vals.get(i)] for i, r in enumerate(ROWS, 1)
           if all(dict(zip('ab', r))[k] == v for k, v in crit.items())]
    h.check_same([list(r) for r in it], exp, 'each selected index record is returned once with its weight')
    h.check(it.unique_id == node.unique_id and it.domain == (dom or ''), 'the iterator identifies the space')


@scenario(quick={})
def groups(h):
    """Adding, editing and dropping groups; the default group."""
    node, want, other = make(h)
    h.check(node.get_default_weight_group().name == 'wt', 'the first group becomes the default')
    op = h.choice('op', ['add', 'rename', 'drop', 'edit', 'default', 'missing'])
    name = h.choice('name', ['wt', 'ot', 'new'])
    pick = h.choice('pick', ['wt', 'ot'])
    before = snapshot(node)
    if op == 'add':
        make_default = h.choice('make_default', [None, True, False])
        with raises(Exception) as err:
            node.add_weight_group(name, selectors='[k="v"]', description='d', make_default=make_default)
        h.check(bool(err) == (name != 'new'), 'a group name is added only once')
        if err:
            h.reach('exists')
            h.check_same(snapshot(node), before, 'a refused group changes nothing')
            return
        g = node.get_weight_group('new')
        h.check(g.selectors == ['[k="v"]'] and g.description == 'd' and not g.is_complete, 'the group is stored as given')
        h.check(node.get_default_weight_group().name == ('new' if make_default else 'wt'), 'the default changes on request only')
        same(h, node, want, other, 'add group')
    elif op == 'rename':
        with raises(Exception) as err:
            node.edit_weight_group(pick, name=name)
        h.check(bool(err) == (name != 'new' and name != pick), 'a group cannot take the name of another')
        if err or name == pick:
            h.check_same(snapshot(node), before, 'nothing changes')
            return
        h.check(sorted(g.name for g in node.weight_groups) == sorted(({'wt', 'ot'} - {pick}) | {name}), 'the group is renamed')
        h.check_same(weights_of(node, name), want if pick == 'wt' else other, 'a renamed group keeps its weights')
        h.check(node.get_default_weight_group().name == ('new' if pick == 'wt' else 'wt'), 'the default group stays the same group')
    elif op == 'edit':
        sel = h.choice('sel', [None, [], ['[k]'], ['[k]', '[m="z"]']])
        node.edit_weight_group(pick, selectors=sel, description='e')
        g = node.get_weight_group(pick)
        h.check((g.selectors or []) == (sel or []) and g.description == 'e', 'exactly the given fields change')
        o = node.get_weight_group('ot' if pick == 'wt' else 'wt')
        h.check(not o.selectors and not o.description, 'the other group does not change')
        same(h, node, want, other, 'edit group')
    elif op == 'drop':
        node.drop_weight_group(pick)
        h.check([g.name for g in node.weight_groups] == (['ot'] if pick == 'wt' else ['wt']), 'exactly the group is removed')
        (n,), = query(node, 'SELECT count(*) FROM main.weight')
        left = other if pick == 'wt' else want
        h.check(n == len(left), 'the weights of a dropped group are removed', [n])
        h.check_same(weights_of(node, 'ot' if pick == 'wt' else 'wt'), left, 'the other group keeps its weights')
        d = node.get_default_weight_group()
        h.check((d is None) if pick == 'wt' else (d.name == 'wt'), 'dropping the default group leaves no default')
        if pick == 'wt':
            h.reach('default dropped')
    elif op == 'default':
        node.set_default_weight_group(node.get_weight_group(pick))
        h.check(node.get_default_weight_group().name == pick, 'the default group is the one set')
    else:
        h.check(node.get_weight_group('new') is None, 'a missing group is None')
        node.drop_weight_group('new')
        node.edit_weight_group('new', description='z')
        h.check_same(snapshot(node), before, 'operations on a missing group change nothing')
        h.check(list(node.select_weights('new')) == [], 'a missing group has no weights')
