"""Order and names of label columns and attributes."""
from symx.harness import scenario
from .common import new_space, raises, snapshot, query, add_quantities

META = dict(
    title='Labels and attributes keep their order and never share a name',
    statement='Moving a label or attribute by any offset changes only its own position, limited to the ends of the list; '
              'moving labels never changes stored data. Label columns and registered attributes are distinct, never share a '
              'name with each other and never use a reserved name, after any sequence of registering, adding, dropping and renaming; '
              'a refused change leaves everything as it was. Data keeps its labels under the new names.',
    over=['inputs', 'histories'],
    text='for every list length, position and offset, and every sequence of changes within the bound',
    why='tests move single elements by one and refuse one name each; offsets and sequences of changes are unbounded',
    files=['src/toron/data_service.py', 'src/toron/space.py', 'src/toron/dal1/label_manager.py'],
    mechanism=[('order', 'change_element_order, change_label_order, change_attribute_order'),
               ('names', 'validate_new_index_columns, set_registered_attributes, add_index_columns, rename_index_columns')])

REACH = {'move': ['clamped left', 'clamped right', 'stays', 'inside'], 'display': ['labels', 'attributes', 'unknown'],
         'columns': ['drop', 'rename', 'rename all', 'add', 'swap', 'move'],
         'names': ['reserved', 'label', 'attribute', 'duplicate', 'accepted']}
RESERVED = ['domain', 'index_id', 'value', 'weight', '_location_id', '_structure_id', '_granularity']


@scenario(quick=dict(n=5), thorough=dict(n=7))
def move(h):
    """change_element_order with any list length and any integer offset."""
    from toron.data_service import change_element_order
    n = h.choice('n', range(1, h.bound('n') + 1))
    xs = [f'e{i}' for i in range(n)]
    k = h.choice('k', range(n))
    off = h.int('offset', -10**6, 10**6)
    before = list(xs)
    got = change_element_order(xs, xs[k], offset=off)
    h.check(xs == before, 'the given sequence is not changed')
    pos = k + off
    if h.decided(pos < 0):
        h.reach('clamped left')
        pos = 0
    elif h.decided(pos >= n):
        h.reach('clamped right')
        pos = n - 1
    else:
        h.reach('stays' if h.decided(off == 0) else 'inside')
        pos = next(i for i in range(n) if h.decided(pos == i))
    rest = [x for x in xs if x != xs[k]]
    h.check(list(got) == rest[:pos] + [xs[k]] + rest[pos:], 'only the element moves, by the offset, within the list', [n, k, pos, list(got)])


def moved(xs, x, off):
    i = xs.index(x)
    rest = [y for y in xs if y != x]
    j = min(max(i + off, 0), len(xs) - 1)
    return rest[:j] + [x] + rest[j:]


@scenario(quick=dict(steps=2), thorough=dict(steps=3))
def display(h):
    """Sequences of moves of labels and attributes of a space that holds data."""
    labels, attrs = ['a', 'b', 'c'], ['k', 'm', 'n']
    node = new_space(labels, [('A', 'x', '1'), ('B', 'y', '2')], attrs=attrs)
    node.insert_quantities2(value_column='v', data=[('A', 'x', '1', 'p', '', 'q', 3.0)], columns=labels + attrs + ['v'])
    before = snapshot(node, skip=('property',))
    for step in range(h.bound('steps')):
        kind = h.choice(f'kind{step}', ['labels', 'attributes'])
        x = h.choice(f'x{step}', (['a', 'b', 'c'] if kind == 'labels' else ['k', 'm', 'n']) + ['zz'])
        off = h.choice(f'off{step}', [-2, -1, 0, 1, 2, 3])
        f = node.change_label_order if kind == 'labels' else node.change_attribute_order
        with raises(Exception) as err:
            f(x, off)
        h.check(bool(err) == (x == 'zz'), 'only unknown names are refused', repr(err))
        if err:
            h.reach('unknown')
        elif kind == 'labels':
            h.reach('labels')
            labels = moved(labels, x, off)
        else:
            h.reach('attributes')
            attrs = moved(attrs, x, off)
        h.check(node.get_label_columns() == labels, 'labels are displayed in the requested order', [node.get_label_columns(), labels])
        h.check(node.get_registered_attributes() == attrs, 'attributes are listed in the requested order', [node.get_registered_attributes(), attrs])
    h.check(list(node.index_columns) == ['a', 'b', 'c'], 'the storage order of labels stays')
    h.check_same(snapshot(node, skip=('property',)), before, 'moving names changes no data')
    if h.flag('extra'):
        node.add_index_columns('d')
        h.check(node.get_label_columns() == labels + ['d'], 'new labels are displayed last')


@scenario(quick=dict(changes=2), thorough=dict(changes=3))
def columns(h):
    """The display order when columns are moved, dropped, renamed and added again."""
    node = new_space(['a', 'b', 'c'], [('A', 'x', '1'), ('B', 'y', '2')], attrs=())
    shown = stored = ['a', 'b', 'c']
    fresh = iter(['z', 'e', 'f'])
    node.change_label_order('c', -h.choice('moved', [0, 1, 2]))
    shown = moved(shown, 'c', node.get_label_columns().index('c') - 2)
    for step in range(h.bound('changes')):
        op = h.choice(f'op{step}', ['drop', 'rename', 'rename all', 'add', 'swap', 'move'])
        x = h.choice(f'column{step}', [0, 1, 2])
        if op in ('add', 'rename all', 'swap') and x or x >= len(stored) or len(stored) < 2:
            return
        x = stored[x]
        if op == 'drop':
            node.drop_index_columns(x)
            shown, stored = [y for y in shown if y != x], [y for y in stored if y != x]
        elif op == 'add':
            node.add_index_columns('a') if 'a' not in stored else node.add_index_columns(x := next(fresh))
            x = 'a' if 'a' not in stored else x
            shown, stored = shown + [x], stored + [x]
        elif op == 'move':
            node.change_label_order(x, -1)
            shown = moved(shown, x, -1)
        else:
            new = {'rename': lambda: {x: next(fresh)}, 'rename all': lambda: {y: y * 2 for y in stored}, 'swap': lambda: {stored[0]: stored[1] * 3, stored[1]: stored[0] * 3}}[op]()
            node.rename_index_columns(new)
            shown, stored = [new.get(y, y) for y in shown], [new.get(y, y) for y in stored]
        h.reach(op)
        h.check(list(node.index_columns) == stored, 'columns are stored in the order in which they were added', [op, node.index_columns, stored])
        h.check(node.get_label_columns() == shown, 'the other columns keep their order, new columns come last', [op, node.get_label_columns(), shown])


@scenario(quick=dict(steps=2, reserved=1), thorough=dict(steps=3, reserved=7))
def names(h):
    """Sequences of registering attributes, adding and renaming label columns, with clashing names."""
    node = new_space(('a', 'b'), [('A', 'x'), ('B', 'y')], attrs=('k',))
    labels, attrs = ['a', 'b'], ['k']
    data = {'a': ['A', 'B'], 'b': ['x', 'y']}
    for step in range(h.bound('steps')):
        op = h.choice(f'op{step}', ['register', 'add', 'add2', 'rename', 'rename_one'])
        name = h.choice(f'name{step}', ['a', 'k', 'n1', 'n2'] + RESERVED[:h.bound('reserved') if step else None])
        other = h.choice(f'other{step}', ['a', 'n1', 'n3']) if op in ('register', 'add2', 'rename') else None
        before = snapshot(node)
        old = labels[0]
        bad = name in RESERVED
        if op == 'register':
            new = [name, other]
            why = 'reserved' if bad else 'label' if set(new) & set(labels) else 'duplicate' if name == other else None
        else:
            new = [name] + [other] * (other is not None)
            why = ('reserved' if bad else 'label' if set(new) & set(labels) else 'attribute' if set(new) & set(attrs) else
                   'duplicate' if name == other else None)
        with raises(Exception) as err:
            if op == 'register':
                node.set_registered_attributes(new)
            elif op == 'add':
                node.add_index_columns(name)
            elif op == 'add2':
                node.add_index_columns(name, other)
            elif op == 'rename':
                node.rename_index_columns({old: name, labels[1]: other})
            else:
                node.rename_label_column(old, name)
        h.check(bool(err) == (why is not None), 'exactly names that are reserved or taken are refused', [op, new, labels, attrs, repr(err)])
        h.reach(why or 'accepted')
        if err:
            h.check_same(snapshot(node), before, 'a refused change leaves everything as it was')
            return
        if op == 'register':
            attrs = new
        elif op in ('add', 'add2'):
            labels += new
            data.update({x: ['-', '-'] for x in new})
        else:
            for i, x in enumerate(new):
                data[x] = data.pop(labels[i])
                labels[i] = x
        h.check(list(node.index_columns) == labels and node.get_registered_attributes() == attrs, 'the names are as requested',
                [list(node.index_columns), node.get_registered_attributes()])
        for i in (0, 1):
            for x in labels:
                rows = list(node.select_index(header=True))
                r = dict(zip(rows[0], [t for t in rows[1:] if t[0] == i + 1][0]))
                h.check(r[x] == data[x][i], 'records keep their labels under the new names', [x, i])
    h.observe('names', [labels, attrs])
