"""Unmatched quantities are exactly reported and exactly deleted."""
from symx.harness import scenario
from .common import new_space, query, raises

META = dict(
    title='Unmatched quantities are reported and deleted exactly',
    statement='A quantity is reported as unmatched exactly when its labels match no index record or its set of labels is not '
              'a partition of the space, and the reported counts agree. Deleting unmatched quantities removes exactly the '
              'reported ones together with locations and attribute groups nothing refers to any more; every other '
              'quantity stays as it was.',
    over=['inputs', 'histories'],
    text='for every arrangement of locations, partitions and index records within the bound',
    why='tests use one fixed arrangement; exactness quantifies over which locations match which records and partitions',
    files=['src/toron/space.py', 'src/toron/data_service.py', 'src/toron/dal1/repositories.py'],
    mechanism=[('finding', 'find_nonmatching_locations, find_locations_without_index, count_nonmatching_locations'),
               ('deleting', 'delete_unmatched_quantities, delete_quantities_without_index')])

REACH = {'unmatched': ['unmatched', 'matched', 'undefined', 'unused group']}
PLACES = [('A', 'x'), ('A', ''), ('', 'x'), ('C', ''), ('', ''), ('-', '-'), ('C', 'z'), ('-', '')]


def rows_of(node):
    return [tuple(r) for r in node.select_quantities(header=False)]


@scenario(quick=dict(n=2, places=8), thorough=dict(n=3, places=8))
def unmatched(h):
    """Symbolic places, attributes and values; two selections and two deletions."""
    index = [('A', 'x'), ('A', 'y'), ('B', 'x')]
    dom = h.choice('domain', [None, 'us'])
    node = new_space(rows=index, partitions=[{'a'}], attrs=(), domain=dom)
    data = []
    for i in range(h.bound('n')):
        p = h.choice(f'p{i}', PLACES[:h.bound('places')])
        t = h.choice(f't{i}', [('u', ''), ('u', 'w')]) if i else ('u', '')
        h.assume(all((p, t) != (d[:2], d[2:4]) for d in data))
        data.append(p + t + (h.real(f'q{i}', -100, 100),))
    node.insert_quantities(value='value', attributes=['k', 'm'], data=[d + ('us',) for d in data],
                           columns=['a', 'b', 'k', 'm', 'value', 'domain'])

    def in_index(p):
        return any(all(x in ('', y) for x, y in zip(p, r)) for r in index + [('-', '-')])

    def in_structure(p):
        return not (p[0] == '' and p[1] != '')
    which = h.choice('which', ['unmatched', 'without_index'])
    cond = (lambda p: in_index(p) and in_structure(p)) if which == 'unmatched' else in_index
    good = [d for d in data if cond(d[:2])]
    bad = [d for d in data if not cond(d[:2])]
    h.reach('unmatched') if bad else None
    h.reach('matched') if good else None
    if any(d[0] == '-' for d in data):
        h.reach('undefined')
    select = node.select_unmatched_quantities if which == 'unmatched' else node.select_quantities_without_index
    delete = node.delete_unmatched_quantities if which == 'unmatched' else node.delete_quantities_without_index

    def norm(ds, cols):
        return [(dom,) * bool(dom) + d[:2] + tuple((dict(k=d[2], m=d[3])[c] or None) for c in cols) + (d[4],) for d in ds]
    out = [tuple(r) for r in select()]
    cols = out[0][2 + bool(dom):-1]
    h.check(out[0][:2 + bool(dom)] == ('domain',) * bool(dom) + ('a', 'b') and out[0][-1] == 'quantity', 'the header names the columns')
    by_place = lambda rs: sorted(rs, key=lambda r: repr(r[:-1]))
    h.check_same(by_place(out[1:]), by_place(norm(bad, cols)), 'exactly the unmatched quantities are reported')
    h.check_same(by_place([tuple(r) for r in select(header=False)]), by_place(norm(bad, cols)), 'header=False gives the same records')
    from toron.data_service import count_nonmatching_locations
    dal = node._dal
    with node._managed_cursor(n=2) as (c1, c2):
        counts = count_nonmatching_locations(dal.LocationRepository(c1), dal.StructureRepository(c1), dal.IndexRepository(c2))
    ps = {d[:2] for d in data}
    want = {'structure_and_index': sum(not in_structure(p) and not in_index(p) for p in ps),
            'structure': sum(not in_structure(p) and in_index(p) for p in ps),
            'index': sum(in_structure(p) and not in_index(p) for p in ps)}
    h.check(counts == want, 'the reported counts agree with the records', [counts, want])
    if h.flag('unused group'):      # attributes whose quantities are gone already
        h.reach('unused group')
        with node._managed_transaction() as cur:
            dal.AttributeGroupRepository(cur).add({'k': 'gone'})
    delete()
    cols = tuple(c for c in ('k', 'm') if any(d[2 if c == 'k' else 3] for d in good))
    left = [tuple(r) for r in node.select_quantities()]
    cols = left[0][2 + bool(dom):-1]
    h.check_same(by_place(left[1:]), by_place(norm(good, cols)), 'deletion removes exactly the unmatched quantities')
    h.check(list(select(header=False)) == [], 'nothing unmatched is left')
    locs = {tuple(r) for r in query(node, 'SELECT a, b FROM main.label_location')}
    h.check(locs == {d[:2] for d in good}, 'locations without quantities are removed', sorted(locs))
    import json
    groups = [json.loads(r[0]) if isinstance(r[0], str) else r[0]
              for r in query(node, 'SELECT attributes FROM main.attribute_group')]
    exp = []
    for d in good:
        at = {k: v for k, v in (('k', d[2]), ('m', d[3])) if v}
        if at not in exp:
            exp.append(at)
    h.check(sorted(groups, key=repr) == sorted(exp, key=repr), 'attribute groups without quantities are removed', [groups, exp])


@scenario(quick={})
def after_changes(h):
    """Index and partition changes move quantities between matched and unmatched."""
    index = [('A', 'x'), ('A', 'y'), ('B', 'x')]
    node = new_space(rows=index, partitions=[{'a'}, {'b'}], attrs=('k',))
    qs = {p: h.real(f'q{i}', 1, 9) for i, p in enumerate([('A', ''), ('', 'x'), ('B', 'x'), ('', '')])}
    node.insert_quantities2(value_column='v', data=[p + ('u', q) for p, q in qs.items()], columns=['a', 'b', 'k', 'v'])
    op = h.choice('op', ['delete B', 'drop b', 'relabel', 'delete all'])
    if op == 'delete B':
        node.delete_index(a='B')
        bad = [('B', 'x')]
    elif op == 'drop b':
        node.drop_partition_definitions({'b'})
        bad = [('', 'x')]
    elif op == 'relabel':
        node.update_index([(3, 'C', 'z')], ['index_id', 'a', 'b'])
        bad = [('B', 'x')]
    else:
        node.delete_index(b='x')
        node.delete_index(b='y')
        bad = [('A', ''), ('', 'x'), ('B', 'x')]
    got = {tuple(r[:2]): r[-1] for r in node.select_unmatched_quantities(header=False)}
    h.check_same(got, {p: qs[p] for p in bad}, 'changes of index and partitions decide what is unmatched')
    node.delete_unmatched_quantities()
    got = {tuple(r[:2]): r[-1] for r in node.select_quantities2(header=False)}
    h.check_same(got, {p: q for p, q in qs.items() if p not in bad}, 'deletion removes exactly the unmatched quantities')
