"""Partition algebra: closure under union and minimal generators."""
from itertools import combinations

from symx.harness import scenario

META = dict(
    title='Structures are exactly the unions of their partition definitions',
    statement='The structure computed from a list of partition definitions contains exactly the unions of its members, '
              'each once, including the empty set. The minimal generating set of any definitions generates exactly the '
              'same structure, contains only given definitions, and no member of it is a union of the others.',
    over=['inputs'],
    text='for every collection of label sets over the columns within the bound, in every order and grouping',
    why='tests use a few hand-picked collections; closure and minimality quantify over all families of sets',
    files=['src/toron/partitions.py'],
    mechanism=[('closure', 'make_structure'), ('generators', 'find_minimal_partition_generating_set')])


def unions(sets):
    out = set()
    for k in range(len(sets) + 1):
        for c in combinations(sets, k):
            out.add(frozenset().union(*c))
    return out


@scenario(quick=dict(cols='abc', defs=3), thorough=dict(cols='abcd', defs=3))
def algebra(h):
    """Any list of definitions (repeats and the empty set allowed), split into two groups."""
    from toron.partitions import make_structure, find_minimal_partition_generating_set
    cols = h.bound('cols')
    defs = [set(h.subset(f'd{k}', cols)) for k in range(h.bound('defs'))]
    given = [set(d) for d in defs]
    want = unions([frozenset(d) for d in defs])
    got = make_structure(defs)
    h.check(len(got) == len({frozenset(x) for x in got}), 'no union is listed twice', got)
    h.check({frozenset(x) for x in got} == want, 'the structure is exactly the set of unions', [defs, got])
    cut = h.choice('cut', [0, 1, len(defs)])
    mini = find_minimal_partition_generating_set(defs[:cut], defs[cut:])
    fm = [frozenset(x) for x in mini]
    h.check(len(set(fm)) == len(fm) and all(x in defs for x in mini), 'generators are distinct given definitions', [defs, mini])
    h.check(unions(fm) == want, 'the generators generate the same structure', [defs, mini])
    for x in fm:
        h.check(x not in unions([y for y in fm if y != x]), 'no generator is redundant', [defs, mini])
    h.check(defs == given, 'the given definitions are not modified', [defs, given])
    h.observe('out', [sorted(map(sorted, got)), sorted(map(sorted, mini))])


@scenario(quick=dict(cols='abcd', defs=4), thorough=dict(cols='abcd', defs=5))
def many(h):
    """Every family of more definitions, each set at most once."""
    from toron.partitions import make_structure, find_minimal_partition_generating_set
    cols = h.bound('cols')
    rest = [frozenset(c) for k in range(1, len(cols) + 1) for c in combinations(cols, k)]
    defs, n = [], h.bound('defs')
    for k in range(n):
        i = h.choice(f'd{k}', range(len(rest) - (n - k) + 1))
        defs.append(set(rest[i]))
        rest = rest[i + 1:]
    defs = defs[::-1] if h.flag('reversed') else defs
    want = unions([frozenset(d) for d in defs])
    got = make_structure(defs)
    h.check(len(got) == len(want) and {frozenset(x) for x in got} == want, 'the structure is exactly the set of unions', [defs, got])
    mini = [frozenset(x) for x in find_minimal_partition_generating_set([], defs)]
    h.check(unions(mini) == want, 'the generators generate the same structure', [defs, mini])
    h.check(all(x not in unions([y for y in mini if y != x]) for x in mini), 'no generator is redundant', [defs, mini])
