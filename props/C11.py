"""Selectors match exactly the rows their text describes."""
from symx.harness import scenario

META = dict(
    title='Selectors match exactly the rows their text describes',
    statement='A selector matches an attribute row if and only if the documented meaning of its text holds: presence, '
              'exact, word, dash-prefix, prefix, suffix and substring comparison, case folding only when requested, and '
              'conjunction, alternatives and negation for compound selectors. A missing attribute counts as an empty value.',
    over=['inputs', 'programs'],
    text='for every operator, every pattern and every attribute value, and every selector built from them',
    why='tests compare a handful of example rows per operator; the meaning ranges over all values and all nestings',
    files=['src/toron/selectors.py'],
    mechanism=[('operator match functions', 'SimpleSelector.__init__'), ('containers', 'MatchesAnySelector, NegationSelector, '
               'SpecificityAdjustmentSelector, CompoundSelector.__call__'), ('parser', 'parse_selector, SelectorTransformer')])

OPS = ['=', '~=', '|=', '^=', '$=', '*=']
REACH = {'operators': ['match', 'no match'], 'compound': ['match', 'no match']}
ASSUMPTIONS = ['Case folding is checked for ASCII letters here; letters without one-to-one case forms in C13.']


def at(row, i, val):
    return row[i:i + len(val)] == val


def space(c):
    return c == ' '


def fold(s):
    return s.upper() if s else s


def meaning(h, op, row, val):
    n, k = len(row), len(val)
    if op == '=':
        return row == val if n == k else False
    if op == '^=':
        return n >= k and at(row, 0, val)
    if op == '$=':
        return n >= k and at(row, n - k, val)
    if op == '*=':
        return h.any_([at(row, i, val) for i in range(n - k + 1)])
    if op == '|=':
        return h.any_([meaning(h, '=', row, val), n > k and h.all_([at(row, 0, val), row[k] == '-'])])
    if ' ' in val:
        return False
    return h.any_([h.all_([at(row, i, val), i == 0 or space(row[i - 1]), i + k == n or space(row[i + k])])
                   for i in range(n - k + 1)])


def iff(h, a, b):
    return h.any_([h.all_([a, b]), h.all_([h.not_(a), h.not_(b)])])


@scenario(quick=dict(row=4, val=2, alphabet='aB- '), thorough=dict(row=6, val=3, alphabet='aB- '))
def operators(h):
    """Every operator, pattern text and symbolic attribute value, with and without case folding."""
    from toron.selectors import SimpleSelector
    op = h.choice('op', OPS)
    val = str(h.text('val', h.bound('val'), h.bound('alphabet'), minlen=1))
    ignore = h.flag('ignore_case')
    row = h.text('row', h.bound('row'), h.bound('alphabet') + 'Ab')
    got = SimpleSelector('A', op, val, ignore_case=ignore)({'A': row, 'B': val})
    want = meaning(h, op, fold(row) if ignore else row, val.upper() if ignore else val)
    got = h.decided(got)
    h.reach('match' if got else 'no match')
    h.check(iff(h, got, want), 'the selector matches exactly the values its operator describes', [op, val, ignore, row])
    h.observe('got', got)


@scenario(quick=dict(row=2))
def presence(h):
    """[A] matches any non-empty value; a missing attribute never matches; other attributes do not matter."""
    from toron.selectors import SimpleSelector, parse_selector
    row = h.text('row', h.bound('row'), 'a ')
    sel = parse_selector('[A]') if h.flag('parsed') else SimpleSelector('A')
    h.check(bool(sel({'A': row})) == (len(row) > 0), 'presence means a non-empty value')
    h.check(not sel({'B': row}), 'a missing attribute does not match')
    op = h.choice('op', OPS)
    h.check(not SimpleSelector('A', op, 'a')({'B': row}), 'a missing attribute does not match a value')


LEAVES = ['[A]', '[A="x"]', '[B="y" i]', "[B^='y']", '[A=x]']
KINDS = ['leaf', 'compound', ':is', ':not', ':where', ':is1', ':not1']


def tree(h, name, depth, top=True):
    """(text, oracle, specificity oracle) of an arbitrary selector (the grammar has compounds at the top only)."""
    kind = h.choice(f'{name}.kind', KINDS if top else KINDS[:1] + KINDS[2:]) if depth else 'leaf'
    if kind == 'leaf':
        k = h.choice(f'{name}.leaf', range(len(LEAVES) if depth else h.bound("leaves")))
        text = LEAVES[k]
        ev = [lambda r: r['A'] != '', lambda r: r['A'] == 'x', lambda r: h.any_([r['B'] == 'y', r['B'] == 'Y']),
              lambda r: h.any_([r['B'] == 'y', r['B'] == 'yx']), lambda r: r['A'] == 'x'][k]
        return text, ev, (1, 0 if k == 0 else 1)
    one = kind.endswith('1')
    kind = kind.rstrip('1')
    parts = [tree(h, f'{name}{i}', depth - 1, False) for i in range(1 if one else 2)]
    evs = [p[1] for p in parts]
    spec = [p[2] for p in parts]
    if kind == 'compound':
        return (''.join(p[0] for p in parts), lambda r: h.all_([e(r) for e in evs]), tuple(map(sum, zip(*spec))))
    text = f'{kind}({", ".join(p[0] for p in parts)})'
    if kind == ':is':
        return text, lambda r: h.any_([e(r) for e in evs]), max(spec)
    if kind == ':where':
        return text, lambda r: h.any_([e(r) for e in evs]), (0, 0)
    return text, lambda r: h.not_(h.any_([e(r) for e in evs])), max(spec)


@scenario(quick=dict(depth=2, leaves=2), thorough=dict(depth=2, leaves=3))
def compound(h):
    """Parsed selectors nested to a bounded depth evaluate to the boolean combination they describe."""
    from toron.selectors import parse_selector
    text, ev, spec = tree(h, 't', h.bound('depth'))
    row = {'A': h.label('A', ['', 'x', 'z']), 'B': h.label('B', ['', 'y', 'Y', 'yx', 'x'])}
    sel = parse_selector(text)
    got = h.decided(sel(row))
    h.reach('match' if got else 'no match')
    h.check(iff(h, got, ev(row)), 'a compound selector is the boolean combination of its parts', [text, row])
    h.check(tuple(sel.specificity) == spec, 'specificity adds up over the parts', [text, sel.specificity, spec])
    h.observe('got', got)
