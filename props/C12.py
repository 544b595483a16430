"""The best-matching selector decides, and only when it is unique."""
from symx.harness import scenario

META = dict(
    title='The most specific, unambiguous selector decides the assignment',
    statement='Among all groups whose selectors match a row, the one whose best matching selector has the greatest '
              'specificity held by a single group is chosen; when no specificity level is unique, or nothing matches, the '
              'default is chosen. The outcome does not depend on the order of groups or selectors.',
    over=['inputs', 'configurations'],
    text='for every assignment of matches and specificities to groups, any integers, and every order of the groups',
    why='tests use a few fixed selector sets; ties and fall-through depend on all relative orders of specificities',
    files=['src/toron/selectors.py'],
    mechanism=[('selection', 'get_greatest_unique_specificity, GetMatchingKey')])

REACH = {'abstract_choice': ['chosen', 'default'], 'text_choice': ['chosen', 'default']}


class Sel:
    """A selector whose match and specificity are arbitrary."""

    def __init__(self, match, spec):
        self.match, self.specificity = match, spec

    def __call__(self, row):
        return self.match


def best(h, groups, default):
    """groups: {key: [specificity, ...]} of matching selectors."""
    top = {}
    for k, specs in groups.items():
        for s in specs:
            if k not in top or h.decided(h.any_([h.decided(top[k][0] < s[0]), h.decided(top[k][0] == s[0]) and h.decided(top[k][1] < s[1])])):
                top[k] = s
    winner, wspec = default, None
    for k, s in top.items():
        if any(h.decided(s[0] == t[0]) and h.decided(s[1] == t[1]) for j, t in top.items() if j != k):
            continue
        if wspec is None or h.decided(wspec[0] < s[0]) or (h.decided(wspec[0] == s[0]) and h.decided(wspec[1] < s[1])):
            winner, wspec = k, s
    return winner


@scenario(quick=dict(counts=[[1, 1, 1], [2, 1], [1, 1, 0], [2, 2]]), thorough=dict(counts=[[1, 1, 1, 1], [2, 1, 1], [2, 2], [3, 1]]))
def abstract_choice(h):
    """Arbitrary (symbolic) specificities and match results."""
    from toron.selectors import get_greatest_unique_specificity
    counts = h.choice('counts', h.bound('counts'))
    sels, matching = {}, {}
    for g, n in enumerate(counts):
        key = f'k{g}'
        sels[key] = [] if n else None
        for j in range(n):
            m = h.flag(f'm{g}{j}')
            spec = (h.int(f's{g}{j}', 0, 50), h.int(f't{g}{j}', 0, 50))
            sels[key].append(Sel(m, spec))
            if m:
                matching.setdefault(key, []).append(spec)
    got = get_greatest_unique_specificity({}, sels, default='d')
    want = best(h, matching, 'd')
    h.reach('default' if want == 'd' else 'chosen')
    h.check(got == want, 'the greatest unique specificity wins', [got, want])
    h.observe('got', got)


POOL = [None, ['[A]'], ['[A="x"]'], ['[A="x"][B="y"]'], ['[A]', '[B="y"]'], [':where([A])'], [':not([A="x"])'],
        [':is([A="x"], [B])']]


@scenario(quick=dict(groups=3), thorough=dict(groups=4))
def text_choice(h):
    """Groups of parsed selectors, symbolic attribute row, any order of the groups."""
    from toron.selectors import parse_selector, get_greatest_unique_specificity, GetMatchingKey
    n = h.bound('groups')
    texts = [h.choice(f'g{i}', POOL) for i in range(n)]
    sels = {i: None if t is None else [parse_selector(x) for x in t] for i, t in enumerate(texts)}
    row = {'A': h.label('A', ['', 'x', 'z']), 'B': h.label('B', ['', 'y', 'q'])}
    matching = {}
    for i, ss in sels.items():
        for s in ss or ():
            if h.decided(s(row)):
                matching.setdefault(i, []).append(s.specificity)
    want = best(h, matching, 'd')
    h.reach('default' if want == 'd' else 'chosen')
    got = get_greatest_unique_specificity(row, sels, default='d')
    h.check(got == want, 'the greatest unique specificity wins', [texts, row, got, want])
    rev = dict(reversed(list(sels.items())))
    h.check(get_greatest_unique_specificity(row, rev, default='d') == want, 'the order of the groups does not matter', [texts, row])
    h.check(GetMatchingKey(sels, default='d')(row) == want, 'the reusable matcher agrees', [texts, row])
    h.observe('got', got)
