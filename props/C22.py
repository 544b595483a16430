"""Links: unique names, one default per source, reference resolution."""
from symx.harness import scenario
from .common import new_space, raises, snapshot, mappings_of, level, query

META = dict(
    title='Links are unique, have one default, and resolve unambiguously',
    statement='Link names are unique per source and at most one link per source is the default, after any sequence of adding, '
              'editing and dropping links; the first link becomes the default, later ones only on request, and dropping a '
              'link removes exactly its own mappings. A reference resolves by exact identifier, else by file name with or '
              'without its extension, else by an identifier prefix of at least seven characters. An ambiguous or unknown '
              'reference is refused, and without a name the only or the default link is used.',
    over=['histories', 'inputs'],
    text='for every sequence of operations and every combination of hints, identifiers and references within the bound',
    why='tests fix one history and one reference per rule; the guarantee is about every history and overlap of the rules',
    files=['src/toron/space.py', 'src/toron/data_service.py', 'src/toron/dal1/repositories.py', 'src/toron/graph.py'],
    mechanism=[('links', 'add_link, edit_link, drop_link, LinkRepository'), ('references', 'get_links_by_ref, get_link, find_links_by_ref'), ('file names', 'load_mapping, normalize_filename_hints')])

REACH = {'lifecycle': ['duplicate', 'rename clash', 'default moved', 'dropped', 'no default', 'missing'],
         'reference': ['exact', 'hint', 'hint+ext', 'prefix', 'short', 'ambiguous', 'unknown'],
         'find': ['exact', 'hint', 'prefix', 'none'],
         'filenames': ['by file name'],
         'pick': ['single', 'default', 'refused', 'named']}


class Source:
    """Stands for another space: adding a link only reads its identifier."""

    def __init__(self, unique_id):
        self.unique_id = unique_id


S = [Source('11111111-aaaa'), Source('22222222-bbbb')]


def compare(h, node, model, what):
    got = {(k.other_unique_id, k.name): k for k in node.links}
    h.check(len(got) == len(node.links) and set(got) == set(model), f'{what}: exactly the expected links exist', [sorted(got), sorted(model)])
    for key, m in model.items():
        link = got[key]
        h.check(bool(link.is_default) == m['default'], f'{what}: the default is as expected', list(key))
        h.check((link.description, link.other_filename_hint, link.selectors) == (m['description'], m['hint'], m['selectors']), f'{what}: fields are as given', list(key))
        h.check([r[:2] for r in maps(node, link)] == [(m['tag'], 1)], f'{what}: the link keeps its own mappings', list(key))
    (n,), = query(node, 'SELECT count(*) FROM main.mapping')
    h.check(n == len(model), f'{what}: no other mappings exist', n)
    for s in S:
        h.check(sum(v['default'] for k, v in model.items() if k[0] == s.unique_id) <= 1, f'{what}: at most one default')


def maps(node, link):
    return [tuple(r) for r in query(node, 'SELECT other_index_id, index_id FROM main.mapping WHERE link_id=?', (link.id,))]


@scenario(quick=dict(steps=3), thorough=dict(steps=4))
def lifecycle(h):
    """Sequences of add, edit and drop over two sources and two names."""
    node = new_space(('a',), [('A',)], attrs=())
    model = {}
    hint = h.choice('hint', [None, 'f'])      # the same file name for both sources
    for step in range(h.bound('steps')):
        op = h.choice(f'op{step}', ['add', 'edit', 'drop'] if step else ['add'])
        s = h.choice(f'src{step}', S) if step else S[0]
        name = h.choice(f'name{step}', ['P', 'Q']) if step else 'P'
        key = (s.unique_id, name)
        mine = [k for k in model if k[0] == s.unique_id]
        before = snapshot(node)
        if op == 'add':
            default = h.choice(f'default{step}', [None, True, False])
            with raises(Exception) as err:
                node.add_link(s, name, description='d', selectors=['[k="v"]'], is_default=default, other_filename_hint=hint)
            h.check(bool(err) == (key in model), 'a link is added once', repr(err))
            if err:
                h.reach('duplicate')
                h.check_same(snapshot(node), before, 'a refused link changes nothing')
                continue
            if default or default is None and not mine:
                for k in mine:
                    h.reach('default moved') if model[k]['default'] else None
                    model[k]['default'] = False
                default = True
            tag = step + 1
            model[key] = dict(default=bool(default), description='d', selectors=['[k="v"]'], tag=tag, hint=hint)
            node.insert_mappings2(s, name, [('other_index_id', 'index_id', 'mapping_level', name), (tag, 1, level(1), 2.0)])
        elif op == 'edit':
            change = h.choice(f'change{step}', [{'is_default': True}, {'is_default': False}, {'name': 'P'}, {'description': 'e'},
                                                {'selectors': None, 'is_default': True}])
            with raises(Exception) as err:
                node.edit_link(s, name, **change)
            target = (s.unique_id, change.get('name', name))
            clash = target != key and target in model
            h.check(bool(err) == (key not in model or clash), 'only a missing link or a name that exists refuses the edit', repr(err))
            if err:
                h.reach('rename clash' if key in model else 'missing')
                h.check_same(snapshot(node), before, 'a refused edit changes nothing')
                continue
            m = model.pop(key)
            m.update({dict(is_default='default').get(k, k): v for k, v in change.items() if k != 'name'})
            model[target] = m
            if change.get('is_default'):
                for k in model:
                    if k[0] == s.unique_id and k != target:
                        h.reach('default moved') if model[k]['default'] else None
                        model[k]['default'] = False
        else:
            with raises(Exception) as err:
                node.drop_link(s, name)
            h.check(bool(err) == (key not in model), 'only a missing link cannot be dropped', repr(err))
            if err:
                h.reach('missing')
                h.check_same(snapshot(node), before, 'a refused drop changes nothing')
                continue
            h.reach('dropped')
            del model[key]
        compare(h, node, model, op)
        for s in S:
            mine = [k for k in model if k[0] == s.unique_id]
            if mine and not any(model[k]['default'] for k in mine):
                h.reach('no default')
    h.observe('links', sorted(model))


IDS = ['aaaaaaaa-1111', 'aaaaaaaa-2222', 'bbbbbbbb-3333']
HINTS = ['foo', 'foo.toron', 'bar', 'aaaaaaaa', 'bbbbbbbb-3333']
REFS = ['aaaaaaaa-1111', 'bbbbbbbb-3333', 'bbbbbb', 'bbbbbbb', 'aaaaaaa', 'aaaaaaaa-2', 'aaaaaaaa', 'foo', 'foo.toron', 'bar.toron', 'bar', 'zzzzzzzzz', 'BBBBBBB']


def linked(h):
    node = new_space(('a',), [('A',)], attrs=())
    links = []
    for k, uid in enumerate(IDS[:h.bound('sources')] if 'sources' in h.bounds else IDS):
        hint = h.label(f'hint{k}', HINTS) if not h.flag(f'nohint{k}') else None
        node.add_link(Source(uid), 'L', other_filename_hint=hint)
        links.append((uid, hint))
    return node, links


def hinted(h, links, names):
    return [u for u, t in links if t is not None and any(h.decided(t == n) for n in names)]


@scenario(quick={})
def reference(h):
    """Every reference against three sources with any file name hints."""
    node, links = linked(h)
    ref = h.choice('ref', REFS)
    with raises(Exception) as err:
        link = node.get_link(ref, h.choice('link', ['L', None]))
    if any(u == ref for u, _ in links):
        h.reach('exact')
        exp = [ref]
    else:
        exp = hinted(h, links, [ref])
        h.reach('hint') if exp else None
        if not ref.endswith('.toron'):
            more = hinted(h, links, [ref + '.toron'])
            h.reach('hint+ext') if more else None
            exp = exp + more
        if not exp:
            pre = [u for u, _ in links if u[:len(ref)] == ref]
            h.reach('prefix' if len(ref) >= 7 else 'short') if pre else None
            exp = pre if len(ref) >= 7 else []
    exp = sorted(set(exp))
    h.check(bool(err) == (len(exp) != 1), 'exactly the unambiguous references resolve', [ref, exp, repr(err)])
    if err:
        h.reach('ambiguous' if exp else 'unknown')
        h.check(type(err[0]).__name__ == 'ToronError', 'a reference that does not resolve is reported', repr(err))
        h.check(all(u in str(err[0]) for u in exp), 'an ambiguous reference names every match')
    else:
        h.check(link.other_unique_id == exp[0], 'the reference resolves to the matching source', [ref, exp])


@scenario(quick={})
def find(h):
    """find_links_by_ref returns all matches of the first rule that matches."""
    from toron.data_service import find_links_by_ref
    node, links = linked(h)
    ref = h.choice('ref', REFS)
    with node._managed_cursor() as cur:
        got = sorted(k.other_unique_id for k in find_links_by_ref(ref, node._dal.LinkRepository(cur)))
    if any(u == ref for u, _ in links):
        h.reach('exact')
        exp = [ref]
    else:
        exp = hinted(h, links, [ref, ref[:-6] if ref.endswith('.toron') else ref + '.toron'])
        if exp:
            h.reach('hint')
        elif len(ref) >= 7:
            exp = [u for u, _ in links if u[:len(ref)] == ref]
            h.reach('prefix' if exp else 'none')
    h.check(got == sorted(exp), 'all matches of the first matching rule are found', [ref, got, exp])


@scenario(quick={})
def pick(h):
    """Which link of a source is used when no name, or a name, is given."""
    node = new_space(('a',), [('A',)], attrs=())
    names = h.subset('names', ['P', 'Q', 'R'])
    default = h.choice('default', [None] + names)
    for n in names:
        node.add_link(S[0], n, is_default=(n == default))
    node.add_link(S[1], 'P')
    name = h.choice('name', [None, 'P', 'Q', 'Z'])
    ref = h.choice('ref', [S[0], S[0].unique_id, S[0].unique_id[:7]])
    with raises(Exception) as err:
        got = node.get_link(ref, name)
    if name is None:
        exp = names[0] if len(names) == 1 else default
        h.reach('refused' if exp is None else 'single' if len(names) == 1 else 'default')
    else:
        exp = name if name in names else None
        h.reach('named') if exp else None
    h.check(bool(err) == (exp is None), 'a link is used only if it is named, alone or the default', [names, default, name, repr(err)])
    if not err:
        h.check((got.other_unique_id, got.name) == (S[0].unique_id, exp), 'the link is the one named, alone or the default', [names, default, name])


FILES = [('a/s.toron', 'a/t.toron', 's', 't'), ('s.toron', 't.toron', 's', 't'), (None, 't.toron', None, 't'), ('s', 't.v.toron', 's', 't.v'),
         ('/x/y/s.toron', '/x/y/z/t.toron', 's', 'z/t'), ('/x/s.toron', 'y/t.toron', '/x/s', 'y/t'), ('a\\s.toron', 'a\\b\\t', 's', 'b/t'),
         ('data/s.toron', 'data2/t.toron', 'data/s', 'data2/t'), (None, None, None, None), ('toron/s.toron.bak', 'toron/.toron', 's.toron.bak', None)]


@scenario(quick={})
def filenames(h):
    """Loading a mapping links the spaces by the names of their files, in the chosen directions."""
    from toron.graph import load_mapping
    s_hint, t_hint, s_ref, t_ref = h.choice('files', FILES)
    arrow = h.choice('direction', ['->', '<-', '<->'])
    sel = h.choice('selectors', [None, ['[k]'], ['[k="v"]', '[m]']])
    first = h.flag('first')
    default = h.choice('default', [None, True, False])
    v = h.real('v', 1, 100)
    spaces = []
    for name, hint in (('s', s_hint), ('t', t_hint)):
        node = new_space((name,), [('X',)], attrs=())
        node.add_weight_group('w', make_default=True)
        if hint:
            node.path_hint = hint
        spaces.append(node)
    s, t = spaces
    if first:
        s.add_link(t, 'E')
        t.add_link(s, 'E')
    load_mapping(s, arrow, t, 'L', [('X', v, 'X')], ['s', 'L', 't'], selectors=sel, is_default=default)
    for mark, target, source, ref in (('->', t, s, s_ref), ('<-', s, t, t_ref)):
        want = {'E'} if first else set()
        if mark in arrow or arrow == '<->':
            want.add('L')
            link = target.get_link(source, 'L')
            h.check((link.other_filename_hint, link.selectors) == (ref, sel), 'the link records the file name and the selectors', [link.other_filename_hint, ref])
            h.check(bool(link.is_default) == (default is True or (default is None and not first)), 'the first link becomes the default, later ones on request')
            h.check_same([m[3] for m in mappings_of(target, 'L')], [v], 'the mapping is loaded in the chosen directions')
            if ref:
                h.reach('by file name')
                h.check(target.get_link(ref, 'L').id == link.id and target.get_link(source.unique_id, 'L').id == link.id,
                        'the source is found by the name of its file')
        h.check({n for n, in query(target, 'SELECT name FROM main.link')} == want, 'only the chosen directions are linked')
