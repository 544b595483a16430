"""Command line commands do what the library operation does."""
import io
import logging
import os
import types

from symx.harness import scenario
from .common import new_space, raises, snapshot, set_weights, query, add_quantities

META = dict(
    title='Command line commands have exactly the effect of the library operation',
    statement='A command changes the named file exactly as the library operation does on an equal file, and no other file '
              'but the backup, which holds the content from before the command. A command that reports an error leaves the '
              'files as they were; listing commands change nothing and the information they show is what is stored.',
    over=['inputs', 'configurations'],
    text='for every command, option, direction and starting content within the bound, with any stored weights and quantities',
    why='tests call single functions with fixed options; effects depend on the combination of options and stored content',
    files=['src/toron/cli/main.py', 'src/toron/cli/command_add.py', 'src/toron/cli/command_update.py', 'src/toron/cli/command_rename.py',
           'src/toron/cli/command_remove.py', 'src/toron/cli/command_init.py', 'src/toron/cli/command_info.py', 'src/toron/cli/common.py',
           'src/toron/formatters.py'],
    mechanism=[('dispatch', 'main, get_parser'), ('backup', 'process_backup_option'), ('information', 'get_dataspace_info_text, format_granularity')])

REACH = {'commands': ['done', 'error', 'backup', 'no backup'], 'links': ['added', 'removed', 'error', 'left', 'right', 'both', 'default', 'backup'],
         'new_file': ['created', 'refused'], 'streams': ['exported', 'loaded', 'refused', 'backup'], 'arguments': ['checked'],
         'info': ['default', 'incomplete', 'no default', 'link'], 'sorting': ['refused', 'sorted', 'whole space added']}

ROWS = [('A', 'x', 'p'), ('A', 'y', 'q'), ('B', 'x', 'p')]


class Tty(io.StringIO):
    def isatty(self):
        return True


def run(*argv, stdin=None):
    """toron ARGV; returns (exit code or exception, output bytes, messages)."""
    from toron.cli.main import main
    out = types.SimpleNamespace(buffer=io.BytesIO(), isatty=lambda: False, write=lambda s: None)
    err = io.StringIO()
    log = logging.getLogger('app-toron')
    state = log.level, list(log.handlers), log.propagate
    with raises(Exception, SystemExit) as exc:
        try:
            rc = main(list(argv), stdin=stdin or Tty(), stdout=out, stderr=err)
        finally:
            log.handlers[:], log.propagate = state[1], state[2]
            log.setLevel(state[0])
    return (exc[0] if exc else int(rc)), out.buffer.getvalue(), err.getvalue()


def save(h, node, name):
    path = os.path.join(h.scratch(), name)
    node.to_file(path)
    return path


def content(path):
    from toron import read_file
    snap = snapshot(read_file(path))
    snap['property'] = [r for r in snap['property'] if r[0] not in ('unique_id', 'created_date')]
    return snap


def files(h):
    return sorted(os.listdir(h.scratch()))


def base(w, q):
    node = new_space(('a', 'b', 'c'), ROWS, partitions=[{'a'}], attrs=('k', 'm'), domain='dom')
    set_weights(node, 'w', ROWS, w, labels=('a', 'b', 'c'), default=True, selectors=['[k="u"]', '[m]'])
    set_weights(node, 'z', ROWS, [None, 2.0, 3.0], labels=('a', 'b', 'c'))
    add_quantities(node, [('A', '', '', 'u', '', q)], labels=('a', 'b', 'c'), attrs=('k', 'm'))
    return node


def edit(name, add=(), remove=(), **kw):
    def op(n):
        if kw.get('description'):
            n.edit_weight_group(name, description=kw['description'])
        if add or remove:
            have = list(n.get_weight_group(name).selectors or ())
            n.edit_weight_group(name, selectors=sorted({s.replace('\n', ' ') for s in have + list(add) if s not in remove}))
        if kw.get('default'):
            n.set_default_weight_group(n.get_weight_group(name))
    return op


COMMANDS = [
    (('add', 'label', 'd', 'e'), lambda n: n.add_index_columns('d', 'e')),
    (('add', 'label', 'd,e'), lambda n: n.add_index_columns('d', 'e')),
    (('add', 'label', '"d d", e ', 'f'), lambda n: n.add_index_columns('d d', 'e', 'f')),
    (('add', 'label', 'd', 'a'), lambda n: n.add_index_columns('d', 'a')),
    (('add', 'weight', 'v'), lambda n: n.add_weight_group('v')),
    (('add', 'weight', 'v', '--default', '--description', 'text'), lambda n: n.add_weight_group('v', 'text', make_default=True)),
    (('add', 'weight', 'v', '--selectors', '[k="u"]', '[m]'), lambda n: n.add_weight_group('v', selectors=['[k="u"]', '[m]'])),
    (('add', 'weight', 'v', '--selectors', '[k='), lambda n: n.add_weight_group('v', selectors=['[k='])),
    (('add', 'weight', 'w'), lambda n: n.add_weight_group('w')),
    (('add', 'partition', 'b', 'c'), lambda n: n.add_partition_definition({'b', 'c'})),
    (('add', 'partition', 'b,c'), lambda n: n.add_partition_definition({'b', 'c'})),
    (('add', 'partition', 'b', 'zzz'), lambda n: n.add_partition_definition({'b', 'zzz'})),
    (('add', 'partition', 'a'), lambda n: n.add_partition_definition({'a'})),
    (('add', 'attribute', 'n', 'o'), lambda n: n.set_registered_attributes(['k', 'm', 'n', 'o'])),
    (('add', 'attribute', 'k,n'), lambda n: n.set_registered_attributes(['k', 'm', 'n'])),
    (('add', 'attribute', 'k', 'm'), lambda n: None),
    (('add', 'attribute', 'n', 'a'), lambda n: n.set_registered_attributes(['k', 'm', 'n', 'a'])),
    (('update', 'label', 'a', '--move-right'), lambda n: n.change_label_order('a', offset=1)),
    (('update', 'label', 'a', '--move-right', '2'), lambda n: n.change_label_order('a', offset=2)),
    (('update', 'label', 'c', '--move-left', '9'), lambda n: n.change_label_order('c', offset=-9)),
    (('update', 'label', 'zzz', '--move-left'), lambda n: n.change_label_order('zzz', offset=-1)),
    (('update', 'attribute', 'm', '--move-left'), lambda n: n.change_attribute_order('m', offset=-1)),
    (('update', 'attribute', 'k', '--move-right'), lambda n: n.change_attribute_order('k', offset=1)),
    (('update', 'attribute', 'zzz', '--move-right'), lambda n: n.change_attribute_order('zzz', offset=1)),
    (('update', 'weight', 'w', '--add-selector', '[k="v"]', '[m="q"]'), edit('w', add=['[k="v"]', '[m="q"]'])),
    (('update', 'weight', 'w', '--remove-selector', '[m]'), edit('w', remove=['[m]'])),
    (('update', 'weight', 'w', '--remove-selector', '[m]', '[k="u"]'), edit('w', remove=['[m]', '[k="u"]'])),
    (('update', 'weight', 'w', '--add-selector', '[m]', '[n]', '--remove-selector', '[k="u"]'), edit('w', add=['[n]'], remove=['[k="u"]'])),
    (('update', 'weight', 'z', '--add-selector', '[k\n="v"]'), edit('z', add=['[k\n="v"]'])),
    (('update', 'weight', 'z', '--default', '--description', 'text'), edit('z', default=True, description='text')),
    (('update', 'weight', 'zzz', '--default'), None),
    (('rename', 'label', 'a', 'n'), lambda n: n.rename_label_column('a', 'n')),
    (('rename', 'label', 'a', 'b'), lambda n: n.rename_label_column('a', 'b')),
    (('rename', 'label', 'zzz', 'n'), lambda n: n.rename_label_column('zzz', 'n')),
    (('rename', 'domain', 'other'), lambda n: n.set_domain('other')),
    (('info',), lambda n: None),
    ((), lambda n: None),
]


@scenario()
def commands(h):
    """Every command that edits one file, against the library operation on an equal file."""
    from toron import bind_file, read_file
    argv, op = h.choice('command', COMMANDS)
    w = [h.real(f'w{k}', 0, 100) for k in range(3)]
    q = h.real('q', 0, 100)
    path = save(h, base(w, q), 'f.toron')
    before, names = content(path), files(h)
    twin = base(w, q)
    fail = op is None
    if op:
        with raises(Exception) as err:
            op(twin)
        fail = bool(err)
    want = snapshot(twin)
    want['property'] = [r for r in want['property'] if r[0] not in ('unique_id', 'created_date')]
    backup = h.flag('backup') if argv and argv[0] != 'info' else None
    if h.flag('old backup'):
        with open(os.path.join(h.scratch(), 'backup-f.toron'), 'wb') as f:
            f.write(open(path, 'rb').read()[:100])
        names = files(h)
    rc, _, _ = run(path, *argv, *(['--no-backup'] if backup is False else []))
    h.check((rc != 0) == fail, 'the command fails exactly if the operation does', [argv, repr(rc), fail])
    h.check_same(content(path), before if fail else want, 'the file is as after the operation, or unchanged after an error')
    h.reach('error' if fail else 'done')
    if backup:
        h.reach('backup')
        names = sorted({*names, 'backup-f.toron'})
        h.check_same(content(os.path.join(h.scratch(), 'backup-f.toron')), before, 'the backup has the content from before')
    else:
        h.reach('no backup')
    h.check(files(h) == names, 'no other file appears', [files(h), names])


@scenario()
def links(h):
    """Adding and removing links between two files in each direction."""
    from toron import read_file
    one, two = new_space(('a',), [('A',), ('B',)], attrs=()), new_space(('b',), [('x',), ('y',)], attrs=())
    ids = {'f1.toron': one.unique_id, 'f2.toron': two.unique_id}
    have = {(f, n) for f in ids for n in ('L', 'M') if h.flag(f'has {n} in {f}')}
    v = h.real('v', 0, 100)
    for f, n in sorted(have):
        head, tail = (one, two) if f == 'f1.toron' else (two, one)
        head.add_link(tail, n)
        head.insert_mappings2(tail, n, [('other_index_id', 'index_id', 'mapping_level', n), (1, 1, b'\x80', v)])
    paths = [save(h, n, f) for n, f in ((one, 'f1.toron'), (two, 'f2.toron'))]
    before = [content(p) for p in paths]
    verb = h.choice('verb', ['add', 'remove'])
    direction = h.choice('direction', [(), ('--left',), ('--right',)])
    opts = h.choice('options', [(), ('--default',), ('--selectors', '[k="u"]', '--description', 'text')]) if verb == 'add' else ()
    if not direction and h.flag('no backup'):
        opts = (*opts, '--no-backup')
    rc, _, msg = run(paths[0], verb, 'link', paths[1], 'L', *direction, *opts)
    made = [] if '--no-backup' in opts else ['backup-f1.toron', 'backup-f2.toron']
    h.check(files(h) == sorted([*ids, *made]), 'no files but the backups appear', files(h))
    for f, b in zip(made, before):
        h.reach('backup')
        h.check_same(content(os.path.join(h.scratch(), f)), b, 'the backup has the content from before')
    heads = {(): {'f1.toron', 'f2.toron'}, ('--left',): {'f1.toron'}, ('--right',): {'f2.toron'}}[direction]
    h.reach(direction[0].strip('-') if direction else 'both')
    present = {f for f in heads if (f, 'L') in have}
    fail = bool(present) if verb == 'add' else not present
    h.check((rc != 0) == fail, 'adding fails for an existing link, removing without any link', [repr(rc), fail, msg])
    after = [content(p) for p in paths]
    if fail and len(heads) == 1:
        h.reach('error')
        h.check_same(after, before, 'a failed command leaves both files as they were')
        return
    for p, f, b, a in zip(paths, ids, before, after):
        other = ids['f2.toron' if f == 'f1.toron' else 'f1.toron']
        rows = {r[0]: r[1:] for r in query(read_file(p), 'SELECT name, other_unique_id, other_filename_hint, description, selectors, is_default FROM main.link')}
        names = {n for g, n in have if g == f}
        if verb == 'add' and f in heads and f not in present and not fail:
            h.reach('added')
            uid, hint, desc, sel, dflt = rows.get('L')
            h.check(uid == other and os.path.basename(hint or '') == ('f2.toron' if f == 'f1.toron' else 'f1.toron'), 'the new link refers to the other file', [uid, hint])
            h.check(desc == ('text' if 'text' in opts else None) and (sel is not None) == ('text' in opts), 'with the given description and selectors', [desc, sel])
            dropped = '--default' in opts or not names
            h.check(bool(dflt) == dropped, 'it is the default if asked for, or if it is the first link', [dflt, names])
            h.reach('default') if dropped else None
            names |= {'L'}
            h.check_same({k: x for k, x in a.items() if k != 'link'}, {k: x for k, x in b.items() if k != 'link'}, 'nothing but the link is added')
        elif verb == 'remove' and f in heads:
            h.reach('removed') if 'L' in names else None
            names -= {'L'}
            kept = [r for r in b['mapping'] if not [k for k in b['link'] if k[0] == r[1] and 'L' in k]]
            h.check_same(a['mapping'], kept, 'the mappings of the removed link, and no others, are gone')
        elif not fail:
            h.check_same(a, b, 'a file that was not asked for stays as it is')
        if not fail or f in present or f not in heads:
            h.check(set(rows) == names, 'links by name', [sorted(rows), sorted(names)])


@scenario()
def new_file(h):
    """init creates an empty space, and never overwrites a file."""
    from toron import bind_file
    name = h.choice('name', ['new.toron', 'plain', 'two.dots.toron'])
    path = os.path.join(h.scratch(), name)
    there = h.choice('there', [None, 'text', 'directory'])
    if there == 'text':
        with open(path, 'w') as f:
            f.write('keep')
    elif there:
        os.mkdir(path)
    dom = h.choice('domain', [None, 'd'])
    before = files(h)
    rc, _, _ = run(path, 'init', *(['--domain', dom] if dom else []))
    h.check((rc != 0) == bool(there), 'refused exactly if the path exists', repr(rc))
    if there:
        h.reach('refused')
        h.check(files(h) == before and (there != 'text' or open(path).read() == 'keep'), 'existing files stay as they are')
        return
    h.reach('created')
    node = bind_file(path, mode='ro')
    h.check(files(h) == [name], 'only the named file appears', files(h))
    h.check(node.domain == (dom or {'new.toron': 'new', 'plain': 'plain', 'two.dots.toron': 'two.dots'}[name]), 'domain', node.domain)
    h.check(node.index_columns == [] and node.weight_groups == [] and node.links == [], 'the new space is empty')


@scenario()
def streams(h):
    """index, quantity and mapping read from a pipe and write to the terminal; files change only when loading."""
    w = [0.5, 1.25, 3.0]
    node = new_space(('a', 'b'), [r[:2] for r in ROWS], partitions=[{'a'}], attrs=('k',))
    set_weights(node, 'w', [r[:2] for r in ROWS], w, default=True)
    add_quantities(node, [('A', '', 'u', 7.5)], attrs=('k',))
    other = new_space(('s',), [('S',)], attrs=())
    other.add_weight_group('w', make_default=True)
    for x, y in ((node, other), (other, node)):
        x.add_link(y, 'L')
    node.insert_mappings2(other, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L')] + [(1, k, b'\xc0', float(k)) for k in (1, 2, 3)])
    p, o = save(h, node, 'f.toron'), save(h, other, 'o.toron')
    before = content(p), content(o)
    what = h.choice('what', ['index', 'quantity', 'mapping'])
    args = ['mapping', o, 'L'] if what == 'mapping' else [what]
    first = (o, 'mapping', p, 'L') if what == 'mapping' else (p, *args)
    rc, out, _ = run(*first)
    h.check(rc == 0, 'export works', repr(rc))
    h.check_same([content(p), content(o)], list(before), 'an export changes nothing')
    h.check(files(h) == ['f.toron', 'o.toron'], 'and makes no files', files(h))
    h.reach('exported')
    text = out.decode('utf-8')
    bad = h.choice('damage', [None, 'value', 'header'])
    if bad == 'value':
        text = text.replace('3.0', 'much').replace('7.5', 'much')
    elif bad == 'header':
        text = 'x' + text.replace(',w', ',b').replace('quantity', 'amount').replace('L', 'b')
    conflict = h.choice('conflict', ['abort', 'ignore', 'replace', 'sum'])
    if what == 'index':
        if conflict == 'sum':
            return
        opts = ['--on-weight-conflict', conflict]
        fail = bad is not None or conflict == 'abort'
    elif what == 'quantity':
        opts = ['--on-existing', conflict]
        fail = bad is not None or conflict == 'abort'
        if bad == 'value' and conflict == 'ignore':
            fail = None      # a value that is ignored may or may not be looked at
    else:
        if conflict != 'abort':
            return
        opts = []
        fail = True      # the link already has mappings, or the data is damaged
    if h.flag('no backup'):
        opts.append('--no-backup')
    rc, _, msg = run(*first, *opts, stdin=io.StringIO(text, newline=''))
    if bad == 'header' and rc == 0:
        return           # an unknown column is ignored
    if what != 'mapping' and fail is not None:
        h.check((rc != 0) == fail, 'refused exactly for damaged data or an unresolved conflict', [repr(rc), fail, msg])
    made = ['backup-f.toron'] + (['backup-o.toron'] if what == 'mapping' else [])
    h.check(files(h) == sorted(['f.toron', 'o.toron'] + ([] if '--no-backup' in opts else made)), 'only backups appear', files(h))
    for name, b in zip(made, before):
        if '--no-backup' not in opts:
            h.reach('backup')
            h.check_same(content(os.path.join(h.scratch(), name)), b, 'the backup has the content from before')
    if rc != 0:
        h.reach('refused')
        h.check_same([content(p), content(o)], list(before), 'refused data changes nothing')
    elif what != 'mapping':
        h.reach('loaded')
        want = before[0]
        if what == 'quantity' and conflict == 'sum':
            want = dict(want, quantity=[[*r[:-1], 15.0] for r in want['quantity']])
        h.check_same(content(p), want, 'loading an export gives the content it was made from')


LISTS = [(['A,B,C'], ['A', 'B', 'C']), (['A,B', 'C'], ['A', 'B', 'C']), (['A , B', ' ,C '], ['A', 'B', 'C']), (['"A,B",C'], ['A,B', 'C']),
         (['A ""B"" C'], ['A ""B"" C']), (['"A ""B"""'], ['A "B"']), ([''], []), ([' , ,'], []), (['A\nB'], ['A B']), (['A,\nB'], ['A', 'B']),
         (['A\r\nB,C'], ['A B', 'C']), (['A', 'A'], ['A', 'A']), (['a b,c d'], ['a b', 'c d'])]


@scenario()
def arguments(h):
    """Lists of names given as separate or comma separated arguments."""
    from toron.cli.common import normalize_arg_list
    a, want = h.choice('first', LISTS)
    b, more = h.choice('second', LISTS)
    got = normalize_arg_list(a + b)
    h.check(got == want + more, 'names in the given order, without blanks and quotes', [a + b, got])
    h.reach('checked')


@scenario()
def info(h):
    """The information text names domain, partitions, weights and links as stored."""
    from toron.data_service import get_dataspace_info_text
    node = new_space(('a', 'b'), [r[:2] for r in ROWS], partitions=h.subset('partitions', [('a',), ('b',)]), attrs=(), domain=h.choice('domain', [None, 'd']))
    complete = {}
    for n in ('z', 'w'):
        kind = h.choice(n, [None, 'complete', 'incomplete'])
        if kind:
            set_weights(node, n, [r[:2] for r in ROWS], [1.0, 2.0, 3.0 if kind == 'complete' else None])
            complete[n] = kind == 'complete'
    dflt = h.choice('default', [None] + sorted(complete)) if complete else None
    if dflt:
        node.set_default_weight_group(node.get_weight_group(dflt))
        h.reach('default')
    elif complete:
        with node._managed_transaction() as cur:
            cur.execute("DELETE FROM main.property WHERE key='default_weight_group_id'")
        h.reach('no default')
    link = h.choice('link', [None, 'complete', 'incomplete'])
    if link:
        other = new_space(('s',), [('S',)], attrs=())
        node.add_link(other, 'L', other_filename_hint='other.toron')
        node.insert_mappings2(other, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L')] +
                              [(1, k, b'\xc0', 1.0) for k in ((1, 2, 3) if link == 'complete' else (1, 2))])
        h.reach('link')
    with node._managed_cursor() as cur:
        d = node._dal
        got = get_dataspace_info_text(d.PropertyRepository(cur), d.IndexRepository(cur), d.StructureRepository(cur),
                                      d.WeightGroupRepository(cur), d.AttributeGroupRepository(cur), d.LinkRepository(cur))
    h.check(got['domain_str'] == (node.domain or 'None'), 'domain', got)
    parts = [tuple(sorted(p)) for p in node.partition_definitions if p]
    want = sorted({('a', 'b'), *parts}, key=lambda p: ('a' in p, 'b' in p), reverse=True)
    h.check([tuple(x.split('  ')[-1].split(', ')) for x in got['partition_list']] == want, 'partitions, finest first', [got, want])
    gran = {tuple(c for c, f in zip(('a', 'b'), (x, y)) if f): g for g, x, y in query(node, 'SELECT _granularity, a, b FROM main.label_structure')}
    for text, p in zip(got['partition_list'], want):
        h.check(abs(float(text.split('  ')[-2 if text.startswith(' ') else 0].strip()) - gran[p]) < 1e-3, 'with their granularity', [text, gran])
    notes = {n: ', '.join((['default'] if n == dflt else []) + ([] if c else ['incomplete'])) for n, c in complete.items()}
    h.check(got['weights_list'] == ([f'{n} ({t})' if t else n for n, t in sorted(notes.items())] or ['None']), 'weight groups with their state', [got, notes])
    h.reach('incomplete') if not all(complete.values()) else None
    text = {None: ['None'], 'complete': ['other.toron: L (default)'], 'incomplete': ['other.toron: L (default, locally incomplete)']}[link]
    h.check(got['links_list'] == text, 'links with their state', [got, text])


@scenario(quick=dict(defs=2), thorough=dict(defs=3))
def sorting(h):
    """Partitions are sorted by the order of labels; every definition once, the whole space first."""
    from toron.formatters import sort_partition_definitions
    order = h.permutation('order', ['a', 'b', 'c'])
    defs = [set(h.subset(f'def{k}', ['a', 'b', 'c', 'zzz'])) for k in range(h.bound('defs'))]
    with raises(Exception) as err:
        got = sort_partition_definitions([set(d) for d in defs], order)
    bad = any('zzz' in d and len(d) > 0 for d in defs)
    h.check(bool(err) == bad, 'unknown labels are refused', repr(err))
    if err:
        h.reach('refused')
        h.check(isinstance(err[0], ValueError), 'with a ValueError', repr(err))
        return
    h.reach('sorted')
    want = [sorted(d, key=order.index) for d in defs]
    if {'a', 'b', 'c'} not in defs:
        h.reach('whole space added')
        want.append(list(order))
    bits = lambda p: [order[k] in p for k in range(3)]
    want.sort(key=bits, reverse=True)
    h.check(got == want, 'definitions in order of the labels', [got, want])
