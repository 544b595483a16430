"""Index codes; index and quantity files of the command line."""
import io
import types
from contextlib import contextmanager
from unittest import mock

from symx.harness import scenario
from .common import code, new_space, raises, snapshot, set_weights, query, add_quantities

META = dict(
    title='Index and quantity files from the command line identify and restore data',
    statement='The code of a record is accepted for this record of this dataset only: a code whose record number, or whose '
              'dataset, was exchanged is refused whenever the two differ within four bytes. An exported index or quantity file '
              'has every record once and loads back without any change; edits in the file change exactly the edited records '
              'as the conflict options say. A refused file changes nothing.',
    over=['inputs', 'configurations'],
    text='for every 63-bit record number, 128-bit dataset id, file edit and option within the bound',
    why='tests check a few codes and files; detection of exchanged codes is a statement about all pairs of codes',
    files=['src/toron/cli/common.py', 'src/toron/cli/command_index.py', 'src/toron/cli/command_quantity.py', 'src/toron/space.py'],
    mechanism=[('codes', 'index_id_to_code, index_code_to_id, get_index_code_position, remap_index_codes_to_index_ids'),
               ('files', 'write_to_stdout, read_from_stdin'), ('load', 'DataSpace.insert_index, insert_quantities2')])

REACH = {'codes': ['accepted'], 'exchanged': ['record', 'dataset'], 'malformed': ['refused', 'accepted'],
         'column_position': ['one', 'none', 'several'],
         'index_file': ['unchanged', 'refused', 'label replaced', 'label ignored', 'weight replaced', 'weight ignored', 'added', 'weight added', 'relocated'],
         'late_codes': ['label', 'weight', 'refused'], 'csv_text': ['restored'], 'quantity_file': ['restored', 'refused', 'replaced', 'summed', 'kept', 'other space']}


@scenario()
def codes(h):
    """The code of every record is accepted and gives the record back."""
    from toron.cli.common import index_id_to_code, index_code_to_id, is_index_code
    h.tokens()
    i, u = h.word('record', 63), h.word('dataset', 128)
    ident = h.bytes_of(u, 16)
    c = index_id_to_code(i, ident)
    h.check(is_index_code(c, ident), 'own code is recognized')
    h.check_eq(index_code_to_id(c, ident), i, 'own code gives the record')
    h.reach('accepted')


@scenario()
def exchanged(h):
    """Codes whose record number or dataset was exchanged."""
    from toron.cli.common import index_id_to_code, index_code_to_id, is_index_code
    h.tokens()
    what = h.choice('what', ['record', 'dataset'])
    i, u = h.word('record', 63), h.word('dataset', 128)
    d = h.word('difference', 32, nonzero=True)
    if what == 'record':
        j, w = h.flip(i, d, h.choice('from bit', range(0, 32, 8))), u
    else:
        j, w = i, h.flip(u, d, h.choice('from bit', range(0, 97, 8)))
    tail = index_id_to_code(i, h.bytes_of(u, 16)).partition('X')[2]
    head = index_id_to_code(j, h.bytes_of(w, 16)).partition('X')[0]
    h.check(not is_index_code(f'{head}X{tail}', h.bytes_of(w, 16)), 'a code with an exchanged record or dataset is not recognized')
    with raises(Exception) as err:
        index_code_to_id(f'{head}X{tail}', h.bytes_of(w, 16))
    h.check(err and isinstance(err[0], ValueError), 'and refused with a ValueError', repr(err))
    h.reach(what)


@scenario(quick=dict(chars=3), thorough=dict(chars=4))
def malformed(h):
    """Any other text is refused with a ValueError or is a way to write a valid code."""
    from toron.cli.common import index_code_to_id, is_index_code
    from binascii import crc32
    ident = bytes(range(16))
    good = f'7X{crc32((7).to_bytes(8, "big") + ident):08X}'
    start = h.choice('start', ['', '7X', '9' * 25, '9223372036854775808X', good[:-1]])
    rest = h.text('rest', h.bound('chars'), '0X-F ' + good[-1])
    text = start + rest
    if start == '7X' and h.flag('inserted'):
        text = text + good[2:]
    with raises(Exception) as err:
        got = index_code_to_id(text, ident)
    known = is_index_code(text, ident)
    h.check(known == (not err), 'is_index_code agrees with index_code_to_id', [text, repr(err)])
    if err:
        h.reach('refused')
        h.check(isinstance(err[0], ValueError), 'malformed codes raise ValueError', repr(err))
    else:
        h.reach('accepted')
        n, _, crc = text.partition('X')
        n, crc = int(str(n)), int(str(crc), 16)
        h.check(n == got and crc == crc32(n.to_bytes(8, 'big', signed=True) + ident), 'an accepted text has the number and the checksum of the record', text)


@scenario(quick=dict(rows=2))
def column_position(h):
    """The code column is found if exactly one column has codes of this dataset; its codes are replaced by numbers."""
    from toron.cli import common
    mine, theirs = bytes(range(16)), bytes(range(1, 17))
    cells = {'mine': common.index_id_to_code(5, mine), 'theirs': common.index_id_to_code(5, theirs), 'text': 'X', 'empty': ''}
    kinds = [[h.choice(f'cell{r}{c}', list(cells)) for c in range(3)] for r in range(h.bound('rows'))]
    rows = [['p', 'q', 'r']] + [[cells[k] for k in row] for row in kinds]
    cols = sorted({c for row in kinds for c, k in enumerate(row) if k == 'mine'})
    with raises(Exception) as err:
        got = common.get_index_code_position(rows, mine)
    h.check(bool(err) == (len(cols) != 1), 'found exactly if a single column has codes of the dataset', [repr(err), kinds])
    if err:
        h.check(isinstance(err[0], RuntimeError), 'otherwise a RuntimeError', repr(err))
        h.reach('several' if cols else 'none')
        return
    h.reach('one')
    h.check(got == cols[0], 'position of the column', [got, cols])
    with raises(Exception) as err:
        out = [list(r) for r in common.remap_index_codes_to_index_ids(iter(rows), mine, got)]
    bad = any(row[got] in ('theirs', 'text') for row in kinds)
    h.check(bool(err) == bad, 'codes of other datasets in the column are refused', repr(err))
    if not err:
        want = [['index_id' if c == got else x for c, x in enumerate(rows[0])]]
        want += [[5 if c == got and x else x for c, x in enumerate(r)] for r in rows[1:]]
        h.check(out == want, 'only the code column changes', [out, want])
        h.check(rows[0] == ['p', 'q', 'r'], 'the input rows stay as they are')


@contextmanager
def streams(modname):
    """CSV reading and writing on the command line, without the text layer."""
    import importlib
    m = importlib.import_module(f'toron.cli.{modname}')
    out = []

    @contextmanager
    def writer(stdout=None):
        yield types.SimpleNamespace(writerow=lambda r: out.append(list(r)))
    with mock.patch.object(m, 'csv_stdout_writer', writer), \
            mock.patch.object(m, 'csv', types.SimpleNamespace(reader=lambda stream: iter(stream))):
        yield m, out


ROWS = [('A', 'x'), ('A', 'y'), ('B', 'x')]
EDITS = ['none', 'label', 'weight', 'no weight', 'new row', 'no codes', 'foreign code', 'no label', 'order', 'missing row', 'half labels']


@scenario(quick=dict(edits=2), thorough=dict(edits=2))
def index_file(h):
    """Export the index, edit the file, load it."""
    node = new_space(('a', 'b'), ROWS, attrs=(), domain=h.choice('domain', [None, 'dom one']))
    w = [h.real(f'w{k}', 0, 100) for k in range(3)]
    z = [h.real(f'z{k}', 0, 100) for k in range(2)]
    order = h.choice('default', [0, 1])
    set_weights(node, 'w', ROWS, w, default=not order)
    set_weights(node, 'z', ROWS, z + [None], default=bool(order))
    with streams('command_index') as (m, out):
        m.write_to_stdout(types.SimpleNamespace(stdout=None), node)
    groups = ['w', 'z'] if not order else ['z', 'w']
    head = ('dom_one_' if node.domain else '') + 'index_code'
    vals = {'w': w, 'z': z + [None]}
    want = [[head, 'a', 'b', *groups], [code(node, 0), '-', '-', 0.0, 0.0]]
    want += [[code(node, k + 1), *ROWS[k], *(vals[g][k] for g in groups)] for k in range(3)]
    h.check_same(out, want, 'the export has every record once, with code, labels and weights')
    rows = [['' if c is None else c for c in r] for r in out]
    other = new_space(('a', 'b'), ROWS, attrs=())
    gw, gz = 3 + groups.index('w'), 3 + groups.index('z')
    label, weight, added = None, {}, None
    for e in range(h.bound('edits')):
        edit = h.choice(f'edit{e}', EDITS)
        if edit == 'label':
            rows[2][2] = label = 'n'
        elif edit == 'weight':
            rows[2][gw] = weight['w'] = h.real(f'new{e}', 0, 100)
        elif edit == 'no weight':
            rows[3][gw] = ''
        elif edit == 'new row':
            weight['new'] = h.real(f'added{e}', 0, 100)
            rows.append(['', 'C', 'x'] + [weight['new'] if g == gw else '' for g in (3, 4)])
            added = True
        elif edit == 'no codes':
            rows = [[''] + r[1:] for r in rows]
            rows[0][0] = head
        elif edit == 'foreign code':
            rows[3][0] = code(other, 3 if h.flag(f'same number{e}') else 2)
        elif edit == 'no label':
            rows[3][1] = ''
        elif edit == 'order':
            rows = rows[:1] + rows[:0:-1]
        elif edit == 'missing row':
            del rows[2]
            label = None
        elif edit == 'half labels':
            rows = [r[:2] + [f'x{k}' if not k else 'x'] + r[3:] for k, r in enumerate(rows)]
    labelc, weightc = h.choice('label conflict', ['abort', 'ignore', 'replace']), h.choice('weight conflict', ['abort', 'ignore', 'replace'])
    # what has to happen
    names = rows[0]
    state = {0: ('-', '-'), **{k + 1: r for k, r in enumerate(ROWS)}}
    wts = {(g, k + 1): v for g in 'wz' for k, v in enumerate(vals[g]) if v is not None}
    fail = 'b' not in names
    foreign = {code(other, k) for k in (2, 3)}
    coded = any(r[0] and r[0] not in foreign for r in rows[1:])
    for r in rows[1:]:
        if fail:
            break
        rec = dict(zip(names, r))
        labels = (rec['a'], rec['b'])
        if coded and r[0] in foreign:
            fail = True
            break
        if '' in labels:
            continue
        if coded and r[0]:
            i = next(k for k in (0, 1, 2, 3) if r[0] == code(node, k))
            if labels != state[i]:
                if labelc == 'abort':
                    fail = True
                    break
                h.reach(f'label {labelc}d')
                if labelc == 'replace':
                    state[i] = labels
        else:
            found = [k for k, v in state.items() if v == labels]
            h.reach('added' if not found else 'relocated')
            i = found[0] if found else len(state)
            state.setdefault(i, labels)
        for g in groups:
            v = rec[g]
            if v == '' or i == 0:      # the undefined record has no weight
                continue
            if (g, i) in wts:
                if weightc == 'abort':
                    fail = True
                    break
                h.reach(f'weight {weightc}d')
                if weightc == 'replace':
                    wts[g, i] = v
            else:
                h.reach('weight added')
                wts[g, i] = v
        if fail:
            break
    before = snapshot(node)
    with streams('command_index') as (m, _):
        with raises(Exception) as err:
            rc = m.read_from_stdin(types.SimpleNamespace(stdin=[list(r) for r in rows], on_label_conflict=labelc, on_weight_conflict=weightc), node)
    h.check(bool(err or rc != 0) == fail, 'the load is refused exactly on an unresolved conflict or a foreign code', [repr(err), fail])
    if fail:
        h.reach('refused')
        h.check_same(snapshot(node), before, 'a refused file changes nothing')
        return
    got = {r[0]: tuple(r[1:]) for r in query(node, 'SELECT index_id, a, b FROM main.label_index')}
    h.check_same(got, state, 'records are as the file says')
    stored = {(r[0], r[1]): r[2] for r in query(node, 'SELECT name, index_id, weight_value FROM main.weight JOIN main.weight_group USING (weight_group_id)')}
    h.check_same(stored, wts, 'weights are as the file says')
    for name, done in query(node, 'SELECT name, is_complete FROM main.weight_group'):
        h.check(bool(done) == all((name, k) in wts for k in state if k), 'completeness of the weight groups is up to date', name)
    if state == {0: ('-', '-'), **{k + 1: r for k, r in enumerate(ROWS)}} and not weight:
        h.reach('unchanged')
        h.check_same(snapshot(node), before, 'a file without changed values changes nothing')
    h.observe('state', sorted(state.items()))


@scenario(quick=dict(sizes=4), thorough=dict(sizes=7))
def late_codes(h):
    """New rows, without a code, before the edited rows of an exported index."""
    n = h.choice('new rows', [12, 1, 256, 9, 255, 10, 300][:h.bound('sizes')])
    node = new_space(('a', 'b'), ROWS, attrs=())
    w = [h.real(f'w{k}', 0, 100) for k in range(3)]
    v = h.real('v', 0, 100)
    set_weights(node, 'w', ROWS, w, default=True)
    rows = [['index_code', 'a', 'b', 'w']] + [['', f'N{k}', 'x', ''] for k in range(n)]
    what = h.choice('edit', ['label', 'weight'])
    rows.append([code(node, 2), 'A', 'n' if what == 'label' else 'y', w[1] if what == 'label' else v])
    before = snapshot(node)
    with streams('command_index') as (m, _):
        with raises(Exception) as err:
            rc = m.read_from_stdin(types.SimpleNamespace(stdin=rows, on_label_conflict='replace', on_weight_conflict='replace'), node)
    if err or rc != 0:
        h.check(n > 200, 'codes are found after some new rows', [n, repr(err)])
        h.reach('refused')
        h.check_same(snapshot(node), before, 'a refused file changes nothing')
        return
    h.reach(what)
    got = {r[0]: tuple(r[1:]) for r in query(node, 'SELECT index_id, a, b FROM main.label_index')}
    want = {0: ('-', '-'), **{k + 1: r for k, r in enumerate(ROWS)}, **{k + 4: (f'N{k}', 'x') for k in range(n)}}
    want[2] = ('A', rows[-1][2])
    h.check(got == want, 'the new records are added, the record with the code is edited', sorted(got.items())[:6])
    stored = {r[0]: r[1] for r in query(node, 'SELECT index_id, weight_value FROM main.weight')}
    h.check_same(stored, {1: w[0], 2: rows[-1][3], 3: w[2]}, 'weights are as the file says')


NASTY = ['plain', 'with,comma', 'with "quotes"', 'two\nlines', ' spaces ', 'crlf\r\nend', "it's", 'é', '"', '1X00000000', '\t', "=1+1"]


@scenario()
def csv_text(h):
    """Through real CSV text: labels with separators, quotes and newlines."""
    from toron.cli import command_index, command_quantity
    a, b = h.choice('a', NASTY), h.choice('b', NASTY)
    node = new_space(('a', 'b'), [(a, b), ('z', a)], attrs=('k',), partitions=[{'a'}])
    set_weights(node, 'w', [(a, b), ('z', a)], [0.1, 1e-300], default=True)
    add_quantities(node, [(a, b, b, 0.1 + 0.2), (a, '', a, -7)], attrs=('k',))

    def text_of(mod):
        raw = types.SimpleNamespace(buffer=io.BytesIO())
        mod.write_to_stdout(types.SimpleNamespace(stdout=raw), node)
        return io.StringIO(raw.buffer.getvalue().decode('utf-8'), newline='')
    before = snapshot(node)
    itext, qtext = text_of(command_index), text_of(command_quantity)
    copy = new_space(('a', 'b'), attrs=('k',), partitions=[{'a'}])
    copy.add_weight_group('w', make_default=True)
    rc = command_index.read_from_stdin(types.SimpleNamespace(stdin=itext, on_label_conflict='abort', on_weight_conflict='replace'), node)
    h.check(rc == 0, 'the index file is accepted')
    rc = command_quantity.read_from_stdin(types.SimpleNamespace(stdin=qtext, value_column='quantity', allow_invalid_label=False,
                                                               allow_invalid_partition=False, on_existing='replace'), node)
    h.check(rc == 0, 'the quantity file is accepted')
    h.check_same(snapshot(node), before, 'loading both files back changes nothing')
    itext.seek(0), qtext.seek(0)
    rc = command_index.read_from_stdin(types.SimpleNamespace(stdin=itext, on_label_conflict='abort', on_weight_conflict='abort'), copy)
    rc += command_quantity.read_from_stdin(types.SimpleNamespace(stdin=qtext, value_column='quantity', allow_invalid_label=False,
                                                                allow_invalid_partition=False, on_existing='abort'), copy)
    h.check(rc == 0, 'another space with the same labels accepts both files')
    skip = ('property',)
    h.check_same(snapshot(copy, skip), {k: v for k, v in before.items() if k not in skip}, 'and has the same content')
    h.reach('restored')


@scenario()
def quantity_file(h):
    """Export quantities and load them into the same, an empty or a smaller space."""
    dom = h.choice('domain', [None, 'd'])
    node = new_space(('a', 'b'), ROWS, partitions=[{'a'}], attrs=('k', 'm'), domain=dom)
    q = [h.real(f'q{k}', -100, 100) for k in range(3)]
    recs = [('A', 'x', 'u', ''), ('A', '', 'u', 'v'), h.choice('third', [('B', '', '', 'v'), ('A', 'x', '', 'u')])]
    add_quantities(node, [r + (v,) for r, v in zip(recs, q)], attrs=('k', 'm'))
    with streams('command_quantity') as (m, out):
        m.write_to_stdout(types.SimpleNamespace(stdout=None), node)
    d = [dom] if dom else []
    h.check_same(out[0], (['domain'] if dom else []) + ['a', 'b', 'k', 'm', 'quantity'], 'header of the export')
    key = lambda r: [str(x) for x in r[:-1]]
    h.check_same(sorted(out[1:], key=key), sorted([d + [x or None if k > 1 else x for k, x in enumerate(r)] + [v] for r, v in zip(recs, q)], key=key),
                 'the export has every quantity once')
    rows = [['' if c is None else c for c in r] for r in out]
    target = h.choice('target', ['same', 'empty', 'smaller', 'other domain'])
    mode = h.choice('mode', ['abort', 'ignore', 'replace', 'sum'])
    allow = h.flag('allow')
    dest = node
    if target != 'same':
        h.reach('other space')
        dest = new_space(('a', 'b'), ROWS[1:] if target == 'smaller' else ROWS, partitions=[{'a'}], attrs=('k', 'm'),
                         domain='e' if target == 'other domain' else dom)
    old = dict(zip(recs, q)) if target == 'same' else {}
    fail = target == 'other domain' and bool(dom) or bool(old) and mode == 'abort' or \
        target == 'smaller' and not allow
    want = {}
    for r, v in zip(recs, q):
        have = old.get(r)
        want[r] = v if have is None or mode == 'replace' else have + v if mode == 'sum' else have
    before = snapshot(dest)
    with streams('command_quantity') as (m, _):
        with raises(Exception) as err:
            rc = m.read_from_stdin(types.SimpleNamespace(stdin=rows, value_column='quantity', allow_invalid_label=allow,
                                                         allow_invalid_partition=False, on_existing=mode), dest)
    h.check(bool(err or rc != 0) == fail, 'refused exactly for another domain, unknown labels or existing quantities', [repr(err), fail])
    if fail:
        h.reach('refused')
        h.check_same(snapshot(dest), before, 'a refused file changes nothing')
        return
    got = {tuple(x or '' for x in r[len(r) - 5:4 + len(r) - 5]): r[-1] for r in dest.select_quantities2(header=False)}
    h.check_same(got, want, 'quantities are as the file and the option say')
    h.reach({'ignore': 'kept', 'replace': 'replaced', 'sum': 'summed'}[mode] if old else 'restored')
