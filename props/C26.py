"""Listing, exporting and loading mappings."""
import types
from contextlib import contextmanager
from unittest import mock

from symx.harness import scenario
from .common import new_space, raises, level, code, mappings_of, query, snapshot, set_weights

META = dict(
    title='Mappings can be listed, exported and loaded back without loss',
    statement='Listing or exporting a link gives every stored mapping once with the labels of both records and the label '
              'columns it leaves open, then every target and every source record without a mapping, and nothing else. '
              'Loading an export (by record codes or by labels) gives the same value for every pair of records, in either '
              'direction. Loading refuses data for another domain and, on the command line unless allowed, incomplete mappings.',
    over=['inputs', 'configurations'],
    text='for every combination of mappings, later changes, formats and options within the bound',
    why='tests compare a few fixed files; loss or duplication depends on levels, order and unmatched records together',
    files=['src/toron/graph.py', 'src/toron/mapper.py', 'src/toron/data_service.py', 'src/toron/cli/command_mapping.py', 'src/toron/cli/common.py'],
    mechanism=[('list', 'get_mapping, generate_mapping_elements, write_to_stdout'),
               ('load', 'load_mapping, Mapper_OLD, read_from_stdin, normalize_mapping_data')])

REACH = {'listing': ['exact only', 'open columns', 'unmatched target', 'unmatched source', 'stale source', 'complete'],
         'roundtrip': ['complete', 'refused', 'by code', 'by label', 'both ways', 'added up', 'one-sided'],
         'layout': ['refused', 'swapped', 'late codes', 'labels only', 'unknown rows', 'misplaced'],
         'loading': ['exact', 'ambiguous', 'no match', 'unknown level', 'over limit', 'overlap'],
         'domains': ['refused', 'loaded'], 'wide': ['open', 'exact', 'loaded', 'beyond eight']}
F, A, B = b'\xc0', b'\x80', b'\x40'   # both columns, the first, the second
SRC = ['S', 'T']
TRG = [('A', 'x'), ('A', 'y'), ('B', 'x'), ('C', 'x')]
MAPS = [[(1, 1, F), (1, 2, F), (2, 3, F), (2, 4, F)], [(1, 1, A), (1, 2, A), (2, 3, F), (2, 4, F)], [(1, 1, F), (1, 1, A)], [(2, 3, B), (2, 1, B), (0, 2, F)],
        [(1, 0, F), (2, 1, F), (2, 2, F)], []]
OPEN = {F: None, A: 'b', B: 'a', None: None}


def spaces(pre, vals, domains=('', '')):
    src = new_space(('s',), [(x,) for x in SRC], attrs=(), domain=domains[0])
    trg = new_space(('a', 'b'), TRG, partitions=[{'a'}, {'b'}], attrs=(), domain=domains[1])
    for n in (src, trg):
        n.add_weight_group('wt', make_default=True)
    trg.add_link(src, 'L')
    if pre:
        trg.insert_mappings2(src, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L')] + [k + (v,) for k, v in zip(pre, vals)])
    return src, trg


@contextmanager
def streams(rows=None):
    """CSV reading and writing on the command line, without the text layer."""
    from toron.cli import command_mapping as m
    out = []

    @contextmanager
    def writer(stdout=None):
        yield types.SimpleNamespace(writerow=lambda r: out.append(tuple(r)))
    with mock.patch.object(m, 'csv_stdout_writer', writer), \
            mock.patch.object(m, 'csv', types.SimpleNamespace(reader=lambda stream: iter(stream))):
        yield m, out


def export(src, trg, name='L'):
    with streams() as (m, out):
        m.write_to_stdout(types.SimpleNamespace(link=name, stdout=None), src, trg)
    return out


@scenario(quick=dict(maps=6), thorough=dict(maps=6))
def listing(h):
    """Library and command line listings of a link."""
    from toron.graph import get_mapping
    pre = h.choice('maps', MAPS[:h.bound('maps')])
    vals = [h.real(f'v{k}', 0, 100) for k in range(len(pre))]
    domains = h.choice('domains', [('', ''), ('p', 'q'), ('p', '')])
    src, trg = spaces(pre, vals, domains)
    after = h.choice('after', [None, 'source gone', 'source new', 'target new', 'target gone'])
    if after == 'source gone':
        src.delete_index([{'index_id': 2, 's': 'T'}])
    elif after == 'source new':
        src.insert_index([('U',)], ['s'])
    elif after == 'target new':
        trg.insert_index([('B', 'y')], ['a', 'b'])
    elif after == 'target gone':
        with raises(Exception) as err:
            trg.delete_index([{'index_id': 3, 'a': 'B', 'b': 'x'}])
        if err:     # refused for links with ambiguous mappings
            after = None
    srecs = {r[0]: tuple(r[1:]) for r in query(src, 'SELECT index_id, s FROM main.label_index')}
    trecs = {r[0]: tuple(r[1:]) for r in query(trg, 'SELECT index_id, a, b FROM main.label_index')}
    stored = mappings_of(trg, 'L')
    matched = [(o, i, lv, v) for o, i, lv, v, _ in stored]
    h.check(len(matched) == len(pre) - (sum(i == 3 for _, i, _ in pre) if after == 'target gone' else 0), 'deleting a record only removes its own mappings')
    want = [(0, 0, None, 0.0)] + matched
    right = [(None, i, None, None) for i in trecs if i and i not in {m[1] for m in matched}]
    left = [(o, None, None, None) for o in srecs if o and o not in {m[0] for m in matched}]
    for cond, name in ((right, 'unmatched target'), (left, 'unmatched source'), (any(m[0] not in srecs for m in matched), 'stale source'),
                       (any(m[2] != F for m in matched), 'open columns'), (matched and all(m[2] == F for m in matched), 'exact only'),
                       (not right and not left, 'complete')):
        h.reach(name) if cond else None

    def expect(ident, extra, ambiguous):
        rows = []
        for o, i, lv, v in want + right + left:
            a = (ident(src, o),) + (extra[0] if o is not None else (None,) * len(extra[0])) + srecs.get(o, (None,))
            b = (ident(trg, i),) + (extra[1] if i is not None else (None,) * len(extra[1])) + trecs.get(i, (None, None))
            rows.append(a + (v,) + b + ((OPEN[lv],) if ambiguous else ()))
        return rows

    def compare(got, rows, what):
        n, m = len(want), len(want) + len(right)
        h.check(len(got) == len(rows), f'{what}: every mapping and unmatched record is listed once', [len(got), len(rows)])
        key = lambda r: [(x is None, str(x)) for k, x in enumerate(r) if k != pos]
        for lo, hi in ((0, n), (n, m), (m, len(rows))):
            g, w = sorted(got[lo:hi], key=key), sorted(rows[lo:hi], key=key)
            h.check_same([list(x) for x in g], [list(x) for x in w], f'{what}: rows are as stored, matched first, then target, then source records')

    dom = tuple((d,) if d else () for d in domains)
    pos = 1 + len(dom[0]) + 1
    listed = list(get_mapping(src, trg, 'L'))
    head = ('index_id',) + ('domain',) * len(dom[0]) + ('s', 'L', 'index_id') + ('domain',) * len(dom[1]) + ('a', 'b', 'ambiguous_fields')
    h.check(tuple(listed[0]) == head, 'the header names the columns', listed[0])
    compare(listed[1:], expect(lambda sp, i: i, dom, True), 'listing')
    out = export(src, trg)
    amb = any(m[2] != F for m in matched)
    pos = 2
    h.check(out[0] == (f'{domains[0]}_index_code'.lstrip('_'), 's', 'L', f'{domains[1]}_index_code'.lstrip('_'), 'a', 'b') +
            (('ambiguous_fields',) if amb else ()), 'the exported header names the columns', out[0])
    compare(out[1:], expect(lambda sp, i: None if i is None else code(sp, i), ((), ()), amb), 'export')
    h.observe('rows', len(listed))


def totals(h, rows):
    out = {}
    for o, i, lv, v, _ in rows:
        h.reach('added up') if (o, i) in out else None
        out[o, i] = out.get((o, i), 0) + v
    return out


@scenario(quick=dict(maps=6), thorough=dict(maps=6))
def roundtrip(h):
    """Export on the command line and load the result into empty links."""
    pre = h.choice('maps', MAPS[:h.bound('maps')])
    vals = [h.real(f'v{k}', 0, 100) for k in range(len(pre))]
    src, trg = spaces(pre, vals)
    stored = mappings_of(trg, 'L')
    out = export(src, trg)
    codes = h.choice('codes', ['both', 'source', 'target', 'none'])
    if codes != 'both' and any(m[2] != F for m in stored):
        return     # the level is not part of a record's labels
    drop = {'both': (), 'source': (3,), 'target': (0,), 'none': (0, 3)}[codes]
    rows = [['' if x is None else x for k, x in enumerate(r) if k not in drop and k < 6] for r in out]
    swap = h.flag('swap')      # columns of FILE2 first
    if swap:
        p = rows[0].index('L')
        rows = [r[p + 1:] + [r[p]] + r[:p] for r in rows]
        if codes == 'none':
            return     # without codes the order of the columns decides
    h.reach('by code' if codes == 'both' else 'by label')
    direction = h.choice('direction', ['both', 'right', 'left'])
    allow = h.flag('allow')
    args = types.SimpleNamespace(stdin=[list(r) for r in rows], link='M', direction=direction, match_limit=h.choice('limit', [1, 2]),
                                 allow_overlapping=False, allow_incomplete=allow)
    rows[0][rows[0].index('L')] = 'M'
    args.stdin = rows
    trg.add_link(src, 'M')
    src.add_link(trg, 'M')
    before = snapshot(src), snapshot(trg)
    complete = {o for o, *_ in stored} >= {1, 2} and {i for _, i, *_ in stored} >= {1, 2, 3, 4}
    with streams() as (m, _):
        with raises(Exception) as err:
            m.read_from_stdin(args, src, trg)
    h.check(bool(err) == (not allow and not complete), 'incomplete mappings are refused unless allowed', [repr(err), complete])
    if err:
        h.reach('refused')
        h.check_same([snapshot(src), snapshot(trg)], list(before), 'a refused mapping changes nothing')
        if stored:
            h.reach('one-sided')
        return
    h.reach('complete' if complete else 'both ways')
    h.reach('both ways') if direction == 'both' else None
    want = totals(h, stored)
    for node, name, flip in ((trg, 'right', False), (src, 'left', True)):
        rows_ = mappings_of(node, 'M')
        if direction not in (name, 'both'):
            h.check(rows_ == [], f'{name}: nothing is loaded in a direction that was not asked for')
            continue
        got = totals(h, rows_)
        exp = {(i, o) if flip else (o, i): v for (o, i), v in want.items()}
        h.check_same(sorted(got), sorted(exp), f'{name}: exactly the exported pairs are loaded')
        for k, v in exp.items():
            h.check_eq(got[k], v, f'{name}: values are kept')
        h.check(all(r[2] == (F if not flip else level(1)) for r in rows_), f'{name}: records given by code or full labels are exact')
    h.observe('rows', len(rows))


SIDES = {'source': [['code', 's'], ['s', 'code'], ['code', 'note', 's'], ['s'], ['code']],
         'target': [['code', 'a', 'b'], ['b', 'code', 'a'], ['a', 'b'], ['b', 'a'], ['code'], ['a', 'code']]}


@scenario(quick=dict(leads=3), thorough=dict(leads=7))
def layout(h):
    """Column orders of a mapping file, with codes on all rows, on later rows or on none."""
    pairs = [(k, h.choice('target of row 1', [1, 2]) if k == 1 else 2 - k % 2) for k in range(1, 10)]
    cols = {s: h.choice(f'{s} columns', v) for s, v in SIDES.items()}
    lead, where = h.choice('rows without code', [(0, 'both'), (1, 'source'), (8, 'target'), (9, 'both'), (8, 'source'), (3, 'target'), (9, 'target')][:h.bound('leads')])
    swap, back = h.flag('swap'), h.flag('backward')
    src = new_space(('s',), [(f'S{k}',) for k in range(1, 10)], attrs=())
    trg = new_space(('a', 'b'), [('A', 'x'), ('B', 'y')], partitions=[{'a'}], attrs=())
    for n in (src, trg):
        n.add_weight_group('wt', make_default=True)
    trg.add_link(src, 'L')
    src.add_link(trg, 'L')
    vals = {k: h.real(f'v{k}', 0, 100) if k in (1, 9) else float(k) for k, _ in pairs}
    labels = {'source': lambda i: {'s': f'S{i}', 'note': 'S1'}, 'target': lambda i: {'a': ' AB'[i], 'b': ' xy'[i]}}
    nodes = {'source': src, 'target': trg}
    order = ['target', 'source'] if swap else ['source', 'target']
    plain = all(cols[s] == SIDES[s][0] for s in cols)
    place = h.choice('place of the values', ['between', 'first', 'last']) if plain else 'between'
    put = {'between': lambda x, v, y: x + v + y, 'first': lambda x, v, y: v + x + y, 'last': lambda x, v, y: x + y + v}[place]
    rows = [put(cols[order[0]], ['L'], cols[order[1]])]
    known, seen = {}, {}
    for n, (o, i) in enumerate(pairs):
        cells = {}
        for side, k in (('source', o), ('target', i)):
            blank = n < lead and where in ('both', side)
            rec = {**labels[side](k), 'code': '' if blank else code(nodes[side], k)}
            cells[side] = [rec[c] for c in cols[side]]
            usable = 'code' in cols[side] and not blank
            seen[side] = seen.get(side, False) or usable
            full = {'s'} <= set(cols[side]) if side == 'source' else {'a', 'b'} <= set(cols[side])
            known[n, side] = usable or full
        rows.append(put(cells[order[0]], [vals[o]], cells[order[1]]))
    exact = {s: cols[s] == nodes[s].index_columns for s in cols}
    if any(seen.values()):
        fail = not all(seen[s] or exact[s] for s in cols) or place != 'between'
        h.reach('misplaced') if place != 'between' else None
    else:
        fail = swap or not all(exact.values())
    args = types.SimpleNamespace(stdin=rows, link='L', direction='left' if back else 'right', match_limit=1, allow_overlapping=False, allow_incomplete=True)
    before = snapshot(src), snapshot(trg)
    with streams() as (m, _):
        with raises(Exception) as err:
            m.read_from_stdin(args, src, trg)
    h.check(bool(err) == fail, 'refused exactly if the columns of a side cannot be told', [repr(err), rows[:2]])
    if err:
        h.reach('refused')
        h.check_same([snapshot(src), snapshot(trg)], list(before), 'a refused mapping changes nothing')
        return
    h.reach('swapped') if swap else None
    h.reach('late codes') if lead and any(seen.values()) else None
    h.reach('labels only') if not any(seen.values()) else None
    want = {(o, i): vals[o] for n, (o, i) in enumerate(pairs) if known[n, 'source'] and known[n, 'target'] or
            ('a' in cols['target'] and known[n, 'source'] and not known[n, 'target'])}
    h.reach('unknown rows') if len(want) < len(pairs) else None
    got = mappings_of(src if back else trg, 'L')
    got = {((i, o) if back else (o, i)): v for o, i, _, v, _ in got}
    h.check_same(got, want, 'each row is loaded for the records that it names')
    h.check(mappings_of(trg if back else src, 'L') == [], 'the other direction stays empty')


ROWKINDS = [('S', 'A', 'x'), ('S', 'A', ''), ('T', 'B', ''), ('T', '', 'x'), ('T', 'D', 'x'), ('U', 'A', 'y'), ('', 'A', 'x'), ('T', '', '')]


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def loading(h):
    """load_mapping: label rows, unknown labels and levels, ambiguity."""
    from toron.graph import load_mapping
    kinds = [h.choice(f'row{k}', ROWKINDS) for k in range(h.bound('rows'))]
    vals = [h.real(f'v{k}', 0, 100) for k in range(len(kinds))]
    limit, overlapping = h.choice('options', [(1, False), (3, False), (3, True)])
    direction = h.choice('direction', ['->', '<-', '<->'])
    src, trg = spaces([], [])
    ws = [h.real(f'w{k}', 0.5, 100) for k in range(4)]
    set_weights(trg, 'tw', TRG, ws, default=True)
    load_mapping(src, direction, trg, 'M', [(s, v, a, b) for (s, a, b), v in zip(kinds, vals)], ['s', 'M', 'a', 'b'], match_limit=limit,
                 allow_overlapping=overlapping)
    left = {n: SRC.index(k[0]) + 1 for n, k in enumerate(kinds) if k[0] in SRC}
    right, finer = {}, set()
    for lv in (F, A, B):
        seen = set()
        for n, (_, a, b) in enumerate(kinds):
            if (a != '', b != '') != {F: (True, True), A: (True, False), B: (False, True)}[lv]:
                continue
            ids = [i + 1 for i, r in enumerate(TRG) if (not a or a == r[0]) and (not b or b == r[1])]
            if not ids:
                h.reach('no match')
            elif len(ids) > limit:
                h.reach('over limit')
                ids = []
            elif len(ids) > 1:
                h.reach('ambiguous')
                if finer & set(ids):
                    h.reach('overlap')
                    ids = ids if overlapping else [i for i in ids if i not in finer]
            elif lv == F:
                h.reach('exact')
            seen |= set(ids)
            if ids:
                tot = h.sum_(ws[i - 1] for i in ids)
                right[n] = (lv, {i: ws[i - 1] / tot for i in ids})
        finer |= seen
    h.reach('unknown level') if any(not any(k[1:]) for k in kinds) else None
    fwd, back = {}, {}
    for n in left:
        if n in right:
            lv, ps = right[n]
            for i, p in ps.items():
                fwd[left[n], i, lv] = fwd.get((left[n], i, lv), 0) + vals[n] * p
                back[i, left[n], level(1)] = back.get((i, left[n], level(1)), 0) + vals[n] * p
    for node, want, d in ((trg, fwd, '>'), (src, back, '<')):
        if d not in direction:
            h.check(not [k for k in node.links if k.name == 'M'], 'no link is made in a direction that was not asked for')
            continue
        got = {(o, i, lv): v for o, i, lv, v, _ in mappings_of(node, 'M')}
        h.check_same(sorted((a, b, c.hex()) for a, b, c in got), sorted((a, b, c.hex()) for a, b, c in want), f'{d}: exactly the matched pairs are mapped')
        for k, v in want.items():
            h.check_eq(got[k], v, f'{d}: each row is split by the weights')
    h.observe('n', len(fwd))


@scenario()
def domains(h):
    """Rows for another domain refuse the load; matching columns are dropped."""
    from toron.graph import load_mapping
    src, trg = spaces([], [], ('p', 'q'))
    where = h.choice('columns', ['none', 'left', 'right', 'both'])
    dl, dr = h.choice('left', ['p', 'q', '']), h.choice('right', ['q', 'p'])
    cols, row = ['s'], ['S']
    if where in ('left', 'both'):
        cols, row = h.choice('lpos', [(['domain', 's'], [dl, 'S']), (['s', 'domain'], ['S', dl])])
    tail, trow = ['a', 'b'], ['A', 'x']
    if where in ('right', 'both'):
        tail, trow = h.choice('rpos', [(['domain', 'a', 'b'], [dr, 'A', 'x']), (['a', 'domain', 'b'], ['A', dr, 'x'])])
    v = h.real('v', 0, 100)
    bad = where in ('left', 'both') and dl != 'p' or where in ('right', 'both') and dr != 'q'
    with raises(Exception) as err:
        load_mapping(src, '->', trg, 'M', [row + [v] + trow], cols + ['M'] + tail)
    h.check(bool(err) == bool(bad), 'data for another domain is refused', repr(err))
    h.reach('refused' if bad else 'loaded')
    if not err:
        h.check_same([list(r[:4]) for r in mappings_of(trg, 'M')], [[1, 1, F, v]], 'the row is loaded')
    else:
        h.check(not [k for k in trg.links if k.name == 'M'], 'nothing is loaded')


@scenario(quick=dict(sizes=2), thorough=dict(sizes=4))
def wide(h):
    """Any number of label columns: the open columns of a level, listed, exported and loaded."""
    from toron.graph import get_mapping, load_mapping
    n = h.choice('columns', [9, 3, 8, 17][:h.bound('sizes')])
    cols = [f'c{k}' for k in range(n)]
    cut = h.choice('level', [k for k in range(1, n + 1)])      # the first columns, or all but the first ones
    tail = h.flag('last') and cut < n
    bits = [(k >= cut) if tail else (k < cut) for k in range(n)]
    h.reach('open' if cut < n else 'exact')
    h.reach('beyond eight') if n > 8 and not all(bits[8:]) else None
    rows = [tuple(f'{c}x' for c in cols), tuple(f'{c}x' if b else f'{c}y' for c, b in zip(cols, bits))]
    rows = list(dict.fromkeys(rows))
    src = new_space(('s',), [('S',)], attrs=())
    trg = new_space(cols, rows, partitions=[{c for c, b in zip(cols, bits) if b}], attrs=())
    w = [h.real(f'w{k}', 0.5, 9) for k in range(len(rows))]
    for nd, r, x in ((src, [('S',)], [1.0]), (trg, rows, w)):
        set_weights(nd, 'wt', r, x, labels=nd.index_columns, default=True)
    v = h.real('v', 0.5, 9)
    if h.flag('load'):
        h.reach('loaded')
        load_mapping(src, '->', trg, 'L', [['S', v] + [f'{c}x' if b else '' for c, b in zip(cols, bits)]], ['s', 'L'] + cols, match_limit=2)
        got = mappings_of(trg, 'L')
        h.check([(o, i, bytes(lv)) for o, i, lv, _, _ in got] == [(1, i + 1, level(*bits)) for i in range(len(rows))], 'the row is mapped to all records that it matches', [list(map(str, r)) for r in got])
        for _, i, _, x, _ in got:
            h.check_eq(x, v * w[i - 1] / h.sum_(w), 'split by the weights')
    else:
        trg.add_link(src, 'L')
        trg.insert_mappings2(src, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L')] + [(1, i + 1, level(*bits), v) for i in range(len(rows))])
    want = ', '.join(c for c, b in zip(cols, bits) if not b) or None
    for got in (list(get_mapping(src, trg, 'L', header=False)), [r if len(r) == n + 5 else r + (None,) for r in export(src, trg)[1:]]):
        rest = [r for r in got if r[1] == 'S']
        h.check([r[4:4 + n] for r in rest] == rows and all(r[-1] == want for r in rest), 'each mapping names the columns that it leaves open', [[str(x) for x in r[-2:]] for r in got])
