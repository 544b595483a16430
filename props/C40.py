"""Messages and descriptions state exactly what happened and what is stored."""
import logging
import re

from symx.harness import scenario
from .matching import LABELS, ROWS as MROWS, ROWKINDS, ALL, weighted, expected, check_messages
from .common import new_space, raises, weights_of, mappings_of, index_rows, query, set_weights, link_spaces, messages, number, cli_streams, add_quantities

META = dict(
    title='Reports are exact: no row is skipped, ignored or merged silently',
    statement='Every row that an operation skips, ignores, replaces, adds up or merges is reported by a message with the exact '
              'number of such rows for each reason, and the numbers of loaded, updated, deleted and reified records reported '
              'are the numbers that changed. The description of a mapping states exactly how many records of each side take '
              'part and how many no longer exist, and the text form of a space states what is stored.',
    over=['inputs', 'configurations'],
    text='for every combination of rows, conflict options and stored content within the bound',
    why='tests check one message per operation; counts go wrong for mixed and repeated rows and for particular options',
    files=['src/toron/space.py', 'src/toron/graph.py', 'src/toron/data_service.py', 'src/toron/mapper.py'],
    mechanism=[('count', 'warn_if_issues and the counters of each operation'), ('mapping', 'get_mapping_info_str, _get_mapping_stats'),
               ('space', 'DataSpace.__repr__')])

REACH = {'weights': ['inserted', 'skip', 'overwrite', 'sum', 'number', 'id', 'labels', 'label', 'undefined'],
         'weight_rows': ['no index', 'mismatch', 'no weight', 'inserted', 'changed'],
         'weight_criteria': ['deleted', 'no weight'],
         'index': ['inserted', 'empty', 'label ignored', 'label replaced', 'weight ignored', 'weight replaced', 'weight'],
         'relabel': ['empty', 'no index', 'merged', 'updated'], 'index_delete': ['no index', 'mismatch', 'deleted'],
         'mappings': ['no index', 'mismatch', 'level', 'inserted', 'updated'], 'mapping_rows2': ['level', 'undefined', 'inserted', 'nothing'],
         'mapping_delete': ['no index', 'mismatch', 'value', 'approximate', 'deleted', 'no mapping'],
         'mapping_criteria': ['deleted', 'level', 'reified'],
         'quantities': ['no attrs', 'invalid partition', 'invalid label', 'ignore', 'replace', 'sum', 'inserted', 'nothing'],
         'mapping_info': ['complete', 'stale', 'missing', 'partial'], 'text_form': ['all'],
         'mapping_file': ['stale', 'unmatched source', 'unmatched target', 'complete'],
         'files': ['refused', 'complete', 'incomplete', 'index', 'quantity'],
         'mapping_build': ['missing', 'no match', 'over limit', 'overlap excluded', 'overlap included', 'no weight']}
ROWS = [('A', 'x'), ('A', 'y'), ('B', 'x')]
F, A, B = b'\xc0', b'\x80', b'\x40'


def compare(h, msgs, expected):
    for words, n in expected.items():
        h.check(number(msgs, *words.split('|')) == n, 'each message states the exact number', [words, n, msgs])
    for m in msgs:
        h.check(not re.search(r'\b0 (rows|records|quantities|index|mappings|existing)', m) or not m.startswith(('skipped', 'merged', 'replaced')),
                'no message about rows that do not exist', m)


def bump(h, counts, key, name):
    counts[key] = counts.get(key, 0) + 1
    h.reach(name)


W = {'inserted': 'loaded|new records', 'skip': 'skipped|existing records', 'overwrite': 'replaced|existing records', 'sum': 'combined sum|existing records',
     'number': 'skipped|real number', 'id': 'skipped|no matching index_id', 'labels': 'skipped|do not match the given', 'label': 'skipped|do not match any',
     'undefined': 'skipped|undefined record'}


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def weights(h):
    """insert_weights: every outcome of a row is counted under its own reason."""
    node = new_space(rows=ROWS, attrs=())
    set_weights(node, 'w', ROWS, [h.real('pre', 0, 100), None, None])
    have = {1}
    mode = h.choice('mode', ['ignore', 'replace', 'sum'])
    ids = h.flag('with ids')
    counts, data = dict.fromkeys(W, 0), []
    for k in range(h.bound('rows')):
        kind = h.choice(f'row{k}', [(1, 'A', 'x'), (2, 'A', 'y'), (9, 'A', 'x'), (1, 'A', 'y'), (0, '-', '-'), (3, 'Q', 'x')])
        value = h.choice(f'value{k}', ['real', 'text', 'inf'])
        v = h.real(f'v{k}', 0, 100) if value == 'real' else 'abc' if value == 'text' else float('inf')
        data.append(kind + (v,) if ids else kind[1:] + (v,))
        cells = {(0, '-', '-')} | {(i + 1,) + r for i, r in enumerate(ROWS)}
        if value != 'real':
            bump(h, counts, 'number', 'number')
        elif ids and kind[0] == 9:
            bump(h, counts, 'id', 'id')
        elif ids and kind not in cells:
            bump(h, counts, 'labels', 'labels')
        elif not any(kind[1:] == c[1:] for c in cells):
            bump(h, counts, 'label', 'label')
        elif kind[1:] == ('-', '-'):
            bump(h, counts, 'undefined', 'undefined')
        else:
            i = [c[0] for c in cells if c[1:] == kind[1:]][0]
            name = 'inserted' if i not in have else {'ignore': 'skip', 'replace': 'overwrite', 'sum': 'sum'}[mode]
            bump(h, counts, name, name)
            have.add(i)
    with messages() as msgs:
        node.insert_weights('w', data, (['index_id'] if ids else []) + ['a', 'b', 'w'], on_conflict=mode)
    compare(h, msgs, {W[k]: n for k, n in counts.items()})
    h.check(any('complete' in m for m in msgs) == (have == {1, 2, 3}), 'the message says whether the group is complete', msgs)


ADDRESSED = [(1, 'A', 'x'), (2, 'A', 'y'), (9, 'A', 'x'), (1, 'A', 'y')]


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def weight_rows(h):
    """update_weights and delete_weights with rows."""
    node = new_space(rows=ROWS, attrs=())
    set_weights(node, 'w', ROWS, [h.real('pre', 0, 100), None, None])
    have, op = {1}, h.choice('op', ['update', 'delete'])
    counts, data = dict.fromkeys(['no index', 'mismatch', 'no weight', 'inserted', 'changed'], 0), []
    for k in range(h.bound('rows')):
        kind = h.choice(f'row{k}', ADDRESSED)
        data.append(kind + (h.real(f'v{k}', 0, 100),))
        i = kind[0]
        if i == 9:
            bump(h, counts, 'no index', 'no index')
        elif ROWS[i - 1] != kind[1:]:
            bump(h, counts, 'mismatch', 'mismatch')
        elif i in have:
            bump(h, counts, 'changed', 'changed')
            have -= {i} if op == 'delete' else set()
        elif op == 'delete':
            bump(h, counts, 'no weight', 'no weight')
        else:
            bump(h, counts, 'inserted', 'inserted')
            have.add(i)
    with messages() as msgs:
        (node.update_weights if op == 'update' else node.delete_weights)('w', data, ['index_id', 'a', 'b', 'w'])
    compare(h, msgs, {'skipped|no matching index_id': counts['no index'],
                      'skipped|labels|match': counts['mismatch'],
                      'skipped|no matching weight': counts['no weight'], 'loaded': counts['inserted'],
                      ('updated' if op == 'update' else 'deleted'): counts['changed']})


@scenario()
def weight_criteria(h):
    """delete_weights with criteria."""
    node = new_space(rows=ROWS, attrs=())
    have = [h.flag(f'weight{i}') for i in range(3)]
    set_weights(node, 'w', ROWS, [h.real(f'v{i}', 0, 9) if f else None for i, f in enumerate(have)])
    criteria = h.choice('criteria', [{'a': 'A'}, {'b': 'x'}, {'a': 'B', 'b': 'x'}, {'a': 'Q'}])
    hit = [i for i, r in enumerate(ROWS) if all(dict(zip('ab', r))[k] == v for k, v in criteria.items())]
    with messages() as msgs:
        node.delete_weights('w', **criteria)
    gone, none = sum(have[i] for i in hit), sum(not have[i] for i in hit)
    h.reach('deleted') if gone else None
    h.reach('no weight') if none else None
    compare(h, msgs, {'deleted': gone, 'skipped|no matching weight': none})
    h.check(len(weights_of(node, 'w')) == sum(have) - gone, 'the number deleted is the number that is gone')


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def index(h):
    """insert_index: labels and weights loaded, ignored, replaced or skipped."""
    node = new_space(rows=ROWS[:2], attrs=())
    set_weights(node, 'w', ROWS[:2], [h.real('pre', 0, 100), None])
    labels, have = {0: ('-', '-'), 1: ROWS[0], 2: ROWS[1]}, {1}
    lmode, wmode = h.choice('label mode', ['ignore', 'replace']), h.choice('weight mode', ['ignore', 'replace'])
    names = ['label in', 'empty', 'label ig', 'label re', 'weight ig', 'weight re', 'weight in']
    counts, data = dict.fromkeys(names, 0), []
    for k in range(h.bound('rows')):
        kind = h.choice(f'row{k}', [('', 'A', 'x'), ('', 'C', f'n{k}'), ('', 'A', ''), (2, 'A', 'y'), (1, 'D', f'n{k}')])
        v = h.real(f'v{k}', 0, 100) if h.flag(f'weight{k}') else ''
        data.append(kind + (v,))
        ident, lab = kind[0], kind[1:]
        if '' in lab:
            bump(h, counts, 'empty', 'empty')
            continue
        if ident != '':
            i = ident
            if labels[i] != lab:
                bump(h, counts, 'label ig' if lmode == 'ignore' else 'label re', 'label ignored' if lmode == 'ignore' else 'label replaced')
                if lmode == 'replace':
                    labels[i] = lab
        elif lab in labels.values():
            i = [n for n, x in labels.items() if x == lab][0]
        else:
            i = max(labels) + 1
            labels[i] = lab
            bump(h, counts, 'label in', 'inserted')
        if v == '':
            continue
        if i in have:
            bump(h, counts, 'weight ig' if wmode == 'ignore' else 'weight re', 'weight ignored' if wmode == 'ignore' else 'weight replaced')
        else:
            bump(h, counts, 'weight in', 'weight')
            have.add(i)
    with messages() as msgs:
        node.insert_index(data, ['index_id', 'a', 'b', 'w'], on_label_conflict=lmode, on_weight_conflict=wmode)
    compare(h, msgs, {'loaded|labels': counts['label in'], 'skipped|empty': counts['empty'], 'ignored|labels': counts['label ig'],
                      'replaced|labels': counts['label re'], 'skipped|weights': counts['weight ig'], 'replaced|weights': counts['weight re'],
                      'loaded|weights': counts['weight in']})
    h.check({r[0]: tuple(r[1:]) for r in index_rows(node)} == {i: x for i, x in labels.items() if i}, 'the records are as reported')


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def relabel(h):
    """update_index: skipped, merged and updated records."""
    node = new_space(rows=ROWS, attrs=())
    labels = {1: ROWS[0], 2: ROWS[1], 3: ROWS[2]}
    counts, data, gone = dict.fromkeys(['empty', 'no index', 'merged', 'updated'], 0), [], set()
    for k in range(h.bound('rows')):
        i, lab = h.choice(f'id{k}', [1, 2, 9]), h.choice(f'new{k}', [('A', 'x'), ('A', 'y'), ('C', 'z'), ('A', '')])
        data.append((i,) + lab)
        if i in gone:
            return      # refused as a whole, not a matter of counts
        if '' in lab:
            bump(h, counts, 'empty', 'empty')
        elif i == 9:
            bump(h, counts, 'no index', 'no index')
        else:
            other = [j for j, x in labels.items() if x == lab and j != i]
            if other:
                bump(h, counts, 'merged', 'merged')
                del labels[other[0]]
                gone.add(other[0])
            labels[i] = lab
            bump(h, counts, 'updated', 'updated')
    with messages() as msgs:
        node.update_index(data, ['index_id', 'a', 'b'], merge_on_conflict=True)
    quiet = not (counts['empty'] or counts['no index'] or counts['merged'])
    compare(h, msgs, {'skipped|empty': counts['empty'], 'skipped|non-matching index_id': counts['no index'], 'merged': counts['merged'],
                      'updated': 0 if quiet else counts['updated']})
    h.check(bool(msgs) != quiet, 'there is a warning exactly if a row was not simply updated', msgs)
    h.check({r[0]: tuple(r[1:]) for r in index_rows(node)} == labels, 'the records are as reported')



@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def index_delete(h):
    """delete_index with rows and with criteria."""
    node = new_space(rows=ROWS, attrs=())
    set_weights(node, 'w', ROWS, [h.real(f'v{i}', 0, 9) for i in range(3)])
    counts, data, left = dict.fromkeys(['no index', 'mismatch', 'deleted'], 0), [], {1, 2, 3}
    if h.flag('rows'):
        for k in range(h.bound('rows')):
            kind = h.choice(f'row{k}', ADDRESSED)
            data.append(kind)
            if kind[0] not in left:
                bump(h, counts, 'no index', 'no index')
            elif ROWS[kind[0] - 1] != kind[1:]:
                bump(h, counts, 'mismatch', 'mismatch')
            else:
                bump(h, counts, 'deleted', 'deleted')
                left.discard(kind[0])
        with messages() as msgs:
            node.delete_index(data, ['index_id', 'a', 'b'])
    else:
        criteria = h.choice('criteria', [{'a': 'A'}, {'b': 'x'}, {'a': 'Q'}])
        left -= {i + 1 for i, r in enumerate(ROWS) if all(dict(zip('ab', r))[k] == v for k, v in criteria.items())}
        with messages() as msgs:
            node.delete_index(**criteria)
    quiet = not (counts['no index'] or counts['mismatch'])
    compare(h, msgs, {'skipped|non-matching index_id': counts['no index'], 'skipped|mismatched labels': counts['mismatch'],
                      'deleted': 0 if quiet else counts['deleted']})
    h.check(bool(msgs) != quiet, 'there is a warning exactly if a row was skipped', msgs)
    h.check({r[0] for r in index_rows(node)} == left, 'the records are as reported')


def linked(h, pre, partitions=({'a'},)):
    node = new_space(rows=ROWS, partitions=partitions, attrs=())
    src = new_space(('s',), [('S',), ('T',), ('U',)], attrs=())
    values = {k: h.real(f'pre{n}', 0.5, 100) for n, k in enumerate(pre)}
    link_spaces(src, node, 'L', [k + (v,) for k, v in values.items()])
    return node, src, values


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def mappings(h):
    """insert_mappings and update_mappings."""
    node, src, values = linked(h, [(1, 1, F)])
    have, op = {(1, 1)}, h.choice('op', ['insert', 'update'])
    counts, data = dict.fromkeys(['no index', 'mismatch', 'level', 'inserted', 'updated'], 0), []
    for k in range(h.bound('rows')):
        o = k + 1 if op == 'update' else k + 2
        i, a, b = h.choice(f'row{k}', ADDRESSED)
        lv = h.choice(f'level{k}', [F, A, B])
        data.append((o, h.real(f'v{k}', 0.5, 100), i, a, b, lv))
        if i == 9:
            bump(h, counts, 'no index', 'no index')
        elif ROWS[i - 1] != (a, b):
            bump(h, counts, 'mismatch', 'mismatch')
        elif lv == B:
            bump(h, counts, 'level', 'level')
        elif (o, i) in have:
            bump(h, counts, 'updated', 'updated')
        else:
            bump(h, counts, 'inserted', 'inserted')
            have.add((o, i))
    with messages() as msgs:
        (node.insert_mappings if op == 'insert' else node.update_mappings)(src, 'L', data, ['other_index_id', 'L', 'index_id', 'a', 'b', 'mapping_level'])
    quiet = not (counts['no index'] or counts['mismatch'] or counts['level'] or (op == 'update' and counts['inserted']))
    compare(h, msgs, {'skipped|non-matching index_id': counts['no index'], 'skipped|mismatched labels': counts['mismatch'],
                      'skipped|invalid mapping level': counts['level'],
                      ('loaded' if op == 'insert' else 'inserted'): 0 if quiet else counts['inserted'],
                      'updated': 0 if quiet else counts['updated']})
    h.check(bool(msgs) != quiet, 'there is a warning exactly if a row was not stored as requested', msgs)
    h.check({(m[0], m[1]) for m in mappings_of(node, 'L')} == have, 'the mappings are as reported')


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def mapping_rows2(h):
    """insert_mappings2: rows at levels outside of the structure and undefined pairs."""
    node, src, values = linked(h, [])
    counts, data = dict.fromkeys(['level', 'undefined', 'inserted'], 0), []
    for k in range(h.bound('rows')):
        pair, lv = h.choice(f'pair{k}', [(k + 1, 1), (k + 1, 3), (0, 0)]), h.choice(f'level{k}', [F, A, B])
        data.append(pair + (lv, h.real(f'v{k}', 0.5, 100)))
        name = 'level' if lv == B else 'undefined' if pair == (0, 0) else 'inserted'
        bump(h, counts, name, name)
    with messages() as msgs:
        node.insert_mappings2(src, 'L', data, ['other_index_id', 'index_id', 'mapping_level', 'L'])
    compare(h, msgs, {'skipped|invalid mapping level': counts['level'], 'skipped|undefined-to-undefined': counts['undefined'],
                      'loaded|mappings': counts['inserted']})
    h.reach('nothing') if not counts['inserted'] else None
    h.check(any('no mappings' in m for m in msgs) == (not counts['inserted']), 'loading nothing is reported', msgs)


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def mapping_delete(h):
    """delete_mappings with rows: by value and level."""
    node, src, values = linked(h, [(1, 1, F), (1, 2, A), (2, 2, F)])
    want = dict(values)
    counts, data = dict.fromkeys(['no index', 'mismatch', 'value', 'approximate', 'deleted', 'no mapping'], 0), []
    for k in range(h.bound('rows')):
        o, (i, a, b) = h.choice(f'source{k}', [1, 2]), h.choice(f'row{k}', ADDRESSED)
        v = h.real(f'v{k}', 0.5, 100)
        data.append((o, v, i, a, b))
        rec = [x for x in want if x[:2] == (o, i)]
        if i == 9:
            name = 'no index'
        elif ROWS[i - 1] != (a, b):
            name = 'mismatch'
        elif not rec:
            name = 'no mapping'
        elif not h.decided(h.eq(v, want[rec[0]])):
            name = 'value'
        elif rec[0][2] != F:
            name = 'approximate'
        else:
            name = 'deleted'
            del want[rec[0]]
        bump(h, counts, name, name)
    with messages() as msgs:
        node.delete_mappings(src, 'L', data, ['other_index_id', 'L', 'index_id', 'a', 'b'])
    quiet = counts['deleted'] == len(data)
    compare(h, msgs, {'skipped|non-matching index_id': counts['no index'], 'skipped|mismatched labels': counts['mismatch'],
                      'skipped|mismatched values': counts['value'], 'skipped|approximate': counts['approximate'],
                      'skipped|no matching mappings': counts['no mapping'], 'deleted|rows': 0 if quiet else counts['deleted']})
    h.check(bool(msgs) != quiet, 'there is a warning exactly if a row was skipped', msgs)
    h.check({(m[0], m[1], bytes(m[2])) for m in mappings_of(node, 'L')} == set(want), 'the mappings are as reported')


@scenario(quick=dict(pre=2), thorough=dict(pre=3))
def mapping_criteria(h):
    """delete_mappings and reify_mappings with criteria."""
    levels = [h.choice(f'level{k}', [F, A, B]) for k in range(h.bound('pre'))]
    pre = [(1, 1, levels[0]), (1, 2, levels[1])] + [(2, 3, lv) for lv in levels[2:]]
    node, src, values = linked(h, pre, partitions=({'a'}, {'b'}))
    op = h.choice('op', ['delete', 'reify'])
    criteria = h.choice('criteria', [{'a': 'A'}, {'b': 'x'}, {'a': 'A', 'b': 'x'}, {'a': 'Q'}] + ([{}] if op == 'reify' else []))
    bits = {F: {'a', 'b'}, A: {'a'}, B: {'b'}}
    done = level = 0
    for o, i, lv in pre:
        if not all(dict(zip('ab', ROWS[i - 1]))[k] == v for k, v in criteria.items()):
            continue
        if op == 'reify' and lv == F:
            continue
        if criteria and not bits[lv] <= set(criteria):
            level += 1
            h.reach('level')
        else:
            done += 1
            h.reach('deleted' if op == 'delete' else 'reified')
    with messages() as msgs:
        (node.delete_mappings if op == 'delete' else node.reify_mappings)(src, 'L', **criteria)
    compare(h, msgs, {'skipped|mapping levels': level, ('deleted|rows' if op == 'delete' else 'reified'): done if level else 0})
    h.check(bool(msgs) == bool(level), 'there is a warning exactly if a mapping was left out', msgs)


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def quantities(h):
    """insert_quantities2: every outcome of a row."""
    node = new_space(rows=ROWS, partitions=[{'a'}], attrs=('k',))
    node.insert_quantities2(value_column='v', data=[('A', 'x', 'u', h.real('pre', 0, 9))], columns=['a', 'b', 'k', 'v'])
    have, mode = {('A', 'x', 'u')}, h.choice('mode', ['ignore', 'replace', 'sum'])
    counts, data = dict.fromkeys(['no attrs', 'invalid partition', 'invalid label', 'ignore', 'replace', 'sum', 'inserted'], 0), []
    for k in range(h.bound('rows')):
        r = h.choice(f'row{k}', [('A', 'x'), ('A', ''), ('', 'x'), ('Q', 'x'), ('', 'Q')]) + (h.choice(f'attr{k}', ['u', '']),)
        data.append(r + (h.real(f'v{k}', 0, 100),))
        if not r[2]:
            bump(h, counts, 'no attrs', 'no attrs')
            continue
        if r[0] == '':
            bump(h, counts, 'invalid partition', 'invalid partition')
        if 'Q' in r:
            bump(h, counts, 'invalid label', 'invalid label')
        if r in have:
            bump(h, counts, mode, mode)
        else:
            bump(h, counts, 'inserted', 'inserted')
            have.add(r)
    with messages() as msgs:
        node.insert_quantities2(value_column='v', data=data, columns=['a', 'b', 'k', 'v'], allow_invalid_label=True,
                                allow_invalid_partition=True, on_existing=mode)
    compare(h, msgs, {'skipped|no attribute': counts['no attrs'], 'no specified partition': counts['invalid partition'],
                      'invalid labels': counts['invalid label'], 'skipped|existing': counts['ignore'], 'replaced|existing': counts['replace'],
                      'added|existing': counts['sum'], 'loaded': counts['inserted']})
    h.reach('nothing') if not counts['inserted'] else None
    h.check(any('no quantities' in m for m in msgs) == (not counts['inserted']), 'loading nothing is reported', msgs)
    h.check(query(node, 'SELECT COUNT(*) FROM main.quantity')[0][0] == 1 + counts['inserted'], 'the number loaded is the number stored')


@scenario()
def mapping_info(h):
    """The description of a mapping counts matched and stale records of both sides."""
    from toron.graph import get_mapping_info_str, _log_load_mapping_stats
    node = new_space(rows=ROWS, attrs=())
    src = new_space(('s',), [('S',), ('T',)], attrs=())
    pairs = h.subset('pairs', [(1, 1), (1, 2), (2, 2), (2, 3), (2, 0), (0, 1)])
    link_spaces(src, node, 'L', [p + (F, h.real(f'v{k}', 0.5, 9)) for k, p in enumerate(pairs)])
    gone = h.choice('source change', [None, 1, 'new'])
    ids = {0, 1, 2}
    if gone == 'new':
        src.insert_index([('U',)], ['s'])
        ids.add(3)
    elif gone:
        src.delete_index(s='S')
        ids.discard(1)
    text = get_mapping_info_str(src, node, 'L')
    mapped = {p[0] for p in pairs} | {0}
    stale, missing = mapped - ids, ids - mapped
    trg = {p[1] for p in pairs} | {0}
    nums = [re.findall(r'matched (\d+) of (\d+)', line) for line in text.split('\n')]
    nums = [x[0] for x in nums if x]
    h.check(len(nums) == 2 and nums[0] == (str(len(mapped & ids)), str(len(ids))), 'the source side is counted exactly', [text, sorted(mapped), sorted(ids)])
    h.check(nums[1] == (str(len(trg)), '4'), 'the target side is counted exactly', text)
    found = re.findall(r'contains (\d+) index', text)
    h.check(found == ([str(len(stale))] if stale else []), 'records that no longer exist are counted', text)
    side = h.flag('left to right')
    with messages() as msgs:
        left, right = (src, node) if side else (node, src)
        _log_load_mapping_stats(logging.getLogger('app-toron'), left, '->' if side else '<-', right, 'L')
    s, t = ('left', 'right') if side else ('right', 'left')
    compare(h, msgs, {f'missing|{s}-side': len(missing), f'no longer exist|{s}-side': len(stale), f'missing|{t}-side': 4 - len(trg),
                      f'no longer exist|{t}-side': 0})
    h.check(any('cleanly' in m for m in msgs) == (not stale and not missing and len(trg) == 4), 'a mapping is called clean exactly if it is', msgs)
    h.reach('stale') if stale else None
    h.reach('missing') if missing else None
    h.reach('partial') if len(trg) < 4 else h.reach('complete')
    with raises(Exception) as err:
        get_mapping_info_str(src, node, 'M')
    h.check(bool(err), 'an unknown link has no description')


@scenario()
def mapping_file(h):
    """Exporting a link on the command line: rows, unmatched and stale records are counted."""
    import types
    node = new_space(rows=ROWS, attrs=())
    src = new_space(('s',), [('S',), ('T',)], attrs=())
    pairs = h.subset('pairs', [(1, 1), (1, 2), (2, 2), (2, 3), (2, 0), (0, 1)])
    link_spaces(src, node, 'L', [p + (F, h.real(f'v{k}', 0.5, 9)) for k, p in enumerate(pairs)])
    gone = h.choice('source change', [None, 1, 'new'])
    ids = {1, 2}
    if gone == 'new':
        src.insert_index([('U',)], ['s'])
        ids.add(3)
    elif gone:
        src.delete_index(s='S')
        ids.discard(1)
    with messages() as msgs, cli_streams('command_mapping') as (m, out):
        m.write_to_stdout(types.SimpleNamespace(link='L', stdout=None), src, node)
    stale = sum(o == 1 for o, _ in pairs) if gone == 1 else 0
    left, right = ids - {p[0] for p in pairs}, {1, 2, 3} - {p[1] for p in pairs}
    for x, name in ((stale, 'stale'), (left, 'unmatched source'), (right, 'unmatched target'), (not left and not right, 'complete')):
        h.reach(name) if x else None
    n = len(pairs) + 1 + len(left) + len(right)
    h.check(len(out) == n + 1, 'each row is written', [len(out), n])
    compare(h, msgs, {'written|record': n, 'no longer exist|FILE1': stale, 'unmatched indexes|FILE1': len(left), 'unmatched indexes|FILE2': len(right)})
    h.check(not any(re.search(r'contains 0 ', x) for x in msgs), 'nothing is said about records that do not occur', msgs)
    h.check(any(x.endswith('records') for x in msgs if 'written' in x) == (n != 1), 'plural of the number of records', msgs)


@scenario()
def files(h):
    """Exporting index and quantities, and loading a mapping, on the command line."""
    import types
    what = h.choice('what', ['index', 'quantity', 'mapping'])
    node = new_space(rows=ROWS[:h.choice('records', [1, 3] if what == 'mapping' else [0, 1, 3])], attrs=('attr',))
    args = types.SimpleNamespace(stdout=None, link='L', direction=None, match_limit=1, allow_overlapping=False, allow_incomplete=True)
    if what == 'mapping':
        src = new_space(('s',), [('S',), ('T',)], attrs=())
        for x in (src, node):
            x.add_weight_group('wt', make_default=True)
        have = [h.flag('link to FILE2'), h.flag('link to FILE1')]
        node.add_link(src, 'L') if have[0] else None
        src.add_link(node, 'L') if have[1] else None
        direction = args.direction = h.choice('direction', ['both', 'right', 'left'])
        pairs = h.subset('pairs', [('S', 'A', 'x'), ('T', 'A', 'y'), ('T', 'B', 'x')])
        args.stdin = [['s', 'L', 'a', 'b']] + [[p[0], h.real(f'v{k}', 0.5, 9), *p[1:]] for k, p in enumerate(pairs)]
        with messages() as msgs, cli_streams('command_mapping') as (m, _), raises(Exception) as err:
            rc = m.read_from_stdin(args, src, node)
        h.check(not err, 'no exception', repr(err))
        asked = [have[0] and direction != 'left', have[1] and direction != 'right']
        h.check((rc != 0) == (not any(asked)), 'refused without a link in a direction that was asked for', rc)
        ids = {r[1:]: r[0] for r in map(tuple, index_rows(node))}
        known = [p for p in pairs if p[1:] in ids]
        done = [len({p[1:] for p in known}) == len(ids), {p[0] for p in known} == {'S', 'T'}]
        want = [d for d, a in zip(done, asked) if a]
        h.check(sum(x == 'mapping is complete' for x in msgs) == sum(want) and sum(x == 'mapping is incomplete' for x in msgs) == len(want) - sum(want),
                'each loaded direction is called complete exactly if it is', [msgs, want])
        for k, (nd, a) in enumerate(((node, asked[0]), (src, asked[1]))):
            if have[k]:
                other = src if k == 0 else node
                h.check(bool(nd.get_link(other, 'L').is_locally_complete) == bool(a and done[k]) or not a or not known, 'and stored as such')
            lines = [x for x in msgs if x.startswith('no ') and (f'from FILE{k + 1} to FILE{2 - k}' in x)]
            h.check(bool(lines) == (not have[k] and direction in (('both', 'right') if k == 0 else ('both', 'left')) and
                                    (direction != 'both' or have[1 - k])), 'a missing link is reported', [msgs, have])
        h.reach('refused' if rc else 'complete' if all(want) else 'incomplete')
        return
    n = len(index_rows(node))
    if what == 'quantity' and n:
        k = h.choice('quantities', [0, 1, 2])
        add_quantities(node, [('A', 'x', f'q{i}', h.real(f'q{i}', 0, 9)) for i in range(k)]) if k else None
        n = k
    elif what == 'index':
        n += 1
    with messages() as msgs, cli_streams(f'command_{what}') as (m, out):
        m.write_to_stdout(args, node)
    h.reach(what)
    compare(h, msgs, {'written|record': n})
    h.check(len(out) == n + 1 and any(x.endswith('records') for x in msgs) == (n != 1), 'the number of rows written is reported', [msgs, len(out)])


@scenario(quick=dict(rows=2), thorough=dict(rows=3))
def mapping_build(h):
    """Matching the rows of a mapping: each skipped or overlapping row is counted under its reason."""
    from toron.mapper import Mapper
    from toron._utils import BitFlags
    rows = [h.choice(f'row{k}', ROWKINDS) for k in range(h.bound('rows'))]
    limit, overlapping = h.choice('options', [(1, False), (3, False), (3, True)])
    node = new_space(LABELS, MROWS, partitions=[{'a'}, {'b'}], attrs=())
    ws = weighted(h, node, h.choice('present', [ALL, (1, 3)]))
    plain = new_space(('s',), [('S',)], attrs=())
    mapper = Mapper(plain, node, [[1, [''], BitFlags(1), i, loc, BitFlags(bits), 5.0] for i, loc, bits in rows])
    with messages() as msgs:
        mapper.match_records('node2', match_limit=limit, allow_overlapping=overlapping)
    expected(h, rows, ws, limit, overlapping, counts := {})
    check_messages(h, msgs, counts)
    h.observe('messages', msgs)
    mapper.close()


@scenario()
def text_form(h):
    """repr() of a space."""
    node = new_space(rows=[('A', 'x'), ('A', 'y')], partitions=h.choice('partitions', [[], [{'a'}], [{'a'}, {'b'}]]),
                     attrs=h.choice('attrs', [(), ('k', 'm')]), domain=h.choice('domain', [None, 'dom']))
    have = [h.flag(f'weight{i}') for i in range(2)]
    groups = h.choice('groups', [(), ('w',), ('z', 'w')])
    first = h.choice('first', [None, False]) if groups == ('w',) else None
    for g in groups:
        set_weights(node, g, [('A', 'x'), ('A', 'y')], [h.real(f'{g}{i}', 0, 9) if f else None for i, f in enumerate(have)], default=True if g == 'z' else first)
    src = new_space(('s',), [('S',)], attrs=())
    link = h.choice('link', [None, 'partial', 'complete'])
    if link:
        link_spaces(src, node, 'L', [(1, i, F, h.real(f'm{i}', 1, 9)) for i in ((1,) if link == 'partial' else (1, 2))])
        node.add_link(src, 'K')
    h.reach('all')
    lines = repr(node).split('\n')
    head = ['domain:', 'partitions:', 'weights:', 'attributes:', 'incoming links:', 'created:']
    h.check([x for x in lines if x in head] == head, 'all parts are shown', lines)
    part = {}
    for x in lines:
        key = x if x in head else key if part else None
        if key:
            part.setdefault(key, []).append(x.strip()) if x not in head else part.setdefault(key, [])
    h.check(part['domain:'] == [node.domain or 'None'], 'the domain is shown', lines)
    shown = [x.split('  ', 1)[-1] for x in part['partitions:']]
    shown = [tuple(y.strip() for y in x.split(',')) for x in shown]
    h.check(shown[0] == ('a', 'b') and sorted(shown) == sorted({('a', 'b')} | {tuple(sorted(p)) for p in node.partition_definitions}),
            'the whole space and the partition definitions are shown', [lines, node.partition_definitions])
    full = have == [True, True]
    default = None if not groups or first is False else 'z' if 'z' in groups else 'w'
    note = {(True, True): ' (default)', (True, False): ' (default, incomplete)', (False, True): '', (False, False): ' (incomplete)'}
    h.check(part['weights:'] == [', '.join(g + note[g == default, full] for g in sorted(groups)) or 'None'], 'the weights are shown', [lines, default])
    h.check(part['attributes:'] == [', '.join(node.get_registered_attributes()) or 'None'], 'the attributes are shown', lines)
    want = 'None' if not link else f'[{src.unique_id[:7]}]: K (locally incomplete), L (default' + (', locally incomplete)' if link == 'partial' else ')')
    h.check(part['incoming links:'] == [want], 'the links are shown', [lines, want])
