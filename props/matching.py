"""Which records a mapping row matches: the documented rules, shared by C25 and C40."""
import math

from .common import set_weights

LABELS = ('a', 'b')
ROWS = [('A', 'x'), ('A', 'y'), ('B', 'x'), ('C', 'x'), ('E', 'y')]
CELLS = {0: ('-', '-'), 1: ROWS[0], 2: ROWS[1], 3: ROWS[2], 4: ROWS[3], 5: ROWS[4]}
ALL = (1, 2, 3, 4, 5)


def entropy(bits):
    keys = [tuple(v for v, b in zip(r, bits) if b) for r in ROWS]
    return -sum(keys.count(k) / len(ROWS) * math.log2(keys.count(k) / len(ROWS)) for k in set(keys)) if any(bits) else -1


def weighted(h, node, present):
    ws = {i: h.real(f'w{i}', 0, 100) if i in present else None for i in ALL}
    set_weights(node, 'wt', ROWS, [ws[i] for i in ALL], default=True)
    return ws


def expected(h, rows, ws, limit, overlapping, counts=None):
    """{row number: [(index_id, weight)]} from the documented rules."""
    out, counts = {}, {} if counts is None else counts
    counts.update({'no longer exist': 0, 'do not match any': 0, 'too many': 0, 'match up to': 0, 'included': 0, 'omitted': 0, 'no associated weight': 0})
    order = sorted({r[2] for r in rows}, key=entropy, reverse=True)
    for bits in order:
        for n, (ident, loc, b) in enumerate(rows):
            if b != bits:
                continue
            if ident not in (None, ''):
                if ident not in CELLS:
                    h.reach('missing')
                    counts['no longer exist'] += 1
                    continue
                ids = [ident]
            else:
                ids = [i for i, c in CELLS.items() if all(v == '' or v == x for v, x in zip(loc, c))]
                if not ids:
                    h.reach('no match')
                    counts['do not match any'] += 1
                    continue
                if len(ids) > limit:
                    h.reach('over limit')
                    counts['too many'] += 1
                    counts['match up to'] = max(counts['match up to'], len(ids))
                    continue
                if len(ids) > 1:
                    finer = {i for k, v in out.items() if rows[k][2] != bits for i, _ in v}
                    if overlapping:
                        h.reach('overlap included') if finer & set(ids) else None
                        counts['included'] += len(finer & set(ids))
                    elif finer & set(ids):
                        h.reach('overlap excluded')
                        counts['omitted'] += len(finer & set(ids))
                        ids = [i for i in ids if i not in finer]
                        h.reach('overlap to one') if len(ids) == 1 else h.reach('all overlap') if not ids else None
            pairs = [(i, 0.0 if i == 0 else ws[i]) for i in ids]
            if len(pairs) > 1 and any(w is None for _, w in pairs):
                h.reach('no weight')
                counts['no associated weight'] += 1
                continue
            if pairs:
                h.reach('split' if len(pairs) > 1 else 'undefined' if pairs[0][0] == 0 else 'single')
                out[n] = pairs
    return out


ROWKINDS = [(None, ['A', 'x'], (1, 1)), (None, ['A', ''], (1, 0)), (None, ['', 'x'], (0, 1)), (2, ['', ''], (1, 1)), (0, ['', ''], (1, 1)),
            (9, ['A', 'x'], (1, 1)), (None, ['D', ''], (1, 0)), (None, ['', ''], (0, 0)), ('', ['B', ''], (1, 0)), (3, ['A', 'y'], (1, 1)),
            (None, ['-', ''], (1, 0)), (None, ['', 'y'], (0, 1))]


def check_messages(h, msgs, counts):
    for words, n in counts.items():
        hits = [m for m in msgs if words in m]
        h.check(len(hits) == bool(n), 'there is a message exactly if rows are skipped or overlap', [words, n, msgs])
        h.check(not n or (f' {n} ' in hits[0]), 'the message states the exact number', [words, n, msgs])
