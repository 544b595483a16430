"""Bounded symbolic histories: sequences of public operations on two linked
spaces, with the invariants of the individual properties as checks."""
import math
from itertools import combinations

from .common import (new_space, set_weights, index_rows, weights_of, mappings_of,
                     level, query, hash_ids)

LABELS = ('a', 'b')
POOL = [('A', 'x'), ('A', 'y'), ('B', 'x'), ('B', 'z')]


class World:
    """The space under test, a source space linked to it and the ghost state."""
    ratios = True
    mlo = 0     # lower bound of mapping values (positive: no zero-total forks)

    def __init__(self, h, weights=True, mapping=True, partitions=({'a'},), rows=3, mlo=0):
        self.h = h
        self.mlo = mlo
        self.rows0 = POOL[:rows]
        self.node = new_space(LABELS, self.rows0, partitions)
        self.labels = list(LABELS)
        self.current = {i for i, *_ in index_rows(self.node)}     # identifiers of existing records
        self.max_ever = max(self.current)     # greatest identifier ever given
        self.k = 0
        self.log = []
        if weights:
            vals = [1.0, 2.0, None if weights == 'partial' else 3.0]
            set_weights(self.node, 'wt', self.rows0, vals[:rows])
        self.mapped = False
        if mapping:
            self.src = new_space(('s',), [('S1',), ('S2',)])
            self.node.add_link(self.src, 'L')
            self.add_mapping([(1, 1), (1, 2), (2, 2), (2, 3)] if mapping is True else mapping)

    def fresh(self, name, lo=0, hi=100):
        self.k += 1
        return self.h.real(f'{name}{self.k}', lo, hi)

    def lvl(self, *bits):
        return level(*(bits or [1] * len(self.labels)))

    def add_mapping(self, pairs, lvl=None):
        data = [(o, i, lvl or self.lvl(), self.fresh('m', self.mlo)) for o, i in pairs]
        self.node.insert_mappings2(self.src.unique_id, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L')] + data)
        self.mapped = True

    def ids(self):
        return [r[0] for r in index_rows(self.node)]

    def rec(self, i):
        for r in index_rows(self.node):
            if r[0] == i:
                return tuple(r[1:])
        return None


def expected(fn):
    """Run an operation that may legitimately refuse its input."""
    try:
        fn()
        return True
    except (ValueError, TypeError, KeyError, RuntimeError, LookupError):
        return False
    except Exception as e:
        if type(e) is Exception or type(e).__name__ in ('ToronError', 'IntegrityError'):
            return False
        raise


# -- operations: each takes (world, step) and uses the public API only

def op_insert_index(w, s):
    row = w.h.choice(f'{s}.row', [('B', 'z'), ('A', 'x'), ('C', 'x')])
    expected(lambda: w.node.insert_index([row], list(LABELS)))


def op_insert_index_weights(w, s):
    row = w.h.choice(f'{s}.row', [('B', 'z'), ('A', 'y')])
    conflict = w.h.choice(f'{s}.conf', ['abort', 'ignore', 'replace'])
    v = w.fresh('w')
    expected(lambda: w.node.insert_index([row + (v,)], list(LABELS) + ['wt'], weights='wt', on_weight_conflict=conflict))


def op_insert_index_ids(w, s):
    row = w.h.choice(f'{s}.row', [('A', 'x'), ('C', 'c'), ('B', 'x')])
    conflict = w.h.choice(f'{s}.lconf', ['abort', 'ignore', 'replace'])
    i = w.h.choice(f'{s}.id', [1, 0])
    expected(lambda: w.node.insert_index([(i,) + row], ['index_id'] + list(LABELS), on_label_conflict=conflict))


def op_delete_index(w, s):
    which = w.h.choice(f'{s}.which', ['b=x', 'a=A', 'id2', 'id0', 'mismatch'])
    n = w.node
    if which == 'b=x':
        expected(lambda: n.delete_index(b='x'))
    elif which == 'a=A':
        expected(lambda: n.delete_index(a='A'))
    elif which == 'id0':
        expected(lambda: n.delete_index([(0, '-', '-')], ['index_id'] + list(LABELS)))
    elif which == 'mismatch':
        expected(lambda: n.delete_index([(1, 'Q', 'Q')], ['index_id'] + list(LABELS)))
    else:
        r = w.rec(2) or ('A', 'y')
        expected(lambda: n.delete_index([(2,) + r], ['index_id'] + list(LABELS)))


def op_delete_every(w, s):
    """Delete every record, or all but one, by id and labels in one call."""
    rows = index_rows(w.node)[w.h.choice(f'{s}.keep', [0, 1]):]
    expected(lambda: w.node.delete_index([tuple(r) for r in rows], ['index_id'] + list(LABELS)))


def op_update_index(w, s):
    i = w.h.choice(f'{s}.id', [1, 3, 0])
    row = w.h.choice(f'{s}.row', [('A', 'y'), ('C', 'c'), ('B', 'x')])
    merge = w.h.flag(f'{s}.merge')
    expected(lambda: w.node.update_index([(i,) + row], ['index_id'] + list(LABELS), merge_on_conflict=merge))


def op_merge_two(w, s):
    """One call merging two pairs of records in one go."""
    expected(lambda: w.node.update_index([(1, 'A', 'y'), (1, 'B', 'x')], ['index_id'] + list(LABELS), merge_on_conflict=True))


def op_insert_weights(w, s):
    row = w.h.choice(f'{s}.row', [('B', 'x'), ('B', 'z'), ('A', 'x'), ('-', '-')])
    conflict = w.h.choice(f'{s}.conf', ['abort', 'ignore', 'replace', 'sum'])
    v = w.fresh('w')
    expected(lambda: w.node.insert_weights('wt', [row + (v,)], list(LABELS) + ['wt'], on_conflict=conflict))


def op_update_weights(w, s):
    i = w.h.choice(f'{s}.id', [1, 3, 4, 0])
    r = w.rec(i) or ('-', '-')
    v = w.fresh('w')
    expected(lambda: w.node.update_weights('wt', [(i,) + r + (v,)], ['index_id'] + list(LABELS) + ['wt']))


def op_delete_weights(w, s):
    which = w.h.choice(f'{s}.which', ['a=A', 'id', 'a=C'])
    if which == 'id':
        r = w.rec(3) or ('B', 'x')
        expected(lambda: w.node.delete_weights('wt', [(3,) + r], ['index_id'] + list(LABELS)))
    else:
        expected(lambda: w.node.delete_weights('wt', a=which[-1]))


def op_insert_mapping(w, s):
    o = w.h.choice(f'{s}.o', [1, 2, 0, 5])
    i = w.h.choice(f'{s}.i', [1, 3, 0, 4])
    lv = w.lvl() if w.h.flag(f'{s}.full') else w.lvl(1, 0)
    expected(lambda: w.add_mapping([(o, i)], lv))


def op_insert_mapping_labeled(w, s):
    i = w.h.choice(f'{s}.i', [1, 3])
    o = w.h.choice(f'{s}.o', [1, 2])
    row = w.rec(i) or ('A', 'x')
    v = w.fresh('m', w.mlo)
    expected(lambda: w.node.insert_mappings(w.src, 'L', [(o, v, i) + row + (w.lvl(),)],
                                            ['other_index_id', 'L', 'index_id'] + list(LABELS) + ['mapping_level']))


def op_update_mapping(w, s):
    o = w.h.choice(f'{s}.o', [1, 2])
    i = w.h.choice(f'{s}.i', [1, 3])
    row = w.rec(i) or ('A', 'x')
    v = w.fresh('m', w.mlo)
    expected(lambda: w.node.update_mappings(w.src, 'L', [(o, v, i) + row + (w.lvl(),)],
                                            ['other_index_id', 'L', 'index_id'] + list(LABELS) + ['mapping_level']))


def op_delete_mapping(w, s):
    which = w.h.choice(f'{s}.which', ['row', 'a=A', 'a,b', 'wrong value'])
    n = w.node
    if which == 'a=A':
        expected(lambda: n.delete_mappings(w.src, 'L', a='A'))
    elif which == 'a,b':
        expected(lambda: n.delete_mappings(w.src, 'L', a='A', b='y'))
    else:
        ms = [m for m in mappings_of(n, 'L')]
        if not ms:
            return
        o, i, _, v, _ = ms[0]
        row = w.rec(i) or ('-', '-')
        if which == 'wrong value':
            v = v + 1
        expected(lambda: n.delete_mappings(w.src, 'L', [(o, v, i) + row], ['other_index_id', 'L', 'index_id'] + list(LABELS)))


def op_reify(w, s):
    crit = w.h.choice(f'{s}.crit', [{}, {'a': 'A'}])
    expected(lambda: w.node.reify_mappings(w.src, 'L', **crit))


def op_partition(w, s):
    d = w.h.choice(f'{s}.d', [{'a'}, {'b'}, {'a', 'b'}])
    if w.h.flag(f'{s}.drop'):
        expected(lambda: w.node.drop_partition_definitions(d))
    elif w.h.flag(f'{s}.one'):
        expected(lambda: w.node.add_partition_definition(d))
    else:
        expected(lambda: w.node.add_partition_definitions(d))


def run(h, world, ops, steps, invariant):
    invariant(h, world)
    names = sorted(ops)
    for s in range(steps):
        op = h.choice(f'op{s}', names)
        world.log.append(op)
        h.reach(op)
        ops[op](world, f's{s}')
        invariant(h, world)


# -- invariants

def inv_index(h, w):
    """Labels unique and non-empty, ids never reused, undefined record fixed, hash current."""
    rows = [[r[0]] + list(r[1:]) for r in w.node.select_index()]
    ids = [r[0] for r in rows]
    h.check(0 in ids and all(x == '-' for x in next(r for r in rows if r[0] == 0)[1:]),
            'the undefined record exists and is unchanged', rows)
    h.check(all(x for r in rows for x in r[1:]), 'labels are never empty', rows)
    h.check(len({tuple(r[1:]) for r in rows}) == len(rows), 'label combinations are unique', rows)
    new = [i for i in ids if i not in w.current and i != 0]
    h.check(all(i > w.max_ever for i in new), 'index ids are never reused', [new, w.max_ever])
    w.current = set(ids)
    w.max_ever = max([w.max_ever] + new)
    (val,), = query(w.node, "SELECT value FROM main.property WHERE key='index_hash'")
    h.check(str(val).strip('"') == hash_ids(ids), 'the stored index hash describes the current index ids', [ids])


def inv_weights(h, w):
    """is_complete says exactly whether every index record has a weight."""
    ids = set(w.ids())
    for g in w.node.weight_groups:
        ws = weights_of(w.node, g.name)
        h.check(set(ws) <= ids, 'every weight belongs to an index record', [sorted(ws), sorted(ids)])
        h.check(h.all_([h.le(0, v) for v in ws.values()]), 'weights are never negative')
        if g.is_complete:
            h.check(set(ws) == ids, 'a weight group marked complete covers every index record', [g.name, sorted(ws), sorted(ids)])
        elif ids:
            h.check(set(ws) != ids, 'a weight group covering every index record is marked complete', [g.name])


def inv_mapping(h, w):
    """Proportions sum to one, hash and completeness of the link are current."""
    ids = set(w.ids())
    (link,) = w.node.links
    ms = mappings_of(w.node, 'L')
    by = {}
    for o, i, lv, v, p in ms:
        h.check(i in ids or i == 0, 'every mapping points to an existing index record', [o, i])
        h.check(not (o == 0 and i == 0), 'undefined never maps to undefined')
        h.check(p is not None, 'every mapping has a proportion', [o, i])
        h.check(h.all_([h.le(0, p), h.le(p, 1)]), 'proportions lie between 0 and 1', [o, i, p])
        by.setdefault(o, []).append((v, p))
    for o, part in by.items():
        if o == 0:
            h.check(h.all_([h.eq(p, 0) for _, p in part]), 'mappings from the undefined record carry nothing')
            continue
        h.check_eq(h.sum_([p for _, p in part]), 1, 'proportions of one source record sum to one', [o, part])
        if w.ratios:
            total = h.sum_([v for v, _ in part])
            h.check(h.any_([h.eq(total, 0)] + [h.all_([h.eq(p * total, v) for v, p in part])]),
                    'proportions follow the mapping values', [o, part])
    h.check(link.other_index_hash == hash_ids({0} | set(by)), 'the link hash describes the mapped source records',
            sorted(by))
    covered = {i for _, i, *_ in ms}
    h.check(link.is_locally_complete == (ids <= covered), 'the link completeness flag is current',
            [link.is_locally_complete, sorted(ids), sorted(covered)])




def granularity(blocks, n):
    if not n:
        return None
    return math.log2(n) - sum(k / n * math.log2(k) for k in blocks.values())


def inv_structure(h, w):
    """Structure = all unions of the partition definitions with current granularity."""
    node = w.node
    cols = list(node.index_columns)
    defs = [frozenset(d) for d in node.partition_definitions]
    whole = frozenset(cols)
    want = set()
    for k in range(len(defs) + 1):
        for c in combinations(defs, k):
            want.add(frozenset().union(*c))
    have = {}
    for r in query(node, 'SELECT * FROM main.label_structure'):
        key = frozenset(c for c, b in zip(cols, r[2:]) if b)
        h.check(key not in have, 'structure entries are distinct')
        have[key] = r[1]
    h.check(set(have) == want, 'the structure is the set of all unions of the partition definitions',
            [sorted(map(sorted, have)), sorted(map(sorted, want))])
    h.check(whole in want, 'the whole space is always a partition')
    for d in defs:
        rest = [e for e in defs if e < d]
        h.check(frozenset().union(*rest) != d, 'no stored partition definition is redundant', sorted(d))
    rows = [dict(zip(cols, r[1:])) for r in index_rows(node)]
    for key, g in have.items():
        blocks = {}
        for r in rows:
            k = tuple(r[c] for c in sorted(key))
            blocks[k] = blocks.get(k, 0) + 1
        exp = granularity(blocks, len(rows)) if key else None
        h.check((g is None) == (exp is None) and (g is None or abs(g - exp) < 1e-9),
                'granularity matches the current index', [sorted(key), g, exp])
