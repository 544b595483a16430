"""Opening files of earlier schema versions."""
import json
import os

from symx.harness import scenario
from .common import query, raises, mappings_of, new_space, level

META = dict(
    title='Files of earlier versions open with all of their data',
    statement='Opening a file of an earlier schema version gives the same index records, labels, weights, links, mappings, '
              'attributes and partition definitions as were stored; only the undefined-to-undefined mapping is dropped and '
              'quantities of one location and attribute combination are added up. The space works like a new one, a second '
              'opening changes nothing, a read-only file is refused unchanged, and a migration that fails changes nothing.',
    over=['inputs', 'configurations', 'fault_sequences'],
    text='for every combination of stored rows, values and ways of opening within the bound',
    why='tests migrate one fixed file; the guarantee is about every content an earlier version could store',
    files=['src/toron/dal1/migrations.py', 'src/toron/dal1/schema.py', 'src/toron/dal1/data_connector.py'],
    mechanism=[('migrate', 'apply_migrations, v020_to_v030_*, v030_to_v031_*'), ('open', 'DataConnector.bind_file, read_from_file')])

REACH = {'migrate': ['0.2.0', '0.3.0', 'added up', 'no domain', 'old domain', 'refused read-only', 'undefined pair', 'unknown level', 'works'],
         'failing': ['failed']}


def script(version, n, data):
    """SQL of an old file with *n* label columns."""
    cols = [f'l{k}' for k in range(n)]
    old = version == '0.2.0'
    t = {k: (k if old else 'label_' + k.split('_')[-1]) for k in ('location', 'structure')}
    t['index'] = 'node_index' if old else 'label_index'
    lab = ', '.join(f'"{c}" TEXT NOT NULL CHECK ("{c}" != \'\') DEFAULT \'-\'' for c in cols)
    loc = ', '.join(f'"{c}" TEXT NOT NULL DEFAULT \'\'' for c in cols)
    st = ', '.join(f'"{c}" INTEGER NOT NULL CHECK ("{c}" IN (0, 1)) DEFAULT 0' for c in cols)
    link, mp = ('crosswalk', 'relation') if old else ('link', 'mapping')
    out = [f'CREATE TABLE {t["index"]}(index_id INTEGER PRIMARY KEY AUTOINCREMENT, {lab})',
           f'CREATE TABLE {t["location"]}(_location_id INTEGER PRIMARY KEY, {loc})',
           f'CREATE TABLE {t["structure"]}(_structure_id INTEGER PRIMARY KEY, _granularity REAL, {st})',
           'CREATE TABLE weight_group(weight_group_id INTEGER PRIMARY KEY, name TEXT NOT NULL, description TEXT, selectors TEXT_SELECTORS, '
           'is_complete INTEGER NOT NULL CHECK (is_complete IN (0, 1)) DEFAULT 0, UNIQUE (name))',
           'CREATE TABLE weight(weight_id INTEGER PRIMARY KEY, weight_group_id INTEGER, index_id INTEGER CHECK (index_id > 0), '
           'weight_value REAL NOT NULL, FOREIGN KEY(weight_group_id) REFERENCES weight_group(weight_group_id) ON DELETE CASCADE, '
           f'FOREIGN KEY(index_id) REFERENCES {t["index"]}(index_id) DEFERRABLE INITIALLY DEFERRED, UNIQUE (index_id, weight_group_id))',
           'CREATE TABLE attribute_group(attribute_group_id INTEGER PRIMARY KEY, attributes TEXT_ATTRIBUTES NOT NULL, UNIQUE (attributes))',
           'CREATE TABLE quantity(quantity_id INTEGER PRIMARY KEY, _location_id INTEGER, attribute_group_id INTEGER, '
           f'quantity_value NUMERIC NOT NULL, FOREIGN KEY(_location_id) REFERENCES {t["location"]}(_location_id) ON DELETE CASCADE, '
           'FOREIGN KEY(attribute_group_id) REFERENCES attribute_group(attribute_group_id) ON DELETE CASCADE'
           + ('' if old else ', UNIQUE (_location_id, attribute_group_id)') + ')',
           f'CREATE TABLE {link}({link}_id INTEGER PRIMARY KEY, other_unique_id TEXT NOT NULL, other_filename_hint TEXT, name TEXT NOT NULL, '
           'description TEXT, selectors TEXT_SELECTORS, is_default INTEGER CHECK (is_default IS NULL OR is_default=1) DEFAULT NULL, '
           'user_properties TEXT_USERPROPERTIES, other_index_hash TEXT, '
           'is_locally_complete INTEGER NOT NULL CHECK (is_locally_complete IN (0, 1)) DEFAULT 0, '
           'UNIQUE (name, other_unique_id), UNIQUE (is_default, other_unique_id))',
           f'CREATE TABLE {mp}({mp}_id INTEGER PRIMARY KEY, {link}_id INTEGER, other_index_id INTEGER NOT NULL CHECK (TYPEOF(other_index_id) = \'integer\'), '
           f'index_id INTEGER, mapping_level BLOB_BITFLAGS, {mp}_value REAL NOT NULL CHECK (TYPEOF({mp}_value) = \'real\' AND 0.0 <= {mp}_value), '
           'proportion REAL CHECK (0.0 <= proportion AND proportion <= 1.0), '
           f'FOREIGN KEY({link}_id) REFERENCES {link}({link}_id) ON DELETE CASCADE, '
           f'FOREIGN KEY(index_id) REFERENCES {t["index"]}(index_id) DEFERRABLE INITIALLY DEFERRED, UNIQUE ({link}_id, other_index_id, index_id))',
           'CREATE TABLE property(key TEXT PRIMARY KEY NOT NULL, value TEXT_JSON)']
    names = ', '.join(f'"{c}"' for c in cols)
    for k in t:
        out.append(f'CREATE UNIQUE INDEX unique_{k}_label_columns ON {t[k]}({names})')
    q = lambda m: ', '.join('?' * m)
    ins = [(f'INSERT INTO {t["index"]} VALUES({q(n + 1)})', r) for r in data['index']]
    ins += [(f'INSERT INTO {t["location"]} VALUES({q(n + 1)})', r) for r in data['location']]
    ins += [(f'INSERT INTO {t["structure"]} VALUES({q(n + 2)})', r) for r in data['structure']]
    for k, m in (('weight_group', 5), ('weight', 4), ('attribute_group', 2), ('quantity', 4), ('property', 2)):
        ins += [(f'INSERT INTO {k} VALUES({q(m)})', r) for r in data[k]]
    ins += [(f'INSERT INTO {link} VALUES({q(10)})', r) for r in data['link']]
    ins += [(f'INSERT INTO {mp} VALUES({q(7)})', r) for r in data['mapping']]
    for ev in ('UPDATE', 'DELETE'):
        out.append(f'CREATE TRIGGER trigger_on_{ev.lower()}_for_undefined BEFORE {ev} ON main.{t["index"]} FOR EACH ROW WHEN OLD.index_id = 0 '
                   "BEGIN SELECT RAISE(FAIL, 'cannot modify undefined record (index_id 0)'); END")
    return out, ins


def content(h, version, n, quantities, maps, domain):
    lab = [('A', 'x'), ('A', 'y'), ('B', 'x')]
    cut = lambda r: tuple(r[:n])
    full = tuple([1] * n)
    props = [('toron_schema_version', json.dumps(version)), ('toron_app_version', '"0.1.0"'), ('unique_id', '"11111111-1111-1111-1111-111111111111"'),
             ('index_hash', '"' + h_hash([0, 1, 2, 3][:1 + 3]) + '"'), ('default_weight_group_id', '1'),
             ('discrete_categories' if version == '0.2.0' else 'partition_definitions', json.dumps([['l0']] + ([['l1']] if n > 1 else [])))]
    if version == '0.3.0':
        props.append(('registered_attributes', '["k"]'))
    if domain is not None:
        props.append(('domain', domain))
    index = [(0,) + ('-',) * n] + [(i + 1,) + cut(r) for i, r in enumerate(lab if n > 1 else [('A',), ('B',), ('C',)])]
    structure = [(1, None) + (0,) * n, (2, 1.5) + full] + ([(3, 0.5, 1, 0), (4, 0.5, 0, 1)] if n > 1 else [])
    return dict(index=index, location=[(1,) + cut(('A', 'x')), (2,) + (cut(('B', '')))], structure=structure,
                weight_group=[(1, 'wt', 'd', '["[k=\\"v\\"]"]', 1), (2, 'w2', None, None, 0)],
                weight=[(1, 1, 1, h.real('w1', 0, 100)), (2, 1, 2, h.real('w2', 0, 100)), (3, 1, 3, h.real('w3', 0, 100)), (4, 2, 2, 4.0)],
                attribute_group=[(1, '{"k": "v"}'), (2, '{"k": "u"}')], quantity=quantities,
                link=[(1, '22222222-2222-2222-2222-222222222222', 'o.toron', 'L', None, '["[k=\\"v\\"]"]', 1, '{"p": 1}', 'hash', 1),
                      (2, '22222222-2222-2222-2222-222222222222', None, 'M', 'd', None, None, None, None, 0)],
                mapping=maps, property=props)


def h_hash(ids):
    from .common import hash_ids
    return hash_ids(ids)


def dump(h, path):
    con = h.sql.connect(path)
    try:
        tables = sorted(r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type='table'"))
        return {t: [list(r) for r in con.execute(f'SELECT * FROM "{t}" ORDER BY 1')] for t in tables}
    finally:
        con.close()


def build(h, version, n, quantities, maps, domain):
    data = content(h, version, n, quantities, maps, domain)
    path = os.path.join(h.scratch(), 'old.toron')
    con = h.sql.connect(path)
    ddl, ins = script(version, n, data)
    for s in ddl:
        con.execute(s)
    for s, r in ins:
        con.execute(s, r)
    from toron.data_models import TORON_MAGIC_NUMBER
    con.execute(f'PRAGMA application_id = {int.from_bytes(TORON_MAGIC_NUMBER, "big")}')
    con.execute(f'PRAGMA user_version = {int.from_bytes(b"DAL1", "big")}')
    con.commit()
    con.close()
    return path, data


def inputs(h, n):
    full, part = level(*([1] * n)), level(1, *([0] * (n - 1)))
    qs = [(1, 1, 1, h.real('q1', -100, 100)), (2, 2, 1, h.real('q2', -100, 100))]
    qs += h.choice('more', [[], [(3, 1, 1, h.real('q3', -100, 100))], [(3, 2, 2, h.real('q4', -100, 100)), (5, 2, 1, h.real('q5', -100, 100)),
                                                                       (6, 2, 1, h.real('q6', -100, 100))]])
    lv = h.choice('level', [None, full, part])
    maps = [(1, 1, 1, 1, lv, h.real('m1', 0, 100), 1.0), (2, 1, 2, 2, full, h.real('m2', 0, 100), 0.25), (3, 1, 2, 3, None, 1.0, 0.75)]
    maps += h.choice('mmore', [[], [(4, 1, 0, 0, None, 0.0, 1.0), (5, 2, 0, 1, part, h.real('m5', 0, 100), 1.0)], [(4, 2, 0, 0, full, 0.0, 1.0)]])
    return qs, maps


@scenario(quick=dict(columns=[2]), thorough=dict(columns=[1, 2]))
def migrate(h):
    """Open files of version 0.2.0 and 0.3.0 in every way."""
    import toron
    version = h.choice('version', ['0.2.0', '0.3.0'])
    n = h.choice('columns', h.bound('columns'))
    qs, maps = inputs(h, n)
    if version == '0.3.0':     # constraints of this version
        qs, maps = qs[:2], [m[:4] + (m[4] or level(*[1] * n),) + m[5:] for m in maps if m[2:4] != (0, 0)]
    domain = h.choice('domain', [None, '{"domain": "d"}', '{"p": "q", "domain": "b"}', '{}', '{"p": "q"}'] if version == '0.2.0' else ['"d"', None])
    path, data = build(h, version, n, qs, maps, domain)
    before = dump(h, path)
    how = h.choice('how', ['ro', 'rw', 'read', 'cached'])
    with raises(Exception) as err:
        node = toron.bind_file(path, mode=how) if how in ('ro', 'rw') else toron.read_file(path, cache_to_drive=how == 'cached')
    h.check(bool(err) == (how == 'ro'), 'old files open, except read-only', repr(err))
    if how != 'rw':
        h.check_same(dump(h, path), before, 'the old file itself stays unchanged')
    if err:
        h.reach('refused read-only')
        return
    h.reach(version)
    for round_ in range(2):
        same = [list(r) for r in data['index']]
        h.check_same([list(r) for r in query(node, 'SELECT * FROM main.label_index ORDER BY 1')], same, 'index records are kept')
        h.check_same([list(r) for r in query(node, 'SELECT * FROM main.label_location ORDER BY 1')], [list(r) for r in data['location']], 'locations are kept')
        h.check_same([list(r) for r in query(node, 'SELECT * FROM main.label_structure ORDER BY 1')], [list(r) for r in data['structure']], 'the structure is kept')
        h.check_same([list(r) for r in query(node, 'SELECT * FROM main.weight ORDER BY 1')], [list(r) for r in data['weight']], 'weights are kept')
        h.check_same([(g.name, g.description, g.selectors, g.is_complete) for g in node.weight_groups], [('w2', None, None, False), ('wt', 'd', ['[k="v"]'], True)]
                     if node.weight_groups[0].name == 'w2' else [('wt', 'd', ['[k="v"]'], True), ('w2', None, None, False)], 'weight groups are kept')
        links = sorted(node.links, key=lambda k: k.name)
        h.check_same([[k.id, k.name, k.other_unique_id, k.other_filename_hint, k.description, k.selectors, k.is_default, k.user_properties, k.other_index_hash,
                       k.is_locally_complete] for k in links],
                     [[1, 'L', data['link'][0][1], 'o.toron', None, ['[k="v"]'], True, {'p': 1}, 'hash', True],
                      [2, 'M', data['link'][0][1], None, 'd', None, False, None, None, False]], 'links are kept')
        got = sorted(query(node, 'SELECT mapping_id, link_id, other_index_id, index_id, mapping_level, mapping_value, proportion FROM main.mapping'))
        exp = [list(m[:4]) + [m[4] if m[4] is not None else level(*[1] * n)] + list(m[5:]) for m in maps if m[2:4] != (0, 0)]
        h.reach('undefined pair') if len(exp) < len(maps) else None
        h.reach('unknown level') if any(m[4] is None for m in maps) else None
        h.check_same([list(r) for r in got], exp, 'mappings are kept, except from undefined to undefined')
        tot = {}
        for q in qs:
            h.reach('added up') if q[1:3] in tot else None
            tot[q[1:3]] = tot.get(q[1:3], 0) + q[3]
        rows = {tuple(r[:2]): r[2] for r in query(node, 'SELECT _location_id, attribute_group_id, quantity_value FROM main.quantity')}
        h.check(set(rows) == set(tot) and len(query(node, 'SELECT 1 FROM main.quantity')) == len(tot), 'one quantity per location and attributes', sorted(rows))
        for k, v in tot.items():
            h.check_eq(rows[k], v, 'quantities are added up')
        dom = {None: '', '{}': '', '"d"': 'd', '{"domain": "d"}': 'd', '{"p": "q", "domain": "b"}': 'domain_b_p_q', '{"p": "q"}': 'p_q'}[domain]
        h.reach('no domain' if not dom else 'old domain' if version == '0.2.0' else None) if not dom or version == '0.2.0' else None
        h.check(node.domain == dom, 'the domain is kept', node.domain)
        h.check(node.get_registered_attributes() == ['k'], 'attributes are registered', node.get_registered_attributes())
        h.check(node.index_columns == [f'l{k}' for k in range(n)], 'label columns are kept', node.index_columns)
        h.check({frozenset(p) for p in node.partition_definitions} == {frozenset([f'l{k}']) for k in range(n)}, 'partition definitions are kept', node.partition_definitions)
        h.check(node.unique_id == '11111111-1111-1111-1111-111111111111', 'the identifier is kept')
        if round_ == 0:
            if how == 'rw':
                once = dump(h, path)
                node = toron.bind_file(path, mode='rw')
                h.check_same(dump(h, path), once, 'opening again changes nothing')
            else:
                new = os.path.join(h.scratch(), 'new.toron')
                node.to_file(new)
                node = toron.read_file(new)
    node.insert_index([tuple('ZZ'[:n])], [f'l{k}' for k in range(n)])
    h.check([r[0] for r in query(node, 'SELECT index_id FROM main.label_index ORDER BY 1')] == [0, 1, 2, 3, 4], 'record ids continue')
    with raises(Exception) as err:
        with node._managed_transaction() as cur:
            cur.execute(f"INSERT INTO main.label_index VALUES (NULL, {', '.join('?' * n)})", tuple('ZZ'[:n]))
    h.check(bool(err), 'labels stay unique')
    with raises(Exception) as err:
        with node._managed_transaction() as cur:
            cur.execute('DELETE FROM main.label_index WHERE index_id=0')
    h.check(bool(err), 'the undefined record stays protected')
    with raises(Exception) as err:
        with node._managed_transaction() as cur:
            cur.execute('INSERT INTO main.mapping VALUES (99, 1, 1, 77, ?, 1.0, 1.0)', (level(1),))
    h.check(bool(err), 'references are enforced')
    h.reach('works')
    h.observe('n', len(exp))


@scenario()
def failing(h):
    """A migration that fails at any point leaves the file as it was."""
    import toron
    from toron.dal1 import migrations
    from unittest import mock
    names = ['v020_to_v030_step01_link_table', 'v020_to_v030_step02_relation_table', 'v020_to_v030_step03_quantity_table',
             'v020_to_v030_step04_rename_label_tables', 'v020_to_v030_step05_properties', 'v030_to_v031_step01_properties']
    where = h.choice('where', names)
    late = h.flag('late')
    qs, maps = inputs(h, 2)
    path, data = build(h, '0.2.0', 2, qs, maps, None)
    before = dump(h, path)
    real = getattr(migrations, where)

    def broken(*a):
        if late:
            real(*a)
        raise OSError('disk')
    how = h.choice('how', ['rw', 'read'])
    with mock.patch.object(migrations, where, broken), raises(OSError) as err:
        toron.bind_file(path, mode='rw') if how == 'rw' else toron.read_file(path)
    h.check(bool(err), 'the failure is reported')
    h.check_same(dump(h, path), before, 'a failed migration changes nothing')
    h.reach('failed')
    node = toron.bind_file(path, mode='rw')
    h.check([r[0] for r in query(node, 'SELECT index_id FROM main.label_index ORDER BY 1')] == [0, 1, 2, 3], 'the file opens later')
