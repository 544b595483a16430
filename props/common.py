"""Helpers shared by the scenarios (public toron API plus raw table reads)."""
import logging
import re
import uuid
import warnings
from binascii import crc32
from contextlib import contextmanager

logging.getLogger('app-toron').setLevel(1000)


def new_space(labels=('a', 'b'), rows=(), partitions=(), attrs=('attr',), domain=None, **kw):
    from toron import DataSpace
    node = DataSpace(**kw)
    if domain:
        node.set_domain(domain)
    node.add_index_columns(*labels)
    for p in partitions:
        node.add_partition_definitions(set(p))
    if rows:
        node.insert_index([tuple(r) for r in rows], list(labels))
    if attrs:
        node.set_registered_attributes(list(attrs))
    return node


def set_weights(node, name, rows, values, labels=('a', 'b'), selectors=None, default=None, **kw):
    """Create weight group *name*; *values* parallel to *rows* (None = no weight)."""
    node.add_weight_group(name, selectors=selectors, make_default=default)
    data = [tuple(r) + (v,) for r, v in zip(rows, values) if v is not None]
    if data:
        node.insert_weights(name, data, list(labels) + [name], **kw)


def add_quantities(node, rows, labels=('a', 'b'), attrs=('attr',), **kw):
    """rows: label values + attribute values + value."""
    node.insert_quantities2(value_column='value', data=[tuple(r) for r in rows],
                            columns=list(labels) + list(attrs) + ['value'], **kw)


def query(node, sql, params=()):
    """Rows of *node*'s own database."""
    with node._managed_cursor() as cur:
        cur.execute(sql, params)
        return cur.fetchall()


TABLES = {
    'index': 'SELECT * FROM main.label_index ORDER BY index_id',
    'location': 'SELECT * FROM main.label_location ORDER BY _location_id',
    'structure': 'SELECT * FROM main.label_structure ORDER BY _structure_id',
    'weight_group': 'SELECT * FROM main.weight_group ORDER BY weight_group_id',
    'weight': 'SELECT * FROM main.weight ORDER BY weight_id',
    'attribute_group': 'SELECT * FROM main.attribute_group ORDER BY attribute_group_id',
    'quantity': 'SELECT * FROM main.quantity ORDER BY quantity_id',
    'link': 'SELECT * FROM main.link ORDER BY link_id',
    'mapping': 'SELECT * FROM main.mapping ORDER BY mapping_id',
    'property': 'SELECT * FROM main.property ORDER BY key',
}


def snapshot(node, skip=()):
    """Complete stored content, table by table (row ids included)."""
    return {t: [list(r) for r in query(node, sql)] for t, sql in TABLES.items() if t not in skip}


def index_rows(node):
    """[(index_id, labels...)] without the undefined record."""
    return [r for r in ([x[0]] + list(x[1:]) for x in node.select_index()) if r[0] != 0]


def weights_of(node, name):
    """{index_id: value} for one weight group."""
    return {i: v for i, v in query(
        node, 'SELECT index_id, weight_value FROM main.weight JOIN main.weight_group USING (weight_group_id) '
              'WHERE name=?', (name,))}


def mappings_of(node, link_name):
    """[(other_index_id, index_id, level, value, proportion)]."""
    return [tuple(r) for r in query(
        node, 'SELECT other_index_id, index_id, mapping_level, mapping_value, proportion FROM main.mapping '
              'JOIN main.link USING (link_id) WHERE name=? ORDER BY mapping_id', (link_name,))]


def level(*bits):
    from toron._utils import BitFlags
    return bytes(BitFlags(bits))


def link_spaces(src, trg, name, data, **kw):
    """Add link *name* (src -> trg) with mapping rows (other, index, level, value)."""
    trg.add_link(src, name, **kw)
    if data:
        trg.insert_mappings2(src.unique_id, name, [('other_index_id', 'index_id', 'mapping_level', name)] + list(data))


@contextmanager
def raises(*types):
    """Collect an expected exception: yields a list that receives it."""
    got = []
    try:
        yield got
    except types as e:
        got.append(e)


def hash_ids(ids):
    """Independent reimplementation of the documented sequence hash."""
    import hashlib
    h = hashlib.sha256()
    for i in sorted(ids):
        h.update(int(i).to_bytes(8, 'big'))
    return h.hexdigest()


def code(space, i):
    """Index code as documented: id and checksum of id and dataset."""
    ident = uuid.UUID(space.unique_id).bytes
    return f'{i}X{crc32(int(i).to_bytes(8, "big") + ident) & 0xffffffff:08X}'


@contextmanager
def messages():
    """All messages of the application log and all warnings."""
    out = []

    class Handler(logging.Handler):
        def emit(self, record):
            out.append(record.getMessage())
    log = logging.getLogger('app-toron')
    old, handler = log.level, Handler()
    log.addHandler(handler)
    log.setLevel(1)
    try:
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            yield out
        out += [part for w in caught for part in str(w.message).split(', ')]
    finally:
        log.removeHandler(handler)
        log.setLevel(old)


def number(msgs, *words):
    """The number in the messages with all of *words* (a word of the form -x must not occur)."""
    hits = [m for m in msgs if all((w[1:] not in m) if w[0] == '-' else (w in m) for w in words) and re.search(r'\b\d+\b', m)]
    return sum(int(re.search(r'\b(\d+)\b', m).group(1)) for m in hits)


@contextmanager
def cli_streams(modname):
    """CSV reading and writing of a command, without the text layer; gives the module and the list of written rows."""
    import importlib
    import types
    from unittest import mock
    m = importlib.import_module(f'toron.cli.{modname}')
    out = []

    @contextmanager
    def writer(stdout=None):
        yield types.SimpleNamespace(writerow=lambda r: out.append(list(r)))
    with mock.patch.object(m, 'csv_stdout_writer', writer), \
            mock.patch.object(m, 'csv', types.SimpleNamespace(reader=lambda stream: iter(stream))):
        yield m, out
