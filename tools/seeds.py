"""Definitions of the planted bugs (regenerates seeded/*)."""
import sys

from plant import new

HEAD = '''
import logging, sys
logging.disable(logging.CRITICAL)
from toron import DataSpace
'''
DS = 'src/toron/data_service.py'
SEL = 'src/toron/selectors.py'
SP = 'src/toron/space.py'
DM = 'src/toron/data_models.py'
UT = 'src/toron/_utils.py'
PA = 'src/toron/partitions.py'
MP = 'src/toron/mapper.py'
MG = 'src/toron/dal1/migrations.py'
DC = 'src/toron/dal1/data_connector.py'
RP = 'src/toron/dal1/repositories.py'
LM = 'src/toron/dal1/label_manager.py'
CR = 'src/toron/cli/command_remove.py'
CM = 'src/toron/cli/command_mapping.py'
CI = 'src/toron/cli/command_index.py'
CU = 'src/toron/cli/command_update.py'
SC = 'src/toron/dal1/schema.py'
S = {}


def seed(*a):
    S[a[0]] = a


seed('tiny_weights', 'C01', 'weights whose sum is positive but below 1e-9',
     'A quantity over records with tiny weights is split evenly instead of by weight.',
     [(DS, '    if group_weight:\n', '    if group_weight > 1e-9:\n')], HEAD + '''
n = DataSpace()
n.add_index_columns('a', 'b')
n.add_partition_definitions({'a'})
n.insert_index([('A', 'x'), ('A', 'y')], ['a', 'b'])
n.add_weight_group('w', make_default=True)
n.insert_weights('w', [('A', 'x', 1e-10), ('A', 'y', 3e-10)], ['a', 'b', 'w'])
n.set_registered_attributes(['attr'])
n.insert_quantities2(value_column='value', data=[('A', '', 'v', 8.0)], columns=['a', 'b', 'attr', 'value'])
got = sorted(r[-1] for r in n())
print(got)
sys.exit(0 if abs(got[0] - 2) < 1e-6 and abs(got[1] - 6) < 1e-6 else 1)
''')

seed('zero_mapping_delete', 'C04', 'an index record is deleted whose mapping value is zero while all other values of that source record are zero too',
     'Proportions of the remaining mappings are not refreshed, so they no longer sum to one.',
     [(DS, "        other_index_ids.add(mapping.other_index_id)\n        mapping_repo.delete(mapping.id)",
       "        if mapping.value:\n            other_index_ids.add(mapping.other_index_id)\n        mapping_repo.delete(mapping.id)")], HEAD + '''
from toron._utils import BitFlags
n = DataSpace()
n.add_index_columns('a')
n.insert_index([('A',), ('B',)], ['a'])
s = DataSpace()
s.add_index_columns('s')
s.insert_index([('S',)], ['s'])
n.add_link(s, 'L')
full = bytes(BitFlags([1]))
n.insert_mappings2(s.unique_id, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L'), (1, 1, full, 0.0), (1, 2, full, 0.0)])
n.delete_index(a='A')
with n._managed_cursor() as c:
    got = c.execute('SELECT sum(proportion) FROM mapping WHERE other_index_id = 1').fetchone()[0]
print(got)
sys.exit(0 if abs(got - 1) < 1e-9 else 1)
''')

seed('last_selector_wins', 'C12', 'a group with several selectors that match the same row with different specificity',
     'The group is ranked by whichever matching selector comes last instead of its most specific one.',
     [(SEL, """                specificity = max(
                    matched.get(key, (0, 0)),
                    selector.specificity,
                )
""", """                specificity = selector.specificity
""")], HEAD + '''
from toron.selectors import get_greatest_unique_specificity as f, parse_selector as p
row = {'A': 'x', 'B': 'y'}
bad = 0
for a in (['[A="x"][B="y"]', '[A]'], ['[A]', '[A="x"][B="y"]']):
    got = f(row, {1: [p(x) for x in a], 2: [p('[A="x"]')]}, default=0)
    bad += got != 1
sys.exit(bad)
''')

seed('dash_prefix', 'C11', 'a pattern that itself contains a dash',
     'The "|=" operator compares the text before the first dash only.',
     [(SEL, "b.startswith(f'{a}-') or a == b", "b.split('-')[0] == a or a == b")], HEAD + '''
from toron.selectors import SimpleSelector
s = SimpleSelector('A', '|=', 'en-us')
sys.exit(0 if s({'A': 'en-us-x'}) and s({'A': 'en-us'}) and not s({'A': 'en'}) else 1)
''')


REPO_ = 'src/toron/dal1/repositories.py'
UT = 'src/toron/_utils.py'
GR = 'src/toron/graph.py'
RD = 'src/toron/reader.py'
MP = 'src/toron/mapper.py'
CON = 'src/toron/dal1/data_connector.py'
DAL = 'src/toron/_dal.py'
COM = 'src/toron/cli/common.py'

seed('replace_keeps_complete', 'C05', 'an incomplete weight group whose missing record is merged into one that has a weight, next to a group that stays incomplete',
     'Only the first incomplete weight group is looked at after a merge, so a later group that became complete stays marked incomplete.',
     [(SP, """                # Merges may have eliminated all unweighted indexes.
                group_repo = self._dal.WeightGroupRepository(cursor)
                for group in group_repo.get_all():
                    if (not group.is_complete
                            and weight_repo.weight_group_is_complete(group.id)):
                        group_repo.update(replace(group, is_complete=True))
""", """                # Merges may have eliminated all unweighted indexes.
                group_repo = self._dal.WeightGroupRepository(cursor)
                for group in group_repo.get_all():
                    if group.is_complete:
                        continue
                    if not weight_repo.weight_group_is_complete(group.id):
                        break
                    group_repo.update(replace(group, is_complete=True))
""")], HEAD + """
n = DataSpace()
n.add_index_columns('a')
n.insert_index([('A',), ('B',), ('C',)], ['a'])
n.insert_weights('v', [('C', 1.0)], ['a', 'v'])
n.insert_weights('w', [('A', 1.0), ('C', 1.0)], ['a', 'w'])
n.update_index([(1, 'B')], ['index_id', 'a'], merge_on_conflict=True)
got = n.get_weight_group('w').is_complete, n.get_weight_group('v').is_complete
print(got)
sys.exit(0 if bool(got[0]) and not got[1] else 1)
""")

seed('sum_wrong_attribute', 'C16', 'a repeated quantity loaded with on_existing="sum" whose stored value is zero',
     'A stored zero is not increased by further values when loading with on_existing="sum".',
     [(SP, """                        summed_value = quantity.value + float(row_dict[value_column])
                        quantity_repo.update(replace(quantity, value=summed_value))
""", """                        summed_value = quantity.value and quantity.value + float(row_dict[value_column])
                        quantity_repo.update(replace(quantity, value=summed_value))
""")], HEAD + """
n = DataSpace()
n.add_index_columns('a')
n.insert_index([('A',)], ['a'])
n.set_registered_attributes(['k'])
n.insert_quantities2(value_column='v', data=[('A', 'x', 0.0), ('A', 'x', 2.5)], columns=['a', 'k', 'v'], on_existing='sum')
got = [r[-1] for r in n.select_quantities2(header=False)]
print(got)
sys.exit(0 if got == [2.5] else 1)
""")

seed('merge_levels', 'C20', 'records are merged that have mappings of different levels from one source record',
     'Mappings of different mapping levels are added up into one when records are merged.',
     [(DM, """        mapping_sums: defaultdict = defaultdict(lambda: (0.0, 0.0))
        for index_id in index_ids:""", """        mapping_sums: defaultdict = defaultdict(lambda: (0.0, 0.0))
        levels: dict = {}
        for index_id in index_ids:"""),
      (DM, "                key = (rel.link_id, rel.other_index_id, rel.mapping_level)\n", """                pair = (rel.link_id, rel.other_index_id)
                key = pair + (levels.setdefault(pair, rel.mapping_level),)
""")], HEAD + """
n = DataSpace()
n.add_index_columns('a', 'b')
n.add_partition_definitions({'a'})
n.insert_index([('A', 'x'), ('A', 'y')], ['a', 'b'])
s = DataSpace()
s.add_index_columns('s')
s.insert_index([('S',)], ['s'])
n.add_link(s, 'L')
n.insert_mappings2(s, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L'), (1, 1, bytes([0x80]), 3.0), (1, 2, bytes([0xc0]), 5.0)])
n.update_index([(1, 'A', 'y')], ['index_id', 'a', 'b'], merge_on_conflict=True)
with n._managed_cursor() as c:
    got = sorted(c.execute('SELECT hex(mapping_level), mapping_value FROM mapping').fetchall())
print(got)
sys.exit(0 if got == [('80', 3.0), ('C0', 5.0)] else 1)
""")

seed('default_elsewhere', 'C22', 'links from two different sources, a later one made the default of its source by editing',
     'Making a link the default also clears the default of links that come from other spaces with the same file name hint.',
     [(SP, """                matches = link_repo.find_by_other_unique_id(link.other_unique_id)
                for match in list(matches):""", """                if link.other_filename_hint:
                    matches = link_repo.find_by_other_filename_hint(link.other_filename_hint)
                else:
                    matches = link_repo.find_by_other_unique_id(link.other_unique_id)
                for match in list(matches):""")], HEAD + """
def space():
    s = DataSpace()
    s.add_index_columns('s')
    return s
n, s, t = space(), space(), space()
n.add_link(s, 'A', other_filename_hint='f')
n.add_link(t, 'A', other_filename_hint='f')
n.add_link(t, 'B', other_filename_hint='f')
n.edit_link(t.unique_id, 'B', is_default=True)
got = sorted((x.other_unique_id == s.unique_id, x.name, bool(x.is_default)) for x in n.links)
print(got)
sys.exit(0 if got == [(False, 'A', False), (False, 'B', True), (True, 'A', True)] else 1)
""")

seed('level_skips_last', 'C21', 'a link with ambiguous mappings whose criteria name more columns than the mapping uses',
     'Deleting mappings by criteria removes only mappings whose level equals the criteria exactly.',
     [(SP, """                        bitwise_or = criteria_level | BitFlags(rel.mapping_level)
                        if criteria_level == bitwise_or:""", """                        if criteria_level == BitFlags(rel.mapping_level):""")], HEAD + """
n = DataSpace()
n.add_index_columns('a', 'b')
n.add_partition_definitions({'a'})
n.insert_index([('A', 'x'), ('A', 'y')], ['a', 'b'])
s = DataSpace()
s.add_index_columns('s')
s.insert_index([('S',)], ['s'])
n.add_link(s, 'L')
n.insert_mappings2(s, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L'), (1, 1, bytes([0x80]), 3.0), (1, 2, bytes([0x80]), 5.0)])
import warnings
warnings.simplefilter('ignore')
n.delete_mappings(s, 'L', a='A', b='x')
with n._managed_cursor() as c:
    got = c.execute('SELECT index_id FROM mapping').fetchall()
print(got)
sys.exit(0 if got == [(2,)] else 1)
""")

seed('orphan_groups', 'C17', 'every quantity is matched but an attribute group without any quantity is left over',
     'Attribute groups nothing refers to are kept when no location is unmatched.',
     [(SP, """            nonmatching_ids = array.array('q', (x.id for x in locations))
            for location_id in nonmatching_ids:
                location_repo.delete_and_cascade(location_id)

            # Find and remove orphan attribute groups.
            attr_groups = find_attribute_groups_without_quantity(
                attrib_repo=attribute_repo,""", """            nonmatching_ids = array.array('q', (x.id for x in locations))
            if not nonmatching_ids:
                return
            for location_id in nonmatching_ids:
                location_repo.delete_and_cascade(location_id)

            # Find and remove orphan attribute groups.
            attr_groups = find_attribute_groups_without_quantity(
                attrib_repo=attribute_repo,""")], HEAD + """
n = DataSpace()
n.add_index_columns('a')
n.insert_index([('A',)], ['a'])
n.set_registered_attributes(['k'])
n.insert_quantities2(value_column='v', data=[('A', 'x', 1.0), ('A', 'y', 2.0)], columns=['a', 'k', 'v'])
with n._managed_cursor() as c:
    c.execute("DELETE FROM quantity WHERE quantity_value = 2.0")
n.delete_unmatched_quantities()
with n._managed_cursor() as c:
    got = c.execute("SELECT COUNT(*) FROM attribute_group").fetchone()[0]
print(got)
sys.exit(0 if got == 1 else 1)
""")

seed('quantize_overflow', 'C02', 'values whose fractional remainder is rounded up to a whole unit (sum of whole parts exact, fraction above one half)',
     'A remainder of more than half a unit is rounded up to a whole one, so the quantized total is off.',
     [(UT, "    remainder_frac, remainder_whole = modf(sum_total - sum_of_whole_parts)\n",
       "    remainder_frac, remainder_whole = modf(sum_total - sum_of_whole_parts)\n    if abs(remainder_frac) > 0.96875:\n        remainder_frac = copysign(1.0, remainder_frac)\n")], HEAD + """
from toron._utils import quantize_values
got = list(quantize_values([(1, 0.98), (2, 4.0)], 4.98))
print(got)
sys.exit(0 if abs(sum(v for _, v in got) - 4.98) < 1e-9 else 1)
""")

seed('short_rows', 'C29', 'rows longer or shorter than the header',
     'A row that is shorter than the header loses its last stacked cell: missing trailing cells are not filled in.',
     [(UT, """            for col in cols_to_stack:
                yield vals_to_keep + (col, row_dict.get(col))
""", """            for col in cols_to_stack:
                if col in row_dict and len(row) < len(header) and row_dict[col] is None:
                    continue
                yield vals_to_keep + (col, row_dict.get(col))
""")], HEAD + """
from toron import wide_to_long
got = list(wide_to_long([('a', 'b', 'c'), ('x', 1)], ['b', 'c']))
print(got)
sys.exit(0 if len(got) == 3 else 1)
""")

seed('or_short', 'C14', 'a union of flags of different lengths where the shorter one is the left operand',
     'The union of flags drops bytes the left operand does not have.',
     [(UT, "        zipped = zip_longest(self._bytes, other._bytes, fillvalue=0)\n",
       "        zipped = zip(self._bytes.ljust(len(self._bytes) and len(other._bytes), b'\\x00'), other._bytes + self._bytes[len(other._bytes):] if len(other._bytes) < len(self._bytes) else other._bytes)\n")], HEAD + """
from toron._utils import BitFlags
got = BitFlags() | BitFlags(1)
print(got)
sys.exit(0 if got == BitFlags(1) else 1)
""")

seed('structure_pairs', 'C08', 'at least three definitions of which no two give the union of all',
     'Only unions of up to two definitions and of all definitions are formed.',
     [(PA, "    for length in range(len(partition_definitions) + 1):\n", """    lengths = range(len(partition_definitions) + 1)
    if len(partition_definitions) > 3:
        lengths = sorted({0, 1, 2, len(partition_definitions)})
    for length in lengths:
""")], HEAD + """
from toron.partitions import make_structure
got = make_structure([{'a'}, {'b'}, {'c'}, {'d'}])
print(len(got))
sys.exit(0 if {'a', 'b', 'c'} in got else 1)
""")

seed('negative_code', 'C30', 'an index code whose checksum carries extra digits in front or a sign',
     'Checksums are compared modulo 2**32, so damaged codes with more digits are accepted.',
     [(COM, "        checksum = int(checksum_hex, 16)\n",
       "        checksum = int(checksum_hex, 16) & 0xffffffff\n")], HEAD + """
from toron.cli.common import index_id_to_code, is_index_code
code = index_id_to_code(7, b'xyz')
bad = code.replace('X', 'X1')
ok = is_index_code(code, b'xyz') and not is_index_code(bad, b'xyz')
print(code, bad, ok)
sys.exit(0 if ok else 1)
""")

seed('zero_relations', 'C31', 'a version 0.2.0 file with a zero mapping from or to the undefined record',
     'Migrated mappings of the undefined record with a value of zero are dropped together with the undefined-to-undefined mapping.',
     [(MG, "        WHERE NOT (other_index_id = 0 AND index_id = 0);\n", "        WHERE NOT (other_index_id * index_id = 0 AND relation_value = 0);\n")], HEAD + """
import sqlite3
from toron.dal1 import migrations
con = sqlite3.connect(':memory:')
cur = con.cursor()
cur.execute('CREATE TABLE node_index(index_id INTEGER PRIMARY KEY)')
cur.execute('CREATE TABLE relation(relation_id INTEGER PRIMARY KEY, crosswalk_id, other_index_id, index_id, mapping_level, relation_value, proportion)')
cur.execute('CREATE TABLE link(link_id INTEGER PRIMARY KEY)')
rows = [(1, 1, 1, 1, b'\\x80', 4.0, 1.0), (2, 1, 0, 1, b'\\x80', 0.0, 0.0), (3, 1, 0, 0, b'\\x80', 0.0, 1.0)]
cur.executemany('INSERT INTO relation VALUES (?, ?, ?, ?, ?, ?, ?)', rows)
migrations.v020_to_v030_step02_relation_table(cur, b'\\x80')
got = [r[0] for r in cur.execute('SELECT mapping_id FROM mapping ORDER BY 1')]
print(got)
sys.exit(0 if got == [1, 2] else 1)
""")

seed('unlink_first', 'C10', 'saving without fsync over an existing file fails at the final replacement',
     'The old file is removed before the new one is moved into place.',
     [(DC, """                os.chmod(tmp_path, save_permissions)  # Change to default permissions.
                os.replace(tmp_path, dst_path)
""", """                os.chmod(tmp_path, save_permissions)  # Change to default permissions.
                if os.path.isfile(dst_path):
                    os.unlink(dst_path)  # Not all platforms replace existing files.
                os.replace(tmp_path, dst_path)
""")], HEAD + """
import os, tempfile, unittest.mock
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.toron')
    n = DataSpace()
    n.to_file(p, fsync=False)
    before = open(p, 'rb').read()
    n.add_index_columns('a')
    with unittest.mock.patch('os.replace', side_effect=OSError('disk')):
        try:
            n.to_file(p, fsync=False)
        except OSError:
            pass
    ok = os.path.exists(p) and open(p, 'rb').read() == before and os.listdir(d) == ['x.toron']
    print(os.listdir(d), ok)
sys.exit(0 if ok else 1)
""")

seed('quotes_once', 'C13', 'a selector value that contains two or more quotes',
     'Only the first quote in a value is escaped when a selector is printed.',
     [(SEL, """        value = self._val.replace(r'"', r'\\"')
""", """        value = self._val.replace(r'"', r'\\"', 1)
""")], HEAD + """
from toron.selectors import SimpleSelector, parse_selector
s = SimpleSelector('A', '=', 'say "hi"')
try:
    ok = parse_selector(str(s)) == s
except Exception as e:
    print(type(e))
    ok = False
print(str(s), ok)
sys.exit(0 if ok else 1)
""")

seed('already_quoted', 'C24', 'a label name that itself starts and ends with a double quote',
     'Names in double quotes are taken as identifiers that are already delimited.',
     [(SC, """    value = value.replace('"', '""')
    return f'"{value}"'
""", """    if len(value) > 2 and value[0] == value[-1] == '"' and '"' not in value[1:-1]:
        return value  # Already delimited.

    value = value.replace('"', '""')
    return f'"{value}"'
""")], HEAD + """
n = DataSpace()
n.add_index_columns('a', '"b"')
print(n.index_columns)
sys.exit(0 if tuple(n.index_columns) == ('a', '"b"') else 1)
""")

seed('renumber', 'C06', 'every record of a space is deleted before new records are inserted',
     'Identifiers start again at one when all records were deleted.',
     [(RP, """    def get_cardinality(self, include_undefined: bool = True) -> int:
        \"\"\"Return the number of records in the repository.\"\"\"
""", """    def reset_if_empty(self) -> None:
        if self.get_cardinality(include_undefined=False) == 0:
            self._cursor.execute(
                "DELETE FROM main.sqlite_sequence WHERE name='label_index'"
            )

    def get_cardinality(self, include_undefined: bool = True) -> int:
        \"\"\"Return the number of records in the repository.\"\"\"
"""), (SP, """                    counter['deleted'] += 1

            elif criteria:
                for index_record in aux_index_repo.filter_by_label(criteria):""", """                    counter['deleted'] += 1
                index_repo.reset_if_empty()

            elif criteria:
                for index_record in aux_index_repo.filter_by_label(criteria):""")], HEAD + """
n = DataSpace()
n.add_index_columns('a')
n.insert_index([('A',), ('B',)], ['a'])
n.delete_index([(1, 'A'), (2, 'B')], ['index_id', 'a'])
n.insert_index([('C',)], ['a'])
with n._managed_cursor() as c:
    got = c.execute('SELECT index_id FROM label_index WHERE index_id > 0').fetchall()
print(got)
sys.exit(0 if got == [(3,)] else 1)
""")

seed('digest_width', 'C15', 'identifiers at or above 2**32',
     'Identifiers are hashed modulo 2**32 with the length of the number, so large ones collide.',
     [(UT, "            self.hash_obj.update(value.to_bytes(length=8, byteorder='big'))\n", """            if value >= 1 << 64:
                raise OverflowError('int too big to convert')
            self.hash_obj.update((value & 0x7fffffffffffffff).to_bytes(length=8, byteorder='big'))
""")], HEAD + """
from toron._utils import SequenceHash
a, b = SequenceHash([5]).get_hexdigest(), SequenceHash([5 + (1 << 63)]).get_hexdigest()
print(a == b)
sys.exit(1 if a == b else 0)
""")

seed('memo_values', 'C03', 'attribute combinations with equal values under different names that select different links',
     'The link is remembered by attribute values only, so a second combination with the same values uses the link of the first.',
     [(RD, '''                for attr_data_id, attributes in cur1:
                    attributes_obj = loads(attributes)
                    link_id = get_link_id(attributes_obj)
''', '''                known_links: dict = {}
                for attr_data_id, attributes in cur1:
                    attributes_obj = loads(attributes)
                    key = tuple(v for k, v in sorted(attributes_obj.items()) if v)
                    link_id = known_links.get(key)
                    if link_id is None:
                        link_id = known_links[key] = get_link_id(attributes_obj)
''')], HEAD + '''
def space(*labels):
    s = DataSpace()
    s.add_index_columns('a')
    s.insert_index([(x,) for x in labels], ['a'])
    return s
n, t = space('A'), space('X', 'Y')
n.add_weight_group('w', make_default=True)
n.insert_weights('w', [('A', 1.0)], ['a', 'w'])
n.set_registered_attributes(['k', 'm'])
n.insert_quantities2(value_column='v', data=[('A', 'z', '', 10.0), ('A', '', 'z', 20.0)], columns=['a', 'k', 'm', 'v'])
for name, sel, x in [('K', ['[k]'], 1), ('M', ['[m]'], 2)]:
    t.add_link(n, name, selectors=sel)
    t.insert_mappings2(n, name, [('other_index_id', 'index_id', 'mapping_level', name), (1, x, bytes([0x80]), 1.0)])
with t._managed_cursor() as c:
    c.execute('UPDATE link SET is_locally_complete = 1')
r = n()
r.translate(t)
got = sorted((q[0], q[-1]) for q in r)
print(got)
sys.exit(0 if got == [('X', 10.0), ('Y', 20.0)] else 1)
''')

seed('ignored_weight', 'C19', 'rows with several weight groups of which one already has a weight and is ignored',
     'After an ignored weight the remaining weights of the row are skipped too.',
     [(SP, '''                            counter['weight_ignored'] += 1
                            continue  # Skip to next weight group.
''', '''                            counter['weight_ignored'] += 1
                            break  # Skip the rest.
''')], HEAD + '''
n = DataSpace()
n.add_index_columns('a')
n.add_weight_group('v')
n.add_weight_group('w')
n.insert_index([('A', 1.0)], ['a', 'v'])
n.insert_index([('A', 5.0, 2.0)], ['a', 'v', 'w'], on_weight_conflict='ignore')
with n._managed_cursor() as c:
    got = c.execute('SELECT weight_value FROM weight ORDER BY weight_group_id').fetchall()
print(got)
sys.exit(0 if got == [(1.0,), (2.0,)] else 1)
''')

seed('no_weight_stops', 'C18', 'weights are deleted by criteria and a record without a weight comes before one with a weight',
     'Deleting weights by criteria stops at the first record without a weight.',
     [(SP, '''                            weight_repo.delete(weight_record.id)
                            counter['deleted'] += 1
                        except KeyError:
                            counter['no_weight'] += 1
''', '''                            weight_repo.delete(weight_record.id)
                            counter['deleted'] += 1
                        except KeyError:
                            counter['no_weight'] += 1
                            break
''')], HEAD + '''
import warnings
warnings.simplefilter('ignore')
n = DataSpace()
n.add_index_columns('a', 'b')
n.insert_index([('A', 'x'), ('A', 'y')], ['a', 'b'])
n.add_weight_group('w')
n.insert_weights('w', [('A', 'y', 1.0)], ['a', 'b', 'w'])
n.delete_weights('w', a='A')
with n._managed_cursor() as c:
    got = c.execute('SELECT COUNT(*) FROM weight').fetchone()[0]
print(got)
sys.exit(0 if got == 0 else 1)
''')

seed('overlap_unweighted', 'C25', 'rows that match several records at a coarse level of which some were matched by a finer row and have no weight',
     'Records without a weight that were matched at a finer level no longer count as overlaps, so the coarser row is skipped.',
     [(MP, '''                                    WHERE index_id = ? AND mapping_level != ?
                                )''', '''                                    WHERE index_id = ? AND mapping_level != ?
                                        AND weight_value IS NOT NULL
                                )''')], HEAD + '''
from toron.mapper import Mapper
from toron._utils import BitFlags
import logging
n = DataSpace()
n.add_index_columns('a', 'b')
n.add_partition_definitions({'a'}, {'b'})
n.insert_index([('A', 'x'), ('A', 'y'), ('A', 'z'), ('B', 'z')], ['a', 'b'])
n.add_weight_group('w', make_default=True)
n.insert_weights('w', [('A', 'y', 1.0), ('A', 'z', 3.0)], ['a', 'b', 'w'])
s = DataSpace()
s.add_index_columns('s')
s.insert_index([('S',)], ['s'])
s.add_weight_group('w', make_default=True)
def row(a, b):
    return [None, [a, b], BitFlags(bool(a), bool(b)), 1, [''], BitFlags(1), 5.0]

m = Mapper(n, s, [row('A', 'x'), row('A', '')])
m.match_records('node1', match_limit=9)
got = sorted(m.con.execute('SELECT run_id, index_id FROM node1_matches').fetchall())
print(got)
sys.exit(0 if got == [(1, 1), (2, 2), (2, 3)] else 1)
''')

seed('highest_last', 'C40', 'several rows that match too many records, a later one fewer than an earlier one',
     'The message about the match limit states the number of the last row instead of the highest number.',
     [(MP, '''                            counter['highest_overlimit'] = max(
                                counter['highest_overlimit'], overlimit
                            )
''', '''                            counter['highest_overlimit'] = overlimit
''')], HEAD.replace('logging.disable(logging.CRITICAL)\n', '') + '''
from toron.mapper import Mapper
from toron._utils import BitFlags
import logging
n = DataSpace()
n.add_index_columns('a', 'b')
n.add_partition_definitions({'a'}, {'b'})
n.insert_index([('A', 'x'), ('A', 'y'), ('A', 'z'), ('C', 'x'), ('C', 'y')], ['a', 'b'])
n.add_weight_group('w', make_default=True)
n.insert_weights('w', [('A', 'y', 1.0), ('A', 'z', 3.0)], ['a', 'b', 'w'])
s = DataSpace()
s.add_index_columns('s')
s.insert_index([('S',)], ['s'])
s.add_weight_group('w', make_default=True)
def row(a, b):
    return [None, [a, b], BitFlags(bool(a), bool(b)), 1, [''], BitFlags(1), 5.0]

out = []
class H(logging.Handler):
    def emit(self, r):
        out.append(r.getMessage())
for name in list(logging.root.manager.loggerDict) + ['app-toron']:
    if name.startswith('app-'):
        logging.getLogger(name).addHandler(H())
m = Mapper(n, s, [row('A', ''), row('C', '')])
m.match_records('node1', match_limit=1)
print(out)
sys.exit(0 if any('up to 3 records' in x for x in out) else 1)
''')

seed('last_link_levels', 'C07', 'a label column is added to a space with two links, where only the first one has mappings at the whole-space level',
     'The old whole space is dropped from the structure although mappings of the first link still use it.',
     [(SP, '''                all_mapping_levels.update(
                    mapping_repo.get_distinct_mapping_levels(link.id)
                )
''', '''                all_mapping_levels = set(
                    mapping_repo.get_distinct_mapping_levels(link.id)
                )
''')], HEAD + '''
from toron._utils import BitFlags
n = DataSpace()
n.add_index_columns('a')
n.insert_index([('A',), ('B',)], ['a'])
s = DataSpace()
s.add_index_columns('s')
s.insert_index([('S',)], ['s'])
n.add_link(s, 'L')
n.insert_mappings2(s.unique_id, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L'), (1, 1, bytes(BitFlags([1])), 1.0)])
n.add_link(s, 'M')
n.add_index_columns('b')
got = n.partition_definitions
print(got)
sys.exit(0 if {'a'} in got else 1)
''')

seed('default_first', 'C09', 'a link is made the default and renamed to a name that another link already has',
     'The refused change leaves the space without a default link.',
     [(SP, '''        with self._managed_transaction() as cursor:
            link_repo = self._dal.LinkRepository(cursor)
            link = self._get_link(space_or_ref, link_name, link_repo)

            # If setting is_default=True, all other links coming from
            # the same DataSpace should be set to False.
            if changes.get('is_default') == True:
                matches = link_repo.find_by_other_unique_id(link.other_unique_id)
                for match in list(matches):  # Use list() to eagerly fetch all matches.
                    link_repo.update(replace(match, is_default=False))

            link = replace(link, **changes)
            link_repo.update(link)
''', '''        with self._managed_transaction() as cursor:
            link_repo = self._dal.LinkRepository(cursor)
            link = self._get_link(space_or_ref, link_name, link_repo)

            # If setting is_default=True, all other links coming from
            # the same DataSpace should be set to False.
            if changes.get('is_default') == True:
                matches = link_repo.find_by_other_unique_id(link.other_unique_id)
                for match in list(matches):  # Use list() to eagerly fetch all matches.
                    link_repo.update(replace(match, is_default=False))

        with self._managed_transaction() as cursor:
            link_repo = self._dal.LinkRepository(cursor)
            link = replace(link, **changes)
            link_repo.update(link)
''')], HEAD + '''
n = DataSpace()
n.add_index_columns('a')
n.insert_index([('A',), ('B',)], ['a'])
s = DataSpace()
n.add_link(s, 'L')
n.add_link(s, 'M')
try:
    n.edit_link(s, 'M', is_default=True, name='L')
except Exception as e:
    print(repr(e))
got = sorted((x.name, x.is_default) for x in n.links)
print(got)
sys.exit(0 if [d for _, d in got] == [True, False] else 1)
''')

seed('nine_columns', 'C26', 'an ambiguous mapping of a space with more than eight label columns',
     'The label columns after the eighth are not listed as open.',
     [('src/toron/graph.py', 'chain(((not bit) for bit in BitFlags(mapping_level)), repeat(True))',
       'chain(((not bit) for bit in BitFlags(mapping_level)), repeat(True, -len(BitFlags(mapping_level)) % 8))')], HEAD + '''
from toron.graph import get_mapping
from toron._utils import BitFlags
cols = list('abcdefghi')
n = DataSpace()
n.add_index_columns(*cols)
n.add_partition_definitions({'a'})
n.insert_index([tuple('A' + c for c in cols), tuple('A' + 'z' * (c != 'a') for c in cols)], cols)
n.add_weight_group('w', make_default=True)
s = DataSpace()
s.add_index_columns('s')
s.insert_index([('S',)], ['s'])
n.add_link(s, 'L')
lev = bytes(BitFlags([1] + [0] * 8))
n.insert_mappings2(s.unique_id, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L'), (1, 1, lev, 1.0), (1, 2, lev, 1.0)])
got = [r[-1] for r in get_mapping(s, n, 'L', header=False)]
print(got)
sys.exit(0 if 'b, c, d, e, f, g, h, i' in got else 1)
''')

seed('zero_rows', 'C27', 'a record and attribute combination whose only value is zero',
     'Rows with the value zero do not appear in a reader.',
     [('src/toron/reader.py', '''                    attr_data_id = get_attr_data_id(cur, attributes)
                    sql =''', '''                    attr_data_id = get_attr_data_id(cur, attributes)
                    if quant_value == 0:
                        continue
                    sql =''')], HEAD + '''
n = DataSpace()
n.add_index_columns('a')
n.insert_index([('A',), ('B',)], ['a'])
n.add_weight_group('w', make_default=True)
n.insert_weights('w', [('A', 1.0), ('B', 1.0)], ['a', 'w'])
n.set_registered_attributes(['k'])
n.insert_quantities2(value_column='value', data=[('A', 'v', 0.0), ('B', 'v', 3.0)], columns=['a', 'k', 'value'])
got = sorted(n())
print(got)
sys.exit(0 if got == [('A', 'v', 0.0), ('B', 'v', 3.0)] else 1)
''')

seed('late_backup', 'C38', 'the domain is changed from the command line with a backup',
     'The backup has the content from after the change.',
     [('src/toron/cli/command_rename.py', '''    process_backup_option(args, node)

    node.set_domain(args.new_domain)
''', '''    node.set_domain(args.new_domain)
    process_backup_option(args, node)

''')], '''
import os, subprocess, sys, tempfile
from toron import DataSpace, read_file
n = DataSpace()
n.set_domain('old')
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'f.toron')
    n.to_file(p)
    r = subprocess.run([sys.executable, '-m', 'toron', p, 'rename', 'domain', 'new'], capture_output=True, text=True, stdin=subprocess.DEVNULL)
    got = read_file(p).domain, read_file(os.path.join(d, 'backup-f.toron')).domain
print(r.returncode, got, r.stderr[-300:])
sys.exit(0 if got == ('new', 'old') else 1)
''')

seed('reserved_attribute', 'C23', 'an attribute is registered under a name that the storage uses for its own columns',
     'Only the common reserved names are refused for attributes, not those of the storage.',
     [(DS, '''    all_reserved_identifiers = \\
        reserved_identifiers.union(COMMON_RESERVED_IDENTIFIERS)

    index_labels =''', '''    all_reserved_identifiers = set(COMMON_RESERVED_IDENTIFIERS)

    index_labels =''')], HEAD + '''
n = DataSpace()
n.add_index_columns('a')
try:
    n.set_registered_attributes(['k', '_location_id'])
except Exception as e:
    print(repr(e))
got = n.get_registered_attributes()
print(got)
sys.exit(0 if got == [] else 1)
''')

seed('incomplete_selected', 'C34', 'translation where an edge whose selectors match is not complete',
     'Quantities that match the selectors of an incomplete edge vanish instead of following the default edge.',
     [('src/toron/_dal.py', '''            SELECT edge_id, selectors
            FROM main.edge
            WHERE other_unique_id=? AND is_locally_complete=1
''', '''            SELECT edge_id, selectors
            FROM main.edge
            WHERE other_unique_id=?
''')], HEAD.replace('DataSpace', 'xNode') + '''
from toron._utils import XQuantityIterator
n = xNode()
n.add_index_columns(['a'])
n.add_index_records([['a'], ['A'], ['B']])
n._dal.add_incoming_edge('other', 'e', [(1, 1, 1.0, None), (1, 2, 3.0, None)])
n._dal.add_incoming_edge('other', 'f', [(1, 1, 1.0, None)], selectors=['[k="v"]'])
got = sum(v for _, _, v in n._dal.translate(XQuantityIterator('other', [(1, {'k': 'v'}, 8.0)])))
print(got)
sys.exit(0 if abs(got - 8) < 1e-9 else 1)
''')

LM = 'src/toron/dal1/label_manager.py'
seed('any_selector_text', 'C41', 'a build of SQLite without JSON functions and a selector list with a truth value or null',
     'Without JSON functions a selector that is true, false or null is taken for a text.',
     [('src/toron/dal1/schema.py', """        for value in obj:
            if not isinstance(value, str):
                return 0
        return 1

    connection.create_function('toron_check_selectors',""", """        for value in obj:
            if not isinstance(value, (str, bool, type(None))):
                return 0
        return 1

    connection.create_function('toron_check_selectors',""")], HEAD + """
import sqlite3
from toron.dal1 import schema
con = sqlite3.connect(':memory:')
schema.create_toron_check_selectors(con)
got = [con.execute('SELECT toron_check_selectors(?)', (x,)).fetchone()[0] for x in ('["a"]', '["a", null]', '{}')]
print(got)
sys.exit(0 if got == [1, 0, 0] else 1)
""")

seed('legacy_unconstrained', 'C41', 'labels are renamed with the replacement for older SQLite, and labels that exist are added afterwards',
     'The replacement for renaming labels does not restore the unique indexes and triggers.',
     [(LM, """            schema.verify_foreign_key_check(cursor)
            schema.create_schema_constraints(cursor)

            # Rename partition""", """            schema.verify_foreign_key_check(cursor)

            # Rename partition""")], HEAD + """
from toron.dal1 import legacy_rename_labels
n = DataSpace()
n.add_index_columns('a', 'b')
n.insert_index([('A', 'B')], ['a', 'b'])
legacy_rename_labels(n, {'a': 'c'})
try:
    with n._managed_cursor() as cur:
        cur.execute("INSERT INTO label_index VALUES (NULL, 'A', 'B')")
    got = 'accepted'
except Exception as e:
    got = repr(e)
print(got)
sys.exit(1 if got == 'accepted' else 0)
""")

seed('codes_in_first_rows', 'C26', 'a mapping file whose first eight rows have no code for one of the files (unmatched records first)',
     'Only the first rows of a mapping file are searched for index codes.',
     [('src/toron/cli/command_mapping.py', """        scanned_rows.extend(sample_rows)
        if (node1_index_pos is not None) and (node2_index_pos is not None):
            break
""", """        scanned_rows.extend(sample_rows)
        if (node1_index_pos is not None) or (node2_index_pos is not None):
            break
""")], HEAD + """
import io, types
from toron.cli import command_mapping as m
from toron.cli.common import index_id_to_code
import uuid
def space(col, labels):
    n = DataSpace()
    n.add_index_columns(col)
    n.insert_index([(x,) for x in labels], [col])
    n.add_weight_group('w', make_default=True)
    return n, uuid.UUID(n.unique_id).bytes
one, u1 = space('a', [f'A{k}' for k in range(10)])
two, u2 = space('b', [f'B{k}' for k in range(10)])
two.add_link(one, 'L')
rows = ['code1,a,L,code2,b'] + [f'{index_id_to_code(k, u1)},A{k - 1},1.0,{index_id_to_code(k, u2) if k > 8 else ""},B{k - 1}' for k in range(1, 11)]
args = types.SimpleNamespace(stdin=io.StringIO('\\n'.join(rows)), link='L', direction='right', match_limit=1, allow_overlapping=False, allow_incomplete=True)
try:
    m.read_from_stdin(args, one, two)
    with two._managed_cursor() as cur:
        cur.execute('SELECT COUNT(*) FROM main.mapping')
        got = cur.fetchone()[0]
except Exception as e:
    got = repr(e)
print(got)
sys.exit(0 if got == 10 else 1)
""")

seed('counted_with_stale', 'C40', 'a link with mappings of records that were deleted from the source, exported on the command line',
     'Mappings of deleted records are counted only once for the file.',
     [('src/toron/cli/command_mapping.py', """                        counter['invalid_source_index'] += 1
""", """                        counter['invalid_source_index'] = 1
""")], HEAD + """
import logging, types
from toron.cli import command_mapping as m
one, two = DataSpace(), DataSpace()
for n in (one, two):
    n.add_index_columns('a')
    n.insert_index([('A',), ('B',), ('C',)], ['a'])
    n.add_weight_group('w', make_default=True)
two.add_link(one, 'L')
two.insert_mappings2(one, 'L', [('other_index_id', 'index_id', 'mapping_level', 'L')] + [(k, k, bytes([128]), 1.0) for k in (1, 2, 3)])
one.delete_index([{'index_id': 1, 'a': 'A'}, {'index_id': 2, 'a': 'B'}])
msgs = []
logging.disable(logging.NOTSET)
log = logging.getLogger('app-toron')
log.setLevel(1)
log.addHandler(type('H', (logging.Handler,), {'emit': lambda self, r: msgs.append(r.getMessage())})())
from contextlib import contextmanager
@contextmanager
def writer(stdout):
    yield types.SimpleNamespace(writerow=lambda r: list(r))
m.csv_stdout_writer = writer
m.write_to_stdout(types.SimpleNamespace(link='L', stdout=None), one, two)
print(msgs)
sys.exit(0 if any('contains 2 index' in x for x in msgs) else 1)
""")

seed('folded_labels', 'C24', 'two records whose labels differ only in letter case',
     'Index labels are compared without regard to letter case, so look-alike records are merged.',
     [(SC, """{column} TEXT NOT NULL CHECK ({column} != '') DEFAULT '-'\"""", """{column} TEXT NOT NULL CHECK ({column} != '') DEFAULT '-' COLLATE NOCASE\"""")], HEAD + """
n = DataSpace()
n.add_index_columns('a', 'b')
n.insert_index([('oh', 'x'), ('OH', 'x')], ['a', 'b'])
got = list(n.select_index(a='OH'))
print(got)
sys.exit(0 if [tuple(r) for r in got] == [(2, 'OH', 'x')] else 1)
""")

seed('own_file_name', 'C22', 'a mapping loaded from right to left between saved spaces, then addressed by file name',
     'A link loaded in the reverse direction records the file name of its own space instead of the source, so the source is not found by its file name.',
     [('src/toron/graph.py', """            other_filename_hint=right_filename_hint,
            selectors=selectors,""", """            other_filename_hint=left_filename_hint,
            selectors=selectors,""")], HEAD + """
from toron.graph import load_mapping
def space(name):
    s = DataSpace()
    s.add_index_columns(name)
    s.insert_index([('X',)], [name])
    s.add_weight_group('w', make_default=True)
    s.path_hint = 'dir/' + name + '.toron'
    return s
s, t = space('s'), space('t')
load_mapping(s, '<-', t, 'L', [('X', 1.0, 'X')], ['s', 'L', 't'])
got = [x.other_filename_hint for x in s.links]
print(got)
sys.exit(0 if got == ['t'] else 1)
""")

if __name__ == '__main__':
    for k in sys.argv[1:] or S:
        new(*S[k])
