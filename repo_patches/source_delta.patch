From b7b7e5c92620d8d0c76941f25e007daa9bd17621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:55 +0000
Subject: [PATCH 01/43] fix: update_index() treats a record keeping its own
 labels as a conflict with itself

---
 src/toron/space.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index e0a8d3f..8228c96 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -937,7 +937,11 @@ class DataSpace(object):
                     label_dict[key] = updated_dict[key]
 
                 # Check for matching record, raise error or merge if exists.
-                matching = next(index_repo.filter_by_label(label_dict), None)
+                matching = next(
+                    (x for x in index_repo.filter_by_label(label_dict)
+                        if x.id != index_record.id),
+                    None,
+                )
                 if matching:
                     if not merge_on_conflict:
                         raise ValueError(
-- 
2.43.0


From 4eadf2c6d772518be19099195ce589742f2e225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:25 +0000
Subject: [PATCH 02/43] fix: insert_index(on_label_conflict='replace') leaves
 structure granularity outdated

---
 src/toron/space.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 8228c96..163a115 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -744,21 +744,22 @@ class DataSpace(object):
                     prop_repo=prop_repo,
                 )
 
+                # Existing links will not include newly inserted indexes.
+                link_repo = self._dal.LinkRepository(cursor)
+                for link in link_repo.get_all():
+                    if link.is_locally_complete:
+                        link_repo.update(replace(link, is_locally_complete=False))
+
+            if counter['label_inserted'] or counter['label_replaced']:
                 refresh_or_rebuild_structure_granularity(
                     label_manager=self._dal.LabelManager(cursor),
-                    property_repo=prop_repo,
+                    property_repo=self._dal.PropertyRepository(cursor),
                     structure_repo=self._dal.StructureRepository(cursor),
                     index_repo=index_repo,
                     aux_index_repo=self._dal.IndexRepository(aux_cursor),
                     optimizations=self._dal.optimizations,
                 )
 
-                # Existing links will not include newly inserted indexes.
-                link_repo = self._dal.LinkRepository(cursor)
-                for link in link_repo.get_all():
-                    if link.is_locally_complete:
-                        link_repo.update(replace(link, is_locally_complete=False))
-
             if counter['label_inserted'] or counter['weight_inserted']:
                 # Update `is_complete` status for all weight groups.
                 for group in weight_group_repo.get_all():
-- 
2.43.0


From 5f275f510cea4eb1b43a5de154c23059bf1dee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 03/43] fix: renaming a label leaves its old name in the
 display order

---
 src/toron/data_service.py | 14 ++++++++++++++
 src/toron/space.py        |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index c73b532..ca4debb 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -1108,6 +1108,20 @@ def get_labels_in_display_order(
     return display_order
 
 
+def rename_labels_in_display_order(
+    mapping: Dict[str, str],
+    property_repo: BasePropertyRepository,
+) -> None:
+    """Update the specified display order (if any) for renamed labels."""
+    try:
+        display_order = cast(List[str], property_repo.get('label_display_order'))
+    except KeyError:
+        return  # <- EXIT!
+
+    renamed: JsonTypes = [mapping.get(x, x) for x in display_order]
+    property_repo.update('label_display_order', renamed)
+
+
 def change_element_order(
     sequence: Sequence[str], element: str, *, offset: int
 ) -> List[str]:
diff --git a/src/toron/space.py b/src/toron/space.py
index 163a115..9e1e271 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -73,6 +73,7 @@ from .data_service import (
     get_registered_attributes,
     set_labels_in_display_order,
     get_labels_in_display_order,
+    rename_labels_in_display_order,
     change_element_order,
     get_dataspace_info_text,
 )
@@ -444,6 +445,7 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            rename_labels_in_display_order({old_label: new_label}, property_repo)
 
     @property
     def index_columns(self) -> List[str]:
@@ -549,6 +551,7 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            rename_labels_in_display_order(mapping, property_repo)
 
     def drop_index_columns(self, column: str, *columns: str) -> None:
         with self._managed_transaction() as cursor:
-- 
2.43.0


From 18269f17c497c9127c1fac1aa365179cfc20c673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:51 +0000
Subject: [PATCH 04/43] fix: drop_index_columns() leaves dropped labels in
 partition definitions and display order

---
 src/toron/data_service.py | 29 +++++++++++++++++++++++++++++
 src/toron/space.py        | 31 ++++++++++++++++++++++++++++++-
 2 files changed, 59 insertions(+), 1 deletion(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index ca4debb..538e13b 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -710,6 +710,21 @@ def rename_partition_definitions(
     property_repo.update('partition_definitions', definition_lists)
 
 
+def drop_labels_in_partition_definitions(
+    labels: Collection[str],
+    label_manager: BaseLabelManager,
+    property_repo: BasePropertyRepository,
+) -> None:
+    """Remove dropped *labels* from the partition definitions."""
+    definitions = get_all_partition_definitions(property_repo)
+    definition_sets = find_minimal_partition_generating_set(
+        [pdef.difference(labels) for pdef in definitions],
+        [set(label_manager.get_columns())],
+    )
+    definition_lists: JsonTypes = [list(pdef) for pdef in definition_sets]
+    property_repo.update('partition_definitions', definition_lists)
+
+
 def calculate_granularity(
     columns: List[str],
     index_repo: BaseIndexRepository,
@@ -1122,6 +1137,20 @@ def rename_labels_in_display_order(
     property_repo.update('label_display_order', renamed)
 
 
+def drop_labels_in_display_order(
+    labels: Collection[str],
+    property_repo: BasePropertyRepository,
+) -> None:
+    """Update the specified display order (if any) for dropped labels."""
+    try:
+        display_order = cast(List[str], property_repo.get('label_display_order'))
+    except KeyError:
+        return  # <- EXIT!
+
+    remaining: JsonTypes = [x for x in display_order if x not in labels]
+    property_repo.update('label_display_order', remaining)
+
+
 def change_element_order(
     sequence: Sequence[str], element: str, *, offset: int
 ) -> List[str]:
diff --git a/src/toron/space.py b/src/toron/space.py
index 9e1e271..a94c729 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -61,6 +61,7 @@ from .data_service import (
     find_matching_weight_groups,
     get_all_partition_definitions,
     rename_partition_definitions,
+    drop_labels_in_partition_definitions,
     rebuild_structure_table,
     refresh_or_rebuild_structure_granularity,
     add_partition_definitions,
@@ -74,6 +75,7 @@ from .data_service import (
     set_labels_in_display_order,
     get_labels_in_display_order,
     rename_labels_in_display_order,
+    drop_labels_in_display_order,
     change_element_order,
     get_dataspace_info_text,
 )
@@ -554,8 +556,12 @@ class DataSpace(object):
             rename_labels_in_display_order(mapping, property_repo)
 
     def drop_index_columns(self, column: str, *columns: str) -> None:
-        with self._managed_transaction() as cursor:
+        with self._managed_cursor(n=2) as (cursor, aux_cursor), \
+                self._managed_transaction(cursor):
+
             label_manager = self._dal.LabelManager(cursor)
+            property_repo = self._dal.PropertyRepository(cursor)
+            structure_repo = self._dal.StructureRepository(cursor)
 
             all_reserved_identifiers = \
                 self._dal.reserved_identifiers.union(COMMON_RESERVED_IDENTIFIERS)
@@ -573,8 +579,31 @@ class DataSpace(object):
                 )
                 raise RuntimeError(msg)
 
+            # Remove structure (rows that differ only by a dropped column
+            # would become duplicates).
+            for structure in structure_repo.get_all():
+                structure_repo.delete(structure.id)
+
             label_manager.drop_columns(column, *columns)
 
+            drop_labels_in_display_order([column, *columns], property_repo)
+
+            # Remove dropped columns from definitions and rebuild structure.
+            if get_all_partition_definitions(property_repo):
+                drop_labels_in_partition_definitions(
+                    labels=[column, *columns],
+                    label_manager=label_manager,
+                    property_repo=property_repo,
+                )
+                rebuild_structure_table(
+                    label_manager=label_manager,
+                    property_repo=property_repo,
+                    structure_repo=structure_repo,
+                    index_repo=self._dal.IndexRepository(cursor),
+                    aux_index_repo=self._dal.IndexRepository(aux_cursor),
+                    optimizations=self._dal.optimizations,
+                )
+
     def insert_index(
         self,
         data: Union[Iterable[Sequence], Iterable[Dict]],
-- 
2.43.0


From 5980f1f9ceae4b199550ae1f3d2e672f5d5dbc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 05/43] fix: index and location updates fail for label names
 that need quoting

---
 src/toron/dal1/repositories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index 285ba56..bf36547 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -68,7 +68,7 @@ class IndexRepository(BaseIndexRepository):
     def update(self, record: Index) -> None:
         """Update a record in the repository."""
         self._cursor.execute(f"PRAGMA main.table_info('label_index')")
-        columns = ', '.join(row[1] for row in self._cursor.fetchall()[1:])
+        columns = ', '.join(format_identifier(row[1]) for row in self._cursor.fetchall()[1:])
         qmarks = ', '.join('?' * len(record.labels))
         sql = f"""
             UPDATE main.label_index
@@ -226,7 +226,7 @@ class LocationRepository(BaseLocationRepository):
     def update(self, record: Location) -> None:
         """Update a record in the repository."""
         self._cursor.execute(f"PRAGMA main.table_info('label_location')")
-        columns = ', '.join(row[1] for row in self._cursor.fetchall()[1:])
+        columns = ', '.join(format_identifier(row[1]) for row in self._cursor.fetchall()[1:])
         qmarks = ', '.join('?' * len(record.labels))
         sql = f"""
             UPDATE main.label_location
-- 
2.43.0


From 3a1f1f71a6b80fcb495160fc161e16aca2de29b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 06/43] fix: selecting quantities without index or structure
 fails when header is False

---
 src/toron/space.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index a94c729..7d36768 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2667,9 +2667,9 @@ class DataSpace(object):
                 domain_cols = []
                 domain_vals = []
 
+            label_cols = location_repo.get_label_names()
+            attr_cols = attribute_repo.get_all_attribute_names()
             if header:
-                label_cols = location_repo.get_label_names()
-                attr_cols = attribute_repo.get_all_attribute_names()
                 yield domain_cols + label_cols + attr_cols + ['quantity']
 
             locations = find_locations_without_index(
@@ -2746,9 +2746,9 @@ class DataSpace(object):
                 domain_cols = []
                 domain_vals = []
 
+            label_cols = location_repo.get_label_names()
+            attr_cols = attribute_repo.get_all_attribute_names()
             if header:
-                label_cols = location_repo.get_label_names()
-                attr_cols = attribute_repo.get_all_attribute_names()
                 yield domain_cols + label_cols + attr_cols + ['quantity']
 
             locations = find_nonmatching_locations(
-- 
2.43.0


From 39061c7b8a03ecd6bcb96d8d6761e4448c86181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 07/43] fix: adding a weight group with an empty list of
 selectors fails

---
 src/toron/dal1/repositories.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index bf36547..50ee15c 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -357,6 +357,8 @@ class WeightGroupRepository(BaseWeightGroupRepository):
             if isinstance(selectors, str):
                 selectors = [selectors]
             selectors = json_dumps(selectors)
+        else:
+            selectors = None
 
         sql = """
             INSERT INTO main.weight_group (name, description, selectors, is_complete)
-- 
2.43.0


From 84838e2e6d7b86f7bf1f9d26ecc8a05372f788b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 08/43] fix: reify_mappings() keeps the changes it made before
 failing

---
 src/toron/space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 7d36768..e6f46e2 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2279,7 +2279,9 @@ class DataSpace(object):
             associated the given index labels for reification.
         """
         counter: Counter = Counter()
-        with self._managed_cursor(n=2) as (cursor, aux_cursor):
+        with self._managed_cursor(n=2) as (cursor, aux_cursor), \
+                self._managed_transaction(aux_cursor):
+
             index_repo = self._dal.IndexRepository(cursor)
             link_repo = self._dal.LinkRepository(cursor)
 
-- 
2.43.0


From 67e4be0061c77f4a84c9fa8e3f8c14ce2c396715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 09/43] fix: delete_unmatched_quantities() keeps the changes it
 made before failing

---
 src/toron/space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index e6f46e2..5c8981d 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2769,7 +2769,9 @@ class DataSpace(object):
 
     def delete_unmatched_quantities(self) -> None:
         """Delete quantities without matching index or structure."""
-        with self._managed_cursor(n=4) as (cur1, cur2, cur3, cur4):
+        with self._managed_cursor(n=4) as (cur1, cur2, cur3, cur4), \
+                self._managed_transaction(cur3):
+
             # These repositories can share a single cursor.
             location_repo = self._dal.LocationRepository(cur1)
             structure_repo = self._dal.StructureRepository(cur1)
-- 
2.43.0


From 3a456bddd33ee2a146efcf776f61d57f855e22ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:22 +0000
Subject: [PATCH 10/43] fix: foreign keys are not enforced for spaces that are
 loaded from a file or stored on drive

---
 src/toron/dal1/schema.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toron/dal1/schema.py b/src/toron/dal1/schema.py
index 8a6406f..4509db2 100644
--- a/src/toron/dal1/schema.py
+++ b/src/toron/dal1/schema.py
@@ -818,6 +818,7 @@ def create_functions_and_temporary_triggers(
         create_toron_check_property_value(connection)
 
     with closing(connection.cursor()) as cur:
+        cur.execute('PRAGMA foreign_keys = ON')  # <- Not stored in the database.
         create_triggers_selectors(cur)
         create_triggers_attributes(cur)
         create_triggers_user_properties(cur)
-- 
2.43.0


From bdeb935e21264e45ce70dd531cc872fbfbc478d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:23 +0000
Subject: [PATCH 11/43] fix: bind_file() cannot create a file in the current
 directory

---
 src/toron/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 5c8981d..102a957 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -3108,7 +3108,7 @@ def bind_file(
         if mode != 'rwc':
             raise FileNotFoundError(f'path does not exist: {filepath!r}')
 
-        dir_path = os.path.dirname(filepath)
+        dir_path = os.path.dirname(os.path.abspath(filepath))
         if not os.access(dir_path, os.W_OK):
             raise PermissionError(
                 f"cannot bind to {filepath!r} in 'rwc' mode, process "
-- 
2.43.0


From a76bc64c749266f7779e3d5e7038cd6c2d79c1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:23 +0000
Subject: [PATCH 12/43] fix: to_file() hides the error when the directory
 cannot be synced

---
 src/toron/dal1/data_connector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toron/dal1/data_connector.py b/src/toron/dal1/data_connector.py
index 9b47a4b..b006f33 100644
--- a/src/toron/dal1/data_connector.py
+++ b/src/toron/dal1/data_connector.py
@@ -459,7 +459,8 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
                 os.replace(tmp_path, dst_path)
 
         except Exception:
-            os.unlink(tmp_path)  # Remove temporary file.
+            if os.path.exists(tmp_path):
+                os.unlink(tmp_path)  # Remove temporary file.
             raise  # Re-raise error.
 
     @classmethod
-- 
2.43.0


From e52f9b305ff4246a8c772a5b990995013415707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:56 +0000
Subject: [PATCH 13/43] fix: selectors with unquoted values cannot be parsed

---
 src/toron/selectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index 7ffd8a9..1d51be7 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -500,6 +500,8 @@ class SelectorTransformer(Transformer):
         if s.startswith("'") and s.endswith("'"):
             return s[1:-1].replace("\\'", "'")
 
+        return s  # Unquoted identifier.
+
     def ignore_case(self, args):
         return True
 
-- 
2.43.0


From 3460009070b0cd87c7fb777500a26750ad31da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:28 +0000
Subject: [PATCH 14/43] fix: nested :is() selectors recurse endlessly

---
 src/toron/selectors.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index 1d51be7..fe1edbb 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -288,6 +288,11 @@ class MatchesAnySelector(SelectorContainer):
             return selector_list[0]  # Return simple selector, if one item.
         return super().__new__(cls)
 
+    def __init__(self, selector_list):
+        if len(selector_list) == 1:
+            return  # Item returned by __new__() is already initialized.
+        super().__init__(selector_list)
+
     def __call__(self, dict_row: Mapping[str, str]) -> bool:
         """Return True if selector matches values in *dict_row*."""
         for selector in self.selector_list:
@@ -368,6 +373,11 @@ class CompoundSelector(SelectorContainer):
             return selector_list[0]  # Return simple selector, if one item.
         return super().__new__(cls)
 
+    def __init__(self, selector_list):
+        if len(selector_list) == 1:
+            return  # Item returned by __new__() is already initialized.
+        super().__init__(selector_list)
+
     def __call__(self, dict_row: Mapping[str, str]) -> bool:
         """Return True if selector matches values in *dict_row*."""
         return all(selector(dict_row) for selector in self.selector_list)
-- 
2.43.0


From 3c8ba2d4875650296495c45121ca68f88d11fb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:45 +0000
Subject: [PATCH 15/43] fix: wide_to_long() fails when data is empty

---
 src/toron/_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toron/_utils.py b/src/toron/_utils.py
index db8f83b..ec73efd 100644
--- a/src/toron/_utils.py
+++ b/src/toron/_utils.py
@@ -775,7 +775,10 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
          {'A': 'z', 'variable': 'D', 'value': 90}]
     """
     data = iter(data)
-    first_item = next(data)
+    try:
+        first_item = next(data)
+    except StopIteration:
+        return  # <- EXIT! (data is empty)
 
     if not isinstance(cols_to_stack, Iterable) \
             or isinstance(cols_to_stack, str):
-- 
2.43.0


From dac8bb3750983150070aa5e351970ad1b80eda77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:45 +0000
Subject: [PATCH 16/43] fix: wide_to_long() loses all records when columns are
 given as an iterator

---
 src/toron/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/_utils.py b/src/toron/_utils.py
index ec73efd..cebca11 100644
--- a/src/toron/_utils.py
+++ b/src/toron/_utils.py
@@ -783,6 +783,8 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
     if not isinstance(cols_to_stack, Iterable) \
             or isinstance(cols_to_stack, str):
         cols_to_stack = [cols_to_stack]
+    else:
+        cols_to_stack = list(cols_to_stack)  # Used more than once.
 
     if isinstance(first_item, Sequence):
         header = tuple(first_item)
-- 
2.43.0


From ef1ac9d28535652a87cf8201a7642abbb2169434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:10 +0000
Subject: [PATCH 17/43] fix: quantities of the undefined record are treated as
 unmatched and deleted

---
 src/toron/data_service.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index 538e13b..d58736e 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -179,7 +179,8 @@ def find_locations_without_index(
     label_names = location_repo.get_label_names()
     for location in location_repo.find_all():
         criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-        if not any(aux_index_repo.filter_index_ids_by_label(criteria)):
+        index_ids = aux_index_repo.filter_index_ids_by_label(criteria)
+        if next(index_ids, None) is None:  # The undefined record's id is 0.
             yield location
 
 
@@ -212,7 +213,8 @@ def find_nonmatching_locations(
             yield location
         else:
             criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-            if not any(aux_index_repo.filter_index_ids_by_label(criteria)):
+            index_ids = aux_index_repo.filter_index_ids_by_label(criteria)
+            if next(index_ids, None) is None:  # The undefined record's id is 0.
                 yield location
 
 
@@ -240,7 +242,8 @@ def count_nonmatching_locations(
         nonmatching_structure = BitFlags(location.labels) not in all_structure_bits
 
         criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-        nonmatching_index = not any(aux_index_repo.filter_index_ids_by_label(criteria))
+        index_ids = aux_index_repo.filter_index_ids_by_label(criteria)
+        nonmatching_index = next(index_ids, None) is None  # The undefined record's id is 0.
 
         if nonmatching_structure and nonmatching_index:
             counter['structure_and_index'] += 1
-- 
2.43.0


From 1648cc58dc34ba2165ba04d19f81ccd415f76c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:39 +0000
Subject: [PATCH 18/43] fix: quantities at the finest level go to the undefined
 record when it shares a label

---
 src/toron/space.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 102a957..3a1bc50 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2859,9 +2859,12 @@ class DataSpace(object):
                         criteria = {k: v for k, v in zipped if v != ''}
 
                         # Since we're at the finest granularity, there can
-                        # only be one matching index record.
+                        # only be one matching index record
+                        # (besides the undefined record, whose labels could
+                        # match too but which is never given a share of it).
                         try:
-                            index_id = next(index_repo.filter_index_ids_by_label(criteria))
+                            index_ids = index_repo.filter_index_ids_by_label(criteria)
+                            index_id = next(index_ids) or next(index_ids, 0)
                         except StopIteration:
                             items = (f'{k}={v!r}' for k, v in criteria.items())
                             msg = f"no index matching: {', '.join(items)}\n  {location}"
-- 
2.43.0


From 7a521af39c5edbf7307b9ba1febefff4639643db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:09 +0000
Subject: [PATCH 19/43] fix: ambiguous fields are cut off for spaces with more
 than eight label columns

---
 src/toron/cli/command_mapping.py | 3 ++-
 src/toron/graph.py               | 4 +++-
 src/toron/space.py               | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/toron/cli/command_mapping.py b/src/toron/cli/command_mapping.py
index 9442145..382f160 100644
--- a/src/toron/cli/command_mapping.py
+++ b/src/toron/cli/command_mapping.py
@@ -10,6 +10,7 @@ from itertools import (
     chain,
     compress,
     islice,
+    repeat,
 )
 from .._typing import (
     Callable,
@@ -464,7 +465,7 @@ def get_ambiguous_field_text(
     """
     if mapping_level is None:
         return None
-    inverted_level = [(not bit) for bit in BitFlags(mapping_level)]
+    inverted_level = chain(((not bit) for bit in BitFlags(mapping_level)), repeat(True))
     ambiguous_fields = compress(label_names, inverted_level)
     return ', '.join(ambiguous_fields) or None
 
diff --git a/src/toron/graph.py b/src/toron/graph.py
index 96e20c3..878329b 100644
--- a/src/toron/graph.py
+++ b/src/toron/graph.py
@@ -7,9 +7,11 @@ from json import (
     loads as _loads,
 )
 from itertools import (
+    chain,
     compress,
     groupby,
     product,
+    repeat,
 )
 from ._typing import (
     Dict,
@@ -410,7 +412,7 @@ def _get_ambiguous_fields(
     """
     if mapping_level is None:
         return None
-    inverted_level = [(not bit) for bit in BitFlags(mapping_level)]
+    inverted_level = chain(((not bit) for bit in BitFlags(mapping_level)), repeat(True))
     ambiguous_fields = compress(column_names, inverted_level)
     return ', '.join(ambiguous_fields) or None
 
diff --git a/src/toron/space.py b/src/toron/space.py
index 3a1bc50..1d9bcae 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -5,7 +5,7 @@ import os
 from collections import Counter, defaultdict
 from contextlib import contextmanager, nullcontext
 from dataclasses import replace
-from itertools import chain, compress, groupby
+from itertools import chain, compress, groupby, repeat
 from logging import getLogger
 from math import isnan, isinf
 from pprint import pformat
@@ -1767,7 +1767,7 @@ class DataSpace(object):
                             # Build a description of any columns that were
                             # left unspecified in the original mapping.
                             bit_flags = BitFlags(rel.mapping_level)
-                            inverted_bits = [(not bit) for bit in bit_flags]
+                            inverted_bits = chain(((not bit) for bit in bit_flags), repeat(True))
                             ambiguous_labels = compress(label_columns, inverted_bits)
                             ambiguous_desc = ', '.join(ambiguous_labels) or None
                         else:
-- 
2.43.0


From 651f73e64eb778f25f360856c578281da2199969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:47 +0000
Subject: [PATCH 20/43] fix: criteria with an unknown column name can match all
 records

---
 src/toron/dal1/repositories.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index 50ee15c..0ce3f30 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -139,6 +139,19 @@ class IndexRepository(BaseIndexRepository):
         self._cursor.execute(sql)
         return (row for row in self._cursor)
 
+    def _has_unknown_columns(self, criteria: Dict[str, str]) -> bool:
+        """Return True if *criteria* uses columns that do not exist.
+
+        SQLite treats a quoted identifier that matches no column as a
+        string literal so unknown columns must be checked beforehand.
+        """
+        if not criteria:
+            return False
+        self._cursor.execute(f"PRAGMA main.table_info('label_index')")
+        fold = lambda name: name.encode('utf-8').lower()  # ASCII only, like SQLite.
+        existing = {fold(row[1]) for row in self._cursor}
+        return any(fold(k) not in existing for k in criteria.keys())
+
     def filter_by_label(
         self,
         criteria: Dict[str, str],
@@ -149,6 +162,9 @@ class IndexRepository(BaseIndexRepository):
         If *criteria* is an empty dict, no filtering is applied and all
         Index objects are returned.
         """
+        if self._has_unknown_columns(criteria):
+            return iter([])  # <- EXIT! (Unknown columns never match.)
+
         where_predicates = [f'{format_identifier(k)}=?' for k in criteria.keys()]
         if not include_undefined:
             where_predicates.append('index_id != 0')
@@ -171,6 +187,9 @@ class IndexRepository(BaseIndexRepository):
         If *criteria* is an empty dict, no filtering is applied and all
         'index_id' integers are returned.
         """
+        if self._has_unknown_columns(criteria):
+            return iter([])  # <- EXIT! (Unknown columns never match.)
+
         where_predicates = [f'{format_identifier(k)}=?' for k in criteria.keys()]
         if not include_undefined:
             where_predicates.append('index_id != 0')
-- 
2.43.0


From a9d5db2206f1d638cad49857656e78ae06e7075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:27 +0000
Subject: [PATCH 21/43] fix: mapping with one-sided matches is accepted as
 complete

Mapper.is_fully_matched() counted records as matched when the other side of
their mapping row had no match. Such rows do not take part in the mapping, so
incomplete mappings (for example, an exported list that includes unmatched
records) were loaded without --allow-incomplete.
---
 src/toron/mapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/mapper.py b/src/toron/mapper.py
index ed04962..e2ef522 100644
--- a/src/toron/mapper.py
+++ b/src/toron/mapper.py
@@ -381,6 +381,7 @@ class Mapper(object):
                 SELECT COUNT(DISTINCT index_id)
                 FROM node1_matches
                 WHERE index_id != 0
+                    AND run_id IN (SELECT run_id FROM node2_matches)
             """)
             node1_match_count = cur.fetchone()[0]
 
@@ -388,6 +389,7 @@ class Mapper(object):
                 SELECT COUNT(DISTINCT index_id)
                 FROM node2_matches
                 WHERE index_id != 0
+                    AND run_id IN (SELECT run_id FROM node1_matches)
             """)
             node2_match_count = cur.fetchone()[0]
 
-- 
2.43.0


From 6d7a17586dd50e7a7424920746f24459300a6dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:37 +0000
Subject: [PATCH 22/43] fix: exported index with weights cannot be loaded back

The export has a weight of 0.0 for the undefined record, but insert_index()
refused every row that has a weight for this record. A weight of zero is
now accepted (and not stored) for the undefined record.
---
 src/toron/space.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toron/space.py b/src/toron/space.py
index 1d9bcae..2e6f9c3 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -739,6 +739,9 @@ class DataSpace(object):
                     else:
                         weight_value = float(weight_value)
 
+                    if index_id == 0 and weight_value == 0:
+                        continue  # Undefined record has no weight, skip to next.
+
                     try:
                         weight_record = weight_repo.get_by_weight_group_id_and_index_id(
                             weight_group_id=group.id, index_id=index_id
-- 
2.43.0


From f7bf312b02318f10bba37b8b8705b9cc589b3c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:53 +0000
Subject: [PATCH 23/43] fix: index codes with very large ids raise struct.error

Text like '99999999999999999999X1' in any column of a CSV file stopped the
search for the index code column; it is now a badly formatted code.
---
 src/toron/cli/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/toron/cli/common.py b/src/toron/cli/common.py
index 3810729..abb99c8 100644
--- a/src/toron/cli/common.py
+++ b/src/toron/cli/common.py
@@ -12,7 +12,7 @@ from collections import Counter
 from contextlib import contextmanager
 from dataclasses import astuple, dataclass
 from enum import IntEnum
-from struct import Struct
+from struct import Struct, error as StructError
 from .. import bind_file, ToronError
 from .._typing import (
     Any,
@@ -334,11 +334,12 @@ def index_code_to_id(
     try:
         index_id = int(index_id_dec)
         checksum = int(checksum_hex, 16)
-    except ValueError:
+        packed_id = pack_i64_be(index_id)
+    except (ValueError, StructError):
         raise ValueError(f'badly formatted index code: {index_code}')
 
     # Using crc32 to verify IDs and distinguish datasets; not for security.
-    if checksum != crc32(pack_i64_be(index_id) + unique_id_bytes) & 0xffffffff:
+    if checksum != crc32(packed_id + unique_id_bytes) & 0xffffffff:
         raise ValueError(f'checksum mismatch for index code: {index_code}')
 
     return index_id
-- 
2.43.0


From e9adaf2f1e866a654044c4d8b4da9e56d4b98ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:30 +0000
Subject: [PATCH 24/43] fix: legacy node stays inside a transaction after a
 refused operation

A savepoint that is rolled back stays open until it is released. After an
error, an in-memory node was left inside the transaction: operations that
start with BEGIN failed and later changes were never committed.
---
 src/toron/_dal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index 0bffc33..de37f24 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -442,12 +442,18 @@ class DataAccessLayer(object):
                    f"a '_connection' attribute but neither was found")
             raise RuntimeError(msg)
         cur = con.cursor()
+        outermost = method == 'savepoint' and not con.in_transaction
 
         # Yield the cursor object and clean-up when finished.
         try:
             with transaction_cm(cur):
                 yield cur
         finally:
+            if outermost and con.in_transaction:
+                # A savepoint stays open when it is rolled back, make sure
+                # that the transaction ends when it is the outermost one.
+                cur.execute('ROLLBACK')
+
             try:
                 cur.close()
             except sqlite3.ProgrammingError as err:
-- 
2.43.0


From 05fa7e9d4d2017969378ee16d4293df77be87d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:00 +0000
Subject: [PATCH 25/43] fix: weight_records() of the legacy node returns
 weights of other weightings

The join selected the weighting by name but kept the weights of every other
weighting, so records appeared once per weighting with the wrong values.
---
 src/toron/_dal.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index de37f24..fcc741e 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -1491,11 +1491,12 @@ class DataAccessLayer(object):
             sql = """
                 SELECT index_id, weight_value
                 FROM main.node_index t1
-                LEFT JOIN main.weight t2 USING (index_id)
-                LEFT JOIN main.weighting t3 ON (
-                    t2.weighting_id=t3.weighting_id
-                    AND t3.name=:weight_name
-                )
+                LEFT JOIN (
+                    SELECT index_id, weight_value
+                    FROM main.weight
+                    JOIN main.weighting USING (weighting_id)
+                    WHERE name=:weight_name
+                ) t2 USING (index_id)
             """
             if where:
                 where_expr, parameters = self._format_select_params(where)
-- 
2.43.0


From f6302ccaf476c3d028be3998482b2b67d3082a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:15 +0000
Subject: [PATCH 26/43] fix: legacy node cannot disaggregate or translate
 without selectors

Weightings and edges that have no selectors are stored with a NULL value,
reading them failed with a TypeError.
---
 src/toron/_dal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index fcc741e..1204b86 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -2031,7 +2031,7 @@ class DataAccessLayer(object):
             """)
 
             ## TEMPORARY PATCH FOR REFACTORING
-            parse_all = lambda y: [parse_selector(z) for z in y]
+            parse_all = lambda y: [parse_selector(z) for z in (y or [])]
             list_of_selectors = [(x, parse_all(y)) for (x, y) in cur.fetchall()]
             match_weighting_id = GetMatchingKey(list_of_selectors, default=1)  # type: ignore [arg-type]
             weighting_func_name = _schema.get_userfunc(cur, match_weighting_id)
@@ -2182,7 +2182,7 @@ class DataAccessLayer(object):
             """)
 
             ## TEMPORARY PATCH FOR REFACTORING
-            parse_all = lambda y: [parse_selector(z) for z in y]
+            parse_all = lambda y: [parse_selector(z) for z in (y or [])]
             list_of_selectors = [(x, parse_all(y)) for (x, y) in cur.fetchall()]
             match_weighting_id = GetMatchingKey(list_of_selectors, default=1)  # type: ignore [arg-type]
             weighting_func_name = _schema.get_userfunc(cur, match_weighting_id)
@@ -3187,7 +3187,7 @@ class DataAccessLayer(object):
         cursor.execute(sql, (data.unique_id,))
 
         ## TEMPORARY PATCH FOR REFACTORING
-        parse_all = lambda y: [parse_selector(z) for z in y]
+        parse_all = lambda y: [parse_selector(z) for z in (y or [])]
         list_of_selectors = [(x, parse_all(y)) for (x, y) in cursor.fetchall()]
         get_edge_id = GetMatchingKey(list_of_selectors, default=default_edge_id)  # type: ignore [arg-type]
 
-- 
2.43.0


From 0361b3bc1c9a175cfb5d3130a2062fc3e312a5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:54 +0000
Subject: [PATCH 27/43] fix: legacy node cannot remove columns whose names need
 quotes

---
 src/toron/_dal.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index 1204b86..c1c4ed1 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -597,10 +597,11 @@ class DataAccessLayer(object):
         sql_stmnts.extend(_schema.sql_drop_label_column_indexes())
 
         for col in names_to_remove:
+            quoted = _schema.normalize_identifier(col)
             sql_stmnts.extend([
-                f'ALTER TABLE main.node_index DROP COLUMN {col}',
-                f'ALTER TABLE main.location DROP COLUMN {col}',
-                f'ALTER TABLE main.structure DROP COLUMN {col}',
+                f'ALTER TABLE main.node_index DROP COLUMN {quoted}',
+                f'ALTER TABLE main.location DROP COLUMN {quoted}',
+                f'ALTER TABLE main.structure DROP COLUMN {quoted}',
             ])
 
         remaining_cols = [col for col in column_names if col not in names_to_remove]
@@ -1026,7 +1027,7 @@ class DataAccessLayer(object):
         cursor.execute(f'''
             SELECT 1
             FROM main.node_index
-            GROUP BY {", ".join(names_remaining)}
+            GROUP BY {", ".join(_schema.normalize_identifier(x) for x in names_remaining)}
             HAVING COUNT(*) > 1
         ''')
         if cursor.fetchone() is not None:
-- 
2.43.0


From 0cea8e2c9883371e56043d0ecba72d4106af40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:05 +0000
Subject: [PATCH 28/43] fix: legacy node keeps old names in partitions when
 columns are renamed

Adding a column afterwards failed or gave a wrong structure.
---
 src/toron/_dal.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index c1c4ed1..79d0fe6 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -572,15 +572,29 @@ class DataAccessLayer(object):
             ])
         return sql_stmnts
 
+    @classmethod
+    def _rename_partition_definitions(
+        cls, cursor: sqlite3.Cursor, old_columns: Sequence[str]
+    ) -> None:
+        """Update partition definitions after columns were renamed."""
+        new_columns = cls._get_column_names(cursor, 'node_index')[1:]
+        new_names = dict(zip(old_columns, new_columns))
+        definitions = cls._get_data_property(cursor, 'partition_definitions')
+        if definitions:
+            definitions = [[new_names.get(x, x) for x in part] for part in definitions]
+            cls._set_data_property(cursor, 'partition_definitions', definitions)
+
     def rename_index_columns(
         self, mapper: Union[Callable[[str], str], Mapping[str, str]]
     ) -> None:
         # Rename columns using native RENAME COLUMN command (only for
         # SQLite 3.25.0 or newer).
         with self._transaction() as cur:
+            old_columns = self._get_column_names(cur, 'node_index')[1:]
             names, new_names = self._rename_index_columns_apply_mapper(cur, mapper)
             for stmnt in self._rename_index_columns_make_sql(names, new_names):
                 cur.execute(stmnt)
+            self._rename_partition_definitions(cur, old_columns)
 
     @staticmethod
     def _remove_index_columns_make_sql(
@@ -3399,9 +3413,11 @@ class DataAccessLayerPre25(DataAccessLayerPre35):
             con.execute('PRAGMA foreign_keys=OFF')
             cur = con.cursor()
             with _schema.savepoint(cur):
+                old_columns = self._get_column_names(cur, 'node_index')[1:]
                 names, new_names = self._rename_index_columns_apply_mapper(cur, mapper)
                 for stmnt in self._rename_index_columns_make_sql(names, new_names):
                     cur.execute(stmnt)
+                self._rename_partition_definitions(cur, old_columns)
 
                 cur.execute('PRAGMA main.foreign_key_check')
                 one_result = cur.fetchone()
-- 
2.43.0


From 981b15e4997f67cf777719b757d25a5894ca9be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:23 +0000
Subject: [PATCH 29/43] fix: legacy node counts repeated quantities twice when
 columns are removed

Where a location had several quantity records with the same attributes, each
of them was assigned the sum of all merged records.
---
 src/toron/_dal.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index 79d0fe6..5dcdc74 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -983,6 +983,18 @@ class DataAccessLayer(object):
             )
         ''')
 
+        # Discard all but one `quantity` record where a location that is
+        # kept has several records of the same attributes (every one of
+        # them was assigned the summed value).
+        sql_statements.append('''
+            DELETE FROM main.quantity
+            WHERE _location_id IN (SELECT new_location_id
+                                   FROM temp.old_to_new_location_id)
+                  AND quantity_id NOT IN (SELECT MIN(quantity_id)
+                                          FROM main.quantity
+                                          GROUP BY _location_id, attribute_id)
+        ''')
+
         # Discard old `location` records.
         sql_statements.append('''
             DELETE FROM main.location
-- 
2.43.0


From 934cffebc0e27f9690c0e610f77b73e46ecb5d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:13 +0000
Subject: [PATCH 30/43] fix: legacy mapper counts rows several times when their
 matches have no weight

When the weights of all matching records were zero, each match was assigned
the full value of the row (now it is divided evenly).
---
 src/toron/_xmapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/toron/_xmapper.py b/src/toron/_xmapper.py
index 2c2531d..442875a 100644
--- a/src/toron/_xmapper.py
+++ b/src/toron/_xmapper.py
@@ -310,7 +310,8 @@ class xMapper(object):
                 SummedValues AS (
                     SELECT
                         run_id AS summed_run_id,
-                        SUM(weight_value) AS summed_weight_value
+                        SUM(weight_value) AS summed_weight_value,
+                        COUNT(*) AS match_count
                     FROM temp.{side}_matches
                     GROUP BY run_id
                 )
@@ -319,7 +320,9 @@ class xMapper(object):
                 (weight_value / (SELECT summed_weight_value
                                  FROM SummedValues
                                  WHERE run_id=summed_run_id)),
-                1.0
+                (1.0 / (SELECT match_count
+                        FROM SummedValues
+                        WHERE run_id=summed_run_id))
             )
         """)
 
-- 
2.43.0


From dfc9ffd343f2489d9748e5e274dd550384cbc418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:21 +0000
Subject: [PATCH 31/43] fix: use the same case folding to match and to compare
 ignore_case selectors

---
 src/toron/selectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index fe1edbb..1679a15 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -180,7 +180,7 @@ class SimpleSelector(SelectorBase):
 
         # Assign match function to instance.
         if ignore_case:
-            self._match_func = lambda a, b: match_func(a.upper(), b.upper())
+            self._match_func = lambda a, b: match_func(a.casefold(), b.casefold())
         else:
             self._match_func = match_func
 
@@ -263,7 +263,7 @@ def _get_comparison_key(obj: Any) ->  Any:
         val = obj._val
         ignore_case = obj._ignore_case
         if ignore_case and val:
-            val = val.lower()
+            val = val.casefold()  # Same folding that is used for matching.
         return (obj.__class__, (obj._attr, obj._op, val, ignore_case))
 
     if isinstance(obj, SelectorBase):
-- 
2.43.0


From 3ce2128094325fae82bb6f39ef8b27aac8da0514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:21 +0000
Subject: [PATCH 32/43] fix: compound selectors with repeated parts compare
 equal only if their specificity does

---
 src/toron/selectors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index 1679a15..69e0560 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -1,6 +1,7 @@
 """Handling for attribute selectors (using CSS-inspired syntax)."""
 
 from abc import ABC, abstractmethod
+from collections import Counter
 from itertools import groupby
 from json import loads, JSONDecodeError
 from ._typing import (
@@ -257,6 +258,11 @@ def _get_comparison_key(obj: Any) ->  Any:
     """
     if isinstance(obj, SelectorContainer):  # <- Recurses into containers.
         cmp_keys = [_get_comparison_key(x) for x in obj.selector_list]
+        if isinstance(obj, CompoundSelector):
+            # Repeated parts count towards the specificity of a compound
+            # selector (so they must be reflected in the key).
+            counts = Counter(cmp_keys).items()
+            cmp_keys = [(k if n == 1 else (k, n)) for k, n in counts]
         return (obj.__class__, frozenset(cmp_keys))
 
     if isinstance(obj, SimpleSelector):  # <- Terminating case.
-- 
2.43.0


From d48b3d0b163f1a716d97208e169e9a7ca5e25d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:46 +0000
Subject: [PATCH 33/43] fix: a reader cached to the drive leaves its file
 behind if its data source fails

---
 src/toron/reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 22edf0e..e3b40bf 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -125,8 +125,11 @@ class NodeReader(object):
                     cur.execute(sql, (index_id, attr_data_id, quant_value))
 
                 con.commit()
-            except Exception:
+            except BaseException:
                 con.rollback()
+                con.close()
+                if filepath:
+                    os.unlink(filepath)  # Remove temporary database file.
                 raise
 
         # Assign instance attributes.
-- 
2.43.0


From 5704c2d8421ee7afdd2ca6328c16ba17a09b134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:07 +0000
Subject: [PATCH 34/43] fix: the finalizer of a reader keeps the reader and its
 temporary file alive

---
 src/toron/reader.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index e3b40bf..e7e36f4 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -140,8 +140,12 @@ class NodeReader(object):
         self._index_columns = node.index_columns
         self._attr_keys = sorted(attr_keys)
 
-        # Assign `close()` method (gets a callable finalizer object).
-        self.close = weakref.finalize(self, self._finalizer)
+        # Assign `close()` method (gets a callable finalizer object). Its
+        # arguments must not own a reference to `self` (a bound method
+        # does) or the finalizer would keep the instance alive.
+        self.close = weakref.finalize(
+            self, self._finalizer, weakref.ref(self), connection, filepath
+        )
 
     @staticmethod
     def _get_attr_data_id_add_if_missing(
@@ -160,17 +164,23 @@ class NodeReader(object):
         cur.execute(sql, parameters)
         return cast(int, cur.lastrowid)  # Cast because we know it exists (just inserted).
 
-    def _finalizer(self) -> None:
+    @staticmethod
+    def _finalizer(
+        reader_ref: 'weakref.ref[NodeReader]',
+        connection: Optional[sqlite3.Connection],
+        filepath: Optional[str],
+    ) -> None:
         """Close `_data` generator and remove temporary database file."""
-        if self._data:
-            self._data.close()
+        reader = reader_ref()
+        if reader is not None and reader._data:
+            reader._data.close()
 
-        if self._in_memory_connection:
-            self._in_memory_connection.close()
+        if connection:
+            connection.close()
 
-        if self._current_working_path:
+        if filepath:
             with suppress(FileNotFoundError):
-                os.unlink(self._current_working_path)
+                os.unlink(filepath)
 
     @property
     def index_columns(self) -> List[str]:
-- 
2.43.0


From 65a05e01d34b14404d25ee41dd13458d3b48b44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:53 +0000
Subject: [PATCH 35/43] fix: legacy node moves relations to the wrong levels
 when columns are removed

---
 src/toron/_dal.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index 5dcdc74..b3293e7 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -1123,12 +1123,17 @@ class DataAccessLayer(object):
                     ([old_level] for old_level in unrepresentable)
                 )
 
-        # Update mapping_level values.
-        parameters: Iterable[Tuple[BitFlags2, BitFlags2]]
-        parameters = zip(new_mapping_levels, old_mapping_levels)
-        parameters = ((a, b) for (a, b) in parameters if a != b)
+        # Update mapping_level values (by id because a new level can be
+        # equal to the old level of other relations).
+        cursor.execute("""
+            SELECT relation_id, mapping_level
+            FROM main.relation
+            WHERE mapping_level IS NOT NULL
+        """)
+        new_levels = dict(zip(old_mapping_levels, new_mapping_levels))
+        parameters = [(new_levels[level], id) for id, level in cursor]
         cursor.executemany(
-            'UPDATE main.relation SET mapping_level=? WHERE mapping_level=?',
+            'UPDATE main.relation SET mapping_level=? WHERE relation_id=?',
             parameters,
         )
 
-- 
2.43.0


From 608a23b1ae6dc458a6c2a5a387d8bc9099741674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:35 +0000
Subject: [PATCH 36/43] fix: legacy_rename_labels() and legacy_drop_labels()
 let identifiers of deleted records be used again

---
 src/toron/dal1/label_manager.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index bb2cc37..27e6652 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -174,6 +174,12 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
             cursor.execute(
                 'INSERT INTO main.new_label_index SELECT * FROM main.label_index'
             )
+            # Keep the greatest identifier ever used.
+            cursor.execute("""
+                UPDATE main.sqlite_sequence
+                SET seq=(SELECT seq FROM main.sqlite_sequence WHERE name='label_index')
+                WHERE name='new_label_index'
+            """)
             cursor.execute('DROP TABLE main.label_index')
             cursor.execute('ALTER TABLE main.new_label_index RENAME TO label_index')
 
@@ -284,6 +290,12 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
                 SELECT index_id, {', '.join(formatted_columns_to_keep)}
                 FROM main.label_index
             """)
+            # Keep the greatest identifier ever used.
+            cursor.execute("""
+                UPDATE main.sqlite_sequence
+                SET seq=(SELECT seq FROM main.sqlite_sequence WHERE name='label_index')
+                WHERE name='new_label_index'
+            """)
             cursor.execute('DROP TABLE main.label_index')
             cursor.execute('ALTER TABLE main.new_label_index RENAME TO label_index')
 
-- 
2.43.0


From df92898a65ef02d693152d39e4d6b40b14ea6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:35 +0000
Subject: [PATCH 37/43] fix: legacy_rename_labels() leaves old names in the
 display order

---
 src/toron/dal1/label_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index 27e6652..919a119 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -125,6 +125,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
     from toron.data_service import validate_new_index_columns
     from toron.data_service import rename_partition_definitions
+    from toron.data_service import rename_labels_in_display_order
 
     with node._managed_cursor() as cursor:
         if cursor.connection.in_transaction:
@@ -216,6 +217,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
             # Rename partition definitions to match new column names.
             rename_partition_definitions(mapping, label_manager, property_repo)
+            rename_labels_in_display_order(mapping, property_repo)
 
             cursor.execute('COMMIT TRANSACTION')
 
-- 
2.43.0


From ac954d18d9c86387e51b41600b8a096a92909ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:59 +0000
Subject: [PATCH 38/43] fix: legacy_drop_labels() leaves dropped labels in
 partition definitions, structure and display order

---
 src/toron/dal1/label_manager.py | 35 ++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index 919a119..8432a0d 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -242,8 +242,17 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
         msg = f"expected DataSpace with 'DAL1' backend, got {node._dal.backend!r}"
         raise TypeError(msg)
 
-    with node._managed_cursor() as cursor:
+    from toron.data_service import (
+        drop_labels_in_display_order,
+        drop_labels_in_partition_definitions,
+        get_all_partition_definitions,
+        rebuild_structure_table,
+    )
+
+    with node._managed_cursor(n=2) as (cursor, aux_cursor):
         manager = LabelManager(cursor)
+        property_repo = node._dal.PropertyRepository(cursor)
+        structure_repo = node._dal.StructureRepository(cursor)
 
         if cursor.connection.in_transaction:
             msg = 'cannot delete columns inside an existing transaction'
@@ -280,6 +289,11 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
             cursor.execute('BEGIN TRANSACTION')
             schema.drop_schema_constraints(cursor)
 
+            # Remove structure (rows that differ only by a dropped column
+            # would become duplicates).
+            for structure in structure_repo.get_all():
+                structure_repo.delete(structure.id)
+
             # Rebuild 'label_index' table with columns_to_keep.
             cursor.execute(f"""
                 CREATE TABLE main.new_label_index(
@@ -335,6 +349,25 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
             # Check integrity, re-create constraints, and commit transaction.
             schema.verify_foreign_key_check(cursor)
             schema.create_schema_constraints(cursor)
+
+            # Remove dropped columns from display order and definitions
+            # and rebuild structure.
+            drop_labels_in_display_order(columns_to_delete, property_repo)
+            if get_all_partition_definitions(property_repo):
+                drop_labels_in_partition_definitions(
+                    labels=columns_to_delete,
+                    label_manager=manager,
+                    property_repo=property_repo,
+                )
+                rebuild_structure_table(
+                    label_manager=manager,
+                    property_repo=property_repo,
+                    structure_repo=structure_repo,
+                    index_repo=node._dal.IndexRepository(cursor),
+                    aux_index_repo=node._dal.IndexRepository(aux_cursor),
+                    optimizations=node._dal.optimizations,
+                )
+
             cursor.execute('COMMIT TRANSACTION')
 
         except Exception as err:
-- 
2.43.0


From 7ab1e1e4167b6c9c434f535b00bb84dd1fdfbc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:40 +0000
Subject: [PATCH 39/43] fix: legacy node cannot remove columns whose names need
 quotes on SQLite before 3.35

---
 src/toron/_dal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index b3293e7..dd04d3a 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -3297,7 +3297,10 @@ class DataAccessLayerPre35(DataAccessLayer):
         # DROP COLUMN command. In these older versions of SQLite the tables
         # must be rebuilt. This method prepares a sequence of operations to
         # rebuild the table structures.
-        columns_to_keep = [col for col in column_names if col not in names_to_remove]
+        columns_to_keep = [
+            _schema.normalize_identifier(col)
+            for col in column_names if col not in names_to_remove
+        ]
         new_nodeindex_cols = [_schema.sql_column_def_nodeindex_label(col) for col in columns_to_keep]
         new_location_cols = [_schema.sql_column_def_location_label(col) for col in columns_to_keep]
         new_structure_cols = [_schema.sql_column_def_structure_label(col) for col in columns_to_keep]
-- 
2.43.0


From 7f482994f81e1d0629823edf9be6bee4c9b95539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:40 +0000
Subject: [PATCH 40/43] fix: legacy node uses identifiers of removed records
 again on SQLite before 3.35

---
 src/toron/_dal.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index dd04d3a..5f709c1 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -3353,6 +3353,9 @@ class DataAccessLayerPre35(DataAccessLayer):
             con.execute('PRAGMA foreign_keys=OFF')
             cur = con.cursor()
             with _schema.savepoint(cur):
+                cur.execute("SELECT seq FROM main.sqlite_sequence WHERE name='node_index'")
+                greatest_id = cur.fetchone()
+
                 self._remove_index_columns_execute_sql(
                     cur,
                     columns,
@@ -3361,6 +3364,12 @@ class DataAccessLayerPre35(DataAccessLayer):
                     preserve_edges=preserve_edges,
                 )
 
+                # Keep the greatest identifier ever used.
+                cur.execute(
+                    "UPDATE main.sqlite_sequence SET seq=? WHERE name='node_index'",
+                    greatest_id or (0,),
+                )
+
                 cur.execute('PRAGMA main.foreign_key_check')
                 one_result = cur.fetchone()
                 if one_result:
-- 
2.43.0


From adc014bc4009500d535b16afd4e0f8d6f61170e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:31 +0000
Subject: [PATCH 41/43] fix: index command ignores index codes after many rows
 of new records

---
 src/toron/cli/command_index.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/toron/cli/command_index.py b/src/toron/cli/command_index.py
index 2d0ff6d..9927223 100644
--- a/src/toron/cli/command_index.py
+++ b/src/toron/cli/command_index.py
@@ -15,6 +15,7 @@ from .common import (
     cli_bind_file,
     process_backup_option,
     index_id_to_code,
+    is_index_code,
     get_index_code_position,
     remap_index_codes_to_index_ids,
 )
@@ -26,10 +27,27 @@ if TYPE_CHECKING:
 applogger = logging.getLogger('app-toron')
 
 
+def reject_late_index_codes(
+    sample_rows: List[List], remaining: Iterator[List], unique_id_bytes: bytes
+) -> Iterator[List]:
+    """Yield all rows but raise an error if there are index codes among
+    the *remaining* rows (when no column of index codes is found in
+    *sample_rows*, the data is loaded without them).
+    """
+    yield from sample_rows
+    for row in remaining:
+        if any(is_index_code(cell, unique_id_bytes) for cell in row):
+            raise ValueError(
+                f'found an index code but no column of index codes in the '
+                f'first {len(sample_rows)} rows; put rows with codes first'
+            )
+        yield row
+
+
 def read_from_stdin(args: argparse.Namespace, node: 'DataSpace') -> ExitCode:
     """Insert index records read from stdin stream."""
     reader = csv.reader(args.stdin)
-    sample_rows = list(islice(reader, 10))
+    sample_rows = list(islice(reader, 256))
     iterator: Iterator[List] = chain(sample_rows, reader)
 
     unique_id_bytes = uuid.UUID(node.unique_id).bytes
@@ -44,6 +62,7 @@ def read_from_stdin(args: argparse.Namespace, node: 'DataSpace') -> ExitCode:
         if 'index_id' in header:
             msg = f"{e}; found unexpected column 'index_id'"
             raise RuntimeError(msg) from None
+        iterator = reject_late_index_codes(sample_rows, reader, unique_id_bytes)
 
     try:
         node.insert_index(
-- 
2.43.0


From 28db16f12c54bcf0f262aba89d56cf5db651c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:38 +0000
Subject: [PATCH 42/43] fix: mapping command reports unmatched indexes for the
 wrong file

---
 src/toron/cli/command_mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toron/cli/command_mapping.py b/src/toron/cli/command_mapping.py
index 382f160..8e6e1f8 100644
--- a/src/toron/cli/command_mapping.py
+++ b/src/toron/cli/command_mapping.py
@@ -560,7 +560,7 @@ def write_to_stdout(
                 else:
                     src_labels = src_label_no_values
                     src_index_code = None
-                    counter['unmatched_source_index'] += 1
+                    counter['unmatched_target_index'] += 1
 
                 # Target labels come from the same node that holds the
                 # mapping records (unlike source labels). So it's not
@@ -571,7 +571,7 @@ def write_to_stdout(
                 else:
                     trg_labels = trg_label_no_values
                     trg_index_code = None
-                    counter['unmatched_target_index'] += 1
+                    counter['unmatched_source_index'] += 1
 
                 writer.writerow(chain(
                     (src_index_code,),
-- 
2.43.0


From cab7aa8eb53d9bcdf66338cc494d36d288d8b5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:51 +0000
Subject: [PATCH 43/43] fix: translate uses links that do not cover the index
 of the source

---
 src/toron/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toron/graph.py b/src/toron/graph.py
index 878329b..44e653c 100644
--- a/src/toron/graph.py
+++ b/src/toron/graph.py
@@ -660,7 +660,10 @@ def _translate(
             raise RuntimeError(msg)
 
         # Build dict of index id values and attribute selector objects.
-        links = [x for x in links if x.is_locally_complete and x.selectors]
+        links = [x for x in links
+                     if x.other_index_hash == quantity_iterator.index_hash
+                     and x.is_locally_complete
+                     and x.selectors]
         func = lambda selectors: [parse_selector(s) for s in selectors]
         selector_dict = {x.id: func(x.selectors) for x in links}
 
-- 
2.43.0

